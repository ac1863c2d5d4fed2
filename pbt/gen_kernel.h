#pragma once
#include "oracle.h"
#include "convolve.h"
namespace pbt {
inline uint32_t gen_kwidth(Source& s, uint32_t dim, uint32_t limit) {
    uint32_t w;
    if( s.draw(500) == 499 ) limit *= limit <= 17 ? 3 : 8;      // now and then far wider than usual
    switch( s.draw(6) ) {
        case 0: w = 1+(uint32_t)s.draw(5); break;
        case 1: case 2: w = 1+(uint32_t)s.draw(15); break;
        case 3: w = 3+2*(uint32_t)s.draw(6); break;                       // the specially treated widths
        case 4: { int64_t k = (int64_t)dim+s.range(-2,3); w = k < 1 ? 1 : (uint32_t)k; } break;   // around the image size
        default: w = 1+(uint32_t)s.draw(limit); break;
    }
    return std::max<uint32_t>(1,std::min(w,limit));
}
// rarely: a kernel far wider than usual in an image which is longer still (square kernels: both ways)
inline bool gen_wide(Source& s, bool square, bool horizontal, uint32_t& w, uint32_t& h, uint32_t& kw) {
    if( s.draw(400) != 399 ) return false;
    if( square ) { w = 20+(uint32_t)s.draw(50); h = 20+(uint32_t)s.draw(50); kw = 17+(uint32_t)s.draw(std::min(w,h)-15); return true; }
    uint32_t a = 60+(uint32_t)s.draw(500), b = 1+(uint32_t)s.draw(6); w = horizontal ? a : b; h = horizontal ? b : a; kw = 40+(uint32_t)s.draw(a-38); return true;
}
inline uint32_t gen_korigin(Source& s, uint32_t w) { return s.draw(3) != 2 ? w/2 : (uint32_t)s.draw(w); }

// signed weights with sum |w| <= budget for integers
template<class K> Ker gen_signed_kernel(Source& s, uint32_t w, uint32_t off, bool square, int64_t budget) {
    Ker k; k.w = w; k.off = off; uint32_t n = square ? w*w : w;
    Stream st(s.draw(1u<<16));
    int mode = (int)s.draw(6);
    k.v.assign(n,0);
    if( std::is_integral<K>::value ) {
        int64_t each = std::max<int64_t>(1,budget/n); int64_t left = budget;
        for( uint32_t i = 0; i < n; i++ ) {
            int64_t v;
            switch( mode ) {
                case 0: v = 1; break;
                case 1: v = (int64_t)i%5-2; break;
                case 2: v = (int64_t)st.below(2*each+1)-each; break;
                case 3: v = st.below(4) ? 0 : (int64_t)st.below(2*each+1)-each; break;
                case 4: v = (int64_t)st.below(each+1); break;
                default: v = i == n-1 || i == 0 ? std::min<int64_t>(each*2,left/2) : 0; break;
            }
            if( std::llabs(v) > left ) v = 0;
            left -= std::llabs(v); k.v[i] = (double)v;
        }
    } else for( uint32_t i = 0; i < n; i++ ) {
        double v;
        switch( mode ) {
            case 0: v = 1; break;
            case 1: v = (double)((int)i%5-2); break;
            case 2: v = ((double)st.below(2001)-1000)/64.0; break;
            case 3: v = st.below(4) ? 0 : ((double)st.below(2001)-1000)/7.0; break;
            case 4: v = (double)st.below(100000)/100000.0; break;
            default: v = i == n-1 || i == 0 ? 1 : 0; break;
        }
        k.v[i] = (double)(K)v;
    }
    return k;
}
// strictly positive weights
template<class K> Ker gen_positive_kernel(Source& s, uint32_t w, uint32_t off, int64_t budget) {
    Ker k; k.w = w; k.off = off; k.v.assign(w,1);
    Stream st(s.draw(1u<<16));
    int mode = (int)s.draw(5);
    int64_t each = std::max<int64_t>(1,budget/w);
    for( uint32_t i = 0; i < w; i++ ) {
        if( std::is_integral<K>::value ) {
            switch( mode ) {
                case 0: k.v[i] = 1; break;
                case 1: k.v[i] = (double)(1+i%5); break;
                case 2: k.v[i] = (double)(1+st.below(std::min<int64_t>(each,20))); break;
                case 3: k.v[i] = (double)(1+st.below(std::min<int64_t>(each,1000))); break;
                default: k.v[i] = (double)(1+st.below(each)); break;
            }
        } else {
            switch( mode ) {
                case 0: k.v[i] = 1; break;
                case 1: k.v[i] = (double)(1+i%5); break;
                case 2: k.v[i] = (double)(K)(1.0/w); break;
                case 3: k.v[i] = (double)(K)((1+st.below(10000))/777.0); break;
                default: k.v[i] = (double)(K)((1+st.below(10000))/1e6); break;
            }
        }
    }
    if( !std::is_integral<K>::value && mode == 4 ) { double t = 0; for( double v : k.v ) t += v; for( double& v : k.v ) v = (double)(K)(v/t); }
    return k;
}
template<class K> void fill_kernel(boofcv::KernelBase<K>& d, const Ker& k, bool square) {
    d.reshape(k.w,k.off);
    for( uint32_t i = 0; i < (square ? k.w*k.w : k.w); i++ ) d.data[i] = (K)k.v[i];
}
template<class K> bool kernel_intact(const boofcv::KernelBase<K>& d, const Ker& k, bool square) {
    if( d.width != k.w || d.offset != k.off || d.data.size != (square ? k.w*k.w : k.w) ) return false;
    for( uint32_t i = 0; i < d.data.size; i++ ) if( !((double)d.data[i] == k.v[i]) ) return false;
    return true;
}
template<class T> std::shared_ptr<boofcv::ImageBorder<T>> make_border(int b, T value) {
    switch( b ) {
        case B_EXTENDED: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::EXTENDED);
        case B_REFLECT: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::REFLECT);
        case B_WRAP: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::WRAP);
        case B_ZERO: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::ZERO);
        default: return boofcv::FactoryImageBorder::value_SB<T>(value);
    }
}
} // namespace pbt
