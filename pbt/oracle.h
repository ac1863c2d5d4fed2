// Reference implementations written from the property statements, in double / int64 on plain model images
#pragma once
#include "common.h"

namespace pbt {

enum Border { B_EXTENDED, B_REFLECT, B_WRAP, B_ZERO, B_VALUE };
inline const char* bname(int b) { static const char* n[] = {"extended","reflect","wrap","zero","value"}; return n[b]; }

// index inside [0,n) or -1 if the value rule applies
inline int64_t border_index(int b, int64_t x, int64_t n) {
    if( x >= 0 && x < n ) return x;
    switch( b ) {
        case B_EXTENDED: return x < 0 ? 0 : n-1;
        case B_WRAP: { int64_t r = x % n; return r < 0 ? r+n : r; }
        case B_REFLECT: { if( n == 1 ) return 0; int64_t p = 2*(n-1); int64_t a = (x < 0 ? -x : x) % p; return a < n ? a : p-a; }
        default: return -1;
    }
}
template<class T> double border_get(const Mat<T>& m, int b, T value, int64_t x, int64_t y) {
    if( x >= 0 && y >= 0 && x < m.w && y < m.h ) return (double)m.at((uint32_t)x,(uint32_t)y);
    if( b == B_ZERO ) return 0;
    if( b == B_VALUE ) return (double)value;
    return (double)m.at((uint32_t)border_index(b,x,m.w),(uint32_t)border_index(b,y,m.h));
}
struct Ker { uint32_t w = 1, off = 0; std::vector<double> v; };
inline std::string show(const Ker& k) { std::ostringstream o; o << "width " << k.w << " origin " << k.off << " ["; for( size_t i = 0; i < k.v.size() && i < 60; i++ ) o << (i?" ":"") << k.v[i]; if( k.v.size() > 60 ) o << " ..."; o << "]"; return o.str(); }

// rounding error allowed for a float sum of n products whose absolute values add up to mag
inline double ftol(double n, double mag) { return 1.25e-7*(n+4)*mag + 1e-36; }

// dir 0 horizontal, 1 vertical, 2 square
template<class T> void conv_border(const Mat<T>& m, const Ker& k, int dir, int b, T value, Mat<double>& out, Mat<double>& mag) {
    out = Mat<double>(m.w,m.h); mag = out;
    for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) {
        double s = 0, a = 0;
        if( dir == 2 ) {
            for( uint32_t i = 0; i < k.w; i++ ) for( uint32_t j = 0; j < k.w; j++ ) {
                double p = k.v[i*k.w+j]*border_get(m,b,value,(int64_t)x+j-k.off,(int64_t)y+i-k.off); s += p; a += std::fabs(p);
            }
        } else for( uint32_t i = 0; i < k.w; i++ ) {
            int64_t d = (int64_t)i-k.off;
            double p = k.v[i]*border_get(m,b,value,dir == 0 ? x+d : (int64_t)x,dir == 0 ? (int64_t)y : y+d); s += p; a += std::fabs(p);
        }
        out.at(x,y) = s; mag.at(x,y) = a;
    }
}
// one normalized pass; integers are rounded to nearest as (total + weight/2)/weight
template<class T> void conv_norm_pass(const Mat<T>& m, const Ker& k, bool horizontal, Mat<double>& out, Mat<double>& mag) {
    out = Mat<double>(m.w,m.h); mag = out;
    for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) {
        double s = 0, wsum = 0, a = 0; 
        for( uint32_t i = 0; i < k.w; i++ ) {
            int64_t d = (int64_t)i-k.off, xx = horizontal ? x+d : x, yy = horizontal ? y : y+d;
            if( xx < 0 || yy < 0 || xx >= m.w || yy >= m.h ) continue;
            double v = (double)m.at((uint32_t)xx,(uint32_t)yy);
            s += k.v[i]*v; wsum += k.v[i]; a += std::fabs(k.v[i]*v);
        }
        if( std::is_integral<T>::value ) { int64_t S = (int64_t)s, W = (int64_t)wsum; out.at(x,y) = (double)((S+W/2)/W); mag.at(x,y) = 0; }
        else { out.at(x,y) = s/wsum; mag.at(x,y) = a/wsum; }
    }
}
template<class T> Mat<T> cast(const Mat<double>& m) { Mat<T> o(m.w,m.h); for( size_t i = 0; i < m.v.size(); i++ ) o.v[i] = (T)m.v[i]; return o; }
inline Mat<double> todouble(const Mat<double>& m) { return m; }
template<class T> Mat<double> widen(const Mat<T>& m) { Mat<double> o(m.w,m.h); for( size_t i = 0; i < m.v.size(); i++ ) o.v[i] = (double)m.v[i]; return o; }

// mean over a window of radius r clipped to the image, one direction
template<class T> void mean_pass(const Mat<T>& m, uint32_t r, bool horizontal, Mat<double>& out, Mat<double>& mag) {
    // running totals along each line, so that huge radii stay cheap
    out = Mat<double>(m.w,m.h); mag = out;
    const uint32_t n = horizontal ? m.w : m.h, lines = horizontal ? m.h : m.w;
    std::vector<long double> P(n+1), A(n+1);
    for( uint32_t l = 0; l < lines; l++ ) {
        P[0] = A[0] = 0;
        for( uint32_t i = 0; i < n; i++ ) { long double v = (long double)(horizontal ? m.at(i,l) : m.at(l,i)); P[i+1] = P[i]+v; A[i+1] = A[i]+std::fabs(v); }
        for( uint32_t i = 0; i < n; i++ ) {
            int64_t lo = std::max<int64_t>(0,(int64_t)i-(int64_t)r), hi = std::min<int64_t>((int64_t)n-1,(int64_t)i+(int64_t)r), cnt = hi-lo+1;
            long double s = P[hi+1]-P[lo]; double a = (double)(A[hi+1]-A[lo]);
            double& o = horizontal ? out.at(i,l) : out.at(l,i); double& g = horizontal ? mag.at(i,l) : mag.at(l,i);
            if( std::is_integral<T>::value ) { o = (double)(((int64_t)s+cnt/2)/cnt); g = 0; } else { o = (double)(s/cnt); g = a/cnt; }
        }
    }
}
} // namespace pbt
