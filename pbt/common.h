// Generators, image layouts and small helpers shared by the harnesses
#pragma once
#include "engine.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <type_traits>
#include <limits>
#include <algorithm>
#include <functional>
#include "base_types.h"
#include "image_types.h"

namespace pbt {
using boofcv::U8; using boofcv::U16; using boofcv::S16; using boofcv::S32; using boofcv::S64; using boofcv::F32; using boofcv::F64;
using boofcv::Gray;

template<class T> const char* tname();
template<> inline const char* tname<U8>() { return "U8"; }
template<> inline const char* tname<U16>() { return "U16"; }
template<> inline const char* tname<S16>() { return "S16"; }
template<> inline const char* tname<S32>() { return "S32"; }
template<> inline const char* tname<S64>() { return "S64"; }
template<> inline const char* tname<F32>() { return "F32"; }
template<> inline const char* tname<F64>() { return "F64"; }

// Plain model of an image
template<class T> struct Mat {
    uint32_t w = 0, h = 0;
    std::vector<T> v;
    Mat() {}
    Mat(uint32_t w, uint32_t h, T x = T()) : w(w), h(h), v((size_t)w*h,x) {}
    T& at(uint32_t x, uint32_t y) { return v[(size_t)y*w+x]; }
    const T& at(uint32_t x, uint32_t y) const { return v[(size_t)y*w+x]; }
    bool operator==(const Mat& o) const { return w == o.w && h == o.h && (v.empty() || memcmp(v.data(),o.v.data(),v.size()*sizeof(T)) == 0); }
};
template<class T> std::string show(const Mat<T>& m, size_t limit = 200) {
    std::ostringstream o; o << m.w << "x" << m.h << " [";
    for( size_t i = 0; i < m.v.size() && i < limit; i++ ) { if( i ) o << (i%m.w==0?" | ":" "); o << +m.v[i]; }
    if( m.v.size() > limit ) o << " ...";
    o << "]"; return o.str();
}

// Image side length: mostly small, sometimes larger. 1 is simplest
inline uint32_t gen_dim(Source& s, uint32_t big = 60) {
    switch( s.draw(8) ) {
        case 0: case 1: return 1+(uint32_t)s.draw(5);
        case 2: case 3: case 4: return 1+(uint32_t)s.draw(14);
        case 5: case 6: return 1+(uint32_t)s.draw(30);
        default: return 1+(uint32_t)s.draw(big);
    }
}
// both sides; now and then a long thin image, and rarely a large one: sides next to 256, several hundred pixels each
// way, or one side beyond 65535 (area in pixels at most "area")
inline void gen_shape(Source& s, uint32_t& w, uint32_t& h, uint32_t big = 60, uint32_t longest = 700, uint32_t area = 90000) {
    uint64_t k = s.draw(5000);
    if( k >= 4994 && area ) {
        const uint32_t side = (uint32_t)std::min<double>(std::sqrt((double)area),300);
        if( k >= 4998 && area >= 70000 ) { w = 65530+(uint32_t)s.draw(20); h = 1; if( k == 4999 ) std::swap(w,h); return; }
        if( k >= 4996 ) { w = 254+(uint32_t)s.draw(5); h = 1+(uint32_t)s.draw(std::max<uint32_t>(1,std::min<uint32_t>(300,area/w))); if( s.flag() ) std::swap(w,h); return; }
        w = side/2+(uint32_t)s.draw(side); h = std::max<uint32_t>(1,std::min<uint32_t>(area/w,side/2+(uint32_t)s.draw(side))); return;
    }
    if( k%25 == 24 ) {
        uint32_t a = 1+(uint32_t)s.draw(longest), b = 1+(uint32_t)s.draw(4);
        if( s.flag() ) { w = a; h = b; } else { w = b; h = a; }
        return;
    }
    w = gen_dim(s,big); h = gen_dim(s,big);
}
template<class T> T expand(Stream& st, int64_t lo, int64_t hi) { return (T)(lo + (int64_t)st.below((uint64_t)(hi-lo)+1)); }

// Pixels with values in [lo,hi]. For floats "frac" adds a fractional part
template<class T> Mat<T> gen_mat(Source& s, uint32_t w, uint32_t h, int64_t lo, int64_t hi, bool frac = true) {
    Mat<T> m(w,h);
    const uint64_t n = (uint64_t)(hi-lo)+1;
    const bool fl = std::is_floating_point<T>::value && frac;
    auto val = [&](uint64_t k) { return (T)(lo+(int64_t)k); };
    int mode = (int)s.draw(8);
    if( mode <= 1 && m.v.size() <= 80 ) {               // explicit pixels
        for( auto& p : m.v ) { p = val(s.draw(n)); }
        return m;
    }
    Stream st(s.draw(1u<<20));
    uint64_t a = s.draw(n), b = s.draw(n);
    switch( mode ) {
        case 2: for( auto& p : m.v ) p = val(a); break;                              // constant
        case 3: for( auto& p : m.v ) p = val(st.below(2) ? a : b); break;            // two levels
        case 4: for( auto& p : m.v ) p = val(st.below(2) ? 0 : n-1); break;          // extremes
        case 5: { uint64_t q = 1+b%std::min<uint64_t>(n,9); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = val((a+q*x+(q*7/3)*y)%n); } break;   // gradient
        case 6: { for( auto& p : m.v ) p = val(a); for( int i = 0; i < 3 && m.v.size(); i++ ) m.v[st.below(m.v.size())] = val(st.below(n)); } break; // impulses
        default: for( auto& p : m.v ) p = val(st.below(n)); break;                   // noise
    }
    if( fl && s.flag() ) for( auto& p : m.v ) p += (T)((double)st.below(1024)/1024.0);
    return m;
}

// value ranges used by default for each pixel type
template<class T> void full_range(Source& s, int64_t& lo, int64_t& hi) {
    if( std::is_same<T,U8>::value ) { lo = 0; hi = 255; }
    else if( std::is_same<T,U16>::value ) { lo = 0; hi = s.flag() ? 65535 : 300; }
    else if( std::is_same<T,S16>::value ) { int k = (int)s.draw(3); lo = k == 0 ? 0 : k == 1 ? -300 : -32768; hi = k == 0 ? 300 : k == 1 ? -1 : 32767; }
    else if( std::is_same<T,S32>::value || std::is_same<T,S64>::value ) { int k = (int)s.draw(3); lo = k == 0 ? 0 : k == 1 ? -1000 : -100000; hi = k == 0 ? 1000 : k == 1 ? -3 : 100000; }
    else { int k = (int)s.draw(3); lo = k == 0 ? 0 : k == 1 ? -200 : -1000; hi = k == 0 ? 255 : k == 1 ? -1 : 1000; }
}

enum Layout { WHOLE, RAWVIEW, SUBIMAGE, SHRUNK, NLAYOUT };
inline const char* lname(int l) { static const char* n[] = {"whole","raw-view","sub-image","reshaped"}; return n[l]; }

// An image with known content in some memory layout, and a snapshot of everything around it
template<class T> class View {
public:
    Gray<T>* img = nullptr;
    int layout = WHOLE;
    View() {}
    View(const View&) = delete;
    View& operator=(const View&) = delete;
    ~View() { destroy(); }

    // content placed in the given layout; margins filled with noise from "fill"
    void build(const Mat<T>& m, int layout_, uint32_t l, uint32_t t, uint32_t r, uint32_t b, uint64_t fill) {
        destroy();
        layout = layout_; mat_w = m.w; mat_h = m.h;
        Stream st(fill);
        if( layout == WHOLE ) {
            img = new Gray<T>(m.w,m.h);
        } else if( layout == SHRUNK ) {
            img = new Gray<T>(m.w+l+1,m.h+t+1);
            for( uint32_t i = 0; i < img->data_length; i++ ) img->data[i] = noise(st);
            img->reshape(m.w,m.h);
        } else if( layout == RAWVIEW ) {
            uint32_t stride = m.w+l+r; uint32_t off = l+t*stride;
            uint32_t len = m.h ? off+(m.h-1)*stride+m.w+(b ? b : 0) : off;
            raw = new T[len]; raw_len = len;
            for( uint32_t i = 0; i < len; i++ ) raw[i] = noise(st);
            img = new Gray<T>(raw,len,m.w,m.h,off,stride);
        } else {
            parent = new Gray<T>(m.w+l+r,m.h+t+b);
            for( uint32_t i = 0; i < parent->data_length; i++ ) parent->data[i] = noise(st);
            img = new Gray<T>(parent->makeSubimage(l,t,l+m.w,t+m.h));
        }
        for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) img->data[img->offset+y*img->stride+x] = m.at(x,y);
        take();
    }
    void build(Source& s, const Mat<T>& m, bool allow_shrunk = true) {
        int lay = (int)s.draw(NLAYOUT); if( lay == SHRUNK && !allow_shrunk ) lay = WHOLE;
        uint32_t l = 0,t = 0,r = 0,b = 0; uint64_t f = 0;
        if( lay != WHOLE ) { l = (uint32_t)s.draw(4); t = (uint32_t)s.draw(4); r = (uint32_t)s.draw(4); b = (uint32_t)s.draw(4); f = s.draw(1000); }
        build(m,lay,l,t,r,b,f);
    }
    // output image of the given shape (or another one when the operation reshapes it) holding garbage
    void build_output(Source& s, uint32_t w, uint32_t h, bool may_reshape) {
        uint64_t seed = s.draw(1000);
        if( may_reshape && s.chance(25) ) { w = (uint32_t)s.draw(2*w+3); h = (uint32_t)s.draw(2*h+3); Mat<T> m(w,h); Stream st(seed); for( auto& p : m.v ) p = noise(st); build(m,s.flag() ? SHRUNK : WHOLE,1,1,0,0,seed); return; }
        Mat<T> m(w,h); Stream st(seed); for( auto& p : m.v ) p = noise(st);
        build(s,m);
    }
    Mat<T> read() const {
        Mat<T> m(img->width,img->height);
        for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) m.at(x,y) = img->data[img->offset+y*img->stride+x];
        return m;
    }
    // nothing at all changed
    bool untouched() const {
        if( img->data != s_data || img->width != s_w || img->height != s_h || img->offset != s_off || img->stride != s_stride || img->subimage != s_sub || img->data_length != s_len ) return false;
        return snap.empty() || memcmp(snap.data(),img->data,snap.size()*sizeof(T)) == 0;
    }
    // for a view: its geometry and everything outside its window is unchanged
    bool surroundings_intact() const {
        if( layout == WHOLE || layout == SHRUNK ) return img->subimage == s_sub;
        if( img->data != s_data || img->width != s_w || img->height != s_h || img->offset != s_off || img->stride != s_stride || img->subimage != s_sub ) return false;
        for( size_t i = 0; i < snap.size(); i++ ) {
            int64_t k = (int64_t)i-img->offset;
            bool inside = k >= 0 && img->stride && (uint64_t)k/img->stride < img->height && (uint64_t)k%img->stride < img->width;
            if( !inside && memcmp(&snap[i],&img->data[i],sizeof(T)) != 0 ) return false;
        }
        return true;
    }
    void take() {
        s_data = img->data; s_w = img->width; s_h = img->height; s_off = img->offset; s_stride = img->stride; s_sub = img->subimage; s_len = img->data_length;
        size_t n = layout == RAWVIEW ? raw_len : img->data_length;
        snap.assign(img->data,img->data+n);
    }
    std::string text() const { std::ostringstream o; o << lname(layout) << "(" << img->width << "x" << img->height << " off " << img->offset << " stride " << img->stride << ")"; return o.str(); }
    static T noise(Stream& st) { return std::is_floating_point<T>::value ? (T)((double)st.below(200000)/100.0-1000.0) : (T)st.next(); }
private:
    Gray<T>* parent = nullptr; T* raw = nullptr; uint32_t raw_len = 0; uint32_t mat_w = 0, mat_h = 0;
    std::vector<T> snap; T* s_data = nullptr; uint32_t s_w = 0,s_h = 0,s_off = 0,s_stride = 0,s_len = 0; bool s_sub = false;
    void destroy() { delete img; img = nullptr; delete parent; parent = nullptr; delete [] raw; raw = nullptr; }
};

template<class T> void expect_same(Ctx& c, const Mat<T>& expected, const Mat<T>& found, const char* what) {
    if( expected.w != found.w || expected.h != found.h ) c.fail(what,": shape ",found.w,"x",found.h," expected ",expected.w,"x",expected.h);
    for( uint32_t y = 0; y < expected.h; y++ ) for( uint32_t x = 0; x < expected.w; x++ )
        if( memcmp(&expected.at(x,y),&found.at(x,y),sizeof(T)) != 0 && !(expected.at(x,y) == found.at(x,y)) )
            c.fail(what,": pixel (",x,",",y,") of ",expected.w,"x",expected.h," is ",+found.at(x,y)," expected ",+expected.at(x,y));
}
// per pixel tolerance
template<class T> void expect_near(Ctx& c, const Mat<double>& expected, const Mat<double>& tol, const Mat<T>& found, const char* what) {
    if( expected.w != found.w || expected.h != found.h ) c.fail(what,": shape ",found.w,"x",found.h," expected ",expected.w,"x",expected.h);
    for( uint32_t y = 0; y < expected.h; y++ ) for( uint32_t x = 0; x < expected.w; x++ )
        if( !(std::fabs((double)found.at(x,y)-expected.at(x,y)) <= tol.at(x,y)) )
            c.fail(what,": pixel (",x,",",y,") of ",expected.w,"x",expected.h," is ",+found.at(x,y)," expected ",expected.at(x,y)," +- ",tol.at(x,y));
}
template<class T> Mat<T> transpose(const Mat<T>& m) { Mat<T> o(m.h,m.w); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) o.at(y,x) = m.at(x,y); return o; }

// runs f and returns true when it throws a std::exception (or anything else derived from it)
template<class F> bool throws(F f) { try { f(); } catch( const std::exception& ) { return true; } return false; }

} // namespace pbt
