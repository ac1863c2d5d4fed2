// Binary images with structure (nesting, spirals, necks, noise) and a flood fill reference
#pragma once
#include "common.h"
#include "contour.h"
namespace pbt {
inline void rect(Mat<U8>& m, int64_t x0, int64_t y0, int64_t x1, int64_t y1, U8 v) {
    for( int64_t y = std::max<int64_t>(y0,0); y <= y1 && y < m.h; y++ ) for( int64_t x = std::max<int64_t>(x0,0); x <= x1 && x < m.w; x++ ) m.at((uint32_t)x,(uint32_t)y) = v;
}
inline Mat<U8> gen_binary(Source& s, uint32_t big = 40, uint32_t longest = 400, uint32_t area = 60000) {
    uint32_t w,h;
    if( s.draw(4) == 0 ) { w = 1+(uint32_t)s.draw(5); h = 1+(uint32_t)s.draw(5); } else gen_shape(s,w,h,big,longest,area);
    Mat<U8> m(w,h);
    int mode = (int)s.draw(10);
    if( mode <= 2 && (size_t)w*h <= 64 ) { for( auto& p : m.v ) p = (U8)s.draw(2); return m; }
    Stream st(s.draw(1u<<20));
    uint32_t k = (uint32_t)s.draw(100);
    switch( mode ) {
        case 0: for( auto& p : m.v ) p = 1; for( uint32_t i = 0; i < k%12; i++ ) m.v[st.below(m.v.size())] = 0; break;   // holes in a full image
        case 1: for( uint32_t i = 0; i < 1+k%12; i++ ) m.v[st.below(m.v.size())] = 1; break;                          // isolated points
        case 2: for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = (k&1) ? (x+y)&1 : (x%(2+k%3) && y%(2+k%4)); break;  // checkerboard, grid
        case 3: case 4: for( auto& p : m.v ) p = st.below(100) < k; break;                                              // noise of any density
        case 5: { for( auto& p : m.v ) p = st.below(100) < 30+k%40;                                                  // smoothed noise
            Mat<U8> o = m; for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) { int n = 0, t = 0; for( int dy = -1; dy <= 1; dy++ ) for( int dx = -1; dx <= 1; dx++ ) { int64_t a = (int64_t)x+dx,b = (int64_t)y+dy; if( a >= 0 && b >= 0 && a < w && b < h ) { n += m.at((uint32_t)a,(uint32_t)b); t++; } } o.at(x,y) = 2*n > t; }
            m = o; break; }
        case 6: { int64_t off = (int64_t)(k%4)-1; U8 v = 1; int64_t g = 1+k%3; for( int64_t i = off; i < 400; i += g ) { if( i > (int64_t)w-1-i || i > (int64_t)h-1-i ) break; rect(m,i,i,(int64_t)w-1-i,(int64_t)h-1-i,v); v = !v; }  // nested rings
            for( uint32_t i = 0; i < k%5; i++ ) m.v[st.below(m.v.size())] ^= 1; break; }
        case 7: { for( uint32_t i = 0; i < 2+k%14; i++ ) { int64_t a = (int64_t)st.below(w), b = (int64_t)st.below(h); rect(m,a,b,a+(int64_t)st.below(2+w/2),b+(int64_t)st.below(2+h/2),(U8)((i+k)%3 != 0)); } break; } // rectangles drawn and erased
        case 8: { // spiral or maze like lines
            int64_t x = (int64_t)st.below(w), y = (int64_t)st.below(h); int d = 0, len = 1+(int)(k%3);
            for( int i = 0; i < 60+(int)((w+h)/4); i++ ) { int dx = d == 0 ? 1 : d == 2 ? -1 : 0, dy = d == 1 ? 1 : d == 3 ? -1 : 0; for( int j = 0; j < len; j++ ) { if( x >= 0 && y >= 0 && x < w && y < h ) m.at((uint32_t)x,(uint32_t)y) = 1; x += dx; y += dy; } d = (d+1)%4; if( i%2 ) len += 1+(int)(k%2); }
            break; }
        default: { // random walk of strokes with diagonal steps
            for( uint32_t q = 0; q < 1+k%4; q++ ) { int64_t x = (int64_t)st.below(w), y = (int64_t)st.below(h); for( int i = 0; i < 80+(int)((size_t)w*h/8); i++ ) { if( x >= 0 && y >= 0 && x < w && y < h ) m.at((uint32_t)x,(uint32_t)y) = 1; x += (int64_t)st.below(3)-1; y += (int64_t)st.below(3)-1; } } break; }
    }
    if( s.draw(8) == 7 ) for( auto& p : m.v ) p = !p;
    return m;
}
// one very large image: more than 65535 blobs or holes, or a contour of many thousand points
inline Mat<U8> gen_huge_binary(Source& s) {
    const int mode = (int)s.draw(4); const uint32_t w = 515+(uint32_t)s.draw(80), h = 515+(uint32_t)s.draw(40); Mat<U8> m(w,h); const uint32_t k = (uint32_t)s.draw(64);
    for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) switch( mode ) {
        case 0: m.at(x,y) = !((x+k)&1) && !((y+k/2)&1); break;                          // isolated pixels
        case 1: m.at(x,y) = ((x+k)&1) || ((y+k/2)&1); break;                            // grid of holes
        case 2: m.at(x,y) = x == 0 || !(y&1) ; break;                                   // comb
        default: m.at(x,y) = (x+y+k)&1; }                                               // checkerboard
    Stream st(k); for( uint32_t i = 0; i < k; i++ ) m.v[st.below(m.v.size())] ^= 1;
    for( uint64_t i = s.draw(12); i; i-- ) {   // hollow squares, more of them towards the end of the image
        int64_t x = (int64_t)st.below(w-12), y = st.below(2) ? h-6-(int64_t)st.below(30) : (int64_t)st.below(h), r = 2+(int64_t)st.below(6);
        rect(m,x-1,y-1,x+r+1,y+r+1,0); rect(m,x,y,x+r,y+r,1); rect(m,x+1,y+1,x+r-1,y+r-1,0);
    }
    return m;
}
inline std::string picture(const Mat<U8>& m) {
    if( m.v.size() > 2500 ) return show(m);
    std::ostringstream o; o << m.w << "x" << m.h << "\n"; for( uint32_t y = 0; y < m.h; y++ ) { for( uint32_t x = 0; x < m.w; x++ ) o << (m.at(x,y) ? '#' : '.'); o << "\n"; } return o.str();
}
// components of pixels with value v, numbered from 1 in raster order of the first pixel; 0 elsewhere
inline Mat<S32> components(const Mat<U8>& m, U8 v, bool eight, uint32_t& n) {
    Mat<S32> o(m.w,m.h); n = 0; std::vector<uint32_t> q;
    for( uint32_t i = 0; i < m.v.size(); i++ ) {
        if( m.v[i] != v || o.v[i] ) continue;
        o.v[i] = (S32)++n; q.assign(1,i);
        while( !q.empty() ) {
            uint32_t p = q.back(); q.pop_back(); int64_t x = p%m.w, y = p/m.w;
            for( int dy = -1; dy <= 1; dy++ ) for( int dx = -1; dx <= 1; dx++ ) {
                if( (!dx && !dy) || (!eight && dx && dy) ) continue;
                int64_t a = x+dx, b = y+dy; if( a < 0 || b < 0 || a >= m.w || b >= m.h ) continue;
                uint32_t j = (uint32_t)(b*m.w+a); if( m.v[j] == v && !o.v[j] ) { o.v[j] = (S32)n; q.push_back(j); }
            }
        }
    }
    return o;
}
} // namespace pbt
