// C11: fixed and Otsu thresholds
#include "oracle.h"
#include "otsu.h"
#include "binary_ops.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C11";
const char* PBT_RULE = "A case is a fixed threshold of an image (6 pixel types), an Otsu computation on a histogram (1..400 bins, both variants, tuning and scale), Otsu of an image with any value range, or the Otsu filter. Non-trivial: image or histogram not constant.";
const char* PBT_ASSUMPTIONS = "all pixels within [min_value,max_value], 0 <= min_value | totalPixels equals the histogram's total | when several thresholds have the same between-class variance to 1e-9 any of them is accepted";
uint64_t PBT_CASES_QUICK = 150000;

template<class T> T near_value(Source& s, const Mat<T>& m, int64_t lo, int64_t hi) {
    if( m.v.size() && s.draw(3) != 0 ) { T v = m.v[s.draw(m.v.size())]; int k = (int)s.draw(3); if( k == 1 && (double)v > (double)lo ) return (T)(v-1); if( k == 2 && (double)v < (double)hi ) return (T)(v+1); return v; }
    return (T)s.range(lo,hi);
}
template<class T> Mat<U8> ref_threshold(const Mat<T>& m, T t, bool down) { Mat<U8> o(m.w,m.h); for( size_t i = 0; i < m.v.size(); i++ ) o.v[i] = down ? m.v[i] <= t : m.v[i] > t; return o; }

template<class T> void fixed(Source& s, Ctx& c) {
    uint32_t w,h; gen_shape(s,w,h); if( s.draw(60) == 59 ) { if( s.flag() ) w = 0; else h = 0; }
    int64_t lo,hi; full_range<T>(s,lo,hi);
    Mat<T> m = gen_mat<T>(s,w,h,lo,hi); T t = near_value(s,m,lo,hi); bool down = s.flag(), filter = s.flag();
    View<T> in; in.build(s,m); View<U8> out; out.build_output(s,w,h,true);
    bool reshaped = out.img->width != w || out.img->height != h;
    c.note("fixed ",tname<T>()," threshold ",+t,down ? " down" : " up",filter ? " filter" : "","\ninput ",in.text()," ",show(m),"\noutput ",out.text());
    c.label(std::string("fixed ")+tname<T>()); c.label(down ? "down" : "up");
    for( T& p : m.v ) { if( p != m.v[0] ) c.nontrivial = true; if( p == t ) { c.label("threshold equals a pixel"); break; } }
    if( filter ) { GlobalFixedBinaryFilter<T> f(t,down); f.process(*in.img,*out.img); c.check(f.threshold == t && f.down == down,"filter settings changed"); }
    else ThresholdOps::threshold(*in.img,t,down,*out.img);
    expect_same(c,ref_threshold(m,t,down),out.read(),"threshold");
    c.check(in.untouched(),"input modified"); c.check(reshaped || out.surroundings_intact(),"memory outside the output window modified");
}
static void histogram_case(Source& s, Ctx& c) {
    uint32_t n = s.draw(3) == 0 ? 1+(uint32_t)s.draw(400) : s.flag() ? 256 : 1+(uint32_t)s.draw(20);
    std::vector<uint64_t> h(n,0); uint64_t total = 0;
    Stream st(s.draw(1u<<20)); int mode = (int)s.draw(6); uint64_t top = s.pick<uint64_t>({5,100,1,10000,1000000});
    switch( mode ) {
        case 0: for( auto& v : h ) v = st.below(top+1); break;
        case 1: for( int i = 0; i < 2; i++ ) h[st.below(n)] += 1+st.below(top); break;
        case 2: for( int i = 0; i < 5; i++ ) h[st.below(n)] += 1+st.below(top); break;
        case 3: h[st.below(n)] = 1+st.below(top); break;
        case 4: { uint64_t a = st.below(n), b = st.below(n); for( int i = 0; i < 200; i++ ) h[(st.below(2) ? a : b)+st.below(5) < n ? (st.below(2) ? a : b) : n-1] += 1; for( int i = 0; i < 40; i++ ) h[st.below(n)]++; } break;
        default: for( uint32_t i = 0; i < n; i++ ) h[i] = s.draw(std::min<uint64_t>(top,50)+1); break;
    }
    for( uint64_t v : h ) total += v;
    if( total == 0 ) { h[0] = 1; total = 1; }
    bool otsu2 = s.flag(), down = s.flag();
    double tuning = s.draw(3) == 0 ? 0 : s.flag() ? (double)s.draw(50)/10 : (double)s.draw(100)/10000; double scale = s.draw(3) == 0 ? 1.0 : (double)(50+s.draw(101))/100; if( s.draw(40) == 39 ) { tuning = std::pow(2.0,(double)s.draw(17))*1.5; c.label("large tuning"); }
    int reuse = (int)s.draw(3);
    std::ostringstream hs; for( uint32_t i = 0; i < n; i++ ) if( h[i] ) hs << i << ":" << h[i] << " ";
    c.note("histogram bins ",n," otsu2 ",otsu2," tuning ",tuning," scale ",scale,down ? " down " : " up ",hs.str());
    c.label(otsu2 ? "histogram otsu2" : "histogram otsu"); if( tuning > 0 ) c.label("tuned");
    size_t used = 0; for( uint64_t v : h ) used += v > 0; c.nontrivial = used > 1;
    GrowArray<uint32_t> a(n); for( uint32_t i = 0; i < n; i++ ) a[i] = (uint32_t)h[i];
    ComputeOtsu o(otsu2,tuning,down,scale);
    for( int i = 0; i < reuse; i++ ) { GrowArray<uint32_t> other(1+(uint32_t)st.below(50)); uint32_t t = 0; for( uint32_t k = 0; k < other.size; k++ ) t += other[k] = 1+(uint32_t)st.below(100); o.compute(other,t); }
    o.compute(a,(uint32_t)total);
    OtsuRef ref = otsu_ref(h,total,otsu2);
    auto ok = otsu_final(ref,n,otsu2,tuning,down,scale);
    if( !accepted(ok,o.threshold) ) c.fail("threshold ",o.threshold," expected one of ",show_set(ok)," (between-class variance ",ref.best,")");
    c.check(std::fabs(o.variance-ref.best) <= 0.0011+1e-8*ref.best,"reported variance ",o.variance," expected ",ref.best);
    for( uint32_t i = 0; i < n; i++ ) c.check(a[i] == h[i],"histogram modified");
    if( tuning == 0 && scale == 1.0 ) { ComputeOtsu d(otsu2,down); d.compute(a,(uint32_t)total); c.check(d.threshold == o.threshold,"two argument constructor gives ",d.threshold," instead of ",o.threshold); }
}
template<class T> void image_case(Source& s, Ctx& c) {
    uint32_t w,h; gen_shape(s,w,h);
    int64_t range = sizeof(T) == 1 ? 255 : s.draw(8) == 7 ? 30000 : 1+(int64_t)s.draw(600);
    int64_t lo = s.draw(3) == 0 ? 0 : (int64_t)s.draw(sizeof(T) == 1 ? 256 : 900), hi = std::min<int64_t>(lo+(int64_t)s.draw(range+1),sizeof(T) == 1 ? 255 : 32767);
    int64_t plo = s.flag() ? lo : lo+(int64_t)s.draw(hi-lo+1), phi = plo+(int64_t)s.draw(hi-plo+1);
    Mat<T> m = gen_mat<T>(s,w,h,plo,phi,false);
    if( std::is_floating_point<T>::value && s.flag() ) { Stream st(s.draw(1000)); for( T& p : m.v ) if( (double)p < (double)hi ) p = (T)((double)p+(double)st.below(4)/4); }
    View<T> in; in.build(s,m);
    bool otsu2 = s.flag(), down = s.flag();
    c.note("otsu of ",tname<T>()," range ",lo,"..",hi," otsu2 ",otsu2,"\ninput ",in.text()," ",show(m));
    c.label(std::string("image otsu ")+tname<T>()); if( lo > 0 ) c.label("non-zero minimum");
    std::vector<uint64_t> hist((size_t)(hi-lo+1),0); for( T p : m.v ) { hist[(size_t)((int64_t)std::floor((double)p)-lo)]++; if( p != m.v[0] ) c.nontrivial = true; }
    uint32_t t = ThresholdOps::computeOtsu(*in.img,(T)lo,(T)hi,otsu2);
    OtsuRef ref = otsu_ref(hist,m.v.size(),otsu2);
    auto ok = otsu_final(ref,(uint32_t)hist.size(),otsu2,0,true,1.0);
    if( !accepted(ok,(double)t-(double)lo) ) c.fail("Otsu threshold ",t," expected ",lo," + one of ",show_set(ok));
    c.check(t >= (uint64_t)lo && t <= (uint64_t)hi,"Otsu threshold ",t," outside of ",lo," .. ",hi);
    if( s.chance(30) && m.v.size() > 1 ) {   // pixel order does not matter
        Mat<T> p = m; Stream st(s.draw(1000)); for( size_t i = p.v.size(); i > 1; i-- ) std::swap(p.v[i-1],p.v[st.below(i)]);
        View<T> pv; pv.build(s,p); c.check(ThresholdOps::computeOtsu(*pv.img,(T)lo,(T)hi,otsu2) == t,"threshold depends on the order of pixels");
    }
    View<U8> out; out.build_output(s,w,h,true); bool reshaped = out.img->width != w || out.img->height != h;
    GlobalOtsuBinaryFilter<T> f((T)lo,(T)hi,down); f.process(*in.img,*out.img);
    uint32_t tf = otsu2 ? ThresholdOps::computeOtsu(*in.img,(T)lo,(T)hi,false) : t;
    expect_same(c,ref_threshold(m,(T)tf,down),out.read(),"Otsu filter");
    c.check(in.untouched(),"input modified"); c.check(reshaped || out.surroundings_intact(),"memory outside the output window modified");
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(12) ) {
        case 0: fixed<U8>(s,c); break; case 1: fixed<F32>(s,c); break; case 2: s.flag() ? fixed<S16>(s,c) : fixed<U16>(s,c); break; case 3: s.flag() ? fixed<S32>(s,c) : fixed<F64>(s,c); break;
        case 4: case 5: case 6: case 7: histogram_case(s,c); break;
        case 8: case 9: image_case<U8>(s,c); break; case 10: s.flag() ? image_case<U16>(s,c) : image_case<S16>(s,c); break;
        default: s.flag() ? image_case<S32>(s,c) : image_case<F32>(s,c); break;
    }
}
