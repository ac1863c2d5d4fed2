// C12: local mean threshold
#include "oracle.h"
#include "binary_ops.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C12";
const char* PBT_RULE = "A case is a history of 1..4 images of different shapes processed by one local mean filter, or single calls with stale work images; region width fixed or relative. Non-trivial: image of more than one pixel.";
const char* PBT_ASSUMPTIONS = "region width of at least 2 pixels (radius >= 1) | pixels within rounding error of the threshold (float images, or a float product that is not exact) may go either way | finite floats";
uint64_t PBT_CASES_QUICK = 70000;

struct Region { bool relative; double length, fraction; };
static ConfigLength config(const Region& r) { return r.relative ? ConfigLength::relative(r.fraction,(int)r.length) : ConfigLength::fixed(r.length); }
static uint32_t radius_of(const Region& r, uint32_t w, uint32_t h) {
    double n = std::min(w,h);
    double size = r.relative ? std::max(r.fraction*n,r.length) : r.length;
    return (uint32_t)std::floor(size+0.5)/2;
}
template<class T> void verify(Ctx& c, const Mat<T>& m, const Mat<U8>& found, uint32_t r, float scale, bool down) {
    Mat<double> ex, mag, e2, m2, m3; const bool integral = std::is_integral<T>::value;
    mean_pass(m,r,true,ex,mag);
    if( integral ) { Mat<T> t = cast<T>(ex); mean_pass(t,r,false,e2,m2); } else mean_pass(ex,r,false,e2,m2);
    double amax = 0; for( T p : m.v ) amax = std::max(amax,std::fabs((double)p));
    const double tol = integral ? 0 : ftol(2*(m.w+m.h)+4*std::min<double>(r,m.w+m.h)+8,amax);
    if( found.w != m.w || found.h != m.h ) c.fail("output shape ",found.w,"x",found.h," expected ",m.w,"x",m.h);
    for( size_t i = 0; i < m.v.size(); i++ ) {
        double p = (double)m.v[i], mu = e2.v[i];
        int want;
        if( integral ) {
            bool dbl = down ? p <= mu*(double)scale : p*(double)scale > mu;
            volatile float a = (float)mu*scale, b = (float)p*scale;
            bool flt = down ? (float)p <= a : b > (float)mu;
            want = dbl == flt ? dbl : -1;
        } else {
            double l = down ? p : p*(double)scale, q = down ? mu*(double)scale : mu, slack = tol*std::max(1.0,std::fabs((double)scale)) + 1.3e-7*(std::fabs(l)+std::fabs(q));
            want = std::fabs(l-q) <= slack ? -1 : down ? l <= q : l > q;
        }
        if( want < 0 ) { if( found.v[i] > 1 ) c.fail("pixel ",i," of the output is ",+found.v[i]); continue; }
        if( found.v[i] != want ) c.fail("pixel (",i%m.w,",",i/m.w,") value ",p," with mean ",mu," scale ",scale,down ? " down" : " up"," gives ",+found.v[i]," instead of ",want);
    }
}
template<class T> void run(Source& s, Ctx& c) {
    Region r; r.relative = s.flag();
    if( r.relative ) { r.fraction = (double)(1+s.draw(150))/100; r.length = 2+(double)s.draw(8); } else { r.fraction = -1; r.length = s.flag() ? 2+(double)s.draw(40) : 2+(double)s.draw(160)/4; }
    if( s.draw(200) == 199 ) r.length += (double)s.draw(400); else if( s.draw(300) == 299 ) { r.length = (double)(1u << (10+(uint32_t)s.draw(14)))+(double)s.draw(3); c.label("region of more than a thousand pixels"); }
    float scale = s.pick<float>({1.0f,0.95f,0.5f,1.1f,2.0f,0.9f}); if( s.chance(30) ) scale = (float)s.draw(300)/100.0f;
    bool down = s.flag(); bool use_filter = s.flag(); int n = 1+(int)s.draw(4);
    LocalMeanBinaryFilter<T> filter(config(r),scale,down);
    Gray<T> st1, st2; if( s.flag() ) { uint32_t a,b; gen_shape(s,a,b); st1.reshape(a,b); st2.reshape(b,a); for( uint32_t i = 0; i < st1.data_length; i++ ) { st1.data[i] = (T)77; st2.data[i] = (T)13; } }
    Gray<U8> shared_out; bool share = s.flag();
    c.label(use_filter ? "filter" : "function"); c.label(r.relative ? "relative width" : "fixed width"); c.label(down ? "down" : "up"); c.label(tname<T>());
    c.note(tname<T>()," ",use_filter ? "filter" : "function"," width ",r.relative ? "relative " : "fixed ",r.fraction," ",r.length," scale ",scale,down ? " down" : " up");
    for( int k = 0; k < n; k++ ) {
        uint32_t w,h; gen_shape(s,w,h,50,300); if( r.length > 1000 ) { w = std::min<uint32_t>(w,3000); h = std::min<uint32_t>(h,3000); } int64_t lo,hi;   // a region around the whole of a huge line takes too long full_range<T>(s,lo,hi);
        Mat<T> m = gen_mat<T>(s,w,h,lo,hi);
        uint32_t rad = radius_of(r,w,h);
        View<T> in; in.build(s,m); View<U8> out; out.build_output(s,w,h,true); bool reshaped = out.img->width != w || out.img->height != h;
        Gray<U8>& o = share ? shared_out : *out.img;
        c.note("\nimage ",k," radius ",rad," ",in.text()," ",show(m)," output ",out.text());
        if( w*h > 1 ) c.nontrivial = true;
        if( 2.0*rad+1 > w || 2.0*rad+1 > h ) c.label("region larger than the image");
        if( use_filter ) filter.process(*in.img,o); else ThresholdOps::localMean(*in.img,o,config(r),scale,down,st1,st2);
        Mat<U8> f;
        if( share ) { f = Mat<U8>(o.width,o.height); for( uint32_t y = 0; y < o.height; y++ ) for( uint32_t x = 0; x < o.width; x++ ) f.at(x,y) = o.at(x,y); } else f = out.read();
        verify(c,m,f,rad,scale,down);
        c.check(in.untouched(),"input modified");
        c.check(share || reshaped || out.surroundings_intact(),"memory outside the output window modified");
    }
}
void pbt_case(Source& s, Ctx& c) { uint64_t k = s.draw(20); if( k < 9 ) run<U8>(s,c); else if( k < 18 ) run<F32>(s,c); else if( k == 18 ) run<U16>(s,c); else run<F64>(s,c); }
