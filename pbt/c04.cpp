// C04: gaussian blur
#include "gen_kernel.h"
#include "image_blur.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C04";
const char* PBT_RULE = "A case is an image and a (sigma,width) request: both given, width derived from sigma, or sigma derived from width. Non-trivial: image larger than one pixel and derived kernel wider than one.";
const char* PBT_ASSUMPTIONS = "width >= 2 when sigma is derived, at least one of sigma and width positive | finite floats | output does not alias the input | non-empty images";
uint64_t PBT_CASES_QUICK = 110000;

// kernel from the definition: exp(-x^2/(2 sigma^2)) centred, sampled at integers (odd width) or half integers (even width)
static Ker gaussian(double sigma, int64_t width) {
    if( width <= 0 ) { int64_t r = (int64_t)std::ceil((5*sigma-1)/2); width = 2*r+1; }
    else if( sigma <= 0 ) { double r = (double)(width/2); sigma = (2*r+1)/5; }
    Ker k; k.w = (uint32_t)width; k.off = (uint32_t)(width/2);
    double sum = 0;
    for( int64_t i = 0; i < width; i++ ) { double x = (double)i-(double)(width-1)/2.0; double v = std::exp(-x*x/(2*sigma*sigma)); k.v.push_back(v); sum += v; }
    for( double& v : k.v ) v /= sum;
    return k;
}
template<class E> void run(Source& s, Ctx& c) {
    typedef typename TypeInfo<E>::signed_type K;
    const bool integral = std::is_integral<E>::value;
    uint32_t w,h; gen_shape(s,w,h,60); const bool wide = s.draw(400) == 399; if( wide ) { w = 60+(uint32_t)s.draw(500); h = 1+(uint32_t)s.draw(8); if( s.flag() ) std::swap(w,h); }
    int64_t lo,hi; full_range<E>(s,lo,hi);
    Mat<E> m = gen_mat<E>(s,w,h,lo,hi);
    double sigma; int width; int mode = (int)s.draw(3);
    double pos = s.pick<double>({1.0,0.5,2.0,0.4,3.0,0.7,5.0,1.3});
    if( s.flag() ) pos = 0.3+(double)s.draw(4000)/500.0;
    if( mode == 0 ) { sigma = pos; width = 1+(int)s.draw(30); }
    else if( mode == 1 ) { sigma = pos; width = -(int)s.draw(3); }
    else { width = 2+(int)s.draw(30); sigma = -(double)s.draw(3); }
    if( wide || s.draw(400) == 399 ) { if( sigma > 0 && width <= 0 ) sigma *= 8; else { width += (int)s.draw(300); if( sigma > 0 ) sigma *= 10; } c.label("wide kernel"); }
    View<E> in; in.build(s,m);
    View<E> out; out.build_output(s,w,h,true); View<E> work; work.build_output(s,w,h,true);
    bool reshaped = out.img->width != w || out.img->height != h, wreshaped = work.img->width != w || work.img->height != h;
    c.note(tname<E>()," sigma ",sigma," width ",width,"\ninput ",in.text()," ",show(m),"\noutput ",out.text()," work ",work.text());
    c.label(tname<E>()); c.label(mode == 0 ? "sigma and width" : mode == 1 ? "width derived" : "sigma derived"); c.label(std::string("in=")+lname(in.layout));
    BlurImageOps::gaussian(*in.img,*out.img,sigma,width,*work.img);
    Ker k = gaussian(sigma,width);
    c.nontrivial = k.w > 1 && w*h > 1;
    if( k.w > w || k.w > h ) c.label("kernel larger than the image");
    Mat<E> f = out.read();
    Mat<double> ex, mag, tol(w,h);
    double amax = 0, mn = 1e300, mx = -1e300; for( E p : m.v ) { amax = std::max(amax,std::fabs((double)p)); mn = std::min(mn,(double)p); mx = std::max(mx,(double)p); }
    if( integral ) {
        // integer weights: the float kernel divided by its smallest significant element and truncated. Weights are
        // taken from the library only to avoid depending on one-ulp differences, and checked against the definition
        Kernel1D<K> lib = FactoryKernel::gaussian1D<K>(sigma,width);
        c.check(lib.width == k.w && lib.offset == k.off,"kernel of width ",lib.width," origin ",lib.offset," expected ",k.w," ",k.off);
        double kmax = 0, kmin = 1e300; for( double v : k.v ) { kmax = std::max(kmax,v); kmin = std::min(kmin,v); }
        double unit = std::max(kmin,kmax/100.0);
        Ker ki = k;
        for( uint32_t i = 0; i < k.w; i++ ) {
            double q = k.v[i]/unit; double got = (double)lib[i];
            if( !(got == std::floor(q) || got == std::floor(q*(1+1e-9)) || got == std::floor(q*(1-1e-9))) ) c.fail("integer weight ",i," is ",got," expected ",q," truncated");
            ki.v[i] = got;
        }
        conv_norm_pass(m,ki,true,ex,mag); Mat<E> t = cast<E>(ex); conv_norm_pass(t,ki,false,ex,mag);
    } else {
        Mat<double> e2,m2,m3;
        conv_norm_pass(m,k,true,ex,mag); conv_norm_pass(ex,k,false,e2,m2); conv_norm_pass(mag,k,false,m3,m2); ex = e2;
        // off-centre windows clipped to the thin tail of the kernel amplify the rounding of the kernel weights only relatively
        for( size_t i = 0; i < tol.v.size(); i++ ) tol.v[i] = ftol(8*k.w+16,m3.v[i]) + 1e-6*amax;
    }
    expect_near(c,ex,tol,f,"gaussian blur");
    double slack = integral ? 0 : 2e-5*amax+1e-30;
    for( E p : f.v ) if( !((double)p >= mn-slack && (double)p <= mx+slack) ) c.fail("value ",+p," outside of the input range ",mn," .. ",mx);
    c.check(in.untouched(),"input image modified");
    c.check(reshaped || out.surroundings_intact(),"memory outside the output window modified");
    c.check(wreshaped || work.surroundings_intact(),"memory outside the work image modified");
    if( !integral && k.w%2 == 1 && s.chance(30) ) {
        c.label("transposed");
        Mat<E> mt = transpose(m); View<E> it; it.build(s,mt);
        Gray<E> o2, w2; BlurImageOps::gaussian(*it.img,o2,sigma,width,w2);
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) {
            double a = (double)f.at(x,y), b = (double)o2.at(y,x);
            if( !(std::fabs(a-b) <= 2*tol.at(x,y)+1e-6*amax) ) c.fail("transposed input gives ",b," at (",y,",",x,") instead of ",a);
        }
    }
}
void pbt_case(Source& s, Ctx& c) { uint64_t k = s.draw(20); if( k < 9 ) run<U8>(s,c); else if( k < 18 ) run<F32>(s,c); else if( k == 18 ) run<U16>(s,c); else run<F64>(s,c); }
