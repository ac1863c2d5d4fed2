// C02: normalized convolution
#include "gen_kernel.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C02";
const char* PBT_RULE = "A case is an image, a positive kernel (width 1..61, any origin) and an operation (optimised/naive, horizontal/vertical/both). Non-trivial: kernel wider than one pixel and image not a single pixel.";
const char* PBT_ASSUMPTIONS = "positive weights with (largest pixel)*sum(weights) below 2^31 for integer images | finite floats | output does not alias the input | non-empty images";
uint64_t PBT_CASES_QUICK = 120000;

template<class E> void run(Source& s, Ctx& c) {
    typedef typename TypeInfo<E>::signed_type K;
    const bool integral = std::is_integral<E>::value;
    int op = (int)s.draw(5);      // 0,1 optimised; 2,3 naive; 4 both directions
    bool hor = op == 0 || op == 2;
    uint32_t w,h; gen_shape(s,w,h,80);
    uint32_t kw = gen_kwidth(s,hor ? w : h,61); if( gen_wide(s,false,hor || (op == 4 && s.flag()),w,h,kw) ) c.label("very wide kernel");
    uint32_t off = gen_korigin(s,kw);
    Ker k = gen_positive_kernel<K>(s,kw,off,sizeof(E) == 2 ? 30000 : 8000000);
    int64_t lo,hi; full_range<E>(s,lo,hi);
    Mat<E> m = gen_mat<E>(s,w,h,lo,hi);
    View<E> in; in.build(s,m);
    View<E> out; out.build_output(s,w,h,op == 4);
    bool reshaped = out.img->width != w || out.img->height != h;
    View<E> work; bool wreshaped = false;
    if( op == 4 ) { work.build_output(s,w,h,true); wreshaped = work.img->width != w || work.img->height != h; }
    static const char* names[] = {"horizontal","vertical","naive horizontal","naive vertical","horizontal then vertical"};
    c.note(tname<E>()," ",names[op],"\nkernel ",show(k),"\ninput ",in.text()," ",show(m),"\noutput ",out.text());
    c.label(names[op]); c.label(tname<E>()); c.label(std::string("in=")+lname(in.layout)); c.label(std::string("out=")+lname(out.layout));
    if( kw > (hor ? w : h) ) c.label("kernel larger than the image"); else if( kw == (hor ? w : h) ) c.label("kernel as large as the image"); else c.label("kernel smaller than the image");
    double maxw = 0; for( double v : k.v ) maxw = std::max(maxw,v);
    if( integral && maxw > 255 ) c.label("weights beyond the pixel range");
    c.nontrivial = kw > 1 && w*h > 1;
    Kernel1D<K> kk; fill_kernel(kk,k,false);
    switch( op ) {
        case 0: ConvolveNormalized::horizontal(kk,*in.img,*out.img); break;
        case 1: ConvolveNormalized::vertical(kk,*in.img,*out.img); break;
        case 2: ConvolveNormalizedNaive::horizontal(kk,*in.img,*out.img); break;
        case 3: ConvolveNormalizedNaive::vertical(kk,*in.img,*out.img); break;
        default: ConvolveNormalized::convolve(kk,*in.img,*out.img,*work.img); break;
    }
    Mat<double> ex, mag;
    conv_norm_pass(m,k,op == 4 || hor,ex,mag);
    if( op == 4 ) {
        if( integral ) { Mat<E> t = cast<E>(ex); conv_norm_pass(t,k,false,ex,mag); }
        else { Mat<double> e2,m2; conv_norm_pass(ex,k,false,e2,m2); Mat<double> m3; conv_norm_pass(mag,k,false,m3,m2); ex = e2; mag = m3; }
    }
    Mat<double> tol(w,h);
    if( !integral ) for( size_t i = 0; i < ex.v.size(); i++ ) tol.v[i] = ftol(4*kw+8,mag.v[i]);
    expect_near(c,ex,tol,out.img ? out.read() : Mat<E>(),"normalized convolution");
    // every weighted average stays within the range of the input
    double mn = 1e300, mx = -1e300; for( E p : m.v ) { mn = std::min(mn,(double)p); mx = std::max(mx,(double)p); }
    Mat<E> f = out.read();
    double slack = integral ? 0 : ftol(4*kw+8,std::max(std::fabs(mn),std::fabs(mx)));
    for( E p : f.v ) if( !((double)p >= mn-slack && (double)p <= mx+slack) ) c.fail("value ",+p," outside of the input range ",mn," .. ",mx);
    c.check(in.untouched(),"input image modified");
    c.check(reshaped || out.surroundings_intact(),"memory outside the output window modified");
    c.check(op != 4 || wreshaped || work.surroundings_intact(),"memory outside the work image modified");
    c.check(kernel_intact(kk,k,false),"kernel modified");
}
void pbt_case(Source& s, Ctx& c) { uint64_t k = s.draw(20); if( k < 9 ) run<U8>(s,c); else if( k < 18 ) run<F32>(s,c); else if( k == 18 ) run<U16>(s,c); else run<F64>(s,c); }
