// C01: bordered convolution
#include "gen_kernel.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C01";
const char* PBT_RULE = "A case is an image, a kernel (width 1..41, any origin, signed weights), a direction (horizontal, vertical, square), a border rule and the implementation used (optimised, naive, naive with divisor, inner part only). Non-trivial: kernel wider than one pixel and the image is not constant.";
const char* PBT_ASSUMPTIONS = "integer kernels whose results fit the output type (sum of |weights| * largest pixel in range) | finite floats | output does not alias the input | non-empty images";
uint64_t PBT_CASES_QUICK = 130000;

enum Impl { FAST, NAIVE, NAIVE_DIV, INNER, INNER_DIV };
static const char* iname(int i) { static const char* n[] = {"optimised","naive","naive with divisor","inner","inner with divisor"}; return n[i]; }

template<class E, class R> struct Ops {
    typedef typename TypeInfo<E>::signed_type K;
    static void call(int impl, int dir, const Kernel1D<K>& k1, const Kernel2D<K>& k2, const ImageBorder<E>& in, Gray<R>& out) {
        if( impl == FAST ) { if( dir == 0 ) ConvolveImage::horizontal(k1,in,out); else if( dir == 1 ) ConvolveImage::vertical(k1,in,out); else ConvolveImage::convolve(k2,in,out); }
        else if( impl == NAIVE ) { if( dir == 0 ) ConvolveNaive::horizontal(k1,in,out); else if( dir == 1 ) ConvolveNaive::vertical(k1,in,out); else ConvolveNaive::convolve(k2,in,out); }
        else { if( dir == 0 ) ConvolveImage_Inner::horizontal(k1,*in.image,out); else if( dir == 1 ) ConvolveImage_Inner::vertical(k1,*in.image,out); else ConvolveImage_Inner::convolve(k2,*in.image,out); }
    }
};
template<class E> void call_div(int impl, int dir, const Kernel1D<typename TypeInfo<E>::signed_type>& k1, const Kernel2D<typename TypeInfo<E>::signed_type>& k2, const ImageBorder<E>& in, Gray<E>& out, typename TypeInfo<E>::signed_type div) {
    if( impl == NAIVE_DIV ) { if( dir == 0 ) ConvolveNaive::horizontal(k1,in,out,div); else if( dir == 1 ) ConvolveNaive::vertical(k1,in,out,div); else ConvolveNaive::convolve(k2,in,out,div); }
    else { if( dir == 0 ) ConvolveImage_Inner::horizontal(k1,*in.image,out,div); else if( dir == 1 ) ConvolveImage_Inner::vertical(k1,*in.image,out,div); else ConvolveImage_Inner::convolve(k2,*in.image,out,div); }
}
template<class E, class R> struct Div { static bool run(int, int, const Kernel1D<typename TypeInfo<E>::signed_type>&, const Kernel2D<typename TypeInfo<E>::signed_type>&, const ImageBorder<E>&, Gray<R>&, typename TypeInfo<E>::signed_type) { return false; } };
template<class E> struct Div<E,E> { static bool run(int impl, int dir, const Kernel1D<typename TypeInfo<E>::signed_type>& k1, const Kernel2D<typename TypeInfo<E>::signed_type>& k2, const ImageBorder<E>& in, Gray<E>& out, typename TypeInfo<E>::signed_type d) { call_div<E>(impl,dir,k1,k2,in,out,d); return true; } };

template<class E, class R> void run(Source& s, Ctx& c) {
    typedef typename TypeInfo<E>::signed_type K;
    const bool integral = std::is_integral<E>::value;
    int impl = (int)s.draw(8); impl = impl < 4 ? FAST : impl-3;
    const bool div = impl == NAIVE_DIV || impl == INNER_DIV;
    if( div && !std::is_same<E,R>::value ) impl = impl == NAIVE_DIV ? NAIVE : INNER;
    if( !div && std::is_same<E,R>::value && integral ) impl = s.flag() ? NAIVE_DIV : INNER_DIV;
    const bool with_div = impl == NAIVE_DIV || impl == INNER_DIV, inner = impl == INNER || impl == INNER_DIV;
    int dir = (int)s.draw(3);
    uint32_t w,h; gen_shape(s,w,h,dir == 2 ? 40 : 70,dir == 2 ? 120 : 500,dir == 2 ? 20000 : 90000);
    uint32_t kw = gen_kwidth(s,dir == 0 ? w : dir == 1 ? h : std::min(w,h),dir == 2 ? (w*h > 300 ? 9 : 17) : 41);
    if( gen_wide(s,dir == 2,dir == 0,w,h,kw) ) c.label("very wide kernel");
    if( inner ) kw = std::min(kw,dir == 0 ? w : dir == 1 ? h : std::min(w,h));
    uint32_t off = gen_korigin(s,kw);
    int64_t maxabs = std::is_same<R,S16>::value ? 128 : integral && sizeof(E) == 2 ? 30000 : 8000000;
    Ker k;
    K divisor = 1;
    if( with_div ) {
        k = gen_positive_kernel<K>(s,kw,off,100000);
        if( dir == 2 ) { std::vector<double> v; for( uint32_t i = 0; i < kw; i++ ) for( uint32_t j = 0; j < kw; j++ ) v.push_back(integral ? std::min(40.0,k.v[i])*std::min(40.0,k.v[j]) : (double)(K)(k.v[i]*k.v[j])); k.v = v; }
        double sum = 0; for( double v : k.v ) sum += v;
        divisor = (K)(integral ? sum + (double)s.draw(3) : sum*(1+s.draw(3)));
    } else k = gen_signed_kernel<K>(s,kw,off,dir == 2,maxabs);
    int64_t lo,hi; full_range<E>(s,lo,hi);
    Mat<E> m = gen_mat<E>(s,w,h,lo,hi);
    View<E> in; in.build(s,m);
    int b = (int)s.draw(5); E value = b == B_VALUE ? (E)s.range(lo,hi) : (E)0;
    auto border = make_border<E>(b,value); border->setImage(*in.img);
    View<R> out; out.build_output(s,w,h,impl == FAST);
    c.note(tname<E>(),"->",tname<R>()," ",iname(impl),dir == 0 ? " horizontal" : dir == 1 ? " vertical" : " square"," border ",bname(b)," value ",+value," divisor ",+divisor,"\nkernel ",show(k),"\ninput ",in.text()," ",show(m),"\noutput ",out.text());
    c.label(iname(impl)); c.label(dir == 0 ? "horizontal" : dir == 1 ? "vertical" : "square"); c.label(std::string("border=")+bname(b));
    c.label(std::string("in=")+lname(in.layout)); c.label(std::string("out=")+lname(out.layout));
    if( kw > w || kw > h ) c.label("kernel larger than the image");
    if( kw%2 == 0 ) c.label("even width"); if( off != kw/2 ) c.label("off-centre origin");
    for( E& p : m.v ) if( p != m.v[0] && kw > 1 ) c.nontrivial = true;
    Kernel1D<K> k1; Kernel2D<K> k2;
    if( dir == 2 ) fill_kernel(k2,k,true); else fill_kernel(k1,k,false);
    bool reshaped = out.img->width != w || out.img->height != h;
    Mat<R> before = out.read();
    if( with_div ) Div<E,R>::run(impl,dir,k1,k2,*border,*out.img,divisor); else Ops<E,R>::call(impl,dir,k1,k2,*border,*out.img);
    Mat<double> ex, mag; conv_border(m,k,dir,b,value,ex,mag);
    Mat<double> tol(w,h);
    for( size_t i = 0; i < ex.v.size(); i++ ) {
        if( with_div ) ex.v[i] = integral ? (double)(E)(((int64_t)ex.v[i]+(int64_t)divisor/2)/(int64_t)divisor) : ex.v[i]/(double)divisor;
        tol.v[i] = integral ? 0 : ftol(dir == 2 ? kw*kw : kw,mag.v[i])/(with_div ? (double)divisor : 1) + (with_div ? 1.25e-7*std::fabs(ex.v[i]) : 0);
    }
    if( inner ) {
        // only pixels whose whole window lies inside the image are written
        uint32_t r = kw-off-1;
        bool hx = dir != 1, vy = dir != 0;
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) {
            bool in_ = (!hx || (x >= off && x+r < w)) && (!vy || (y >= off && y+r < h));
            if( !in_ ) { ex.at(x,y) = (double)before.at(x,y); tol.at(x,y) = 0; }
        }
    }
    expect_near(c,ex,tol,out.read(),"convolution");
    c.check(in.untouched(),"input image modified");
    c.check(reshaped || out.surroundings_intact(),"memory outside the output window modified");
    c.check(dir == 2 ? kernel_intact(k2,k,true) : kernel_intact(k1,k,false),"kernel modified");
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(40) ) {
        case 37: run<S16,S32>(s,c); return;
        case 38: run<U16,S32>(s,c); return;
        case 39: run<F64,F64>(s,c); return;
    }
    switch( s.draw(4) ) {
        case 0: run<U8,S16>(s,c); break;
        case 1: run<U8,S32>(s,c); break;
        case 2: run<F32,F32>(s,c); break;
        default: run<U8,U8>(s,c); break;
    }
}
