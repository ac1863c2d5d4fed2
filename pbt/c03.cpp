// C03: mean blur
#include "oracle.h"
#include "image_blur.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C03";
const char* PBT_RULE = "A case is an image, a radius 1..90 (often around the image size, rarely several hundred) and an operation (blur, horizontal pass, vertical pass) with stale or mis-shaped output and work images. Non-trivial: image larger than one pixel.";
const char* PBT_ASSUMPTIONS = "sums fit 32 bits | finite floats | output does not alias the input | non-empty images";
uint64_t PBT_CASES_QUICK = 120000;

template<class E> void run(Source& s, Ctx& c) {
    const bool integral = std::is_integral<E>::value;
    int op = (int)s.draw(4); // 0,1 blur, 2 horizontal, 3 vertical
    uint32_t w,h; gen_shape(s,w,h,100);
    uint32_t r; bool longwin = s.draw(200) == 199;   // windows of hundreds of pixels along a narrow image
    if( longwin ) { w = 1+(uint32_t)s.draw(6); h = 200+(uint32_t)s.draw(1200); if( s.flag() ) std::swap(w,h); c.label("long window"); }
    switch( s.draw(5) ) {
        case 0: r = 1+(uint32_t)s.draw(3); break;
        case 1: r = 1+(uint32_t)s.draw(12); break;
        case 2: { int64_t d = s.flag() ? w : h; int64_t v = d/2+s.range(-2,2); r = v < 1 ? 1 : (uint32_t)v; } break;
        case 3: r = 1+(uint32_t)s.draw(90); break;
        default: r = 1+(uint32_t)s.draw(std::max(w,h)); break;
    }
    if( longwin ) r = 80+(uint32_t)s.draw(std::max(w,h)/2);
    if( (uint64_t)std::max(w,h)*w*h > 40000000 ) r = std::min<uint32_t>(r,s.flag() ? 600 : 130);   // windows around the whole of a huge line take too long
    // far beyond the image: every window is the whole line
    if( s.draw(150) == 149 && (uint64_t)std::max(w,h)*w*h <= 40000000 ) { r = s.flag() ? 0x80000000u+(uint32_t)s.draw(60) : s.flag() ? 0xC0000000u+(uint32_t)s.draw(60) : 1u << (10+(uint32_t)s.draw(12)); c.label("window of more than a thousand pixels"); }
    const double reach = std::min<double>(r,w+h);
    int64_t lo,hi; full_range<E>(s,lo,hi);
    Mat<E> m = gen_mat<E>(s,w,h,lo,hi);
    View<E> in; in.build(s,m);
    View<E> out; out.build_output(s,w,h,op < 2);
    View<E> work; work.build_output(s,w,h,true);
    bool reshaped = out.img->width != w || out.img->height != h, wreshaped = work.img->width != w || work.img->height != h;
    static const char* names[] = {"blur","blur","horizontal pass","vertical pass"};
    c.note(tname<E>()," ",names[op]," radius ",r,"\ninput ",in.text()," ",show(m),"\noutput ",out.text()," work ",work.text());
    c.label(names[op]); c.label(tname<E>()); c.label(std::string("in=")+lname(in.layout)); c.label(std::string("out=")+lname(out.layout));
    const double wide_ = 2.0*r+1; if( wide_ > w && wide_ > h ) c.label("window larger than the image"); else if( wide_ > w ) c.label("window wider only"); else if( wide_ > h ) c.label("window taller only"); else c.label("window inside");
    if( wide_ == w || wide_ == h ) c.label("window exactly one side");
    c.nontrivial = w*h > 1;
    Mat<double> ex, mag;
    if( op < 2 ) {
        BlurImageOps::mean(*in.img,*out.img,r,*work.img);
        mean_pass(m,r,true,ex,mag);
        if( integral ) { Mat<E> t = cast<E>(ex); Mat<double> mm; mean_pass(t,r,false,ex,mm); }
        else { Mat<double> e2,mm,m3; mean_pass(ex,r,false,e2,mm); mean_pass(mag,r,false,m3,mm); ex = e2; mag = m3; }
    } else if( op == 2 ) { ConvolveImageMean::horizontal(*in.img,*out.img,r); mean_pass(m,r,true,ex,mag); }
    else { ConvolveImageMean::vertical(*in.img,*out.img,r); mean_pass(m,r,false,ex,mag); }
    // running sums: the error is relative to the largest values seen along the line, and grows with its length
    Mat<double> tol(w,h);
    double amax = 0; for( E p : m.v ) amax = std::max(amax,std::fabs((double)p));
    if( !integral ) for( size_t i = 0; i < tol.v.size(); i++ ) tol.v[i] = ftol(2*(w+h)+4*reach+8,amax);
    expect_near(c,ex,tol,out.read(),"mean");
    c.check(in.untouched(),"input image modified");
    c.check(reshaped || out.surroundings_intact(),"memory outside the output window modified");
    c.check(op >= 2 ? work.untouched() : (wreshaped || work.surroundings_intact()),"memory outside the work image modified");
}
// rows of more than two million pixels: whatever is kept per column must not depend on the size of the stack
template<class E> void wide(Source& s, Ctx& c) {
    uint32_t w = 2100000+(uint32_t)s.draw(200000), h = 3+(uint32_t)s.draw(2), seed = (uint32_t)s.draw(1000);
    c.note(tname<E>()," blur radius 1 of a ",w,"x",h," image seed ",seed); c.label("more than two million columns"); c.nontrivial = true;
    Gray<E> in(w,h), out, work; Stream st(seed); for( size_t i = 0; i < (size_t)w*h; i++ ) in.data[i] = (E)((i*2654435761u+seed)>>7&255);
    BlurImageOps::mean(in,out,1,work);
    for( uint32_t k = 0; k < 3000; k++ ) {
        uint32_t x = k < 4 ? (k < 2 ? k : w-3+k-1) : (uint32_t)st.below(w), y = (uint32_t)st.below(h);
        double sum = 0; int rows = 0;
        for( int64_t yy = (int64_t)y-1; yy <= (int64_t)y+1; yy++ ) { if( yy < 0 || yy >= (int64_t)h ) continue; double row = 0; int n = 0; for( int64_t xx = (int64_t)x-1; xx <= (int64_t)x+1; xx++ ) if( xx >= 0 && xx < (int64_t)w ) { row += (double)in.data[yy*w+xx]; n++; } row /= n; if( std::is_integral<E>::value ) row = std::floor(row+0.5); sum += row; rows++; }
        sum /= rows; if( std::is_integral<E>::value ) sum = std::floor(sum+0.5);
        double f = (double)out.at(x,y), tol = std::is_same<E,F32>::value ? 8 : 1e-6;   // a float running sum drifts along the row
        if( !(std::fabs(f-sum) <= tol) ) c.fail("pixel (",x,",",y,") is ",f," expected ",sum);
    }
}
void pbt_case(Source& s, Ctx& c) { if( s.draw(60000) == 59999 ) { switch( s.draw(3) ) { case 0: wide<U8>(s,c); break; case 1: wide<F32>(s,c); break; default: wide<F64>(s,c); } return; } uint64_t k = s.draw(20); if( k < 9 ) run<U8>(s,c); else if( k < 18 ) run<F32>(s,c); else if( k == 18 ) run<U16>(s,c); else run<F64>(s,c); }
