// C20: fills and band averaging
#include "oracle.h"
#include "image_misc_ops.h"
#include "image_convert.h"
#include "convolve_kernels.h"
#include "ops.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C20";
const char* PBT_RULE = "A case fills a gray or interleaved image, fills a border, fills an image or kernel uniformly at random, or averages the bands of an interleaved image, in some memory layout. Non-trivial: a pixel exists and, for borders, some pixels stay and some change.";
const char* PBT_ASSUMPTIONS = "min < max for uniform fills | band sums fit the accumulator type | at least one band | a uniform float fill may return max only where the standard library's distribution rounds to it";
uint64_t PBT_CASES_QUICK = 330000;

template<class T> T any(Source& s) { uint64_t k = s.draw(2000); if( k == 1 ) return std::numeric_limits<T>::max(); if( k == 2 ) return std::numeric_limits<T>::lowest(); return std::is_floating_point<T>::value ? (T)((double)k/8-125) : (T)(k*2654435761u>>2); }
static void dims(Source& s, uint32_t& w, uint32_t& h) { gen_shape(s,w,h,40,300); if( s.draw(30) == 29 ) { w = (uint32_t)s.draw(2); h = w ? 0 : (uint32_t)s.draw(5); } }

template<class T> void fill_gray(Source& s, Ctx& c) {
    uint32_t w,h; dims(s,w,h); Mat<T> m(w,h); Stream st(s.draw(1000)); for( auto& p : m.v ) p = View<T>::noise(st);
    View<T> v; v.build(s,m); T value = any<T>(s);
    bool border = s.flag(); c.label(tname<T>()); c.label(lname(v.layout));
    if( border ) {
        uint32_t r; switch( s.draw(4) ) { case 0: r = (uint32_t)s.draw(4); break; case 1: r = (uint32_t)s.draw(std::min(w,h)/2+2); break; case 2: r = (uint32_t)s.draw(std::max(w,h)+3); break; default: r = s.flag() ? 0xFFFFFFFFu-(uint32_t)s.draw(3) : (uint32_t)s.draw(200); }
        c.note("fill_border ",tname<T>()," ",v.text()," radius ",r," value ",+value); c.label("border");
        ImageMiscOps::fill_border(*v.img,value,r);
        bool any_in = false, any_out = false;
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) { if( x < r || y < r || w-1-x < r || h-1-y < r ) { m.at(x,y) = value; any_out = true; } else any_in = true; }
        c.nontrivial = any_in && any_out;
    } else { c.note("fill ",tname<T>()," ",v.text()," value ",+value); c.label("fill"); ImageMiscOps::fill(*v.img,value); for( auto& p : m.v ) p = value; c.nontrivial = !m.v.empty(); }
    expect_same(c,m,v.read(),"filled image");
    c.check(v.img->width == w && v.img->height == h && v.surroundings_intact(),"something other than the image's pixels changed");
}
template<class T> void fill_inter(Source& s, Ctx& c) {
    uint32_t w,h; dims(s,w,h); uint32_t b = 1+(uint32_t)s.draw(s.draw(60) == 59 ? 70 : 5); IView<T> v; v.build(s,w,h,b,s.draw(1000)); T value = any<T>(s);
    c.note("fill interleaved ",tname<T>()," ",w,"x",h,"x",b," ",lname(v.layout)," value ",+value); c.label("fill interleaved"); c.label(lname(v.layout)); c.nontrivial = w && h;
    ImageMiscOps::fill(*v.img,value);
    for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( uint32_t k = 0; k < b; k++ ) { T f = v.img->at(x,y,k); c.check(memcmp(&f,&value,sizeof(T)) == 0 || f == value,"pixel (",x,",",y,",",k,") is ",+f," expected ",+value); }
    c.check(v.around_intact(false),"something other than the image's pixels changed");
}
struct CountRng { typedef std::mt19937::result_type result_type; std::mt19937 g; uint64_t calls = 0; explicit CountRng(uint32_t s) : g(s) {} static constexpr result_type min() { return std::mt19937::min(); } static constexpr result_type max() { return std::mt19937::max(); } result_type operator()() { calls++; return g(); } };
template<class T> void kernel_fill(Source&, Ctx&, T, T, uint32_t, std::false_type) {}
template<class T> void kernel_fill(Source& s, Ctx& c, T lo, T hi, uint32_t seed, std::true_type) {
    uint32_t n = 1+(uint32_t)s.draw(s.draw(60) == 59 ? 700 : 20); Kernel1D<T> k(n), k2(n); std::mt19937 r1(seed), r2(seed); c.label("uniform kernel"); c.note(" and a kernel of width ",n);
    KernelOps::fill_uniform(k,lo,hi,r1); KernelOps::fill_uniform(k2,lo,hi,r2);
    c.check(k.width == n && k.data.size == n && k.offset == n/2,"fill_uniform changed the kernel's shape");
    for( uint32_t i = 0; i < n; i++ ) c.check(k[i] >= lo && (k[i] < hi || (std::is_floating_point<T>::value && k[i] == hi)) && k[i] == k2[i],"kernel element ",i," is ",+k[i]," range [",+lo,",",+hi,")");
    c.check(r1 == r2,"the generator was not consumed deterministically");
    if( n <= 9 ) {
        Kernel2D<T> q(n,n/2), q2(n,n/2); KernelOps::fill_uniform(q,lo,hi,r1); KernelOps::fill_uniform(q2,lo,hi,r2); size_t differ = 0;
        c.check(q.width == n && q.data.size == n*n && q.offset == n/2,"fill_uniform changed the square kernel's shape");
        for( uint32_t i = 0; i < n*n; i++ ) { T a = q.at(i%n,i/n); c.check(a >= lo && (a < hi || (std::is_floating_point<T>::value && a == hi)) && a == q2.at(i%n,i/n),"square kernel element ",i," is ",+a," range [",+lo,",",+hi,")"); if( a != q.at(0,0) ) differ++; }
        c.check(r1 == r2,"the generator was not consumed deterministically");
        if( n > 3 && (double)hi-(double)lo >= 4 ) c.check(differ > 0,"all elements of the square kernel are the same");
    }
}
template<class T> void uniform(Source& s, Ctx& c) {
    uint32_t w,h; dims(s,w,h); uint32_t seed = (uint32_t)s.draw(100000);
    T lo = any<T>(s), hi = any<T>(s); int k = (int)s.draw(4); if( std::is_floating_point<T>::value && (std::fabs((double)lo) > 1e6 || std::fabs((double)hi) > 1e6) ) { lo = 0; hi = 1; }
    if( hi < lo ) std::swap(lo,hi); if( k == 1 && lo < std::numeric_limits<T>::max() ) hi = (T)(lo+1); else if( k == 2 ) { lo = 0; hi = 2; } if( !(lo < hi) ) { lo = 0; hi = 5; }
    Mat<T> g(w,h); Stream st(seed); for( auto& p : g.v ) p = View<T>::noise(st);
    View<T> v; v.build(s,g); View<T> v2; v2.build(s,g);
    c.note("fill_uniform ",tname<T>()," ",v.text()," in [",+lo,",",+hi,") seed ",seed); c.label("uniform"); c.label(tname<T>()); c.nontrivial = w*h > 1;
    CountRng r1(seed), r2(seed);
    ImageMiscOps::fill_uniform(*v.img,lo,hi,r1);
    ImageMiscOps::fill_uniform(*v2.img,lo,hi,r2);
    Mat<T> a = v.read(), b = v2.read();
    size_t distinct = 0; for( size_t i = 0; i < a.v.size(); i++ ) { c.check(a.v[i] >= lo && (a.v[i] < hi || (std::is_floating_point<T>::value && a.v[i] == hi)),"pixel ",i," is ",+a.v[i]," outside [",+lo,",",+hi,")"); if( i && a.v[i] != a.v[0] ) distinct++; }
    expect_same(c,a,b,"same seed, other memory layout");
    c.check(r1.calls == r2.calls && r1.g == r2.g,"the generator was not consumed deterministically");
    if( (double)hi-(double)lo >= 2 && a.v.size() >= 64 ) c.check(distinct > 0,"all ",a.v.size()," pixels are ",+a.v[0]);
    if( std::is_integral<T>::value && (double)hi-(double)lo <= 4 && a.v.size() >= 300 ) for( T q = lo; q < hi; q++ ) c.check(std::find(a.v.begin(),a.v.end(),q) != a.v.end(),"value ",+q," never occurs in ",a.v.size()," pixels");
    c.check(v.surroundings_intact() && v2.surroundings_intact(),"something other than the image's pixels changed");
    if( s.draw(2) ) kernel_fill(s,c,lo,hi,seed,std::integral_constant<bool,std::is_same<T,S32>::value || std::is_same<T,F32>::value>());
}
template<class T> void average(Source& s, Ctx& c) {
    uint32_t w,h; dims(s,w,h); uint32_t b = 1+(uint32_t)s.draw(s.draw(60) == 59 ? 70 : 6); IView<T> v; v.build(s,w,h,b,s.draw(1000));
    int64_t lo,hi; full_range<T>(s,lo,hi); if( s.draw(3) == 2 && std::is_same<T,S32>::value ) { hi = 2147483647/(int64_t)b; lo = -hi; } if( s.draw(3) == 2 && std::is_same<T,S64>::value ) { hi = 4000000000000000000LL/(int64_t)b; lo = -hi; }
    Mat<T> px = gen_mat<T>(s,w*b,h,lo,hi);
    for( uint32_t y = 0; y < h; y++ ) for( uint32_t i = 0; i < w*b; i++ ) v.img->data[v.img->offset+y*v.img->stride+i] = px.at(i,y);
    v.snap.assign(v.img->data,v.img->data+v.len);
    View<T> out; out.build_output(s,w,h,true); bool reshaped = out.img->width != w || out.img->height != h;
    c.note("convert_average ",tname<T>()," ",w,"x",h,"x",b," ",lname(v.layout)," to ",out.text()," ",show(px)); c.label("average"); c.label(tname<T>()); c.nontrivial = w*h && b > 1;
    convert_average(*v.img,*out.img);
    Mat<T> f = out.read(); c.check(f.w == w && f.h == h,"output is ",f.w,"x",f.h);
    for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) {
        long double S = 0, A = 0; for( uint32_t k = 0; k < b; k++ ) { S += (long double)px.at(x*b+k,y); A += std::fabs((long double)px.at(x*b+k,y)); }
        if( std::is_integral<T>::value ) { int64_t e = (int64_t)S/(int64_t)b; c.check((int64_t)f.at(x,y) == e,"pixel (",x,",",y,") is ",+f.at(x,y)," expected ",e); }
        else c.check(std::fabs((double)((long double)f.at(x,y)-S/b)) <= ftol(b+1,(double)(A/b)),"pixel (",x,",",y,") is ",+f.at(x,y)," expected ",(double)(S/b));
    }
    c.check(v.around_intact(true),"input modified"); c.check(reshaped || out.surroundings_intact(),"something other than the output's pixels changed");
}
template<class T> void run(Source& s, Ctx& c) {
    switch( s.draw(6) ) { case 0: case 1: fill_gray<T>(s,c); break; case 2: fill_inter<T>(s,c); break; case 3: uniform<T>(s,c); break; default: average<T>(s,c); }
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(7) ) { case 0: run<U8>(s,c); break; case 1: run<U16>(s,c); break; case 2: run<S16>(s,c); break; case 3: run<S32>(s,c); break; case 4: run<S64>(s,c); break; case 5: run<F32>(s,c); break; default: run<F64>(s,c); }
}
