// C28: printed images, kernels and differences
#include "common.h"
#include "print_structures.h"
#include <iostream>
#include <unistd.h>
#include <sys/mman.h>
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C28";
const char* PBT_RULE = "A case prints one image (any layout), one kernel or the difference of two images, captures standard output and compares the numbers it holds, line by line, with what is stored. Non-trivial: more than one element was printed.";
const char* PBT_ASSUMPTIONS = "integer pixels are at most 32 bits wide | differences of 32-bit pixels do not overflow and unsigned 32-bit images are not compared | a float difference within one per mille of the tolerance is not decided";
uint64_t PBT_CASES_QUICK = 60000;

// what a call writes to standard output
template<class F> std::string captured(F f) {
    static int mem = memfd_create("pbt",0); fflush(stdout); if( ftruncate(mem,0) || lseek(mem,0,SEEK_SET) ) abort(); int keep = dup(1); dup2(mem,1); struct Back { int k; ~Back() { std::cout.flush(); fflush(stdout); dup2(k,1); close(k); } };
    { Back b{keep}; f(); } off_t n = lseek(mem,0,SEEK_END); std::string r((size_t)n,0); size_t at = 0; while( at < r.size() ) { ssize_t k = pread(mem,&r[at],r.size()-at,(off_t)at); if( k <= 0 ) abort(); at += (size_t)k; } return r;
}
std::vector<std::string> lines_of(const std::string& t) { std::vector<std::string> r; std::string l; for( char ch : t ) if( ch == '\n' ) { r.push_back(l); l.clear(); } else l += ch; if( !l.empty() ) r.push_back(l+" (without a line end)"); return r; }
std::vector<std::string> words(const std::string& t) { std::vector<std::string> r; std::istringstream q(t); std::string w; while( q >> w ) r.push_back(w); return r; }
template<class E> void same_number(Ctx& c, const std::string& w, E v, bool hex, const char* what, uint32_t x, uint32_t y) {
    char* end = nullptr; if( std::is_floating_point<E>::value ) { double d = strtod(w.c_str(),&end); c.check(!w.empty() && *end == 0,what," (",x,",",y,") is printed as ",w); c.check(std::fabs(d-(double)v) <= 6e-5*std::fabs((double)v),what," (",x,",",y,") is printed as ",w," instead of ",(double)v); return; }
    if( hex ) { unsigned long long u = strtoull(w.c_str(),&end,16); c.check(!w.empty() && *end == 0 && w.size() >= 2,what," (",x,",",y,") is printed as ",w); c.check(u == (uint32_t)(int64_t)v,what," (",x,",",y,") is printed as ",w," instead of ",+v); return; }
    long long u = strtoll(w.c_str(),&end,10); c.check(!w.empty() && *end == 0 && u == (long long)v,what," (",x,",",y,") is printed as ",w," instead of ",+v);
}
template<class T> Mat<T> any(Source& s, uint32_t w, uint32_t h) { return gen_mat<T>(s,w,h,std::is_signed<T>::value ? std::max<double>(-2000000000.0,(double)std::numeric_limits<T>::lowest()) : 0,(int64_t)std::min<double>(2000000000.0,(double)std::numeric_limits<T>::max())); }
template<class T> void image(Source& s, Ctx& c) {
    uint32_t w,h; gen_shape(s,w,h,12,60); Mat<T> m = any<T>(s,w,h); View<T> v; v.build(s,m); c.label(std::string("image ")+tname<T>()); c.note("print ",tname<T>()," ",v.text()," ",show(m)); c.nontrivial = m.v.size() > 1;
    std::vector<std::string> l = lines_of(captured([&]{ boofcv::print(*v.img); })); c.check(v.untouched(),"printing modified the image"); while( !l.empty() && l.back().empty() ) l.pop_back();
    c.check(l.size() == h+1,"printed image has ",l.size()," lines instead of ",h+1); std::vector<std::string> a = words(l[0]); c.check(a.size() == 4 && a[0] == "image" && a[1] == std::to_string(w) && a[2] == "x" && a[3] == std::to_string(h),"header '",l[0],"' for a ",w,"x",h," image");
    for( uint32_t y = 0; y < h; y++ ) { a = words(l[y+1]); c.check(a.size() == w+2 && a.front() == "[" && a.back() == "]","row ",y," is printed as '",l[y+1],"'"); for( uint32_t x = 0; x < w; x++ ) same_number(c,a[x+1],m.at(x,y),true,"pixel",x,y); }
}
template<class T> void difference(Source& s, Ctx& c) {
    uint32_t w,h; gen_shape(s,w,h,12,60); const bool integral = std::is_integral<T>::value; Mat<T> a = integral ? any<T>(s,w,h) : gen_mat<T>(s,w,h,-1000,1000), b = a; if( sizeof(T) == 4 && integral ) for( auto& p : a.v ) p /= 4; b = a; bool other = s.draw(5) == 4; int near = (int)s.draw(4); double tol = s.flag() ? -1 : (double)s.draw(20)*(integral ? 1 : 0.125); if( integral && tol > (double)std::numeric_limits<T>::max() ) tol = 1;
    double eff = tol < 0 ? (integral ? 0 : std::sqrt((double)std::numeric_limits<T>::epsilon())) : tol; Stream st(s.draw(1000)); for( auto& p : b.v ) if( st.below(near == 3 ? 1 : 3) == 0 ) { double d = near == 0 ? eff*2+1 : near == 1 ? (integral ? eff : eff*0.5) : near == 2 ? (integral ? eff+1 : eff*2) : (double)st.below(30); double q = (double)p+(st.below(2) ? d : -d); if( q <= (double)std::numeric_limits<T>::max() && q >= (double)std::numeric_limits<T>::lowest() ) p = (T)q; }
    uint32_t ow = w, oh = h; if( other ) { if( s.flag() ) ow += 1+(uint32_t)s.draw(3); else oh += 1+(uint32_t)s.draw(3); b = any<T>(s,ow,oh); } View<T> va, vb; va.build(s,a); vb.build(s,b); c.label(std::string("difference ")+tname<T>()); c.note("difference ",tname<T>()," tolerance ",tol," ",va.text()," ",show(a)," and ",vb.text()," ",show(b));
    bool threw = false; std::vector<std::string> l = lines_of(captured([&]{ threw = throws([&]{ if( tol < 0 ) print_difference(*va.img,*vb.img); else print_difference(*va.img,*vb.img,(T)tol); }); })); c.check(va.untouched() && vb.untouched(),"printing a difference modified an image"); if( other ) { c.check(threw,"images of different shapes were compared"); c.label("other shape"); return; } c.check(!threw,"images of one shape were rejected"); c.nontrivial = a.v.size() > 1;
    c.check(l.size() == h,"difference has ",l.size()," lines instead of ",h); for( uint32_t y = 0; y < h; y++ ) { c.check(l[y].size() == w,"row ",y," of the difference is '",l[y],"'"); for( uint32_t x = 0; x < w; x++ ) { double d = std::fabs((double)a.at(x,y)-(double)b.at(x,y)); c.check(l[y][x] == 'X' || l[y][x] == '-',"difference holds '",l[y][x],"'"); if( !integral && std::fabs(d-eff) <= 1e-3*eff+1e-12 ) continue; c.check((l[y][x] == 'X') == (d > eff),"pixels ",+a.at(x,y)," and ",+b.at(x,y)," at (",x,",",y,") are shown as '",l[y][x],"' with tolerance ",eff); } }
}
template<class E> void kernel(Source& s, Ctx& c) {
    bool two = s.flag(); uint32_t w = 1+(uint32_t)s.draw(two ? 9 : 30), o = (uint32_t)s.draw(w), big = s.draw(3) == 2 ? w+(uint32_t)s.draw(8) : w, n = two ? w*w : w; std::vector<E> v(n); for( auto& e : v ) e = (E)(((double)s.draw(2000001)-1000000)*(std::is_integral<E>::value ? 1 : 0.37)); c.label(two ? "2D kernel" : "1D kernel"); c.note(two ? "Kernel2D " : "Kernel1D ",tname<E>()," width ",w," origin ",o," made from one of width ",big); c.nontrivial = n > 1; std::string text;
    if( two ) { Kernel2D<E> k(big,0); k.reshape(w,o); for( uint32_t i = 0; i < n; i++ ) k.at(i%w,i/w) = v[i]; text = captured([&]{ print_kernel(k); }); } else { Kernel1D<E> k(big,0); k.reshape(w,o); for( uint32_t i = 0; i < n; i++ ) k.at(i) = v[i]; text = captured([&]{ print_kernel(k); }); }
    std::vector<std::string> l = lines_of(text);
    if( !two ) { c.check(l.size() == 1,"kernel is printed on ",l.size()," lines"); std::vector<std::string> a = words(l[0]); c.check(a.size() == w+2 && a[0] == "Kernel1D[" && a.back() == "]","kernel is printed as '",l[0],"'"); for( uint32_t i = 0; i < w; i++ ) same_number(c,a[i+1],v[i],false,"weight",i,0); return; }
    c.check(l.size() == w+1,"kernel is printed on ",l.size()," lines instead of ",w+1); c.check(l[0] == "Kernel2D{ offset="+std::to_string(o)+", width="+std::to_string(w)+" }","header '",l[0],"'"); for( uint32_t y = 0; y < w; y++ ) { std::vector<std::string> a = words(l[y+1]); c.check(a.size() == w,"row ",y," is printed as '",l[y+1],"'"); for( uint32_t x = 0; x < w; x++ ) same_number(c,a[x],v[y*w+x],false,"weight",x,y); }
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(14) ) {
        case 0: image<U8>(s,c); break; case 1: image<S16>(s,c); break; case 2: image<U16>(s,c); break; case 3: image<S32>(s,c); break; case 4: image<F32>(s,c); break; case 5: image<F64>(s,c); break;
        case 6: difference<U8>(s,c); break; case 7: difference<S16>(s,c); break; case 8: difference<S32>(s,c); break; case 9: difference<F32>(s,c); break; case 10: difference<F64>(s,c); break;
        case 11: kernel<S32>(s,c); break; case 12: kernel<F32>(s,c); break; default: kernel<F64>(s,c);
    }
}
