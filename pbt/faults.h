// Drives a call through allocation faults: every (or a choice of) allocation it makes is made to fail once, alone, together
// with all later ones, or twice in a row, and the call is then repeated
#pragma once
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
namespace pbt {
typedef std::vector<double> Blob;
// objects and one call on them
struct Trial {
    virtual ~Trial() {}
    virtual void call() = 0;                 // the call which has no memory
    virtual void after(Ctx&) = 0;            // it failed: are the objects still usable?
    virtual void result(Ctx&, Blob&) = 0;    // what it did when it succeeded
};
typedef std::function<std::unique_ptr<Trial>()> MakeTrial;
template<class S> struct LTrial : Trial {
    S s; std::function<void(S&)> f; std::function<void(Ctx&,S&)> a; std::function<void(Ctx&,S&,Blob&)> r;
    template<class... A> LTrial(A&&... x) : s(std::forward<A>(x)...) {}
    void call() override { f(s); } void after(Ctx& c) override { a(c,s); } void result(Ctx& c, Blob& b) override { r(c,s,b); }
};
// 0 fine, 1 refused (another exception), 2 out of memory
inline int run_call(Trial& t, uint64_t k, bool onwards, uint64_t& seen, uint64_t& hit, std::string& why) {
    int r = 0; fail_allocation(k,onwards);
    try { t.call(); } catch( const std::bad_alloc& ) { end_allocation_faults(); r = 2; } catch( const std::exception& e ) { end_allocation_faults(); r = 1; why = e.what(); }
    seen = end_allocation_faults(); hit = allocations_failed();
    return r;
}
inline void first_difference(Ctx& c, const Blob& want, const Blob& got, const std::string& what) {
    if( want.size() == got.size() && (want.empty() || memcmp(want.data(),got.data(),want.size()*sizeof(double)) == 0) ) return;
    size_t i = 0; while( i < want.size() && i < got.size() && memcmp(&want[i],&got[i],8) == 0 ) i++;
    c.fail(what,": value ",i," of ",got.size()," is ",i < got.size() ? got[i] : -1," instead of ",i < want.size() ? want[i] : -1," (of ",want.size(),")");
}
// what a process in which nothing else was called gets: the work is done in a child. The last value is how it ended
template<class F> bool in_child(Blob& b, F f) {
    const size_t most = 1<<17; double* m = (double*)mmap(nullptr,most*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if( m == MAP_FAILED ) return false; m[0] = -1;
    pid_t pid = fork(); if( pid == 0 ) { Blob x; f(x); if( x.size() < most ) { for( size_t i = 0; i < x.size(); i++ ) m[i+1] = x[i]; m[0] = (double)x.size(); } _exit(0); }
    int st = 0; if( pid > 0 ) while( waitpid(pid,&st,0) < 0 && errno == EINTR ) {}
    bool ok = pid > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0 && m[0] >= 0; if( ok ) b.assign(m+1,m+1+(size_t)m[0]); munmap(m,most*8); return ok;
}
inline void drive(Source& s, Ctx& c, const MakeTrial& make, const std::string& name) {
    Blob want; uint64_t n,hit; std::string why; int expect; bool early = s.draw(4) != 0; uint64_t k0 = 1+s.draw(s.draw(4) == 3 ? 40 : 6); bool on0 = s.draw(4) == 3;
    if( early && pbt_fresh ) {   // the very first calls of a process
        Blob alone; bool have = in_child(alone,[&](Blob& b) { auto t = make(); uint64_t a,h; std::string w; int r = run_call(*t,0,false,a,h,w); if( !r ) t->result(c,b); b.push_back(r); });
        auto t = make(); uint64_t a,h; std::string w; int r = run_call(*t,k0,on0,a,h,w); std::ostringstream q; q << name << ", first call of the process, allocation " << k0 << (on0 ? " and later ones fail" : " fails"); std::string what = q.str();
        if( r == 2 ) { c.check(h > 0,what,": out of memory without cause"); c.nontrivial = true; c.label("first call of a process failed"); t->after(c); r = run_call(*t,0,false,a,h,w); }
        if( have && !(r == 1 && alone.back() == 0 && h) ) { Blob b; if( !r ) t->result(c,b); b.push_back(r); first_difference(c,alone,b,what+": the repeated call"); }
    }
    { auto t = make(); expect = run_call(*t,0,false,n,hit,why); if( !expect ) t->result(c,want); }
    c.note(name,": ",n," allocations",expect ? ", refused: " : "",why); c.label(name); if( expect ) c.label("refused: "+name);
    uint64_t seed = s.draw(1000); Stream st(seed); std::vector<uint64_t> ks; if( !n ) { c.label("no allocation: "+name); return; }
    if( n <= 16 ) for( uint64_t k = 1; k <= n; k++ ) ks.push_back(k); else { for( uint64_t k = 1; k <= 5; k++ ) ks.push_back(k); ks.push_back(n); for( int i = 0; i < 8; i++ ) ks.push_back(6+st.below(n-5)); }
    auto one = [&](uint64_t k, bool onwards, bool twice, uint64_t k2) {
        auto t = make(); uint64_t seen,hit2; std::string w2; std::ostringstream q; q << name << ", allocation " << k << (onwards ? " and later ones fail" : " fails") << (twice ? ", then another one in the repeated call" : ""); std::string what = q.str();
        for( int round = 0; round < (twice ? 2 : 1); round++ ) {
            int r = run_call(*t,round ? k2 : k,onwards,seen,hit2,w2);
            if( hit2 == 0 ) { if( r != 2 ) { Blob b; if( !expect ) t->result(c,b); c.check(r == expect,what,": the repeated call ended differently ",w2); first_difference(c,want,b,what+": after the repeated call"); return; } c.fail(what,": out of memory without cause"); }
            if( r == 2 ) { c.nontrivial = true; t->after(c); }
            else if( r == 1 && expect != 1 ) c.fail(what,": the caller gets another exception: ",w2);
            else { Blob b; if( !expect ) t->result(c,b); c.check(r == expect,what,": reported as refused before: ",why); first_difference(c,want,b,what+", no exception reaches the caller and the result is wrong"); return; }
        }
        int r = run_call(*t,0,false,seen,hit2,w2); c.check(r == expect,what,": repeating the call with memory available ends with ",r == 0 ? "success" : w2.c_str()," instead of ",expect == 0 ? "success" : why.c_str());
        Blob b; if( !expect ) t->result(c,b); first_difference(c,want,b,what+": after the repeated call");
    };
    for( uint64_t k : ks ) {
        bool onwards = st.below(4) == 0, twice = st.below(3) == 0; uint64_t k2 = 1+st.below(n); long leaked = 0;
        for( int attempt = 0; attempt < 2; attempt++ ) { long before = live_allocations(); one(k,onwards,twice,k2); leaked = live_allocations()-before; if( leaked == 0 ) break; }
        if( leaked ) c.fail(name,", allocation ",k,onwards ? " and later ones fail" : " fails",": ",leaked > 0 ? leaked : -leaked," allocations ",leaked > 0 ? "are never freed" : "were freed twice");
    }
}
// every pixel can be read and written
template<class T> bool consistent(const Gray<T>& g) {
    if( g.width == 0 || g.height == 0 ) return true;
    if( g.data == nullptr || g.stride < g.width || (uint64_t)g.offset+(uint64_t)(g.height-1)*g.stride+g.width > g.data_length ) return false;
    for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) { volatile T* p = &g.at(x,y); T v = *p; *p = v; }
    return true;
}
template<class T> bool consistent(const boofcv::Interleaved<T>& g) {
    if( g.width == 0 || g.height == 0 || g.num_bands == 0 ) return true;
    if( g.data == nullptr || g.stride < g.width*g.num_bands || (uint64_t)g.offset+(uint64_t)(g.height-1)*g.stride+g.width*g.num_bands > g.data_length ) return false;
    for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) for( uint32_t k = 0; k < g.num_bands; k++ ) { volatile T* p = &g.at(x,y,k); T v = *p; *p = v; }
    return true;
}
template<class T> bool consistent(const boofcv::Planar<Gray<T>>& g) {
    for( uint32_t k = 0; k < g.num_bands; k++ ) { const Gray<T>& b = g.getBand(k); if( b.width != g.width || b.height != g.height || !consistent(b) ) return false; }
    return true;
}
template<class T> bool consistent(const boofcv::GrowArray<T>& a) {
    if( a.size > a.array_length || (a.size && !a.data) ) return false;
    for( uint32_t k = 0; k < a.size; k++ ) { volatile T* p = &a.at(k); T v = *p; *p = v; }
    return true;
}
template<class T> void put(Blob& b, const Gray<T>& g) { b.push_back(g.width); b.push_back(g.height); for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) b.push_back((double)g.at(x,y)); }
template<class T> void put(Blob& b, const boofcv::Interleaved<T>& g) { b.push_back(g.width); b.push_back(g.height); b.push_back(g.num_bands); for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) for( uint32_t k = 0; k < g.num_bands; k++ ) b.push_back((double)g.at(x,y,k)); }
template<class T> void put(Blob& b, const boofcv::Planar<Gray<T>>& g) { b.push_back(g.width); b.push_back(g.height); b.push_back(g.num_bands); for( uint32_t k = 0; k < g.num_bands; k++ ) put(b,g.getBand(k)); }
template<class T> void put(Blob& b, const boofcv::GrowArray<T>& a) { b.push_back(a.size); for( uint32_t k = 0; k < a.size; k++ ) b.push_back((double)a[k]); }
} // namespace pbt
