// C15: growable arrays and kernels against vectors
#include "common.h"
#include "convolve_kernels.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C15";
const char* PBT_RULE = "A case is a history of up to 50 operations (construct, resize, grow, fill, set, list assignment, assignment, copy, wrapping of external memory, checked access, out of range access) over four growable arrays or four 1D/2D kernels. Non-trivial: some array was reallocated after it held values, or was copied and then written.";
const char* PBT_ASSUMPTIONS = "elements an array held before it shrank are unspecified when it grows again within its capacity, and so are new elements when the default changed after their storage was made | assignment to a wrapping array is expected to throw";
uint64_t PBT_CASES_QUICK = 240000;

template<class T> T value(uint64_t k) {
    switch( k%8 ) {
        case 0: return (T)0; case 1: return (T)1; case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::lowest();
        case 4: return (T)7; case 5: return std::is_floating_point<T>::value ? (T)(-1.25) : (T)200; default: return (T)(int64_t)(k/8*2654435761u%100000);
    }
}
template<class T, class F> void with_list(const std::vector<T>& v, F f) {
    switch( v.size() ) {
        case 0: f(std::initializer_list<T>{}); break; case 1: f({v[0]}); break; case 2: f({v[0],v[1]}); break; case 3: f({v[0],v[1],v[2]}); break;
        case 4: f({v[0],v[1],v[2],v[3]}); break; case 5: f({v[0],v[1],v[2],v[3],v[4]}); break; default: f({v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12]}); break;
    }
}
template<class T> std::vector<T> list_values(Source& s) { std::vector<T> v(s.draw(7)); if( v.size() == 6 ) v.resize(13); for( auto& e : v ) e = value<T>(s.draw(4000)); return v; }
// sizes of a case: mostly small, now and then hundreds or beyond 2^16
struct Sizes { int mode; uint32_t operator()(Source& s, uint32_t small) const { if( mode && s.draw(3) == 2 ) return mode == 1 ? (uint32_t)s.draw(700) : mode == 3 ? (uint32_t)s.draw(5000) : 65000+(uint32_t)s.draw(1100); return (uint32_t)s.draw(small); } };
Sizes gen_sizes(Source& s, Ctx& c) { uint64_t m = s.draw(300); Sizes z{m == 299 ? 2 : m >= 297 ? 3 : m >= 285 ? 1 : 0}; if( z.mode ) c.label(z.mode == 3 ? "thousands of elements" : z.mode == 1 ? "hundreds of elements" : "more than 65535 elements"); return z; }
template<class T> struct ArrM { GrowArray<T>* a = nullptr; std::vector<T> v; std::vector<char> known; T def = 0; bool wraps = false; uint32_t high = 0; bool def_changed = false; /* largest size since its storage was made, whether the default changed since */ std::vector<T>* ext = nullptr; std::vector<T>* ext_model = nullptr;
    void drop() { delete a; a = nullptr; v.clear(); known.clear(); def = 0; wraps = false; high = 0; def_changed = false; }
};
template<class T> void verify(Ctx& c, const ArrM<T>& m, int i) {
    const GrowArray<T>& a = *m.a;
    c.check(a.size == m.v.size(),"array ",i," size ",a.size," expected ",m.v.size());
    c.check(a.array_length >= a.size,"array ",i," capacity ",a.array_length," below its size ",a.size);
    for( uint32_t k = 0; k < a.size; k++ ) if( m.known[k] ) c.check(a[k] == m.v[k] && a.at(k) == m.v[k],"array ",i," element ",k," is ",+a[k]," expected ",+m.v[k]);
}
template<class T> void arrays(Source& s, Ctx& c) {
    const int N = 4; ArrM<T> m[N]; Sizes size = gen_sizes(s,c);
    std::vector<T> ext[N], ext_model[N];
    struct Clean { ArrM<T>* m; ~Clean() { for( int i = 0; i < N; i++ ) m[i].drop(); } } clean{m};
    c.note("arrays of ",tname<T>(),":"); c.label(std::string("array ")+tname<T>());
    auto create = [&](int i) {
        ArrM<T>& x = m[i]; x.drop();
        switch( s.draw(5) ) {
            case 0: c.note(" ",i,":new()"); x.a = new GrowArray<T>(); x.v.assign(x.a->size,0); x.known.assign(x.v.size(),1); c.check(x.v.size() == 10,"default array has ",x.v.size()," elements, expected 10"); break;
            case 1: { uint32_t n = size(s,20); c.note(" ",i,":new(",n,")"); x.a = new GrowArray<T>(n); x.v.assign(n,0); x.known.assign(n,1); break; }
            case 2: { x.v = list_values<T>(s); c.note(" ",i,":new{",x.v.size(),"}"); with_list<T>(x.v,[&](std::initializer_list<T> l){ x.a = new GrowArray<T>(l); }); x.known.assign(x.v.size(),1); break; }
            case 3: { uint32_t len = size(s,12), n = (uint32_t)s.draw(len+1); c.note(" ",i,":wrap(",len,",",n,")"); ext[i].assign(len,0); if( len > 40 ) { Stream st(s.draw(1000)); for( auto& e : ext[i] ) e = value<T>(st.below(4000)); } else for( auto& e : ext[i] ) e = value<T>(s.draw(4000)); ext_model[i] = ext[i];
                x.a = new GrowArray<T>(ext[i].data(),len,n); x.v.assign(ext[i].begin(),ext[i].begin()+n); x.known.assign(n,1); x.wraps = true; c.label("wrapping array"); break; }
            default: { int j = (int)s.draw(N); if( j == i || !m[j].a ) { x.a = new GrowArray<T>((uint32_t)3); x.v.assign(3,0); x.known.assign(3,1); c.note(" ",i,":new(3)"); } else { c.note(" ",i,":copy of ",j); x.a = new GrowArray<T>(*m[j].a); x.v = m[j].v; x.known = m[j].known; x.def = m[j].def; c.label("copy"); } }
        }
    };
    for( int i = 0; i < N; i++ ) { create(i); m[i].high = m[i].a->size; }
    int n = 1+(int)s.draw(size.mode == 2 ? 6 : size.mode == 3 ? 16 : 50);
    for( int q = 0; q < n; q++ ) {
        int i = (int)s.draw(N); ArrM<T>& x = m[i]; GrowArray<T>& a = *x.a;
        uint32_t op = (uint32_t)s.draw(12);
        switch( op ) {
            case 0: { if( s.draw(3) == 2 ) { create(i); break; } T v = value<T>(s.draw(4000)); c.note(" ",i,".default=",+v); a.default_value = v; if( v != x.def ) x.def_changed = true; x.def = v; break; }
            case 1: case 2: case 3: {
                uint32_t z = size(s,s.flag() ? 30 : 6); c.note(" ",i,".resize(",z,")");
                if( x.wraps ) { c.check(throws([&]{ a.resize(z); }),"resize of a wrapping array did not throw"); break; }
                bool fresh = z > a.array_length; uint32_t old = a.size;
                a.resize(z); { uint32_t n0 = (uint32_t)x.v.size(); x.v.resize(z,x.def); x.known.resize(z,fresh ? 1 : 0); if( fresh ) x.def_changed = false; else for( uint32_t k = std::max(n0,x.high); k < z; k++ ) if( !x.def_changed ) x.known[k] = 1; /* never held anything */ } if( fresh && old ) c.nontrivial = true; if( fresh ) c.label("reallocated");
                break; }
            case 4: {
                uint32_t z = size(s,30); c.note(" ",i,".grow_array(",z,")");
                if( x.wraps ) { c.check(throws([&]{ a.grow_array(z); }),"grow_array of a wrapping array did not throw"); break; }
                bool fresh = z > a.array_length; a.grow_array(z); x.v.clear(); x.known.clear(); if( fresh ) x.def_changed = false;
                c.check(a.size == 0 && a.array_length >= z,"grow_array(",z,") leaves size ",a.size," capacity ",a.array_length);
                if( fresh && z && s.flag() ) { uint32_t k = 1+(uint32_t)s.draw(z); c.note(" ",i,".resize(",k,")"); a.resize(k); x.v.assign(k,x.def); x.known.assign(k,1); }
                break; }
            case 5: { T v = value<T>(s.draw(4000)); c.note(" ",i,".fill(",+v,")"); a.fill(v); for( size_t k = 0; k < x.v.size(); k++ ) { x.v[k] = v; x.known[k] = 1; } if( x.wraps ) for( size_t k = 0; k < x.v.size(); k++ ) ext_model[i][k] = v; break; }
            case 6: {
                std::vector<T> src(size(s,25)); if( src.size() > 40 ) { Stream st(s.draw(1000)); for( auto& e : src ) e = value<T>(st.below(4000)); } else for( auto& e : src ) e = value<T>(s.draw(4000)); c.note(" ",i,".set(",src.size()," values)");
                if( x.wraps ) { c.check(throws([&]{ a.set(src.data(),(uint32_t)src.size()); }),"set of a wrapping array did not throw"); break; }
                a.set(src.data(),(uint32_t)src.size()); x.v = src; x.known.assign(src.size(),1); break; }
            case 7: {
                std::vector<T> src = list_values<T>(s); c.note(" ",i,".setTo{",src.size(),"}");
                bool t = throws([&]{ with_list<T>(src,[&](std::initializer_list<T> l){ a.setTo(l); }); });
                if( x.wraps ) { c.check(t,"setTo of a wrapping array did not throw"); break; }
                c.check(!t,"setTo threw"); x.v = src; x.known.assign(src.size(),1); break; }
            case 8: {
                int j = (int)s.draw(N); c.note(" ",i,"=",j);
                if( i == j ) { a = *m[j].a; break; }
                if( x.wraps ) { c.check(throws([&]{ a = *m[j].a; }),"assignment to a wrapping array did not throw"); a.default_value = x.def; break; }
                a = *m[j].a; x.v = m[j].v; x.known = m[j].known; if( x.def != a.default_value ) x.def_changed = true; x.def = a.default_value; c.check(m[j].wraps || x.def == m[j].def,"assignment did not copy the default value"); c.label("assigned"); break; }
            case 9: case 10: {
                if( x.v.empty() ) break; uint32_t k = (uint32_t)s.draw(x.v.size()); T v = value<T>(s.draw(4000)); c.note(" ",i,"[",k,"]=",+v);
                if( s.flag() ) a.at(k) = v; else a[k] = v; x.v[k] = v; x.known[k] = 1; if( x.wraps ) ext_model[i][k] = v; break; }
            default: { uint32_t k = a.size+(uint32_t)s.draw(3)*(uint32_t)s.draw(5); if( s.draw(5) == 4 ) k = 0xFFFFFFFFu; c.note(" ",i,".at(",k,") invalid"); c.check(throws([&]{ a.at(k); }),"at(",k,") of ",a.size," elements did not throw"); }
        }
        for( int k = 0; k < N; k++ ) {
            verify(c,m[k],k); m[k].high = std::max(m[k].high,m[k].a->size);
            if( m[k].wraps ) { c.check(m[k].a->data == ext[k].data() && m[k].a->array_length == ext[k].size(),"wrapping array no longer refers to its memory"); for( size_t e = 0; e < ext[k].size(); e++ ) c.check(ext[k][e] == ext_model[k][e],"external element ",e," is ",+ext[k][e]," expected ",+ext_model[k][e]); }
        }
    }
    for( int i = 0; i < N; i++ ) { bool w = m[i].wraps; m[i].drop(); if( w ) for( size_t e = 0; e < ext[i].size(); e++ ) c.check(ext[i][e] == ext_model[i][e],"destroying a wrapping array changed the external memory"); }
}
template<class E> struct KerM { Kernel1D<E>* k1 = nullptr; Kernel2D<E>* k2 = nullptr; uint32_t w = 0, o = 0; std::vector<E> v; std::vector<char> known;
    KernelBase<E>& base() { if( k1 ) return *k1; return *k2; }
    void drop() { delete k1; delete k2; k1 = nullptr; k2 = nullptr; v.clear(); known.clear(); w = o = 0; } };
template<class E> void kernels(Source& s, Ctx& c) {
    const int N = 4; KerM<E> m[N]; bool two = s.flag(), wide = s.draw(60) == 59; if( wide ) c.label("wide kernels"); auto width = [&](uint32_t small) { return 1+(uint32_t)s.draw(wide && s.flag() ? (two ? 40 : 600) : small); };
    struct Clean { KerM<E>* m; ~Clean() { for( int i = 0; i < N; i++ ) m[i].drop(); } } clean{m};
    c.note(two ? "2D" : "1D"," kernels of ",tname<E>(),":"); c.label(two ? "2D kernels" : "1D kernels");
    auto area = [&](uint32_t w) { return two ? w*w : w; };
    auto create = [&](int i) {
        KerM<E>& x = m[i]; x.drop(); uint32_t kind = (uint32_t)s.draw(5);
        if( kind == 0 ) { c.note(" ",i,":new()"); if( two ) x.k2 = new Kernel2D<E>(); else x.k1 = new Kernel1D<E>(); return; }   // zero width, storage unspecified
        if( kind == 1 ) { x.w = width(7); x.o = (uint32_t)s.draw(x.w); c.note(" ",i,":new(",x.w,",",x.o,")"); if( two ) x.k2 = new Kernel2D<E>(x.w,x.o); else x.k1 = new Kernel1D<E>(x.w,x.o); x.v.assign(area(x.w),0); x.known.assign(x.v.size(),1); }
        else if( kind == 2 ) { x.w = width(7); x.o = x.w/2; c.note(" ",i,":new(",x.w,")"); if( two ) x.k2 = new Kernel2D<E>(x.w); else x.k1 = new Kernel1D<E>(x.w); x.v.assign(area(x.w),0); x.known.assign(x.v.size(),1); }
        else if( kind == 3 ) {
            x.w = 1+(uint32_t)s.draw(4); x.o = (uint32_t)s.draw(x.w); x.v.resize(area(x.w)); for( auto& e : x.v ) e = value<E>(s.draw(4000)); x.known.assign(x.v.size(),1); c.note(" ",i,":new(",x.o,",{",x.w,"})");
            if( !two ) with_list<E>(x.v,[&](std::initializer_list<E> l){ x.k1 = new Kernel1D<E>(x.o,l); });
            else { auto& v = x.v; typedef std::initializer_list<std::initializer_list<E>> L;
                switch( x.w ) { case 1: x.k2 = new Kernel2D<E>(x.o,L{{v[0]}}); break; case 2: x.k2 = new Kernel2D<E>(x.o,L{{v[0],v[1]},{v[2],v[3]}}); break;
                    case 3: x.k2 = new Kernel2D<E>(x.o,L{{v[0],v[1],v[2]},{v[3],v[4],v[5]},{v[6],v[7],v[8]}}); break;
                    default: x.k2 = new Kernel2D<E>(x.o,L{{v[0],v[1],v[2],v[3]},{v[4],v[5],v[6],v[7]},{v[8],v[9],v[10],v[11]},{v[12],v[13],v[14],v[15]}}); } }
        } else { int j = (int)s.draw(N); if( j == i || (!m[j].k1 && !m[j].k2) ) { j = -1; x.w = 3; x.o = 1; if( two ) x.k2 = new Kernel2D<E>(3); else x.k1 = new Kernel1D<E>(3); x.v.assign(area(3),0); x.known.assign(x.v.size(),1); }
            else { if( two ) x.k2 = new Kernel2D<E>(*m[j].k2); else x.k1 = new Kernel1D<E>(*m[j].k1); x.w = m[j].w; x.o = m[j].o; x.v = m[j].v; x.known = m[j].known; } c.note(" ",i,":copy of ",j); c.label("kernel copy"); c.nontrivial = true; }
    };
    for( int i = 0; i < N; i++ ) create(i);
    int n = 1+(int)s.draw(40);
    for( int q = 0; q < n; q++ ) {
        int i = (int)s.draw(N); KerM<E>& x = m[i]; 
        switch( s.draw(6) ) {
            case 0: create(i); break;
            case 1: { uint32_t w = width(9), o = (uint32_t)s.draw(w); c.note(" ",i,".reshape(",w,",",o,")"); uint32_t cap = x.base().data.array_length; uint32_t old = x.base().data.size; x.base().reshape(w,o); if( x.w == 0 ) old = std::min<uint32_t>(old,0); bool fresh = area(w) > cap;
                size_t keep = x.v.size(); x.w = w; x.o = o; x.v.resize(area(w),0); x.known.resize(area(w),0); if( fresh ) { c.nontrivial = true; for( size_t k = std::max<size_t>(keep,x.base().data.size < 10 ? 0 : 0); k < x.known.size(); k++ ) if( k >= keep && k >= cap ) x.known[k] = 1; }
                (void)old; break; }
            case 2: { int j = (int)s.draw(N); c.note(" ",i,"=",j); if( two ) *x.k2 = *m[j].k2; else *x.k1 = *m[j].k1; if( i != j ) { x.w = m[j].w; x.o = m[j].o; x.v = m[j].v; x.known = m[j].known; } c.nontrivial = true; break; }
            case 3: case 4: { if( x.v.empty() ) break; uint32_t a = (uint32_t)s.draw(x.w), b = two ? (uint32_t)s.draw(x.w) : 0; E v = value<E>(s.draw(4000)); c.note(" ",i,".at(",a,",",b,")=",+v); if( two ) x.k2->at(a,b) = v; else if( s.flag() ) x.k1->at(a) = v; else (*x.k1)[a] = v; uint32_t k = b*x.w+a; x.v[k] = v; x.known[k] = 1; break; }
            default: { if( x.w == 0 ) break; uint32_t a = (uint32_t)s.draw(x.w+3), b = (uint32_t)s.draw(x.w+3); c.note(" ",i,".at(",a,",",b,") checked"); bool bad = a >= x.w || (two && b >= x.w); bool t = throws([&]{ if( two ) x.k2->at(a,b); else x.k1->at(a); }); c.check(t == bad,"at(",a,",",b,") of a kernel of width ",x.w,bad ? " did not throw" : " threw"); }
        }
        for( int k = 0; k < N; k++ ) {
            KernelBase<E>& b = m[k].base(); if( m[k].w == 0 ) { c.check(b.width == 0,"empty kernel has a width"); continue; }
            c.check(b.width == m[k].w && b.offset == m[k].o && b.radius() == m[k].w/2,"kernel ",k," width ",b.width," origin ",b.offset," expected ",m[k].w," ",m[k].o);
            c.check(b.dimension() == (two ? 2u : 1u),"kernel dimension is ",b.dimension());
            c.check(b.data.size == m[k].v.size(),"kernel ",k," has ",b.data.size," elements, expected ",m[k].v.size());
            for( uint32_t e = 0; e < b.data.size; e++ ) if( m[k].known[e] ) { E f = two ? m[k].k2->at(e%m[k].w,e/m[k].w) : m[k].k1->at(e); c.check(f == m[k].v[e] && b.data[e] == m[k].v[e],"kernel ",k," element ",e," is ",+f," expected ",+m[k].v[e]); }
        }
    }
    uint32_t w = (uint32_t)s.draw(4), o = w+(uint32_t)s.draw(3);
    c.check(throws([&]{ if( two ) Kernel2D<E> k(w,o); else Kernel1D<E> k(w,o); }),"kernel of width ",w," with origin ",o," was accepted");
}
void pbt_case(Source& s, Ctx& c) {
    uint64_t t = s.draw(10); c.note("history starts here, a long enough header: "); 
    long before = live_allocations();
    switch( t ) {
        case 0: arrays<S32>(s,c); break; case 1: arrays<U8>(s,c); break; case 2: arrays<S16>(s,c); break; case 3: arrays<U16>(s,c); break; case 4: arrays<S64>(s,c); break;
        case 5: arrays<F32>(s,c); break; case 6: arrays<F64>(s,c); break; case 7: kernels<S32>(s,c); break; case 8: kernels<F32>(s,c); break; default: kernels<F64>(s,c); break;
    }
    c.check(live_allocations() == before,"heap allocations leaked: ",live_allocations()-before);
}
