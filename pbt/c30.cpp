// C30: native calls inside which memory or the virtual machine fails
#include "jni_api.h"
#include "jni_contour.h"
#include "binary_gen.h"
#include "config_types.h"
#include "faults.h"
pbt::FakeVM* pbt::g_vm = nullptr;
const char* PBT_PROPERTY = "C30";
const char* PBT_RULE = "A case is one native entry point on drawn Java objects. It is called once undisturbed and then once for each thing which can fail in it (a choice of 12 each when there are more): an allocation (alone or with all later ones), a field, method or class lookup, access to an array's elements, a Java method. After each failure the call is repeated. Non-trivial: at least one fault was met.";
const char* PBT_ASSUMPTIONS = "the VM is a stand-in; no real JVM is involved | a Java method which fails has no effect | output and storage images have the input's shape, as the Java callers ensure";
uint64_t PBT_CASES_QUICK = 30000;

template<class T> struct Img { JImage<T> i; Img(const JImage<T>& p) : i(p) { i.o.ref["data"].second = &i.arr; } jobject j() { return i.j(); } };
// one native call and the objects it works with
struct Scene {
    FakeVM vm; JNIEnv* e; explicit Scene(bool copying) : vm(copying), e(&vm.env) {}
    virtual ~Scene() {}
    virtual void call() = 0;
    virtual void frame(Ctx&, const std::string&) {}             // what no call changes
    virtual void failed(Ctx&, const std::string&) {}            // after a call which failed
    virtual void result(Ctx&, Blob&) {}                         // after a call which succeeded
    virtual void finish(Ctx&) {}
};
static std::string escaped_text;
// 0 returned, 1 a Java exception is pending
static int attempt(Ctx& c, Scene& t, const std::string& what) {
    escaped_text.clear(); bool escaped = false;
    try { t.call(); } catch( const std::exception& x ) { end_allocation_faults(); escaped = true; escaped_text = x.what(); } catch( const char* x ) { end_allocation_faults(); escaped = true; escaped_text = x; } catch( ... ) { end_allocation_faults(); escaped = true; escaped_text = "something"; }
    end_allocation_faults(); FakeVM& v = t.vm; v.vm_at = 0;
    if( !v.problem.empty() ) c.fail(what,": ",v.problem);
    if( escaped ) c.fail(what,": C++ exception left the native function: ",escaped_text);
    c.check(v.held.empty(),what,": ",v.held.size()," array(s) not released, first is a ",v.held.empty() ? "" : v.held[0].array->cls);
    bool p = v.pending; v.pending = false; v.returned(); t.frame(c,what); return p ? 1 : 0;
}
static void disturb(Source& s, Ctx& c, const std::function<std::unique_ptr<Scene>()>& make, const std::string& name) {
    std::map<std::string,std::vector<uint64_t>> points; Blob want; int expect; uint64_t na, nv; Stream st(s.draw(1000)); bool pends = s.flag(), early = s.draw(4) != 0, vm0 = s.draw(3) != 0; uint64_t k0 = 1+s.draw(s.flag() ? 50 : 8);
    if( early && pbt_fresh ) {   // the very first calls of a process
        std::string what = name+", first call of the process", met; Blob alone, b; bool have = in_child(alone,[&](Blob& b) { auto t = make(); int r = attempt(c,*t,name); if( !r ) t->result(c,b); b.push_back(r); });
        auto t = make(); if( vm0 ) t->vm.fail_vm(k0,pends); else fail_allocation(k0); int r = attempt(c,*t,what); if( vm0 ? t->vm.vm_hit : allocations_failed() ) { c.nontrivial = true; c.label("first call of a process failed"); if( vm0 ) what += ": "+t->vm.vm_what; if( r ) { t->failed(c,what); r = attempt(c,*t,what+", repeated"); } }
        if( !r ) t->result(c,b); b.push_back(r); if( have ) first_difference(c,alone,b,what+": the repeated call"); t->finish(c);
    }
    { auto t = make(); t->vm.fail_vm(0); t->vm.vm_points = &points; fail_allocation(0); expect = attempt(c,*t,name); nv = t->vm.vm_seen; if( !expect ) t->result(c,want); t->finish(c); }
    { auto t = make(); fail_allocation(0); try { t->call(); } catch( ... ) {} na = end_allocation_faults(); t->vm.pending = false; t->finish(c); }
    c.note(name,": ",na," allocations, ",nv," other things which can fail",expect ? ", refused" : ""); c.label(name); if( expect ) c.label("refused: "+name);
    struct Fault { bool vm; uint64_t k; bool onwards; }; std::vector<Fault> fs;
    // which of many: each kind of failure as often as the others, the first and the last of a kind more often
    auto pick = [&](bool vm, uint64_t n) { if( !vm ) return 1+st.below(n); auto it = points.begin(); std::advance(it,st.below(points.size())); auto& at = it->second; int how = (int)st.below(4); return how == 0 ? at[0] : how == 1 ? at.back() : how == 2 && at.size() > 1 ? at[1] : at[st.below(at.size())]; };
    auto some = [&](uint64_t n, bool vm) { std::vector<uint64_t> ks; if( n <= 12 ) for( uint64_t k = 1; k <= n; k++ ) ks.push_back(k); else for( int i = 0; i < 12; i++ ) ks.push_back(pick(vm,n)); for( auto k : ks ) fs.push_back(Fault{vm,k,!vm && st.below(3) == 0}); };
    some(na,false); some(nv,true);
    for( auto& f : fs ) {
        std::string what; bool met = false; long leaked = 0; bool again = st.below(4) == 0;
        for( int round = 0; round < 2; round++ ) {
            long before = live_allocations();
            { auto t = make(); std::ostringstream q; q << name << (f.vm ? ", virtual machine fault " : ", allocation ") << f.k << (f.onwards ? " and later ones fail" : " fails"); what = q.str();
            for( int i = 0; i < (again ? 2 : 1); i++ ) {
                if( f.vm ) t->vm.fail_vm(f.k,pends); else fail_allocation(f.k,f.onwards);
                int r = attempt(c,*t,what); bool hit = f.vm ? t->vm.vm_hit > 0 : allocations_failed() > 0; if( f.vm && hit ) { what += " ("+t->vm.vm_what+")"; if( round == 0 ) c.label("failed: "+t->vm.vm_what); }
                if( r && hit ) { met = true; t->failed(c,what); continue; }
                if( r && !expect ) c.fail(what,": a Java exception is pending without cause");
                Blob b; if( !expect ) { t->result(c,b); first_difference(c,want,b,what+(hit ? ": no exception is pending and the result is wrong" : ": the repeated call")); } break;
            }
            int r = attempt(c,*t,what+", repeated"); c.check(r == expect,what,": the repeated call ended ",r ? "with an exception" : "without an exception");
            Blob b; if( !expect ) { t->result(c,b); first_difference(c,want,b,what+": the repeated call"); }
            t->finish(c); }
            leaked = live_allocations()-before; if( leaked == 0 ) break;
        }
        if( leaked ) c.fail(what,": ",leaked > 0 ? leaked : -leaked," allocations ",leaked > 0 ? "are never freed" : "were freed twice");
        if( met ) c.nontrivial = true;
    }
}
template<class T> void put_image(Blob& b, const JImage<T>& i) { Mat<T> m = i.read(); for( auto v : m.v ) b.push_back((double)v); }
// convolution and blur: an object, a kernel, an input, an output and perhaps work storage
template<class T, class R> struct FilterScene : Scene {
    Img<T> in, work; Img<R> out; JObject self, jk, jarr; std::vector<uint8_t> weights; bool kernel = false, storage = false; std::function<void(FilterScene&)> f;
    FilterScene(bool copying, const JImage<T>& a, const JImage<R>& b, const JImage<T>& w) : Scene(copying), in(a), work(w), out(b) {}
    void call() override { f(*this); }
    void frame(Ctx& c, const std::string& what) override { c.check(in.i.untouched(),what,": input image modified"); c.check(out.i.around_intact(),what,": elements outside of the output image modified"); c.check(work.i.around_intact(),what,": elements outside of the storage image modified"); c.check(!kernel || jarr.bytes == weights,what,": kernel modified"); }
    void result(Ctx&, Blob& b) override { put_image(b,out.i); }
};
template<class T, class R> void filter_case(Source& s, Ctx& c) {
    typedef typename TypeInfo<T>::signed_type K; const bool integral = std::is_integral<T>::value; bool copying = s.flag(); uint32_t w,h; gen_shape(s,w,h,20,60,0); int what = std::is_same<T,R>::value && s.flag() ? 3+(int)s.draw(4) : (int)s.draw(3); if( what < 3 && std::is_same<R,U8>::value ) what = 3+(int)s.draw(4);
    JImage<T> a, wk; JImage<R> o; a.build(s,gen_mat<T>(s,w,h,0,255)); o.build(s,noise_mat<R>(s,w,h)); wk.build(s,noise_mat<T>(s,w,h)); Ker k; static const int code[] = {1,3,4,5,0,2,100}; int bk = code[s.draw(s.draw(6) == 5 ? 7 : 4)]; int radius = (int)s.draw(7); double sigma = s.draw(4) == 3 ? -1 : 0.3+(double)s.draw(40)/20;
    if( what < 3 ) { uint32_t kw = what == 2 ? 1+(uint32_t)s.draw(5) : gen_kwidth(s,s.flag() ? w : h,15), off = gen_korigin(s,kw); k = gen_signed_kernel<K>(s,kw,off,what == 2,std::is_same<R,S16>::value ? 128 : 1000); } else if( what < 5 ) { uint32_t kw = gen_kwidth(s,s.flag() ? w : h,15), off = gen_korigin(s,kw); k = gen_positive_kernel<K>(s,kw,off,1000); }
    bool kernel = what < 5; static const char* names[] = {"convolve horizontal","convolve vertical","convolve 2D","normalized horizontal","normalized vertical","mean blur","gaussian blur"}; int bits = s.draw(8) == 7 ? 24 : 8*(int)sizeof(R);
    c.note(w,"x",h," border ",bk," radius ",radius," sigma ",sigma," output bits ",bits," kernel ",kernel ? show(k) : "",copying ? " copied arrays " : " pinned arrays ");
    disturb(s,c,[=]() {
        typedef FilterScene<T,R> S; std::unique_ptr<S> t(new S(copying,a,o,wk)); jself<T>(t->self,bits); t->kernel = kernel; if( kernel ) { jkernel(t->jk,t->jarr,k,integral); t->weights = t->jarr.bytes; }
        t->f = [=](S& x) { jobject me = (jobject)&x.self, ker = (jobject)&x.jk; switch( what ) {
            case 0: Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(x.e,me,ker,x.in.j(),x.out.j(),bk); break; case 1: Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(x.e,me,ker,x.in.j(),x.out.j(),bk); break; case 2: Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(x.e,me,ker,x.in.j(),x.out.j(),bk); break;
            case 3: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(x.e,me,ker,x.in.j(),x.out.j()); break; case 4: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(x.e,me,ker,x.in.j(),x.out.j()); break;
            case 5: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(x.e,me,x.in.j(),x.out.j(),radius,x.work.j()); break; default: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(x.e,me,x.in.j(),x.out.j(),sigma,radius ? radius : -1,x.work.j()); } };
        return std::unique_ptr<Scene>(std::move(t));
    },names[what]);
}
// thresholds: init, process or destroy of the native object
struct Settings { int which; bool down, local, otsu2; double scale, spread, tuning, value; uint32_t lo; ConfigLength cfg; };
template<class T> struct ThresholdScene : Scene {
    Img<T> in; Img<U8> out; JObject self, jc; Settings q; int what;
    ThresholdScene(bool copying, const JImage<T>& a, const JImage<U8>& b, const Settings& q_, int what_) : Scene(copying), in(a), out(b), q(q_), what(what_) { jself<T>(self,8); jc.cls = "boofcv/struct/ConfigLength"; jc.real["length"] = std::make_pair(std::string("D"),(double)q.cfg.length); jc.real["fraction"] = std::make_pair(std::string("D"),(double)q.cfg.fraction); if( what > 0 ) init(); }
    jobject me() { return (jobject)&self; }
    void init() { jobject jl = (jobject)&jc; switch( q.which ) {
        case 0: Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(e,me(),jl,q.scale,q.down,q.local); break; case 1: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(e,me(),jl,q.scale,q.down,q.spread,q.local); break; case 2: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(e,me(),q.otsu2,jl,q.tuning,q.scale,q.down,q.local); break;
        case 3: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(e,me(),q.value,q.down); break; case 4: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(e,me(),q.lo,255,q.down); break; default: Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(e,me(),jl,q.scale,q.down); } }
    void process() { jobject a = in.j(), b = out.j(); switch( q.which ) { case 0: Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess(e,me(),a,b); break; case 1: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess(e,me(),a,b); break; case 2: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess(e,me(),a,b); break; case 3: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess(e,me(),a,b); break; case 4: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess(e,me(),a,b); break; default: Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess(e,me(),a,b); } }
    void destroy() { switch( q.which ) { case 0: Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(e,me()); break; case 1: Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(e,me()); break; case 2: Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(e,me()); break; case 3: Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(e,me()); break; case 4: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(e,me()); break; default: Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(e,me()); } if( !vm.pending ) self.prim["nativePtr"].second = 0; }   // the Java objects don't use it again
    int64_t ptr() { return self.prim["nativePtr"].second; }
    void call() override { if( what == 0 ) { if( ptr() == 0 ) init(); } else if( what == 1 ) process(); else if( ptr() ) destroy(); }
    void frame(Ctx& c, const std::string& w) override { c.check(in.i.untouched(),w,": input image modified"); c.check(out.i.around_intact(),w,": elements outside of the output image modified"); }
    void failed(Ctx& c, const std::string& w) override { if( what == 0 ) { c.check(ptr() == 0,w,": init failed, and Java has a native pointer"); destroy(); c.check(!vm.pending && vm.problem.empty(),w,": the object whose init failed can't be destroyed ",vm.problem); } }
    void result(Ctx& c, Blob& b) override { if( what == 2 ) { c.check(ptr() == 0,"destroy left a native pointer"); return; } c.check(ptr() != 0,"no native pointer"); if( what == 0 ) { process(); bool p = vm.pending; vm.pending = false; b.push_back(p); if( p ) return; } put_image(b,out.i); }
    void finish(Ctx& c) override { destroy(); c.check(ptr() == 0 && !vm.pending && vm.problem.empty(),"the object can't be destroyed: ",vm.problem); }
};
template<class T> void threshold_case(Source& s, Ctx& c) {
    Settings q; q.which = (int)s.draw(6); q.down = s.flag(); q.local = s.flag(); q.otsu2 = s.flag(); q.scale = s.pick<double>({1.0,0.95,0.5}); q.spread = (double)s.draw(60)-1; q.tuning = (double)s.draw(10)/4; q.value = (double)s.draw(256); q.lo = 0; q.cfg = ConfigLength(1+(double)s.draw(12),s.draw(3) == 2 ? 0.3 : -1);
    bool copying = s.flag(); int what = (int)s.draw(4); what = what == 3 ? 1 : what; uint32_t w,h; gen_shape(s,w,h,20,60,0); JImage<T> a; JImage<U8> o; a.build(s,gen_mat<T>(s,w,h,0,255)); o.build(s,noise_mat<U8>(s,w,h));
    static const char* names[] = {"block mean","block min-max","block otsu","fixed","otsu","local mean"}; static const char* calls[] = {" init"," process"," destroy"}; c.note(w,"x",h," length ",q.cfg.length," ");
    disturb(s,c,[=]() { return std::unique_ptr<Scene>(new ThresholdScene<T>(copying,a,o,q,what)); },std::string(names[q.which])+calls[what]);
}
#define FINDER(N) Java_org_boofcpp_contour_NativeChang2004_##N
struct ContourScene : Scene {
    Img<U8> in; Img<S32> out; JFinder f; int what; int32_t mn, mx; bool eight, inner; int64_t got = 0;
    ContourScene(bool copying, const JImage<U8>& a, const JImage<S32>& b, int what_, int32_t mn_, int32_t mx_, bool eight_, bool inner_, bool before) : Scene(copying), in(a), out(b), f(vm), what(what_), mn(mn_), mx(mx_), eight(eight_), inner(inner_) {
        if( what == 0 ) return; FINDER(native_1init)(e,me()); FINDER(setMinContour)(e,me(),mn); FINDER(setMaxContour)(e,me(),mx); FINDER(setSaveInnerContour)(e,me(),inner); FINDER(setConnectRule)(e,me(),(jobject)(eight ? &f.eight : &f.four)); if( before ) { f.reset(); FINDER(native_1process)(e,me(),in.j(),out.j()); f.reset(); }
        Stream st(5); Mat<S32> junk(out.i.w,out.i.h); for( uint32_t y = 0; y < out.i.h; y++ ) for( uint32_t x = 0; x < out.i.w; x++ ) out.i.arr.as<S32>()[out.i.start+y*out.i.stride+x] = View<S32>::noise(st); out.i.snap = out.i.arr.bytes;
    }
    jobject me() { return (jobject)&f.self; } int64_t ptr() { return f.self.prim["nativePtr"].second; }
    void call() override { switch( what ) {
        case 0: if( ptr() == 0 ) FINDER(native_1init)(e,me()); break; case 1: f.reset(); FINDER(native_1process)(e,me(),in.j(),out.j()); break; case 2: if( ptr() ) FINDER(native_1destroy)(e,me()); break;
        case 3: FINDER(setMinContour)(e,me(),mn+1); break; case 4: FINDER(setMaxContour)(e,me(),mx-1); break; case 5: FINDER(setSaveInnerContour)(e,me(),!inner); break; case 6: FINDER(setConnectRule)(e,me(),(jobject)(eight ? &f.four : &f.eight)); break;
        case 7: got = FINDER(getMinContour)(e,me()); break; case 8: got = FINDER(getMaxContour)(e,me()); break; case 9: got = FINDER(isSaveInternalContours)(e,me()); break; default: got = FakeVM::deref(FINDER(getConnectRule)(e,me()),"the result") == &f.eight; } }
    void frame(Ctx& c, const std::string& w) override { c.check(in.i.untouched(),w,": input image modified"); c.check(out.i.around_intact(),w,": elements outside of the label image modified"); }
    void settings(Ctx& c, const std::string& w, int32_t mn, int32_t mx, bool inner, bool eight) { c.check(FINDER(getMinContour)(e,me()) == mn && FINDER(getMaxContour)(e,me()) == mx && (bool)FINDER(isSaveInternalContours)(e,me()) == inner && FakeVM::deref(FINDER(getConnectRule)(e,me()),"the result") == (eight ? &f.eight : &f.four),w,": the settings of the finder are other ones"); }
    void failed(Ctx& c, const std::string& w) override { if( what == 0 ) { c.check(ptr() == 0,w,": init failed, and Java has a native pointer"); FINDER(native_1destroy)(e,me()); } else if( ptr() ) settings(c,w,mn,mx,inner,eight); c.check(!vm.pending && vm.problem.empty(),w,": the finder can't be used after the failure: ",vm.problem); }
    void result(Ctx& c, Blob& b) override {
        switch( what ) { case 0: c.check(ptr() != 0,"no native pointer"); settings(c,"init",(int32_t)FINDER(getMinContour)(e,me()),0x7fffffff,true,false); break; case 2: c.check(ptr() == 0,"destroy left a native pointer"); break;
            case 1: { put_image(b,out.i); for( auto& k : f.blobs ) { b.push_back(k.id); b.push_back(k.ext); for( auto i : k.in ) b.push_back(i); } b.push_back((double)f.nsets); for( size_t i = 0; i < f.nsets; i++ ) { std::vector<std::pair<S32,S32>> p; c.check(f.load(i,p),"contour ",i," points outside of the Java blocks"); for( auto& k : p ) { b.push_back(k.first); b.push_back(k.second); } } break; }
            case 3: case 4: case 5: case 6: settings(c,"after setting",what == 3 ? mn+1 : mn,what == 4 ? mx-1 : mx,what == 5 ? !inner : inner,what == 6 ? !eight : eight); break; default: b.push_back((double)got); } }
    void finish(Ctx& c) override { FINDER(native_1destroy)(e,me()); c.check(ptr() == 0 && !vm.pending && vm.problem.empty(),"the finder can't be destroyed: ",vm.problem); }
};
void contour_case(Source& s, Ctx& c) {
    static char buffer[4096]; static int ready = setvbuf(stdout,buffer,_IOFBF,sizeof buffer); (void)ready;
    bool copying = s.flag(), eight = s.flag(), inner = s.draw(4) != 3, before = s.flag(); int32_t mn = (int32_t)s.draw(4), mx = s.flag() ? 1000 : 4+(int32_t)s.draw(30); int what = s.flag() ? 1 : (int)s.draw(11); Mat<U8> m = gen_binary(s,20,40,1000); if( s.draw(30) == 29 ) { m = Mat<U8>(100,60); for( uint32_t y = 0; y < 60; y++ ) for( uint32_t x = 0; x < 100; x++ ) m.at(x,y) = (x+y)&1; c.label("several blocks of points"); } else if( s.draw(30) == 29 ) { m = Mat<U8>(90,60); for( uint32_t y = 0; y < 60; y++ ) for( uint32_t x = 0; x < 90; x++ ) m.at(x,y) = y == 0 || (x&1); mx = 100000; c.label("a contour in several blocks"); }
    JImage<U8> a; JImage<S32> o; a.build(s,m); o.build(s,noise_mat<S32>(s,m.w,m.h)); c.note(show(m)," ");
    static const char* names[] = {"contour init","contours","contour destroy","set min","set max","set inner","set rule","get min","get max","get inner","get rule"};
    disturb(s,c,[=]() { return std::unique_ptr<Scene>(new ContourScene(copying,a,o,what,mn,mx,eight,inner,before)); },names[what]);
}
static int cold = (pbt_cold = 4);
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(8) ) {
        case 0: filter_case<U8,U8>(s,c); break; case 1: filter_case<F32,F32>(s,c); break; case 2: filter_case<U8,S16>(s,c); break; case 3: filter_case<U8,S32>(s,c); break;
        case 4: threshold_case<U8>(s,c); break; case 5: threshold_case<F32>(s,c); break; default: contour_case(s,c); break;
    }
}
