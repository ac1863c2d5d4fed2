// C22: the JNI contour finder on a stand-in for the Java objects against the native contour finder
#include "jni_contour.h"
#include "binary_gen.h"
using namespace pbt; using namespace boofcv;
pbt::FakeVM* pbt::g_vm = nullptr;
const char* PBT_PROPERTY = "C22";
const char* PBT_RULE = "A case drives one Java contour finder through up to seven setter, getter and process calls, each process compared with a fresh native finder under the same settings. Non-trivial: at least one processed image has a blob.";
const char* PBT_ASSUMPTIONS = "the VM is a stand-in which models FastQueue, GrowQueue_I32 and PackedSetsPoint2D_I32; no real JVM is involved | settings are non-negative | binary images hold only 0 and 1";
uint64_t PBT_CASES_QUICK = 5000;
void pbt_case(Source& s, Ctx& c) {
    bool copying = s.flag(); c.label(copying ? "copied arrays" : "pinned arrays"); static char buffer[4096]; static int ready = setvbuf(stdout,buffer,_IOFBF,sizeof buffer); (void)ready;
    FakeVM vm(copying); JNIEnv* e = &vm.env; JFinder f(vm); jobject me = (jobject)&f.self;
    auto native = [&](const char* what, const std::function<void()>& g) { try { g(); } catch( const std::exception& x ) { if( !vm.problem.empty() ) c.fail(vm.problem); c.fail(what,": C++ exception left the JNI function: ",x.what()); } catch( const char* x ) { c.fail(what,": C++ exception left the JNI function: ",x); } vm.check(c); };
    long live0 = 0; { native("init",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1init(e,me); }); native("destroy",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1destroy(e,me); }); live0 = live_allocations(); native("init",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1init(e,me); }); native("destroy",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1destroy(e,me); }); }
    c.check(live_allocations() == live0,"init and destroy leak memory");
    native("init",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1init(e,me); });
    c.check(f.self.prim["nativePtr"].second != 0,"init did not store a native pointer");
    bool eight = false, inner = true; if( s.flag() ) { eight = true; native("setConnectRule",[&]{ Java_org_boofcpp_contour_NativeChang2004_setConnectRule(e,me,(jobject)&f.eight); }); } int32_t mn = 0, mx = 0x7fffffff; int n = 1+(int)s.draw(7); bool processed = false;
    auto readback = [&]{
        native("get",[&]{ c.check(Java_org_boofcpp_contour_NativeChang2004_getMinContour(e,me) == mn,"minimum contour size reads back as ",Java_org_boofcpp_contour_NativeChang2004_getMinContour(e,me)," instead of ",mn); c.check(Java_org_boofcpp_contour_NativeChang2004_getMaxContour(e,me) == mx,"maximum contour size reads back as ",Java_org_boofcpp_contour_NativeChang2004_getMaxContour(e,me)," instead of ",mx);
            c.check((bool)Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours(e,me) == inner,"save-internal setting reads back wrong"); c.check(FakeVM::deref(Java_org_boofcpp_contour_NativeChang2004_getConnectRule(e,me),"the result") == (eight ? &f.eight : &f.four),"connect rule reads back wrong"); });
    };
    auto size = [&](uint32_t small) -> int32_t { switch( s.draw(8) ) { case 4: case 5: return 0x7fffffff; case 6: return (int32_t)s.draw(300); case 7: { int32_t base[] = {128,256,32768,65536,1 << 24,0x7fffff00}; return base[s.draw(6)]+(int32_t)s.draw(70); } default: return (int32_t)s.draw(small); } };
    readback();
    for( int step = 0; step < n; step++ ) {
        int op = step == n-1 && !processed ? 0 : (int)s.draw(7);
        if( op == 3 ) { eight = s.flag(); c.note("rule ",eight ? 8 : 4,"; "); native("setConnectRule",[&]{ Java_org_boofcpp_contour_NativeChang2004_setConnectRule(e,me,(jobject)(eight ? &f.eight : &f.four)); }); }
        else if( op == 4 ) { mn = size(20); c.note("min ",mn,"; "); native("setMinContour",[&]{ Java_org_boofcpp_contour_NativeChang2004_setMinContour(e,me,mn); }); }
        else if( op == 5 ) { mx = size(60); c.note("max ",mx,"; "); native("setMaxContour",[&]{ Java_org_boofcpp_contour_NativeChang2004_setMaxContour(e,me,mx); }); }
        else if( op == 6 ) { inner = s.flag(); c.note("inner ",inner,"; "); native("setSaveInnerContour",[&]{ Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour(e,me,inner); }); }
        else {
            processed = true; bool large = s.draw(6) == 5; Mat<U8> m;
            if( large ) { uint32_t w = 60+(uint32_t)s.draw(100), h = 60+(uint32_t)s.draw(100); m = Mat<U8>(w,h); Stream st(s.draw(1u<<16)); uint32_t k = 2+(uint32_t)s.draw(4); int mode = (int)s.draw(3); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = mode == 0 ? st.below(k) == 0 : mode == 1 ? (x+y)&1 : (x%k != 0 || y%k != 0); c.label("large image"); }
            // blocks with ever more holes; so many contour points that they need dozens of blocks
            if( large && s.draw(6) == 5 ) { uint32_t n = 5+(uint32_t)s.draw(85); m = Mat<U8>(2*n+3,4*n); for( uint32_t k = 0; k < n; k++ ) for( uint32_t x = 0; x < 2*k+3; x++ ) for( uint32_t y = 0; y < 3; y++ ) m.at(x,4*k+y) = !(y == 1 && x%2 && x < 2*k+2); c.label("blocks with ever more holes"); }
            else if( large && s.draw(15) == 14 ) { uint32_t w = 200+(uint32_t)s.draw(450); m = Mat<U8>(w,w); for( uint32_t y = 0; y < w; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = (x+y)&1; c.label("more than ten blocks of points"); }
            if( !large ) m = gen_binary(s,30,200);
            JImage<U8> in; in.build(s,m); JImage<S32> out; Mat<S32> junk(m.w,m.h); Stream js(s.draw(1000)); for( auto& p : junk.v ) p = View<S32>::noise(js); out.build(s,junk);
            c.note("process ",in.text()," label ",out.text(),copying ? " copied arrays\n" : " pinned arrays\n",picture(m)); f.reset();
            native("process",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1process(e,me,in.j(),out.j()); });
            LinearContourLabelChang2004 a(eight ? EIGHT : FOUR); a.minContourSize = (uint32_t)mn; a.maxContourSize = (uint32_t)mx; a.saveInternalContours = inner;
            Gray<U8> b(m.w,m.h); Gray<S32> l(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) b.at(x,y) = m.at(x,y); a.process(b,l);
            Mat<S32> want(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) want.at(x,y) = l.at(x,y);
            expect_same(c,want,out.read(),"label image"); c.check(in.untouched(),"binary image modified"); c.check(out.around_intact(),"elements outside of the label image modified");
            c.check(f.blobs.size() == a.contours.size(),"Java got ",f.blobs.size()," blobs instead of ",a.contours.size());
            for( size_t i = 0; i < f.blobs.size(); i++ ) { const ContourPacked& p = a.contours[i]; const JFinder::Blob& q = f.blobs[i]; c.check(q.id == (int32_t)p.id && q.ext == (int32_t)p.externalIndex,"blob ",i," has id ",q.id," external ",q.ext," instead of ",p.id," ",p.externalIndex); c.check(q.in.size() == p.internalIndexes.size(),"blob ",i," has ",q.in.size()," internal contours instead of ",p.internalIndexes.size()); for( size_t k = 0; k < q.in.size(); k++ ) c.check(q.in[k] == (int32_t)p.internalIndexes[k],"internal contour ",k," of blob ",i," is ",q.in[k]," instead of ",p.internalIndexes[k]); if( q.in.size() > 10 ) c.label("more than 10 holes"); }
            c.check(f.nsets == a.packedPoints.number_of_sets(),"Java got ",f.nsets," contours instead of ",a.packedPoints.number_of_sets()); size_t total = 0;
            for( size_t i = 0; i < f.nsets; i++ ) { std::vector<std::pair<S32,S32>> got; std::vector<Point2D<S32>> p; a.packedPoints.load_set((uint32_t)i,p); c.check(f.load(i,got),"contour ",i," points outside of the Java blocks: start ",f.set_objs[i]->start," length ",f.set_objs[i]->length," block ",f.set_objs[i]->block," of ",f.nblocks); c.check(got.size() == p.size(),"contour ",i," has ",got.size()," points instead of ",p.size()); for( size_t k = 0; k < got.size(); k++ ) c.check(got[k].first == p[k].x && got[k].second == p[k].y,"point ",k," of contour ",i," is (",got[k].first,",",got[k].second,") instead of (",p[k].x,",",p[k].y,")"); total += got.size(); }
            if( total > 2000 ) c.label("several blocks"); if( !a.contours.empty() ) c.nontrivial = true; c.label(eight ? "8-connected" : "4-connected");
        }
        readback();
    }
    native("destroy",[&]{ Java_org_boofcpp_contour_NativeChang2004_native_1destroy(e,me); }); c.check(f.self.prim["nativePtr"].second == 0,"destroy left a dangling native pointer");
}
