// C18: JNI entry points on a stand-in for the Java VM against the direct library calls
#include "jni_api.h"
#include "image_blur.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
using namespace pbt; using namespace boofcv;
pbt::FakeVM* pbt::g_vm = nullptr;
const char* PBT_PROPERTY = "C18";
const char* PBT_RULE = "A case calls one JNI entry point (or init, several process and destroy for thresholds) on Java images in drawn layouts and compares every array element with the direct library call. Non-trivial: more than one pixel and at least one image with a start index, a stride or spare elements.";
const char* PBT_ASSUMPTIONS = "the VM is a stand-in which pins or copies arrays and checks the rules of critical sections; no real JVM is involved | output and storage images have the input's shape, as the Java callers ensure";
uint64_t PBT_CASES_QUICK = 60000;
template<class R> void expect_close(Ctx& c, const Mat<R>& want, const Mat<R>& got, double scale, const char* what) { if( std::is_floating_point<R>::value ) expect_near(c,widen(want),Mat<double>(want.w,want.h,4e-6*scale),got,what); else expect_same(c,want,got,what); }
double biggest(const Ker& k) { double a = 0; for( double v : k.v ) a += std::fabs(v); return std::max(1.0,a); }

template<class T, class R> void convolve(Source& s, Ctx& c, bool copying) {
    typedef typename TypeInfo<T>::signed_type K; const bool integral = std::is_integral<T>::value;
    uint32_t w,h; gen_shape(s,w,h,30,150); int dir = (int)s.draw(3); uint32_t kw = dir == 2 ? 1+(uint32_t)s.draw(7) : gen_kwidth(s,s.flag() ? w : h,25), off = gen_korigin(s,kw);
    Ker k = gen_signed_kernel<K>(s,kw,off,dir == 2,std::is_same<R,S16>::value ? 128 : 100000); int bk = (int)s.draw(4); static const int code[] = {1,3,4,5}; static const BorderType type[] = {BorderType::EXTENDED,BorderType::REFLECT,BorderType::WRAP,BorderType::ZERO};
    Mat<T> in = gen_mat<T>(s,w,h,0,255); JImage<T> ji; JImage<R> jo; ji.build(s,in); jo.build(s,noise_mat<R>(s,w,h)); JObject self, jk, jarr; jself<T>(self,8*(int)sizeof(R)); jkernel(jk,jarr,k,integral);
    c.label(dir == 0 ? "convolve horizontal" : dir == 1 ? "convolve vertical" : "convolve 2D"); c.note("convolve direction ",dir," border code ",code[bk]," kernel ",show(k)," input ",ji.text()," ",show(in),"\noutput ",jo.text()," ",copying ? "copied arrays" : "pinned arrays"); c.nontrivial = w*h > 1 && (ji.view() || jo.view());
    Gray<T> gi = plain(in); Gray<R> go; auto b = FactoryImageBorder::create_SB<T>(type[bk]); b->setImage(gi);
    if( dir == 2 ) { Kernel2D<K> q; fill_kernel(q,k,true); ConvolveImage::convolve(q,*b,go); } else { Kernel1D<K> q; fill_kernel(q,k,false); if( dir == 0 ) ConvolveImage::horizontal(q,*b,go); else ConvolveImage::vertical(q,*b,go); }
    JObject before = jarr; FakeVM vm(copying); long live = live_allocations(); bool first = true;
    for( int rep = 0; rep < 2; rep++ ) {
        native(c,vm,"convolve",[&]{ (dir == 0 ? Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal : dir == 1 ? Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical : Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve)(&vm.env,(jobject)&self,(jobject)&jk,ji.j(),jo.j(),code[bk]); });
        expect_close(c,mat(go),jo.read(),255*biggest(k),"JNI convolution"); c.check(ji.untouched(),"input array modified"); c.check(jo.around_intact(),"elements outside of the output image modified"); c.check(jarr.bytes == before.bytes,"kernel modified");
        if( first ) { live = live_allocations(); first = false; } else c.check(live_allocations() == live,"memory leaked by a JNI call: ",live_allocations()-live," blocks");
    }
    if( s.draw(3) != 2 ) return;
    const char* faults[] = {"an unknown border","an input type which is not supported","an output type which is not supported"}; int fault = (int)s.draw(3); c.label(std::string("refuse ")+faults[fault]); c.note("\nthen ",faults[fault]); int border = code[bk]; JObject oi, oa, *pi = &ji.o, *po = &jo.o; std::vector<uint8_t> out = jo.arr.bytes;
    switch( fault ) { case 0: { static const int bad[] = {0,2,6,-1,100}; border = bad[s.draw(5)]; break; } case 1: if( integral ) { self.prim["inputBits"] = {"I",16}; foreign(oi,oa,'S',w,h); } else { self.prim["inputBits"] = {"I",64}; foreign(oi,oa,'D',w,h); } pi = &oi; break;
        default: if( integral ) { self.prim["outputBits"] = {"I",8}; foreign(oi,oa,'B',w,h); } else { self.prim["outputBits"] = {"I",64}; foreign(oi,oa,'D',w,h); } po = &oi; }
    for( int rep = 0; rep < 3; rep++ ) {
        native(c,vm,faults[fault],[&]{ (dir == 0 ? Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal : dir == 1 ? Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical : Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve)(&vm.env,(jobject)&self,(jobject)&jk,(jobject)pi,(jobject)po,border); },true);
        c.check(ji.untouched(),"input array modified by a refused call"); c.check(jo.around_intact(),"elements outside of the output image modified by a refused call"); c.check(jarr.bytes == before.bytes,"kernel modified by a refused call"); if( rep == 1 ) live = live_allocations(); else if( rep == 2 ) c.check(live_allocations() == live,"memory leaked by a refused JNI call: ",live_allocations()-live," blocks");
    }
}
template<class T> void filters(Source& s, Ctx& c, bool copying) {
    typedef typename TypeInfo<T>::signed_type K; const bool integral = std::is_integral<T>::value; int what = (int)s.draw(4); uint32_t w,h; gen_shape(s,w,h,30,150);
    Mat<T> in = gen_mat<T>(s,w,h,integral ? 0 : -50,255); JImage<T> ji, jo, js; ji.build(s,in); jo.build(s,noise_mat<T>(s,w,h)); JObject self, jk, jarr; jself<T>(self,8*(int)sizeof(T)); Gray<T> gi = plain(in), go(w,h), gs; Ker k; uint32_t radius = 1+(uint32_t)s.draw(8); double sigma = 1;
    JImage<T>* st = nullptr; int jr = (int)radius;
    if( what < 2 ) { uint32_t kw = gen_kwidth(s,s.flag() ? w : h,25), off = gen_korigin(s,kw); k = gen_positive_kernel<K>(s,kw,off,1000000); jkernel(jk,jarr,k,integral); Kernel1D<K> q; fill_kernel(q,k,false); if( what == 0 ) ConvolveNormalized::horizontal(q,gi,go); else ConvolveNormalized::vertical(q,gi,go); }
    else { js.build(s,noise_mat<T>(s,w,h)); st = &js; if( what == 2 ) BlurImageOps::mean(gi,go,radius,gs); else { int m = (int)s.draw(4); sigma = m == 1 ? 0 : m == 2 ? -1 : 0.3+(double)s.draw(60)/20; if( m == 0 ) jr = (int)s.draw(2)-1; BlurImageOps::gaussian(gi,go,sigma,jr > 0 ? 2*jr+1 : -1,gs); } }
    const char* names[] = {"normalized horizontal","normalized vertical","mean blur","gaussian blur"}; c.label(names[what]); c.nontrivial = w*h > 1 && (ji.view() || jo.view() || (st && st->view()));
    c.note(names[what]," ",tname<T>()," input ",ji.text()," ",show(in),"\noutput ",jo.text()," kernel ",what < 2 ? show(k) : std::string()," radius ",jr," sigma ",sigma," storage ",st ? st->text() : std::string(),"  ",copying ? "copied arrays" : "pinned arrays");
    JObject before = jarr; FakeVM vm(copying); long live = 0;
    for( int rep = 0; rep < 2; rep++ ) {
        native(c,vm,names[what],[&]{ switch( what ) { case 0: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(&vm.env,(jobject)&self,(jobject)&jk,ji.j(),jo.j()); break; case 1: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(&vm.env,(jobject)&self,(jobject)&jk,ji.j(),jo.j()); break;
            case 2: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(&vm.env,(jobject)&self,ji.j(),jo.j(),jr,js.j()); break; default: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(&vm.env,(jobject)&self,ji.j(),jo.j(),sigma,jr,js.j()); } });
        expect_close(c,mat(go),jo.read(),256,names[what]); c.check(ji.untouched(),"input array modified"); c.check(jo.around_intact(),"elements outside of the output image modified"); if( st ) c.check(st->around_intact(),"elements outside of the storage image modified"); c.check(jarr.bytes == before.bytes,"kernel modified");
        if( rep == 0 ) live = live_allocations(); else c.check(live_allocations() == live,"memory leaked by a JNI call: ",live_allocations()-live," blocks");
    }
    if( s.draw(3) != 2 ) return;
    const char* faults[] = {"an input type which is not supported","an output type which is not supported","an output of another shape","a missing output array","a radius which is not possible","a missing array"}; int fault = (int)s.draw(4); if( what > 1 ) { if( fault == 2 ) fault = 5; if( fault == 3 ) fault = 4; } JObject oi, oa, *pi = &ji.o, *po = &jo.o; c.label(std::string("refuse ")+faults[fault]); c.note("\nthen ",faults[fault]);
    if( fault < 2 ) { foreign(oi,oa,integral ? s.pick<char>({'S','I'}) : 'D',w,h); (fault ? po : pi) = &oi; } else if( fault == 2 ) { foreign(oi,oa,jelem<T>(),s.flag() ? w+1 : w,h+1); po = &oi; } else if( fault == 3 ) { foreign(oi,oa,jelem<T>(),w,h); oi.ref["data"].second = nullptr; po = &oi; } else if( fault == 4 ) { if( what == 2 ) jr = s.pick<int32_t>({0,0,-1,-5,-128,INT32_MIN,INT32_MIN+1}); else jr = s.pick<int32_t>({0x40000000,0x40000001,0x5fffffff,INT32_MAX}); c.note(" radius ",jr); } else { foreign(oi,oa,jelem<T>(),w,h); oi.ref["data"].second = nullptr; (s.flag() ? po : pi) = &oi; }
    for( int rep = 0; rep < 3; rep++ ) {
        native(c,vm,faults[fault],[&]{ switch( what ) { case 0: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(&vm.env,(jobject)&self,(jobject)&jk,(jobject)pi,(jobject)po); break; case 1: Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(&vm.env,(jobject)&self,(jobject)&jk,(jobject)pi,(jobject)po); break;
            case 2: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(&vm.env,(jobject)&self,(jobject)pi,(jobject)po,jr,js.j()); break; default: Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(&vm.env,(jobject)&self,(jobject)pi,(jobject)po,sigma,jr,js.j()); } },true);
        c.check(ji.untouched(),"input array modified by a refused call"); c.check(jo.around_intact(),"elements outside of the output image modified by a refused call"); if( st ) c.check(st->around_intact(),"elements outside of the storage image modified by a refused call"); if( what < 2 ) c.check(jarr.bytes == before.bytes,"kernel modified by a refused call"); if( rep == 1 ) live = live_allocations(); else if( rep == 2 ) c.check(live_allocations() == live,"memory leaked by a refused JNI call: ",live_allocations()-live," blocks");
    }
}
template<class T> void threshold(Source& s, Ctx& c, bool copying) {
    const bool integral = std::is_integral<T>::value; int which = (int)s.draw(6); bool down = s.flag(), local = s.flag(), otsu2 = s.flag(); double scale = s.pick<double>({1.0,0.95,0.5,1.1}), spread = (double)s.draw(60)-1, tuning = s.flag() ? 0 : (double)s.draw(10)/4; if( which == 0 ) scale = std::min(scale,1.0);
    bool relative = s.draw(3) == 2; ConfigLength cfg = relative ? ConfigLength::relative((double)(1+s.draw(100))/100,(int)s.draw(6)) : ConfigLength::fixed(1+(double)s.draw(12)); double value = (double)s.draw(256); if( s.flag() && value < 255 ) value += (double)s.draw(100)/100; uint32_t lo = (uint32_t)s.draw(4) == 3 ? (uint32_t)s.draw(100) : 0, hi = 255;
    JObject self, jc; jself<T>(self,8); jc.cls = "boofcv/struct/ConfigLength"; jc.real["length"] = {"D",cfg.length}; jc.real["fraction"] = {"D",cfg.fraction};
    const char* names[] = {"block mean","block min-max","block otsu","fixed","otsu","local mean"}; c.label(std::string("threshold ")+names[which]);
    c.note("threshold ",names[which]," ",tname<T>()," down ",down," local ",local," otsu2 ",otsu2," scale ",scale," spread ",spread," tuning ",tuning," length ",cfg.length," fraction ",cfg.fraction," value ",value," min ",lo,copying ? " copied arrays" : " pinned arrays");
    int n = 1+(int)s.draw(3); int rejections = 0; std::vector<bool> refuse; static char buffer[4096]; static int ready = setvbuf(stdout,buffer,_IOFBF,sizeof buffer); (void)ready;
    FakeVM vm(copying); JNIEnv* e = &vm.env; jobject me = (jobject)&self, jl = (jobject)&jc; const bool d = down;
    std::unique_ptr<JImage<T>[]> ji(new JImage<T>[n]); std::unique_ptr<JImage<U8>[]> jo(new JImage<U8>[n]);
    auto cycle = [&](bool verify, const std::vector<Mat<U8>>& want) {
        native(c,vm,"init",[&]{ switch( which ) {
            case 0: Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(e,me,jl,scale,d,local); break; case 1: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(e,me,jl,scale,d,spread,local); break; case 2: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(e,me,otsu2,jl,tuning,scale,d,local); break;
            case 3: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(e,me,value,d); break; case 4: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(e,me,lo,hi,d); break; default: Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(e,me,jl,scale,d); } });
        c.check(self.prim["nativePtr"].second != 0,"init did not store a native pointer");
        for( int i = 0; i < n; i++ ) {
            jobject a = ji[i].j(), b = jo[i].j();
            native(c,vm,"process",[&]{ switch( which ) { case 0: Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess(e,me,a,b); break; case 1: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess(e,me,a,b); break; case 2: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess(e,me,a,b); break;
                case 3: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess(e,me,a,b); break; case 4: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess(e,me,a,b); break; default: Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess(e,me,a,b); } },refuse[(size_t)i]);
            c.check(ji[i].untouched(),"input array modified"); c.check(jo[i].around_intact(),"elements outside of the output image modified");
            if( verify ) { std::ostringstream q; q << "JNI threshold, image " << i; expect_same(c,want[(size_t)i],jo[i].read(),q.str().c_str()); }
        }
        native(c,vm,"destroy",[&]{ switch( which ) { case 0: Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(e,me); break; case 1: Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(e,me); break; case 2: Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(e,me); break; case 3: Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(e,me); break; case 4: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(e,me); break; default: Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(e,me); } });
    };
    std::vector<Mat<U8>> want; bool any = false;
    for( int i = 0; i < n; i++ ) {
        uint32_t w,h; gen_shape(s,w,h,30,100); Mat<T> in = gen_mat<T>(s,w,h,which == 4 ? (int64_t)lo : 0,255); Mat<U8> garbage = noise_mat<U8>(s,w,h); ji[i].build(s,in); jo[i].build(s,garbage); c.note("\nimage ",i," ",ji[i].text()," ",show(in)," output ",jo[i].text()); any = any || (w*h > 1 && (ji[i].view() || jo[i].view()));
        Gray<T> gi = plain(in); Gray<U8> go = plain(garbage); std::unique_ptr<InputToBinary<Gray<T>>> f;
        switch( which ) { case 0: f.reset(new ThresholdBlockMean<T>(cfg,local,scale,down)); break; case 1: f.reset(new ThresholdBlockMinMax<T>((float)spread,cfg,local,(float)scale,down)); break; case 2: f.reset(new ThresholdBlockOtsu<T>(otsu2,cfg,tuning,scale,down,local)); break; case 3: f.reset(new GlobalFixedBinaryFilter<T>((T)value,down)); break; case 4: f.reset(new GlobalOtsuBinaryFilter<T>((T)lo,(T)hi,down)); break; default: f.reset(new LocalMeanBinaryFilter<T>(cfg,(float)scale,down)); }
        refuse.push_back(throws([&]{ f->process(gi,go); })); if( refuse.back() ) { rejections++; want.push_back(garbage); } else want.push_back(mat(go));
    }
    c.nontrivial = any; if( rejections ) c.label("rejected by the filter"); (void)integral;
    cycle(true,want); long live = live_allocations(); cycle(false,want); c.check(live_allocations() == live,"memory leaked by init/process/destroy: ",live_allocations()-live," blocks");
    for( int i = 0; i < n; i++ ) expect_same(c,want[(size_t)i],jo[i].read(),"JNI threshold, second object");
}
void pbt_case(Source& s, Ctx& c) {
    bool copying = s.flag(); c.label(copying ? "copied arrays" : "pinned arrays");
    switch( s.draw(10) ) {
        case 0: convolve<U8,S16>(s,c,copying); break; case 1: convolve<U8,S32>(s,c,copying); break; case 2: convolve<F32,F32>(s,c,copying); break;
        case 3: case 4: filters<U8>(s,c,copying); break; case 5: case 6: filters<F32>(s,c,copying); break;
        case 7: threshold<F32>(s,c,copying); break; default: threshold<U8>(s,c,copying); break;
    }
}
