// C24: the Java classes on a real Java VM against direct library calls
#include "jvm.h"
#include "gen_kernel.h"
#include "binary_gen.h"
#include "image_blur.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
#include "contour.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C24";
const char* PBT_RULE = "A case is a history of up to six calls of the public methods of the Java classes (blur, convolution, normalized convolution, thresholds kept across images, contour finders kept across images) on Java images in drawn layouts on a real Java VM, each compared with direct library calls. Non-trivial: an image with more than one pixel was processed.";
const char* PBT_ASSUMPTIONS = "the BoofCV, ddogleg and georegression classes the Java code is compiled against are small stand-ins written for this check with the fields and methods the library uses | radii are not negative and kernel origins lie in the kernel, as BoofCV ensures | binary images hold only 0 and 1";
uint64_t PBT_CASES_QUICK = 9000;

template<class T> struct Code; template<> struct Code<U8> { enum { t = 0 }; static const char* sig() { return "[B"; } }; template<> struct Code<S16> { enum { t = 1 }; static const char* sig() { return "[S"; } };
template<> struct Code<S32> { enum { t = 2 }; static const char* sig() { return "[I"; } }; template<> struct Code<F32> { enum { t = 3 }; static const char* sig() { return "[F"; } };
template<> struct Code<F64> { enum { t = 4 }; static const char* sig() { return "[D"; } };
template<class T> Gray<T> plain(const Mat<T>& m) { Gray<T> g(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) g.at(x,y) = m.at(x,y); return g; }
template<class T> Mat<T> mat(const Gray<T>& g) { Mat<T> m(g.width,g.height); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) m.at(x,y) = g.at(x,y); return m; }
template<class R> void expect_close(Ctx& c, const Mat<R>& want, const Mat<R>& got, double scale, const char* what) { if( std::is_floating_point<R>::value ) expect_near(c,widen(want),Mat<double>(want.w,want.h,4e-6*scale),got,what); else expect_same(c,want,got,what); }
double biggest(const Ker& k) { double a = 0; for( double v : k.v ) a += std::fabs(v); return std::max(1.0,a); }
// a Java image and what it held
template<class T> struct JImg {
    Jvm& v; int slot; uint32_t w = 0, h = 0, start = 0, stride = 0; bool sub = false; std::vector<T> data;
    JImg(Jvm& v, int slot) : v(v), slot(slot) {}
    void build(Source& s, Ctx& c, const Mat<T>& m, const char* name) {
        int lay = (int)s.draw(3); uint32_t l = 0, t = 0, r = 0, b = 0, extra = 0; w = m.w; h = m.h;
        if( lay == 1 ) { l = (uint32_t)s.draw(4); t = (uint32_t)s.draw(4); r = (uint32_t)s.draw(4); b = (uint32_t)s.draw(4); sub = true; } else if( lay == 2 ) extra = 1+(uint32_t)s.draw(40);
        stride = w+l+r; start = t*stride+l; data.resize((size_t)stride*(h+t+b)+extra); Stream st(s.draw(1000)); for( auto& p : data ) p = View<T>::noise(st);
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) data[start+y*stride+x] = m.at(x,y);
        c.note("\n ",name," ",tname<T>()," ",w,"x",h," start ",start," stride ",stride," length ",data.size(),sub ? " sub-image" : "");
        std::string x = v.call("makeImage",(std::string("(IIIIIIZLjava/lang/Object;)V")).c_str(),(jint)slot,(jint)Code<T>::t,(jint)w,(jint)h,(jint)start,(jint)stride,(jboolean)sub,(jobject)v.array(data)); if( !x.empty() ) Jvm::die(x.c_str());
    }
    // an output: usually of the right shape, now and then another one
    void build_output(Source& s, Ctx& c, uint32_t W, uint32_t H, const char* name, bool may_differ = true) {
        if( may_differ && s.draw(4) == 3 ) { W = (uint32_t)s.draw(2*W+3); H = (uint32_t)s.draw(2*H+3); } Mat<T> m(W,H); Stream st(s.draw(1000)); for( auto& p : m.v ) p = View<T>::noise(st); build(s,c,m,name);
    }
    bool fits(uint32_t W, uint32_t H) const { return !sub || (w == W && h == H); }
    std::vector<T> raw() { std::vector<T> d; jobject a = v.e->CallStaticObjectMethod(v.driver,v.method("data","(I)Ljava/lang/Object;"),(jint)slot); v.read(a,d); v.e->DeleteLocalRef(a); return d; }
    void untouched(Ctx& c, const char* what) { std::vector<jint> g = v.ints(c,"geometry","(I)[I",(jint)slot); c.check((uint32_t)g[0] == w && (uint32_t)g[1] == h && (uint32_t)g[2] == start && (uint32_t)g[3] == stride,what," changed its shape"); std::vector<T> d = raw(); c.check(d.size() == data.size() && (d.empty() || memcmp(d.data(),data.data(),d.size()*sizeof(T)) == 0),what," was modified"); }
    // the pixels now, with everything around the image as before
    Mat<T> result(Ctx& c, uint32_t W, uint32_t H, const char* what) {
        std::vector<jint> g = v.ints(c,"geometry","(I)[I",(jint)slot); c.check((uint32_t)g[0] == W && (uint32_t)g[1] == H,what," is ",g[0],"x",g[1]," expected ",W,"x",H); std::vector<T> d = raw(); c.check(g[2] >= 0 && g[3] >= g[0],what," has start ",g[2]," and stride ",g[3]); Mat<T> m(W,H);
        c.check(H == 0 || W == 0 || (size_t)g[2]+(size_t)g[3]*(H-1)+W <= d.size(),what," does not fit its array");
        for( uint32_t y = 0; y < H; y++ ) for( uint32_t x = 0; x < W; x++ ) m.at(x,y) = d[(size_t)g[2]+(size_t)g[3]*y+x];
        if( W == w && H == h ) { c.check((uint32_t)g[2] == start && (uint32_t)g[3] == stride && d.size() == data.size(),what," changed its layout"); for( size_t i = 0; i < d.size(); i++ ) { int64_t k = (int64_t)i-start; bool in = k >= 0 && stride && (uint64_t)k/stride < h && (uint64_t)k%stride < w; c.check(in || memcmp(&d[i],&data[i],sizeof(T)) == 0,"element ",i," outside of ",what," was modified"); } }
        return m;
    }
};
struct World {
    Source& s; Ctx& c; Jvm& v; enum { NF = 3, NC = 2 };
    struct Filter { int kind = -1; bool integral = true, down = false, local = false, otsu2 = false; double p[8]; } filter[NF];
    struct Finder { bool made = false, eight = false, inner = true; int32_t mn = 0, mx = 0x7fffffff; } finder[NC];
    World(Source& s, Ctx& c) : s(s), c(c), v(Jvm::get()) { c.check(v.problem.empty(),"BoofCPP.initialize() failed: ",v.problem); v.call("reset","()V"); }
    void none(const std::string& x, const char* what) { c.check(x.empty(),what," threw ",x); }
    void rejected(const std::string& x, const char* what, const char* why) { c.check(!x.empty(),what," accepted ",why); c.check(x.compare(0,6,"error:") != 0,what,": ",x); c.label(std::string("rejected ")+why); }
    template<class K> jobject kernel(const Ker& k) { std::vector<K> d; for( double q : k.v ) d.push_back((K)q); return v.array(d); }

    template<class T> void blur() {
        const bool integral = std::is_integral<T>::value; int kind = (int)s.draw(2); const char* what = kind ? "Java gaussian blur" : "Java mean blur"; uint32_t w,h; gen_shape(s,w,h,30,150); uint32_t radius = 1+(uint32_t)s.draw(8); double sigma = 0; int jr = (int)radius; bool bad = false; Mat<T> in = gen_mat<T>(s,w,h,integral ? 0 : -50,255); Gray<T> gi = plain(in), go, gs;
        if( kind ) { int m = (int)s.draw(4); sigma = m == 1 ? 0 : m == 2 ? -1 : 0.3+(double)s.draw(60)/20; if( m == 0 ) jr = (int)s.draw(2)-1; BlurImageOps::gaussian(gi,go,sigma,jr > 0 ? 2*jr+1 : -1,gs); } else { bad = s.draw(12) == 11; if( bad ) jr = 0; else BlurImageOps::mean(gi,go,radius,gs); }
        c.note("\n",what," radius ",jr," sigma ",sigma," of ",show(in)); c.label(what); JImg<T> ji(v,0), jo(v,1), js(v,2); ji.build(s,c,in,"input"); jo.build_output(s,c,w,h,"output"); bool storage = s.flag(); if( storage ) js.build_output(s,c,w,h,"storage");
        std::string x = v.call("blur","(IIIIDI)V",(jint)kind,(jint)0,(jint)1,(jint)(storage ? 2 : -1),(jdouble)sigma,(jint)jr);
        if( !jo.fits(w,h) ) rejected(x,what,"a sub-image of another shape as output"); else if( bad ) rejected(x,what,"a radius of zero"); else if( storage && !js.fits(w,h) ) rejected(x,what,"a sub-image of another shape as storage");
        else { none(x,what); expect_close(c,mat(go),jo.result(c,w,h,"output"),256,what); if( storage ) js.result(c,w,h,"storage"); if( w*h > 1 ) c.nontrivial = true; }
        ji.untouched(c,"input");
    }
    template<class T> void normalized() {
        typedef typename TypeInfo<T>::signed_type K; const bool integral = std::is_integral<T>::value; int kind = (int)s.draw(2); const char* what = kind ? "Java normalized vertical" : "Java normalized horizontal"; uint32_t w,h; gen_shape(s,w,h,30,150); uint32_t kw = gen_kwidth(s,kind ? h : w,25), off = gen_korigin(s,kw); Ker k = gen_positive_kernel<K>(s,kw,off,1000000); Mat<T> in = gen_mat<T>(s,w,h,integral ? 0 : -50,255); Gray<T> gi = plain(in), go(w,h);
        Kernel1D<K> q; fill_kernel(q,k,false); if( kind ) ConvolveNormalized::vertical(q,gi,go); else ConvolveNormalized::horizontal(q,gi,go);
        c.note("\n",what," kernel ",show(k)," of ",show(in)); c.label(what); JImg<T> ji(v,0), jo(v,1); ji.build(s,c,in,"input"); jo.build_output(s,c,w,h,"output",false); bool two = s.draw(10) == 9;
        std::string x = v.call("normalized","(IIILjava/lang/Object;II)V",(jint)(two ? 2 : kind),(jint)0,(jint)1,kernel<K>(k),(jint)kw,(jint)off);
        if( two ) { rejected(x,"Java normalized convolution","a 2D kernel"); jo.untouched(c,"output"); } else { none(x,what); expect_close(c,mat(go),jo.result(c,w,h,"output"),256,what); if( w*h > 1 ) c.nontrivial = true; }
        ji.untouched(c,"input");
    }
    template<class T, class R> void convolve() {
        typedef typename TypeInfo<T>::signed_type K; const bool integral = std::is_integral<T>::value; uint32_t w,h; gen_shape(s,w,h,30,150); int dir = (int)s.draw(3); const char* names[] = {"Java convolution horizontal","Java convolution vertical","Java convolution 2D"}; const char* what = names[dir]; uint32_t kw = dir == 2 ? 1+(uint32_t)s.draw(7) : gen_kwidth(s,s.flag() ? w : h,25), off = gen_korigin(s,kw);
        Ker k = gen_signed_kernel<K>(s,kw,off,dir == 2,std::is_same<R,S16>::value ? 128 : 100000); int border = (int)s.draw(8); double value = 0; if( border == 6 ) { border = 3; value = (double)((int)s.draw(9)-4); if( value == 0 ) value = 255; if( !integral && s.flag() ) value = 0.25; } else if( border == 7 ) border = 4+(int)s.draw(2); else border %= 4;   // extend, reflect, wrap, zero
        static const BorderType type[] = {BorderType::EXTENDED,BorderType::REFLECT,BorderType::WRAP,BorderType::ZERO}; Mat<T> in = gen_mat<T>(s,w,h,0,255); Gray<T> gi = plain(in); Gray<R> go; bool bad = border > 3 || value != 0;
        auto b = FactoryImageBorder::create_SB<T>(type[bad ? 0 : border]); b->setImage(gi); if( dir == 2 ) { Kernel2D<K> q; fill_kernel(q,k,true); ConvolveImage::convolve(q,*b,go); } else { Kernel1D<K> q; fill_kernel(q,k,false); if( dir == 0 ) ConvolveImage::horizontal(q,*b,go); else ConvolveImage::vertical(q,*b,go); }
        c.note("\n",what," border ",border," value ",value," kernel ",show(k)," of ",show(in)); c.label(what); JImg<T> ji(v,0); JImg<R> jo(v,1); ji.build(s,c,in,"input"); jo.build_output(s,c,w,h,"output");
        std::string x = v.call("convolve","(IIILjava/lang/Object;IIZID)V",(jint)dir,(jint)0,(jint)1,kernel<K>(k),(jint)kw,(jint)off,(jboolean)integral,(jint)border,(jdouble)value);
        if( !jo.fits(w,h) ) rejected(x,what,"a sub-image of another shape as output"); else if( bad ) rejected(x,what,border > 3 ? "an unknown border" : "a border value other than zero");
        else { none(x,what); expect_close(c,mat(go),jo.result(c,w,h,"output"),255*biggest(k),what); if( w*h > 1 ) c.nontrivial = true; }
        ji.untouched(c,"input");
    }
    void wrong_family() {
        int op = (int)s.draw(7), type = s.flag() ? 0 : 3; uint32_t w = 1+(uint32_t)s.draw(6), h = 1+(uint32_t)s.draw(6); int family = type == 0 ? (int)s.draw(2) : 0; c.note("\n image of another family, operation ",op);
        for( int i = 0; i < 3; i++ ) { std::string x = v.call("makeOther","(IIIII)V",(jint)i,(jint)family,(jint)type,(jint)w,(jint)h); if( !x.empty() ) Jvm::die(x.c_str()); }
        jobject k = type == 0 ? (jobject)v.array(std::vector<S32>(op == 6 ? 9 : 3,1)) : (jobject)v.array(std::vector<F32>(op == 6 ? 9 : 3,1.0f)); std::string x;
        if( op < 2 ) x = v.call("blur","(IIIIDI)V",(jint)op,(jint)0,(jint)1,(jint)-1,(jdouble)1.0,(jint)1); else if( op < 4 ) x = v.call("normalized","(IIILjava/lang/Object;II)V",(jint)(op-2),(jint)0,(jint)1,k,(jint)3,(jint)1); else x = v.call("convolve","(IIILjava/lang/Object;IIZID)V",(jint)(op-4),(jint)0,(jint)1,k,(jint)3,(jint)1,(jboolean)(type == 0),(jint)0,(jdouble)0);
        rejected(x,"Java operation","an image which is not gray");
    }
    // pixel types which only BoofCV's own code handles: refused, so that BoofCV falls back to it
    template<class T> void wrong_type() {
        const bool integral = std::is_integral<T>::value; int op = (int)s.draw(10); uint32_t w,h; gen_shape(s,w,h,12,30); c.note("\n operation ",op," on ",tname<T>()); bool output = op > 3 && op < 7 && s.flag(); JImg<T> a(v,0), b(v,1); Mat<T> m(w,h); if( output ) { if( integral ) { JImg<U8> u(v,0); u.build(s,c,Mat<U8>(w,h),"input"); } else { JImg<F32> u(v,0); u.build(s,c,Mat<F32>(w,h),"input"); } } else a.build(s,c,m,"input");
        if( op < 4 || output ) { if( output && integral ) { JImg<U8> o(v,1); o.build(s,c,Mat<U8>(w,h),"output"); } else b.build(s,c,m,"output"); } else if( op < 7 ) { JImg<S16> o(v,1); o.build(s,c,Mat<S16>(w,h),"output"); } else { JImg<U8> o(v,1); o.build(s,c,Mat<U8>(w,h),"output"); }
        jobject k = integral ? (jobject)v.array(std::vector<S32>(op == 6 ? 9 : 3,1)) : (jobject)v.array(std::vector<F32>(op == 6 ? 9 : 3,1.0f)); std::string x;
        if( op < 2 ) x = v.call("blur","(IIIIDI)V",(jint)op,(jint)0,(jint)1,(jint)-1,(jdouble)1.0,(jint)1); else if( op < 4 ) x = v.call("normalized","(IIILjava/lang/Object;II)V",(jint)(op-2),(jint)0,(jint)1,k,(jint)3,(jint)1); else if( op < 7 ) x = v.call("convolve","(IIILjava/lang/Object;IIZID)V",(jint)(op-4),(jint)0,(jint)1,k,(jint)3,(jint)1,(jboolean)integral,(jint)0,(jdouble)0);
        else { filter[0].kind = -1; double p[8] = {3,-1,1,0,1,100,0,255}; jdoubleArray q = v.e->NewDoubleArray(8); v.e->SetDoubleArrayRegion(q,0,8,p); x = v.call("makeFilter","(III[DZZZ)V",(jint)0,(jint)s.draw(6),(jint)Code<T>::t,q,(jboolean)s.flag(),(jboolean)s.flag(),(jboolean)s.flag()); if( x.empty() ) x = v.call("process","(III)V",(jint)0,(jint)0,(jint)1); }
        rejected(x,"Java operation",output ? "an output type which is not supported" : "an input type which is not supported"); if( !output ) a.untouched(c,"input");
    }
    void make_filter(int i) {
        Filter& f = filter[i]; f.kind = (int)s.draw(6); f.integral = s.draw(3) != 2; f.down = s.flag(); f.local = s.flag(); f.otsu2 = s.flag(); bool relative = s.draw(3) == 2; ConfigLength cfg = relative ? ConfigLength::relative((double)(1+s.draw(100))/100,(int)s.draw(6)) : ConfigLength::fixed(1+(double)s.draw(12));
        double scale = s.pick<double>({1.0,0.95,0.5,1.1}); if( f.kind == 0 ) scale = std::min(scale,1.0); double value = (double)s.draw(256); if( s.flag() && value < 255 ) value += (double)s.draw(100)/100; double lo = s.draw(4) == 3 ? (double)s.draw(100) : 0;
        double p[8] = {cfg.length,cfg.fraction,scale,s.flag() ? 0 : (double)s.draw(10)/4,(double)s.draw(60)-1,value,lo,255}; memcpy(f.p,p,sizeof p);
        const char* names[] = {"block mean","block min-max","block otsu","fixed","otsu","local mean"}; c.label(std::string("threshold ")+names[f.kind]); c.note("\n filter ",i," is ",names[f.kind]," ",f.integral ? "U8" : "F32"," length ",p[0]," fraction ",p[1]," scale ",p[2]," tuning ",p[3]," spread ",p[4]," threshold ",p[5]," min ",p[6]," down ",f.down," local ",f.local," otsu2 ",f.otsu2);
        jdoubleArray a = v.e->NewDoubleArray(8); v.e->SetDoubleArrayRegion(a,0,8,p); none(v.call("makeFilter","(III[DZZZ)V",(jint)i,(jint)f.kind,(jint)(f.integral ? 0 : 3),a,(jboolean)f.down,(jboolean)f.local,(jboolean)f.otsu2),"creating a threshold filter");
    }
    template<class T> void run_filter(int i) {
        Filter& f = filter[i]; uint32_t w,h; gen_shape(s,w,h,30,100); Mat<T> in = gen_mat<T>(s,w,h,f.kind == 4 ? (int64_t)f.p[6] : 0,255); c.note("\n filter ",i," on ",show(in)); JImg<T> ji(v,0); JImg<U8> jo(v,1); ji.build(s,c,in,"input"); jo.build_output(s,c,w,h,"output");
        ConfigLength cfg; cfg.length = f.p[0]; cfg.fraction = f.p[1]; Gray<T> gi = plain(in); Gray<U8> go(w,h); std::unique_ptr<InputToBinary<Gray<T>>> g;
        switch( f.kind ) { case 0: g.reset(new ThresholdBlockMean<T>(cfg,f.local,f.p[2],f.down)); break; case 1: g.reset(new ThresholdBlockMinMax<T>((float)f.p[4],cfg,f.local,(float)f.p[2],f.down)); break; case 2: g.reset(new ThresholdBlockOtsu<T>(f.otsu2,cfg,f.p[3],f.p[2],f.down,f.local)); break; case 3: g.reset(new GlobalFixedBinaryFilter<T>((T)f.p[5],f.down)); break; case 4: g.reset(new GlobalOtsuBinaryFilter<T>((T)f.p[6],(T)f.p[7],f.down)); break; default: g.reset(new LocalMeanBinaryFilter<T>(cfg,(float)f.p[2],f.down)); }
        bool refused = throws([&]{ g->process(gi,go); }); std::string x = v.call("process","(III)V",(jint)i,(jint)0,(jint)1);
        if( !jo.fits(w,h) ) rejected(x,"Java threshold","a sub-image of another shape as output"); else if( refused ) rejected(x,"Java threshold","settings the filter refuses for this image"); else { none(x,"Java threshold"); expect_same(c,mat(go),jo.result(c,w,h,"output"),"Java threshold"); if( w*h > 1 ) c.nontrivial = true; }
        ji.untouched(c,"input");
    }
    int32_t size(uint32_t small) { switch( s.draw(8) ) { case 4: case 5: return 0x7fffffff; case 6: return (int32_t)s.draw(300); case 7: { int32_t base[] = {128,256,32768,65536,1 << 24,0x7fffff00}; return base[s.draw(6)]+(int32_t)s.draw(70); } default: return (int32_t)s.draw(small); } }
    void readback(int i) { Finder& f = finder[i]; std::vector<jint> g = v.ints(c,"settings","(I)[I",(jint)i); c.check(g[0] == f.eight && g[1] == f.mn && g[2] == f.mx && g[3] == f.inner,"contour finder settings read back as rule ",g[0]," sizes ",g[1]," ",g[2]," internal ",g[3]," instead of ",f.eight," ",f.mn," ",f.mx," ",f.inner); }
    void contours(int i) {
        Finder& f = finder[i]; if( !f.made ) { none(v.call("makeFinder","(I)V",(jint)i),"creating a contour finder"); f = Finder(); f.made = true; c.note("\n new contour finder ",i); readback(i); }
        int n = (int)s.draw(3); for( int k = 0; k < n; k++ ) { int op = (int)s.draw(3); if( op == 0 ) { f.eight = s.flag(); none(v.call("setRule","(II)V",(jint)i,(jint)f.eight),"setConnectRule"); } else if( op == 1 ) { f.mn = size(20); f.mx = size(60); none(v.call("setSizes","(III)V",(jint)i,f.mn,f.mx),"setting contour sizes"); } else { f.inner = s.flag(); none(v.call("setInner","(IZ)V",(jint)i,(jboolean)f.inner),"setSaveInnerContour"); } readback(i); }
        bool large = s.draw(12) == 11; Mat<U8> m; if( large ) { uint32_t w = 60+(uint32_t)s.draw(100), h = 60+(uint32_t)s.draw(100); m = Mat<U8>(w,h); Stream st(s.draw(1u<<16)); uint32_t k = 2+(uint32_t)s.draw(4); int mode = (int)s.draw(3); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = mode == 0 ? st.below(k) == 0 : mode == 1 ? (x+y)&1 : (x%k != 0 || y%k != 0); c.label("large binary image"); } else m = gen_binary(s,30,200);
        c.note("\n contours by finder ",i," rule ",f.eight ? 8 : 4," sizes ",f.mn," ",f.mx," internal ",f.inner,"\n",picture(m)); JImg<U8> ji(v,0); JImg<S32> jo(v,1); ji.build(s,c,m,"binary"); jo.build_output(s,c,m.w,m.h,"label"); std::string x = v.call("find","(III)V",(jint)i,(jint)0,(jint)1); c.label("contours");
        if( !jo.fits(m.w,m.h) ) { rejected(x,"Java contour finder","a sub-image of another shape as output"); return; }
        none(x,"Java contour finder"); LinearContourLabelChang2004 a(f.eight ? EIGHT : FOUR); a.minContourSize = (uint32_t)f.mn; a.maxContourSize = (uint32_t)f.mx; a.saveInternalContours = f.inner; Gray<U8> b = plain(m); Gray<S32> l(m.w,m.h); a.process(b,l);
        expect_same(c,mat(l),jo.result(c,m.w,m.h,"label image"),"label image"); ji.untouched(c,"binary image"); std::vector<jint> got = v.ints(c,"contours","(I)[I",(jint)i), want; want.push_back((jint)a.contours.size());
        for( size_t k = 0; k < a.contours.size(); k++ ) { const ContourPacked& p = a.contours[k]; want.push_back((jint)p.id); want.push_back((jint)p.externalIndex); want.push_back((jint)p.internalIndexes.size()); for( size_t q = 0; q < p.internalIndexes.size(); q++ ) want.push_back((jint)p.internalIndexes[q]); }
        c.check(got.size() == want.size(),"getContours() has ",got[0]," blobs instead of ",want[0]," or other lists of internal contours"); for( size_t k = 0; k < got.size(); k++ ) c.check(got[k] == want[k],"getContours() differs at element ",k,": ",got[k]," instead of ",want[k]);
        uint32_t sets = a.packedPoints.number_of_sets(); if( sets ) c.nontrivial = true; uint32_t from = sets > 40 ? (uint32_t)s.draw(sets-40) : 0; std::vector<Point2D<S32>> p;
        auto compare = [&](uint32_t k, const char* when) { std::vector<jint> xy = v.ints(c,"load","(II)[I",(jint)i,(jint)k); c.check(xy.size() == 2*p.size(),"contour ",k,when," has ",xy.size()/2," points instead of ",p.size()); for( size_t q = 0; q < p.size(); q++ ) c.check(xy[2*q] == p[q].x && xy[2*q+1] == p[q].y,"point ",q," of contour ",k,when," is (",xy[2*q],",",xy[2*q+1],") instead of (",p[q].x,",",p[q].y,")"); };
        for( uint32_t k = from; k < sets && k < from+40; k++ ) { p.clear(); a.packedPoints.load_set(k,p); compare(k,""); }
        { v.ints(c,"contours","(I)[I",(jint)i); std::vector<jint> none_; bool rt = true; v.e->CallStaticObjectMethod(v.driver,v.method("load","(II)[I"),(jint)i,(jint)sets); std::string y = v.exception(&rt); c.check(!y.empty(),"contour ",sets," of ",sets," could be loaded"); }
        if( sets && s.flag() ) { uint32_t k = (uint32_t)s.draw(sets); p.clear(); a.packedPoints.load_set(k,p); for( auto& q : p ) { q.x += 1000; q.y -= 7; } std::vector<S32> xy; for( auto& q : p ) { xy.push_back(q.x); xy.push_back(q.y); } none(v.call("write","(II[I)V",(jint)i,(jint)k,v.array(xy)),"writeContour"); compare(k," after writeContour"); if( sets > 1 ) { uint32_t o = (k+1)%sets; p.clear(); a.packedPoints.load_set(o,p); compare(o," next to a rewritten one"); } c.label("rewritten contour"); }
    }
    void run() {
        int n = 1+(int)s.draw(6);
        for( int k = 0; k < n; k++ ) {
            Jvm::Frame frame(v);
            switch( s.draw(16) ) {
                case 0: blur<U8>(); break; case 1: blur<F32>(); break; case 2: normalized<U8>(); break; case 3: normalized<F32>(); break; case 4: convolve<U8,S16>(); break; case 5: convolve<U8,S32>(); break; case 6: convolve<F32,F32>(); break;
                case 7: case 8: case 9: case 10: { int i = (int)s.draw(NF); if( filter[i].kind < 0 || s.draw(3) == 2 ) make_filter(i); if( filter[i].integral ) run_filter<U8>(i); else run_filter<F32>(i); break; }
                case 11: case 12: case 13: contours((int)s.draw(NC)); break;
                case 14: switch( s.draw(4) ) { case 0: wrong_type<S16>(); break; case 1: wrong_type<S32>(); break; case 2: wrong_type<F64>(); break; default: wrong_family(); } break;
                default: { c.note("\n objects dropped and collected"); if( s.flag() ) { int i = (int)s.draw(NF); filter[i].kind = -1; v.call("dropFilter","(I)V",(jint)i); } if( s.flag() ) { int i = (int)s.draw(NC); finder[i].made = false; v.call("dropFinder","(I)V",(jint)i); } if( s.draw(4) == 3 ) { none(v.call("gc","()V"),"garbage collection"); c.label("garbage collection"); } }
            }
        }
    }
};
void pbt_case(Source& s, Ctx& c) { Jvm::Frame f(Jvm::get()); World(s,c).run(); }
