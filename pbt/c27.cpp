// C27: the Java classes used by several Java threads at once
#include "jvm.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C27";
const char* PBT_RULE = "A case starts 2 to 4 Java threads at once on a real Java VM, each of which repeats a program of 1 to 4 drawn calls (blur, normalized convolution, convolution, thresholds, contours, refused calls, dropping the objects with or without a garbage collection) through the hooks the library installs, on images, filters and contour finders of its own or on shared input images; every result is compared with that of the same program run by one thread alone. Non-trivial: at least two threads process images of more than one pixel.";
const char* PBT_ASSUMPTIONS = "the BoofCV, ddogleg and georegression classes the Java code is compiled against are small stand-ins written for this check | a filter, a contour finder and an output image are used by one thread each | which interleavings are run depends on the scheduler";
uint64_t PBT_CASES_QUICK = 800;

static int retries = (pbt_retries = 6);
void pbt_case(Source& s, Ctx& c) {
    Jvm& v = Jvm::get(); Jvm::Frame frame(v); c.check(v.problem.empty(),"BoofCPP.initialize() failed: ",v.problem); jclass cl = v.e->FindClass("Parallel"); if( !cl ) Jvm::die("no Parallel class"); jmethodID m = v.e->GetStaticMethodID(cl,"run","([[III)Ljava/lang/String;"); if( !m ) Jvm::die("no Parallel.run");
    uint32_t n = 2+(uint32_t)s.draw(3), busy = 0; int focus = (int)s.draw(8); uint32_t side = s.flag() ? 4 : 30;   // the smaller the images, the more often the threads meet
    jobjectArray all = v.e->NewObjectArray((jsize)n,v.e->FindClass("[I"),nullptr);
    for( uint32_t t = 0; t < n; t++ ) {
        std::vector<S32> p; uint32_t k = 1+(uint32_t)s.draw(4); bool real = false; c.note("\n thread ",t,":");
        for( uint32_t i = 0; i < k; i++ ) {
            // every second case or so uses one kind of operation only
            int kind = focus < 5 ? (s.draw(8) == 7 ? 5 : focus) : (int)s.draw(7), variant = (int)s.draw(kind == 3 ? 6 : kind == 2 || kind == 5 ? 3 : kind == 6 ? 8 : 2), type = kind == 4 ? 0 : s.flag() ? 3 : 0; uint32_t w = 1+(uint32_t)s.draw(side), h = 1+(uint32_t)s.draw(side); int seed = (int)s.draw(1000), a, b = (int)s.draw(8);
            a = kind == 0 ? 1+(int)s.draw(4) : kind == 3 ? 1+(int)s.draw(8) : kind == 4 ? (int)s.draw(10) : 1+(int)s.draw(5); if( kind == 2 && variant == 2 ) a |= 1; bool shared = s.draw(3) == 2;
            for( int x : {kind,variant,type,(int)w,(int)h,seed,a,b,(int)shared} ) p.push_back(x); static const char* names[] = {"blur","normalized convolution","convolution","threshold","contours","refused call","drop"};
            c.note("\n  ",names[kind]," variant ",variant," ",type ? "F32" : "U8"," ",w,"x",h," seed ",seed," parameters ",a," ",b,shared ? " shared input" : ""); c.label(names[kind]); if( kind < 5 && w*h > 1 ) real = true;
        }
        busy += real; v.e->SetObjectArrayElement(all,(jsize)t,v.array(p));
    }
    if( busy > 1 ) c.nontrivial = true;
    jstring r = (jstring)v.e->CallStaticObjectMethod(cl,m,all,(jint)(pbt_isolated ? 400 : 25),(jint)(pbt_isolated ? 1500 : 0)); std::string x = v.exception(); if( !x.empty() ) Jvm::die(x.c_str());
    if( r ) { const char* q = v.e->GetStringUTFChars(r,nullptr); std::string text = q; v.e->ReleaseStringUTFChars(r,q); if( text.compare(0,8,"harness:") == 0 ) Jvm::die(text.c_str()); c.check(false,text); }
}
