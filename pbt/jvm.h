// A Java VM inside of the harness process
#pragma once
#include "common.h"
#include <jni.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
namespace pbt {
class Jvm {
public:
    JNIEnv* e = nullptr; jclass driver = nullptr; std::string problem;
    // one VM per process, created on first use. Class path and library directory come from check.py
    static Jvm& get() { static Jvm* v = nullptr; if( !v ) v = new Jvm(); return *v; }
    struct Frame { JNIEnv* e; explicit Frame(Jvm& v) : e(v.e) { e->PushLocalFrame(256); } ~Frame() { e->PopLocalFrame(nullptr); } };
    // text of the pending exception, which is cleared, or nothing
    std::string exception(bool* runtime = nullptr) {
        jthrowable t = e->ExceptionOccurred(); if( !t ) return "";
        e->ExceptionClear(); jclass r = e->FindClass("java/lang/RuntimeException"); if( runtime ) *runtime = e->IsInstanceOf(t,r);
        jclass o = e->FindClass("java/lang/Object"); jmethodID m = e->GetMethodID(o,"toString","()Ljava/lang/String;"); jstring s = (jstring)e->CallObjectMethod(t,m); std::string res = "an exception";
        if( e->ExceptionCheck() ) e->ExceptionClear(); else if( s ) { const char* p = e->GetStringUTFChars(s,nullptr); res = p; e->ReleaseStringUTFChars(s,p); }
        return res;
    }
    jmethodID method(const char* name, const char* sig) { jmethodID m = e->GetStaticMethodID(driver,name,sig); if( !m ) die(name); return m; }
    template<class... A> std::string call(const char* name, const char* sig, A... a) { bool rt = true; e->CallStaticVoidMethod(driver,method(name,sig),a...); std::string x = exception(&rt); return rt ? x : "error: "+x; }
    template<class... A> std::vector<jint> ints(Ctx& c, const char* name, const char* sig, A... a) { jintArray r = (jintArray)e->CallStaticObjectMethod(driver,method(name,sig),a...); std::string x = exception(); c.check(x.empty(),name,"() threw ",x); std::vector<jint> v((size_t)e->GetArrayLength(r)); e->GetIntArrayRegion(r,0,(jsize)v.size(),v.data()); e->DeleteLocalRef(r); return v; }
    jbyteArray array(const std::vector<U8>& v) { jbyteArray a = e->NewByteArray((jsize)v.size()); e->SetByteArrayRegion(a,0,(jsize)v.size(),(const jbyte*)v.data()); return a; }
    jshortArray array(const std::vector<S16>& v) { jshortArray a = e->NewShortArray((jsize)v.size()); e->SetShortArrayRegion(a,0,(jsize)v.size(),v.data()); return a; }
    jintArray array(const std::vector<S32>& v) { jintArray a = e->NewIntArray((jsize)v.size()); e->SetIntArrayRegion(a,0,(jsize)v.size(),(const jint*)v.data()); return a; }
    jfloatArray array(const std::vector<F32>& v) { jfloatArray a = e->NewFloatArray((jsize)v.size()); e->SetFloatArrayRegion(a,0,(jsize)v.size(),v.data()); return a; }
    jdoubleArray array(const std::vector<F64>& v) { jdoubleArray a = e->NewDoubleArray((jsize)v.size()); e->SetDoubleArrayRegion(a,0,(jsize)v.size(),v.data()); return a; }
    void read(jobject a, std::vector<F64>& v) { v.resize((size_t)e->GetArrayLength((jarray)a)); e->GetDoubleArrayRegion((jdoubleArray)a,0,(jsize)v.size(),v.data()); }
    void read(jobject a, std::vector<U8>& v) { v.resize((size_t)e->GetArrayLength((jarray)a)); e->GetByteArrayRegion((jbyteArray)a,0,(jsize)v.size(),(jbyte*)v.data()); }
    void read(jobject a, std::vector<S16>& v) { v.resize((size_t)e->GetArrayLength((jarray)a)); e->GetShortArrayRegion((jshortArray)a,0,(jsize)v.size(),v.data()); }
    void read(jobject a, std::vector<S32>& v) { v.resize((size_t)e->GetArrayLength((jarray)a)); e->GetIntArrayRegion((jintArray)a,0,(jsize)v.size(),(jint*)v.data()); }
    void read(jobject a, std::vector<F32>& v) { v.resize((size_t)e->GetArrayLength((jarray)a)); e->GetFloatArrayRegion((jfloatArray)a,0,(jsize)v.size(),v.data()); }
    [[noreturn]] static void die(const char* what) { fprintf(stderr,"harness: Java VM: %s\n",what); kill(getpid(),SIGKILL); for(;;) pause(); }   // not decided
private:
    Jvm() {
        const char* cp = getenv("PBT_JAVA_CP"); const char* lib = getenv("PBT_JAVA_LIB"); const char* so = getenv("PBT_LIBJVM"); if( !cp || !lib || !so ) die("environment is not set");
        void* h = dlopen(so,RTLD_NOW|RTLD_GLOBAL); if( !h ) die(dlerror());
        typedef jint (JNICALL *Create)(JavaVM**, void**, void*); Create create = (Create)dlsym(h,"JNI_CreateJavaVM"); if( !create ) die("no JNI_CreateJavaVM");
        std::vector<std::string> o = {std::string("-Djava.class.path=")+cp,std::string("-Djava.library.path=")+lib,"-XX:-UsePerfData","-XX:+UseSerialGC","-Xmx192m","-Xms16m","-XX:TieredStopAtLevel=1","-XX:+SuppressFatalErrorMessage","-XX:-CreateCoredumpOnCrash","-Xcheck:jni","-Xshare:auto","-Xrs"};
        std::vector<JavaVMOption> opt(o.size()); for( size_t i = 0; i < o.size(); i++ ) { opt[i].optionString = (char*)o[i].c_str(); opt[i].extraInfo = nullptr; }
        JavaVMInitArgs a; a.version = JNI_VERSION_1_8; a.nOptions = (jint)opt.size(); a.options = opt.data(); a.ignoreUnrecognized = JNI_FALSE;
        JavaVM* vm = nullptr; if( create(&vm,(void**)&e,&a) != JNI_OK ) die("could not be created");
        jclass d = e->FindClass("Driver"); if( !d ) { e->ExceptionDescribe(); die("no Driver class"); } driver = (jclass)e->NewGlobalRef(d);
        problem = call("start","()V");
    }
};
} // namespace pbt
