// A stand-in for the Java side: objects with typed fields, primitive arrays and a JNI function table which checks how it is used
#pragma once
#include "common.h"
#include <jni.h>
#include <map>
#include <cstdarg>
namespace pbt {
struct JObject {
    std::string cls; char elem = 0; uint32_t length = 0; std::vector<uint8_t> bytes;   // primitive array when elem is set
    std::map<std::string,std::pair<std::string,int64_t>> prim; std::map<std::string,std::pair<std::string,double>> real; std::map<std::string,std::pair<std::string,JObject*>> ref;
    std::map<std::string,std::function<int64_t(const std::vector<int64_t>&)>> methods;   // key: name+signature
    JObject(const std::string& c = "java/lang/Object") : cls(c) {}
    static uint32_t width_of(char e) { return e == 'B' || e == 'Z' ? 1 : e == 'S' || e == 'C' ? 2 : e == 'J' || e == 'D' ? 8 : 4; }
    void make_array(char e, uint32_t n) { elem = e; length = n; cls = std::string("[")+e; bytes.assign((size_t)n*width_of(e),0); }
    template<class T> T* as() { return (T*)bytes.data(); }
    template<class T> const T* as() const { return (const T*)bytes.data(); }
    JObject* klass = nullptr; size_t shape = 0;   // its class, and how many members it had when it was looked up
};
// what the virtual machine does is not subject to the allocation faults of the native code
template<class F, F f> struct Quiet;
template<class R, class... A, R (*f)(JNIEnv*,A...)> struct Quiet<R (*)(JNIEnv*,A...),f> { static R JNICALL call(JNIEnv* e, A... a) { NoFaults q; return f(e,a...); } };
#define PBT_W(F) (Quiet<decltype(&F),&F>::call)
class FakeVM;
extern FakeVM* g_vm;
class FakeVM {
public:
    JNINativeInterface_ table; JNIEnv_ env; bool copying; std::string problem; bool pending = false; std::string thrown;
    struct Hold { JObject* array; void* data; bool critical; char kind; uint8_t* copy; };
    std::vector<Hold> held; uint32_t calls = 0, acquired = 0; int critical = 0;
    std::map<std::string,JObject*> statics;         // "class.FIELD"
    // the virtual machine fails: number vm_at of the lookups, array accesses and Java methods
    uint64_t vm_seen = 0, vm_at = 0, vm_hit = 0; bool vm_pending = true; std::string vm_what; std::map<std::string,std::vector<uint64_t>>* vm_points = nullptr;   // where each of them was met
    bool fault(const std::string& what, const char* thrown_, bool leaves = true) { vm_seen++; if( vm_points ) (*vm_points)[what].push_back(vm_seen); if( !vm_at || vm_seen != vm_at ) return false; vm_hit++; vm_what = what; if( leaves ) { pending = true; thrown = thrown_; } return true; }
    void fail_vm(uint64_t k, bool leaves = true) { vm_seen = vm_hit = 0; vm_at = k; vm_pending = leaves; vm_what.clear(); }
    // arrays are handed out as copies or pinned
    explicit FakeVM(bool copying_) : copying(copying_) { memset(&table,0,sizeof table); void** t = (void**)&table; for( size_t i = 4; i < sizeof table/sizeof(void*); i++ ) t[i] = (void*)&unsupported; fill(); env.functions = &table; g_vm = this; }
    ~FakeVM() { for( auto& h : held ) ::free(h.copy); g_vm = nullptr; }
    void broke(const std::string& s) { if( problem.empty() ) problem = s; }
    // local references of the native call which is running. They are only freed by the call or when it returns
    static const int LOCALS = 64; int locals = 0, room = LOCALS; std::vector<int> frames;
    // a reference is a number which is only good until the call returns, or until it is deleted. Arguments and global references are plain pointers
    std::vector<JObject*> refs; static uint64_t& first_ref() { static uint64_t n = 1; return n; }
    static JObject* deref(const void* r, const char* what) {
        uint64_t u = (uint64_t)r; if( !(u & 1) ) return (JObject*)r; FakeVM& v = *g_vm; uint64_t n = u >> 1;
        if( n < first_ref() || n >= first_ref()+v.refs.size() ) { v.broke(std::string(what)+" with a local reference of an earlier native call"); return nullptr; }
        JObject* o = v.refs[n-first_ref()]; if( !o ) v.broke(std::string(what)+" with a local reference which was deleted"); return o;
    }
    void returned() { locals = 0; room = LOCALS; frames.clear(); first_ref() += refs.size(); refs.clear(); }
    // classes live as long as the process. Objects with the same members are of the same class
    static JObject* class_of(JObject* o) {
        size_t n = o->prim.size()+o->real.size()*100+o->ref.size()*10000+o->methods.size()*1000000; if( o->klass && o->shape == n && o->klass->cls == o->cls ) return o->klass;
        std::string key = o->cls; for( auto& m : o->prim ) key += ";"+m.first+":"+m.second.first; for( auto& m : o->real ) key += ";"+m.first+":"+m.second.first; for( auto& m : o->ref ) key += ";"+m.first+":"+m.second.first; for( auto& m : o->methods ) key += ";"+m.first;
        static std::map<std::string,JObject*>* all = new std::map<std::string,JObject*>; JObject*& k = (*all)[key];
        if( !k ) { k = new JObject(o->cls); for( auto& m : o->prim ) k->prim[m.first] = {m.second.first,0}; for( auto& m : o->real ) k->real[m.first] = {m.second.first,0}; for( auto& m : o->ref ) k->ref[m.first] = {m.second.first,nullptr}; for( auto& m : o->methods ) k->methods[m.first] = nullptr; }
        o->klass = k; o->shape = n; return k;
    }
    template<class O> static O local(O p) { if( !p ) return p; FakeVM& v = *g_vm; v.refs.push_back((JObject*)p); O o = (O)(((first_ref()+v.refs.size()-1) << 1)|1); if( ++v.locals > v.room ) v.broke("more than "+std::to_string(v.room)+" local references are held in one native call: the virtual machine only promises 16"); return o; }
    void check(Ctx& c) { returned(); if( !problem.empty() ) c.fail(problem); if( !held.empty() ) c.fail(held.size()," array(s) not released, first is a ",held[0].array->cls); if( pending ) c.fail("a Java exception is left pending"); }
    // after a call which has to be refused: a RuntimeException is pending and nothing is held
    void refused(Ctx& c, const char* what) { returned(); if( !problem.empty() ) c.fail(problem); if( !held.empty() ) c.fail(held.size()," array(s) not released by ",what,", first is a ",held[0].array->cls); c.check(pending,what," was refused by the library, but no Java exception is pending"); c.check(thrown.find("Exception") != std::string::npos,what," left a ",thrown," pending"); pending = false; }
private:
    static std::map<std::string,JObject>& exceptions() { static std::map<std::string,JObject> m; return m; }
    struct Id { std::string name, sig; bool field; std::string stat; };
    // they stay valid as long as the process, native code may keep them
    static std::vector<Id*>& all_ids() { static std::vector<Id*>* v = new std::vector<Id*>; return *v; }
    struct Unsupported : std::runtime_error { Unsupported() : std::runtime_error("JNI function which the stand-in does not model") {} };
    static jint JNICALL unsupported(JNIEnv*) { g_vm->broke("harness: JNI function which the stand-in does not model was used"); throw Unsupported(); }
    static FakeVM& enter(const char* what) { FakeVM& v = *g_vm; v.calls++; if( v.critical ) v.broke(std::string(what)+" called while a critical array is held"); if( v.pending ) v.broke(std::string(what)+" called with a pending exception"); return v; }
    static JObject* obj(jobject o, const char* what) { if( !o ) g_vm->broke(std::string(what)+" on null"); return deref(o,what); }
    static Id* id(void* p) { return (Id*)p; }
    Id* intern(const char* n, const char* s, bool f, const std::string& st = "") { auto& ids = all_ids(); for( auto p : ids ) if( p->name == n && p->sig == s && p->field == f && p->stat == st ) return p; ids.push_back(new Id{n,s,f,st}); return ids.back(); }
    static jclass JNICALL GetObjectClass(JNIEnv*, jobject o) { enter("GetObjectClass"); JObject* p = obj(o,"GetObjectClass"); return local((jclass)(p ? class_of(p) : nullptr)); }
    static jclass JNICALL FindClass(JNIEnv*, const char* name) { FakeVM& v = enter("FindClass"); std::string n(name); if( n.compare(0,10,"java/lang/") != 0 && v.fault("FindClass "+n,"java/lang/NoClassDefFoundError") ) return nullptr; if( n.compare(0,10,"java/lang/") == 0 && (n.find("Exception") != std::string::npos || n.find("Error") != std::string::npos) ) { JObject& o = exceptions()[n]; o.cls = n; return local((jclass)&o); } auto it = v.statics.find(n); if( it == v.statics.end() ) { v.pending = true; v.thrown = "java/lang/NoClassDefFoundError"; return nullptr; } return local((jclass)class_of(it->second)); }
    static jfieldID JNICALL GetFieldID(JNIEnv*, jclass c, const char* n, const char* s) {
        FakeVM& v = enter("GetFieldID"); JObject* o = obj(c,"GetFieldID"); if( !o || v.fault(std::string("GetFieldID ")+n,"java/lang/NoSuchFieldError") ) return nullptr;
        bool ok = (o->prim.count(n) && o->prim[n].first == s) || (o->real.count(n) && o->real[n].first == s) || (o->ref.count(n) && o->ref[n].first == s);
        if( !ok ) { v.pending = true; v.thrown = "java/lang/NoSuchFieldError"; return nullptr; } return (jfieldID)v.intern(n,s,true);
    }
    static jmethodID JNICALL GetMethodID(JNIEnv*, jclass c, const char* n, const char* s) { FakeVM& v = enter("GetMethodID"); JObject* o = obj(c,"GetMethodID"); if( v.fault(std::string("GetMethodID ")+n,"java/lang/NoSuchMethodError") ) return nullptr; if( !o || !o->methods.count(std::string(n)+s) ) { v.pending = true; return nullptr; } return (jmethodID)v.intern(n,s,false); }
    static jfieldID JNICALL GetStaticFieldID(JNIEnv*, jclass c, const char* n, const char* s) { FakeVM& v = enter("GetStaticFieldID"); JObject* o = obj(c,"GetStaticFieldID"); if( v.fault(std::string("GetStaticFieldID ")+n,"java/lang/NoSuchFieldError") ) return nullptr; std::string k = o ? o->cls+"."+n : ""; if( !v.statics.count(k) || s != "L"+v.statics[k]->cls+";" ) { v.pending = true; return nullptr; } return (jfieldID)v.intern(n,s,true,k); }
    static jobject JNICALL GetStaticObjectField(JNIEnv*, jclass, jfieldID f) { FakeVM& v = enter("GetStaticObjectField"); return local((jobject)v.statics[id(f)->stat]); }
    static int64_t* prim(jobject o, jfieldID f, const char* sig, const char* what) { FakeVM& v = enter(what); static int64_t none = 0; JObject* p = obj(o,what); if( !p || !f || id(f)->sig != sig || !p->prim.count(id(f)->name) || p->prim[id(f)->name].first != sig ) { v.broke(std::string(what)+" of a field of another type"); return &none; } return &p->prim[id(f)->name].second; }
    static double* real(jobject o, jfieldID f, const char* sig, const char* what) { FakeVM& v = enter(what); static double none = 0; JObject* p = obj(o,what); if( !p || !f || id(f)->sig != sig || !p->real.count(id(f)->name) || p->real[id(f)->name].first != sig ) { v.broke(std::string(what)+" of a field of another type"); return &none; } return &p->real[id(f)->name].second; }
    static jobject JNICALL GetObjectField(JNIEnv*, jobject o, jfieldID f) { FakeVM& v = enter("GetObjectField"); JObject* p = obj(o,"GetObjectField"); if( !p || !f || !p->ref.count(id(f)->name) ) { v.broke("GetObjectField of a missing field"); return nullptr; } return local((jobject)p->ref[id(f)->name].second); }
    static void JNICALL SetObjectField(JNIEnv*, jobject o, jfieldID f, jobject val) { FakeVM& v = enter("SetObjectField"); JObject* p = obj(o,"SetObjectField"); if( !p || !f || !p->ref.count(id(f)->name) ) { v.broke("SetObjectField of a missing field"); return; } p->ref[id(f)->name].second = deref(val,"SetObjectField"); }
    static jboolean JNICALL GetBooleanField(JNIEnv*, jobject o, jfieldID f) { return (jboolean)*prim(o,f,"Z","GetBooleanField"); }
    static jint JNICALL GetIntField(JNIEnv*, jobject o, jfieldID f) { return (jint)*prim(o,f,"I","GetIntField"); }
    static jlong JNICALL GetLongField(JNIEnv*, jobject o, jfieldID f) { return (jlong)*prim(o,f,"J","GetLongField"); }
    static jdouble JNICALL GetDoubleField(JNIEnv*, jobject o, jfieldID f) { return *real(o,f,"D","GetDoubleField"); }
    static jfloat JNICALL GetFloatField(JNIEnv*, jobject o, jfieldID f) { return (jfloat)*real(o,f,"F","GetFloatField"); }
    static void JNICALL SetBooleanField(JNIEnv*, jobject o, jfieldID f, jboolean x) { *prim(o,f,"Z","SetBooleanField") = x; }
    static void JNICALL SetIntField(JNIEnv*, jobject o, jfieldID f, jint x) { *prim(o,f,"I","SetIntField") = x; }
    static void JNICALL SetLongField(JNIEnv*, jobject o, jfieldID f, jlong x) { *prim(o,f,"J","SetLongField") = x; }
    static void JNICALL SetDoubleField(JNIEnv*, jobject o, jfieldID f, jdouble x) { *real(o,f,"D","SetDoubleField") = x; }
    static int64_t invoke(jobject o, jmethodID m, const std::function<int64_t(char)>& arg) {
        FakeVM& v = enter("a method call"); JObject* p = obj(o,"method call"); if( !p || !m ) return 0; Id* i = id(m); auto it = p->methods.find(i->name+i->sig); if( it == p->methods.end() ) { v.broke("call of a method of another class: "+i->name); return 0; }
        if( v.fault("the Java method "+i->name,"java/lang/OutOfMemoryError") ) return 0;
        std::vector<int64_t> a; for( size_t k = 1; i->sig[k] != ')'; k++ ) { char t = i->sig[k]; if( t == '[' || t == 'L' ) { while( i->sig[k] == '[' ) k++; if( i->sig[k] == 'L' ) while( i->sig[k] != ';' ) k++; a.push_back(arg('L')); } else a.push_back(arg(t)); }
        return it->second(a);
    }
    static int64_t invokeV(jobject o, jmethodID m, va_list l) { va_list* p = (va_list*)l; (void)p; va_list q; va_copy(q,l); struct End { va_list* v; ~End() { va_end(*v); } } e{&q}; va_list* pq = &q; return invoke(o,m,[pq](char t) -> int64_t { return t == 'J' ? (int64_t)va_arg(*pq,jlong) : t == 'L' ? (int64_t)deref(va_arg(*pq,jobject),"a method argument") : t == 'D' || t == 'F' ? (int64_t)va_arg(*pq,jdouble) : (int64_t)va_arg(*pq,jint); }); }
    static int64_t invokeA(jobject o, jmethodID m, const jvalue* a) { int k = 0; return invoke(o,m,[&k,a](char t) -> int64_t { const jvalue& x = a[k++]; return t == 'J' ? x.j : t == 'L' ? (int64_t)deref(x.l,"a method argument") : t == 'Z' ? x.z : t == 'B' ? x.b : t == 'S' ? x.s : x.i; }); }
    static void JNICALL CallVoidMethodV(JNIEnv*, jobject o, jmethodID m, va_list l) { invokeV(o,m,l); }
    static jint JNICALL CallIntMethodV(JNIEnv*, jobject o, jmethodID m, va_list l) { return (jint)invokeV(o,m,l); }
    static jboolean JNICALL CallBooleanMethodV(JNIEnv*, jobject o, jmethodID m, va_list l) { return (jboolean)invokeV(o,m,l); }
    static jobject JNICALL CallObjectMethodV(JNIEnv*, jobject o, jmethodID m, va_list l) { return local((jobject)invokeV(o,m,l)); }
    static void JNICALL CallVoidMethodA(JNIEnv*, jobject o, jmethodID m, const jvalue* l) { invokeA(o,m,l); }
    static jint JNICALL CallIntMethodA(JNIEnv*, jobject o, jmethodID m, const jvalue* l) { return (jint)invokeA(o,m,l); }
    static jboolean JNICALL CallBooleanMethodA(JNIEnv*, jobject o, jmethodID m, const jvalue* l) { return (jboolean)invokeA(o,m,l); }
    static jobject JNICALL CallObjectMethodA(JNIEnv*, jobject o, jmethodID m, const jvalue* l) { return local((jobject)invokeA(o,m,l)); }
    static jboolean JNICALL ExceptionCheck(JNIEnv*) { FakeVM& v = *g_vm; if( v.critical ) v.broke("ExceptionCheck called while a critical array is held"); return v.pending; }
    static jthrowable JNICALL ExceptionOccurred(JNIEnv*) { static JObject ex("java/lang/Throwable"); return g_vm->pending ? (jthrowable)&ex : nullptr; }
    static void JNICALL ExceptionDescribe(JNIEnv*) { g_vm->pending = false; } static void JNICALL ExceptionClear(JNIEnv*) { g_vm->pending = false; }
    static jint JNICALL ThrowNew(JNIEnv*, jclass k, const char*) { enter("ThrowNew"); JObject* o = obj((jobject)k,"ThrowNew"); g_vm->pending = true; g_vm->thrown = o ? o->cls : ""; return 0; }
    static jint JNICALL Throw(JNIEnv*, jthrowable) { enter("Throw"); g_vm->pending = true; return 0; }
    static void JNICALL DeleteRef(JNIEnv*, jobject) { FakeVM& v = *g_vm; v.calls++; if( v.critical ) v.broke("DeleteLocalRef called while a critical array is held"); }
    static void JNICALL DeleteLocal(JNIEnv* e, jobject o) { DeleteRef(e,o); if( o && g_vm->locals > 0 ) g_vm->locals--; if( o && deref(o,"DeleteLocalRef") && ((uint64_t)o & 1) ) g_vm->refs[((uint64_t)o >> 1)-first_ref()] = nullptr; }
    static jobject JNICALL NewRef(JNIEnv*, jobject o) { enter("New*Ref"); return (jobject)deref(o,"NewGlobalRef"); }
    static jobject JNICALL NewLocal(JNIEnv*, jobject o) { enter("NewLocalRef"); return local((jobject)deref(o,"NewLocalRef")); }
    static jint JNICALL PushFrame(JNIEnv*, jint n) { FakeVM& v = enter("PushLocalFrame"); v.frames.push_back(v.locals); v.frames.push_back((int)v.refs.size()); v.room = std::max(v.room,v.locals+(int)n); return 0; }
    static jboolean JNICALL IsSameObject(JNIEnv*, jobject a, jobject b) { enter("IsSameObject"); return deref(a,"IsSameObject") == deref(b,"IsSameObject"); }
    static jint JNICALL Capacity(JNIEnv*, jint n) { FakeVM& v = enter("EnsureLocalCapacity"); v.room = std::max(v.room,v.locals+(int)n); return 0; } static jobject JNICALL PopFrame(JNIEnv*, jobject o) { FakeVM& v = enter("PopLocalFrame"); if( v.frames.empty() ) v.broke("PopLocalFrame without a frame"); else { o = (jobject)deref(o,"PopLocalFrame"); for( size_t k = (size_t)v.frames.back(); k < v.refs.size(); k++ ) v.refs[k] = nullptr; v.frames.pop_back(); v.locals = v.frames.back(); v.frames.pop_back(); return local(o); } return o; }
    static jint JNICALL GetVersion(JNIEnv*) { enter("GetVersion"); return JNI_VERSION_1_6; }
    static jsize JNICALL GetArrayLength(JNIEnv*, jarray a) { FakeVM& v = enter("GetArrayLength"); JObject* o = obj(a,"GetArrayLength"); if( !o || !o->elem ) { v.broke("GetArrayLength of something which is not an array"); return 0; } return (jsize)o->length; }
    void* get(jarray a, bool crit, char kind) {
        calls++; JObject* o = obj(a,"array access"); if( !o || !o->elem ) { broke("elements of something which is not an array"); return nullptr; }
        if( !crit && critical ) broke("Get<Type>ArrayElements called while a critical array is held"); if( pending ) broke("array access with a pending exception");
        if( kind && kind != o->elem ) broke("elements of an array of another type");
        if( fault(crit ? "GetPrimitiveArrayCritical" : "Get<Type>ArrayElements","java/lang/OutOfMemoryError",crit ? vm_pending : true) ) return nullptr;
        uint8_t* copy = nullptr; void* data = o->bytes.data();
        if( copying || o->bytes.empty() ) { copy = (uint8_t*)::malloc(o->bytes.size()+(o->bytes.empty())); if( !o->bytes.empty() ) memcpy(copy,o->bytes.data(),o->bytes.size()); data = copy; }
        held.push_back(Hold{o,data,crit,kind,copy}); acquired++; if( crit ) critical++; return data;
    }
    void release(jarray a, void* data, jint mode, bool crit, char kind) {
        calls++; if( !crit && critical ) broke("Release<Type>ArrayElements called while a critical array is held");
        JObject* o = deref(a,"the release of an array"); if( !o ) return;
        for( size_t i = held.size(); i-- > 0; ) { Hold& h = held[i]; if( h.array != o || h.data != data || h.critical != crit || h.kind != kind ) continue;
            if( h.copy && mode != JNI_ABORT ) { if( !h.array->bytes.empty() ) memcpy(h.array->bytes.data(),h.copy,h.array->bytes.size()); } if( mode == JNI_COMMIT ) return;
            if( mode != 0 && mode != JNI_ABORT ) broke("unknown release mode");
            ::free(h.copy); if( crit ) critical--; held.erase(held.begin()+(long)i); return; }
        broke("an array is released which is not held (released twice, or with another pointer)");
    }
    static void* JNICALL GetCritical(JNIEnv*, jarray a, jboolean* c) { if( c ) *c = g_vm->copying; return g_vm->get(a,true,0); }
    static void JNICALL ReleaseCritical(JNIEnv*, jarray a, void* d, jint m) { g_vm->release(a,d,m,true,0); }
#define PBT_ARR(T,A,K,N) static T* JNICALL Get##N(JNIEnv*, A a, jboolean* c) { if( c ) *c = g_vm->copying; return (T*)g_vm->get(a,false,K); } static void JNICALL Release##N(JNIEnv*, A a, T* d, jint m) { g_vm->release(a,d,m,false,K); } \
    static void JNICALL GetReg##N(JNIEnv*, A a, jsize s, jsize n, T* b) { FakeVM& v = enter("Get<Type>ArrayRegion"); JObject* o = deref(a,"array region"); if( !o || o->elem != K || s < 0 || n < 0 || (uint64_t)s+n > o->length ) { v.broke("array region out of bounds"); return; } memcpy(b,o->as<T>()+s,sizeof(T)*(size_t)n); } \
    static void JNICALL SetReg##N(JNIEnv*, A a, jsize s, jsize n, const T* b) { FakeVM& v = enter("Set<Type>ArrayRegion"); JObject* o = deref(a,"array region"); if( !o || o->elem != K || s < 0 || n < 0 || (uint64_t)s+n > o->length ) { v.broke("array region out of bounds"); return; } memcpy(o->as<T>()+s,b,sizeof(T)*(size_t)n); }
    PBT_ARR(jbyte,jbyteArray,'B',Byte) PBT_ARR(jshort,jshortArray,'S',Short) PBT_ARR(jint,jintArray,'I',Int) PBT_ARR(jfloat,jfloatArray,'F',Float) PBT_ARR(jdouble,jdoubleArray,'D',Double) PBT_ARR(jlong,jlongArray,'J',Long)
    void fill() {
        table.GetVersion = PBT_W(GetVersion); table.FindClass = PBT_W(FindClass); table.GetObjectClass = PBT_W(GetObjectClass); table.GetFieldID = PBT_W(GetFieldID); table.GetMethodID = PBT_W(GetMethodID); table.GetStaticFieldID = PBT_W(GetStaticFieldID); table.GetStaticObjectField = PBT_W(GetStaticObjectField);
        table.GetObjectField = PBT_W(GetObjectField); table.SetObjectField = PBT_W(SetObjectField); table.GetBooleanField = PBT_W(GetBooleanField); table.GetIntField = PBT_W(GetIntField); table.GetLongField = PBT_W(GetLongField); table.GetDoubleField = PBT_W(GetDoubleField); table.GetFloatField = PBT_W(GetFloatField);
        table.SetBooleanField = PBT_W(SetBooleanField); table.SetIntField = PBT_W(SetIntField); table.SetLongField = PBT_W(SetLongField); table.SetDoubleField = PBT_W(SetDoubleField);
        table.CallVoidMethodV = PBT_W(CallVoidMethodV); table.CallIntMethodV = PBT_W(CallIntMethodV); table.CallBooleanMethodV = PBT_W(CallBooleanMethodV); table.CallObjectMethodV = PBT_W(CallObjectMethodV); table.CallVoidMethodA = PBT_W(CallVoidMethodA); table.CallIntMethodA = PBT_W(CallIntMethodA); table.CallObjectMethodA = PBT_W(CallObjectMethodA); table.CallBooleanMethodA = PBT_W(CallBooleanMethodA);
        table.ExceptionCheck = PBT_W(ExceptionCheck); table.ExceptionOccurred = PBT_W(ExceptionOccurred); table.ExceptionDescribe = PBT_W(ExceptionDescribe); table.ExceptionClear = PBT_W(ExceptionClear); table.ThrowNew = PBT_W(ThrowNew); table.Throw = PBT_W(Throw);
        table.DeleteLocalRef = PBT_W(DeleteLocal); table.DeleteGlobalRef = PBT_W(DeleteRef); table.NewLocalRef = PBT_W(NewLocal); table.NewGlobalRef = PBT_W(NewRef); table.IsSameObject = PBT_W(IsSameObject); table.EnsureLocalCapacity = PBT_W(Capacity); table.PushLocalFrame = PBT_W(PushFrame); table.PopLocalFrame = PBT_W(PopFrame);
        table.GetArrayLength = PBT_W(GetArrayLength); table.GetPrimitiveArrayCritical = PBT_W(GetCritical); table.ReleasePrimitiveArrayCritical = PBT_W(ReleaseCritical);
        table.GetByteArrayElements = PBT_W(GetByte); table.ReleaseByteArrayElements = PBT_W(ReleaseByte); table.GetShortArrayElements = PBT_W(GetShort); table.ReleaseShortArrayElements = PBT_W(ReleaseShort); table.GetIntArrayElements = PBT_W(GetInt); table.ReleaseIntArrayElements = PBT_W(ReleaseInt); table.GetFloatArrayElements = PBT_W(GetFloat); table.ReleaseFloatArrayElements = PBT_W(ReleaseFloat); table.GetDoubleArrayElements = PBT_W(GetDouble); table.ReleaseDoubleArrayElements = PBT_W(ReleaseDouble); table.GetLongArrayElements = PBT_W(GetLong); table.ReleaseLongArrayElements = PBT_W(ReleaseLong);
        table.GetByteArrayRegion = PBT_W(GetRegByte); table.SetByteArrayRegion = PBT_W(SetRegByte); table.GetShortArrayRegion = PBT_W(GetRegShort); table.SetShortArrayRegion = PBT_W(SetRegShort); table.GetIntArrayRegion = PBT_W(GetRegInt); table.SetIntArrayRegion = PBT_W(SetRegInt); table.GetFloatArrayRegion = PBT_W(GetRegFloat); table.SetFloatArrayRegion = PBT_W(SetRegFloat); table.GetDoubleArrayRegion = PBT_W(GetRegDouble); table.SetDoubleArrayRegion = PBT_W(SetRegDouble); table.GetLongArrayRegion = PBT_W(GetRegLong); table.SetLongArrayRegion = PBT_W(SetRegLong);
    }
};
template<class T> char jelem(); template<> inline char jelem<U8>() { return 'B'; } template<> inline char jelem<S16>() { return 'S'; } template<> inline char jelem<S32>() { return 'I'; } template<> inline char jelem<F32>() { return 'F'; }
// a Java image in some layout
template<class T> struct JImage {
    JObject o, arr; uint32_t w = 0, h = 0, start = 0, stride = 0; std::vector<uint8_t> snap; std::map<std::string,std::pair<std::string,int64_t>> fields;
    void build(Source& s, const Mat<T>& m) {
        w = m.w; h = m.h; uint32_t l = 0, t = 0, r = 0, b = 0; int layout = (int)s.draw(3); uint64_t seed = 0;
        if( layout ) { l = layout == 1 ? (uint32_t)s.draw(4) : 0; t = layout == 1 ? (uint32_t)s.draw(4) : 0; r = layout == 1 ? (uint32_t)s.draw(4) : 0; b = (uint32_t)s.draw(4); seed = s.draw(1000); }
        stride = w+l+r; start = t*stride+l; o.cls = "boofcv/struct/image/ImageGray"; arr.make_array(jelem<T>(),stride*(t+h+b));
        Stream st(seed); for( uint32_t i = 0; i < arr.length; i++ ) arr.as<T>()[i] = View<T>::noise(st);
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) arr.as<T>()[start+y*stride+x] = m.at(x,y);
        o.prim["width"] = {"I",w}; o.prim["height"] = {"I",h}; o.prim["stride"] = {"I",stride}; o.prim["startIndex"] = {"I",start}; o.ref["data"] = {arr.cls,&arr}; snap = arr.bytes; fields = o.prim;
    }
    std::string text() const { std::ostringstream q; q << w << "x" << h << " start " << start << " stride " << stride << " length " << arr.length; return q.str(); }
    Mat<T> read() const { Mat<T> m(w,h); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = arr.as<T>()[start+y*stride+x]; return m; }
    bool untouched() const { return snap == arr.bytes && fields == o.prim; }
    bool around_intact() const { if( fields != o.prim ) return false; for( uint32_t i = 0; i < arr.length; i++ ) { int64_t k = (int64_t)i-start; bool in = k >= 0 && (uint64_t)k/stride < h && (uint64_t)k%stride < w; if( !in && memcmp(&snap[(size_t)i*sizeof(T)],&arr.bytes[(size_t)i*sizeof(T)],sizeof(T)) != 0 ) return false; } return true; }
    bool view() const { return stride != w || start != 0 || arr.length != w*h; }
    jobject j() { return (jobject)&o; }
};
} // namespace pbt
