// The exported entry points of the native library and Java objects to call them with
#pragma once
#include "fake_jni.h"
#include "gen_kernel.h"
using namespace pbt; using namespace boofcv;
#define CONV(N) extern "C" void Java_org_boofcpp_convolve_NativeConvolveImage_native##N(JNIEnv*, jobject, jobject, jobject, jobject, jint)
CONV(Horizontal); CONV(Vertical); CONV(Convolve);
extern "C" void Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(JNIEnv*, jobject, jobject, jobject, jobject);
extern "C" void Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(JNIEnv*, jobject, jobject, jobject, jobject);
extern "C" void Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(JNIEnv*, jobject, jobject, jobject, jint, jobject);
extern "C" void Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(JNIEnv*, jobject, jobject, jobject, jdouble, jint, jobject);
#define THR(N) extern "C" void Java_org_boofcpp_threshold_Native##N##_nativedestroy(JNIEnv*, jobject); extern "C" void Java_org_boofcpp_threshold_Native##N##_nativeprocess(JNIEnv*, jobject, jobject, jobject); extern "C" void Java_org_boofcpp_threshold_Native##N##_nativeinit
THR(BlockMean)(JNIEnv*, jobject, jobject, jdouble, jboolean, jboolean);
THR(BlockMinMax)(JNIEnv*, jobject, jobject, jdouble, jboolean, jdouble, jboolean);
THR(BlockOtsu)(JNIEnv*, jobject, jboolean, jobject, jdouble, jdouble, jboolean, jboolean);
THR(GlobalFixed)(JNIEnv*, jobject, jdouble, jboolean);
THR(GlobalOtsu)(JNIEnv*, jobject, jdouble, jdouble, jboolean);
THR(LocalMean)(JNIEnv*, jobject, jobject, jdouble, jboolean);

template<class F> void native(Ctx& c, FakeVM& vm, const char* what, F f, bool refuse = false) { try { f(); } catch( const std::exception& e ) { if( !vm.problem.empty() ) c.fail(vm.problem); c.fail(what,": C++ exception left the JNI function: ",e.what()); } catch( const char* e ) { c.fail(what,": C++ exception left the JNI function: ",e); } if( refuse ) vm.refused(c,what); else vm.check(c); }
// an image whose pixels have a type the native code does not handle
inline void foreign(JObject& o, JObject& arr, char elem, uint32_t w, uint32_t h) { o.cls = "boofcv/struct/image/ImageGray"; arr.make_array(elem,w*h); for( auto& b : arr.bytes ) b = 7; o.prim["width"] = {"I",w}; o.prim["height"] = {"I",h}; o.prim["stride"] = {"I",w}; o.prim["startIndex"] = {"I",0}; o.ref["data"] = {arr.cls,&arr}; }
template<class T> Gray<T> plain(const Mat<T>& m) { Gray<T> g(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) g.at(x,y) = m.at(x,y); return g; }
template<class T> Mat<T> mat(const Gray<T>& g) { Mat<T> m(g.width,g.height); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) m.at(x,y) = g.at(x,y); return m; }
template<class T> Mat<T> noise_mat(Source& s, uint32_t w, uint32_t h) { Mat<T> m(w,h); Stream st(s.draw(1000)); for( auto& p : m.v ) p = View<T>::noise(st); return m; }
inline void jkernel(JObject& o, JObject& arr, const Ker& k, bool integer) { o.cls = "boofcv/struct/convolve/Kernel"; o.prim["width"] = {"I",k.w}; o.prim["offset"] = {"I",k.off}; arr.make_array(integer ? 'I' : 'F',(uint32_t)k.v.size()); for( size_t i = 0; i < k.v.size(); i++ ) { if( integer ) arr.as<S32>()[i] = (S32)k.v[i]; else arr.as<F32>()[i] = (F32)k.v[i]; } o.ref["data"] = {arr.cls,&arr}; }
template<class T> void jself(JObject& o, int out_bits) { o.prim["isInteger"] = {"Z",std::is_integral<T>::value}; o.prim["inputBits"] = {"I",8*(int)sizeof(T)}; o.prim["outputBits"] = {"I",out_bits}; o.prim["nativePtr"] = {"J",0}; }
