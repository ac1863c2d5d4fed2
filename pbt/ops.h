// Every image operation of the library behind one interface, with parameters drawn separately from the instance
#pragma once
#include "gen_kernel.h"
#include "image_blur.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
#include "image_misc_ops.h"
#include "image_statistics.h"
#include "image_convert.h"
#include "contour.h"
namespace pbt {
struct Params {
    int op = 0; Ker k1, k2; int border = 0; int64_t value = 0; uint32_t radius = 1; double sigma = 1; int32_t width = 3; bool down = false, local = false, otsu2 = false, eight = false; double scale = 1, tuning = 0; float spread = 0;
    bool relative = false; double length = 3, fraction = 0.3; int64_t lo = 0, hi = 255; uint32_t seed = 0;
    boofcv::ConfigLength config() const { return relative ? boofcv::ConfigLength::relative(fraction,(int)length) : boofcv::ConfigLength::fixed(length); }
};
template<class T, class R> struct Op {
    std::string name; bool two = false; bool works = false; bool reshapes = true; bool binary = false; bool inplace = false; double gain = 1;
    std::function<void(const Gray<T>&,const Gray<T>&,Gray<R>&,Gray<T>&,Gray<T>&)> f;
};
template<class T, class R> struct OpSet;
// kernels up to about the size of a side
inline void gen_params(Source& s, Params& p, uint32_t w, uint32_t h, bool integral, bool normalized, int64_t budget) {
    uint32_t kw = gen_kwidth(s,s.flag() ? w : h,25), off = gen_korigin(s,kw);
    if( normalized ) p.k1 = integral ? gen_positive_kernel<S32>(s,kw,off,1000000) : gen_positive_kernel<F32>(s,kw,off,1000000);
    else p.k1 = integral ? gen_signed_kernel<S32>(s,kw,off,false,budget) : gen_signed_kernel<F32>(s,kw,off,false,budget);
    uint32_t kw2 = 1+(uint32_t)s.draw(7), off2 = gen_korigin(s,kw2);
    p.k2 = integral ? gen_signed_kernel<S32>(s,kw2,off2,true,budget) : gen_signed_kernel<F32>(s,kw2,off2,true,budget);
    p.border = (int)s.draw(5); p.value = p.border == B_VALUE ? (int64_t)s.draw(200) : 0; p.radius = 1+(uint32_t)s.draw(s.flag() ? 4 : 20);
    p.sigma = s.draw(3) ? 0.3+(double)s.draw(60)/20 : -1; p.width = p.sigma > 0 && s.flag() ? -1 : 1+(int32_t)s.draw(14); 
    p.down = s.flag(); p.local = s.flag(); p.otsu2 = s.flag(); p.eight = s.flag(); p.scale = s.pick<double>({1.0,0.95,0.5,1.1}); p.tuning = s.draw(3) == 2 ? 0.5 : 0; p.spread = (float)s.draw(40)-1;
    p.relative = s.draw(3) == 2; p.length = 2+(double)s.draw(8); p.fraction = (double)(1+s.draw(100))/100; p.lo = 0; p.hi = 255; p.seed = (uint32_t)s.draw(1000);
}
template<class K> std::shared_ptr<boofcv::Kernel1D<K>> ker1(const Ker& k) { auto p = std::make_shared<boofcv::Kernel1D<K>>(); fill_kernel(*p,k,false); return p; }
template<class K> std::shared_ptr<boofcv::Kernel2D<K>> ker2(const Ker& k) { auto p = std::make_shared<boofcv::Kernel2D<K>>(); fill_kernel(*p,k,true); return p; }
inline double gain_of(const Ker& k) { double s = 0; for( double v : k.v ) s += std::fabs(v); return std::max(1.0,s); }

// bordered convolution, T -> R
template<class T, class R> Op<T,R> conv_op(const Params& p, int dir) {
    typedef typename boofcv::TypeInfo<T>::signed_type K; Op<T,R> o; auto b = make_border<T>(p.border,(T)p.value); auto k1 = ker1<K>(p.k1); auto k2 = ker2<K>(p.k2);
    o.name = dir == 0 ? "convolve horizontal" : dir == 1 ? "convolve vertical" : "convolve square"; o.gain = gain_of(dir == 2 ? p.k2 : p.k1);
    o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<R>& out, Gray<T>&, Gray<T>&) { b->setImage(in); if( dir == 0 ) boofcv::ConvolveImage::horizontal(*k1,*b,out); else if( dir == 1 ) boofcv::ConvolveImage::vertical(*k1,*b,out); else boofcv::ConvolveImage::convolve(*k2,*b,out); };
    return o;
}
// operations which exist for every pixel type
template<class T> Op<T,T> fill_op(const Params& p, int which) {
    Op<T,T> o; using namespace boofcv;
    switch( which ) {
        case 5: o.name = "fill"; o.inplace = true; o.f = [=](const Gray<T>&, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { ImageMiscOps::fill(out,(T)p.value); }; break;
        case 6: o.name = "fill border"; o.inplace = true; o.f = [=](const Gray<T>&, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { ImageMiscOps::fill_border(out,(T)p.value,p.radius); }; break;
        case 7: o.name = "fill uniform"; o.inplace = true; o.f = [=](const Gray<T>&, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { std::mt19937 g(p.seed); ImageMiscOps::fill_uniform(out,(T)p.lo,(T)p.hi,g); }; break;
        default: o.name = "gray copy"; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { out.copy(in); }; break;
    }
    return o;
}
// same type filters
template<class T> Op<T,T> same_op(const Params& p, int which) {
    typedef typename boofcv::TypeInfo<T>::signed_type K; Op<T,T> o; auto k1 = ker1<K>(p.k1); using namespace boofcv;
    switch( which ) {
        case 0: o.name = "normalized horizontal"; o.reshapes = false; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { ConvolveNormalized::horizontal(*k1,in,out); }; break;
        case 1: o.name = "normalized vertical"; o.reshapes = false; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { ConvolveNormalized::vertical(*k1,in,out); }; break;
        case 2: o.name = "normalized both"; o.works = true; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>& wk, Gray<T>&) { ConvolveNormalized::convolve(*k1,in,out,wk); }; break;
        case 3: o.name = "mean blur"; o.works = true; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>& wk, Gray<T>&) { BlurImageOps::mean(in,out,p.radius,wk); }; break;
        case 4: o.name = "gaussian blur"; o.works = true; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>& wk, Gray<T>&) { BlurImageOps::gaussian(in,out,p.sigma,p.width,wk); }; break;
        default: return fill_op<T>(p,which);
    }
    return o;
}
enum { NSAME = 9, NBINARIZE = 7 };
template<class T> Op<T,U8> binarize_op(const Params& p, int which) {
    Op<T,U8> o; using namespace boofcv;
    auto filt = [&](const char* name, InputToBinary<Gray<T>>* q, bool reshapes) { o.name = name; o.reshapes = reshapes; std::shared_ptr<InputToBinary<Gray<T>>> f(q); o.f = [f](const Gray<T>& in, const Gray<T>&, Gray<U8>& out, Gray<T>&, Gray<T>&) { f->process(in,out); }; };
    switch( which ) {
        case 0: filt("fixed threshold",new GlobalFixedBinaryFilter<T>((T)p.value,p.down),true); break;
        case 1: filt("otsu threshold",new GlobalOtsuBinaryFilter<T>((T)p.lo,(T)p.hi,p.down),true); break;
        case 2: filt("local mean filter",new LocalMeanBinaryFilter<T>(p.config(),(float)p.scale,p.down),true); break;
        case 3: filt("block mean",new ThresholdBlockMean<T>(p.config(),p.local,std::min(p.scale,1.0),p.down),false); break;
        case 4: filt("block min-max",new ThresholdBlockMinMax<T>(p.spread,p.config(),p.local,(float)p.scale,p.down),false); break;
        case 5: filt("block otsu",new ThresholdBlockOtsu<T>(p.otsu2,p.config(),p.tuning,p.scale,p.down,p.local),false); break;
        default: o.name = "local mean"; o.works = true; o.f = [=](const Gray<T>& in, const Gray<T>&, Gray<U8>& out, Gray<T>& w1, Gray<T>& w2) { ThresholdOps::localMean(in,out,p.config(),(float)p.scale,p.down,w1,w2); }; break;
    }
    return o;
}
inline Op<U8,U8> logic_op(const Params&, int which) {
    Op<U8,U8> o; using namespace boofcv; o.binary = true; o.two = which < 2;
    switch( which ) {
        case 0: o.name = "logic and"; o.f = [](const Gray<U8>& a, const Gray<U8>& b, Gray<U8>& out, Gray<U8>&, Gray<U8>&) { BinaryImageOps::logicAnd(a,b,out); }; break;
        case 1: o.name = "logic or"; o.f = [](const Gray<U8>& a, const Gray<U8>& b, Gray<U8>& out, Gray<U8>&, Gray<U8>&) { BinaryImageOps::logicOr(a,b,out); }; break;
        case 2: o.name = "erode"; o.f = [](const Gray<U8>& a, const Gray<U8>&, Gray<U8>& out, Gray<U8>&, Gray<U8>&) { BinaryImageOps::erode4(a,out); }; break;
        default: o.name = "dilate"; o.f = [](const Gray<U8>& a, const Gray<U8>&, Gray<U8>& out, Gray<U8>&, Gray<U8>&) { BinaryImageOps::dilate4(a,out); }; break;
    }
    return o;
}
struct Finder { boofcv::LinearContourLabelChang2004 a; Finder(boofcv::ConnectRule r) : a(r) {} };
inline Op<U8,S32> label_op(const Params& p, std::shared_ptr<Finder>& keep) {
    Op<U8,S32> o; o.binary = true; o.name = "labelling"; keep = std::make_shared<Finder>(p.eight ? boofcv::EIGHT : boofcv::FOUR); auto k = keep;
    o.f = [k](const Gray<U8>& a, const Gray<U8>&, Gray<S32>& out, Gray<U8>&, Gray<U8>&) { k->a.process(a,out); };
    return o;
}
// an interleaved image in some layout with everything around it recorded
template<class T> struct IView {
    boofcv::Interleaved<T>* img = nullptr; boofcv::Interleaved<T>* parent = nullptr; T* raw = nullptr; uint32_t len = 0; int layout = 0; std::vector<T> snap;
    IView() {} IView(const IView&) = delete; ~IView() { delete img; delete parent; delete [] raw; }
    void build(Source& s, uint32_t w, uint32_t h, uint32_t b, uint64_t seed) {
        layout = (int)s.draw(4); uint32_t l = 0,t = 0,r = 0,bo = 0; if( layout ) { l = (uint32_t)s.draw(4); t = (uint32_t)s.draw(4); r = (uint32_t)s.draw(4); bo = (uint32_t)s.draw(4); }
        Stream st(seed); typedef boofcv::Interleaved<T> I;
        if( layout == 0 ) { img = new I(w,h,b); len = img->data_length; }
        else if( layout == 3 ) { img = new I(w+l,h+t,b+1); img->reshape(w,h,b); len = img->data_length; }
        else if( layout == 1 ) { uint32_t stride = (w+l+r)*b+(r&1), off = t*stride+l*b; len = h ? off+(h-1)*stride+w*b+bo : off; raw = new T[len]; img = new I(raw,len,w,h,b,off,stride); }
        else { parent = new I(w+l+r,h+t+bo,b); img = new I(parent->makeSubimage(l,t,l+w,t+h)); len = parent->data_length; }
        for( uint32_t i = 0; i < len; i++ ) img->data[i] = View<T>::noise(st);
        take();
    }
    void take() { snap.assign(img->data,img->data+len); }
    bool inside(uint32_t i) const { int64_t k = (int64_t)i-img->offset; return k >= 0 && img->stride && (uint64_t)k/img->stride < img->height && (uint64_t)k%img->stride < img->width*img->num_bands; }
    bool around_intact(bool all) const { for( uint32_t i = 0; i < len; i++ ) if( (all || !inside(i)) && (layout == 1 || layout == 2 || all) && memcmp(&snap[i],&img->data[i],sizeof(T)) != 0 ) return false; return true; }
};
} // namespace pbt
