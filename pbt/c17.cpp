// C17: the same operation on stand-alone copies and on images in other memory layouts
#include "ops.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C17";
const char* PBT_RULE = "A case runs one of the library's image operations on stand-alone images and again with input(s), output and work images in independently drawn layouts (whole, raw memory view, sub-image, reshaped storage) surrounded by noise. Non-trivial: at least one argument is a view with something around it and the image has more than one pixel.";
const char* PBT_ASSUMPTIONS = "block filters and normalized passes get an output of the input's shape | float results may differ by rounding | inputs and outputs do not overlap (the logic operations' aliasing is in C10)";
uint64_t PBT_CASES_QUICK = 150000;

template<class T, class R> void compare(Source& s, Ctx& c, Op<T,R> ref, Op<T,R> op, uint32_t w, uint32_t h, int64_t lo, int64_t hi) {
    c.label(ref.name); c.note(ref.name," ",tname<T>(),"->",tname<R>());
    if( op.binary ) { lo = 0; hi = 1; }
    Mat<T> a = gen_mat<T>(s,w,h,lo,hi), b; if( op.two ) b = gen_mat<T>(s,w,h,lo,hi); else b = Mat<T>(1,1);
    Mat<R> garbage(w,h); Stream st(s.draw(1000)); for( auto& p : garbage.v ) p = View<R>::noise(st);
    Gray<T> ia(w,h), ib(b.w,b.h), w1, w2; Gray<R> io(w,h);
    for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) { ia.at(x,y) = a.at(x,y); io.at(x,y) = garbage.at(x,y); if( op.two ) ib.at(x,y) = b.at(x,y); }
    bool rejected = throws([&]{ ref.f(ia,ib,io,w1,w2); });
    Mat<R> want(w,h); if( !rejected ) for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) want.at(x,y) = io.at(x,y);
    View<T> va, vb, k1, k2; va.build(s,a); vb.build(s,b); View<R> vo;
    if( op.inplace || !op.reshapes ) vo.build(s,garbage); else vo.build_output(s,w,h,true);
    k1.build_output(s,w,h,true); k2.build_output(s,w,h,true);
    bool ro = vo.img->width != w || vo.img->height != h, r1 = k1.img->width != w || k1.img->height != h, r2 = k2.img->width != w || k2.img->height != h;
    c.note("\ninput ",va.text()," ",show(a)); if( op.two ) c.note("\nsecond ",vb.text()," ",show(b)); c.note("\noutput ",vo.text()," work ",k1.text()," ",k2.text());
    auto view = [](int l) { return l == RAWVIEW || l == SUBIMAGE; };
    c.nontrivial = w*h > 1 && !rejected && (view(va.layout) || view(vo.layout) || (op.works && view(k1.layout)));
    c.label(std::string("input ")+lname(va.layout)); c.label(std::string("output ")+lname(vo.layout)); if( rejected ) c.label("rejected");
    bool rej2 = throws([&]{ op.f(*va.img,*vb.img,*vo.img,*k1.img,*k2.img); });
    c.check(rejected == rej2,rej2 ? "rejected a view although a copy is accepted" : "accepted a view although a copy is rejected");
    if( !rejected ) {
        Mat<R> got = vo.read();
        if( std::is_floating_point<R>::value ) { double m = 0; for( T p : a.v ) m = std::max(m,std::fabs((double)p)); Mat<double> tol(w,h,4e-6*m*op.gain); if( op.inplace ) tol = Mat<double>(w,h,0); expect_near(c,widen(want),tol,got,"result on views"); }
        else expect_same(c,want,got,"result on views");
        c.check(ro || vo.surroundings_intact(),"memory outside the output window modified");
        if( op.works ) c.check((r1 || k1.surroundings_intact()) && (r2 || k2.surroundings_intact()),"memory outside a work image's window modified"); else c.check(k1.untouched() && k2.untouched(),"unrelated image modified");
    }
    c.check(va.untouched(),"input modified"); c.check(vb.untouched(),"second input modified");
}
template<class T> void statistics(Source& s, Ctx& c, uint32_t w, uint32_t h) {
    c.label("statistics"); int64_t lo,hi; full_range<T>(s,lo,hi); Mat<T> a = gen_mat<T>(s,w,h,lo,hi); View<T> v; v.build(s,a); c.note("statistics ",tname<T>()," ",v.text()," ",show(a)); c.label(std::string("input ")+lname(v.layout));
    Gray<T> g(w,h); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) g.at(x,y) = a.at(x,y);
    c.nontrivial = w*h > 1 && (v.layout == RAWVIEW || v.layout == SUBIMAGE);
    c.check(ImageStatistics::min(g) == ImageStatistics::min(*v.img),"minimum differs: ",+ImageStatistics::min(*v.img)," copy ",+ImageStatistics::min(g));
    c.check(ImageStatistics::max(g) == ImageStatistics::max(*v.img),"maximum differs: ",+ImageStatistics::max(*v.img)," copy ",+ImageStatistics::max(g));
    double A = 0; for( T p : a.v ) A += std::fabs((double)p); double tol = std::is_floating_point<T>::value ? ftol((double)w*h,A) : 0;
    c.check(std::fabs((double)ImageStatistics::sum(g)-(double)ImageStatistics::sum(*v.img)) <= tol,"sum differs"); c.check(std::fabs((double)ImageStatistics::mean(g)-(double)ImageStatistics::mean(*v.img)) <= tol,"mean differs");
    GrowArray<uint32_t> h1, h2; T mn = ImageStatistics::min(g); if( (double)ImageStatistics::max(g)-(double)mn < 70000 ) {
        uint32_t bins = (uint32_t)((double)ImageStatistics::max(g)-(double)mn)+2; h1.resize(bins); h2.resize(bins); ImageStatistics::histogram(g,mn,h1); ImageStatistics::histogram(*v.img,mn,h2);
        for( uint32_t i = 0; i < bins; i++ ) c.check(h1[i] == h2[i],"histogram bin ",i," differs");
        if( mn >= 0 ) { bool o2 = s.flag(); T mx = ImageStatistics::max(g); c.check(ThresholdOps::computeOtsu(g,mn,mx,o2) == ThresholdOps::computeOtsu(*v.img,mn,mx,o2),"Otsu threshold differs"); }
    }
    c.check(v.untouched(),"input modified");
}
template<class T> void interleaved(Source& s, Ctx& c, uint32_t w, uint32_t h) {
    uint32_t b = 1+(uint32_t)s.draw(4); IView<T> v; v.build(s,w,h,b,s.draw(1000)); int64_t lo,hi; full_range<T>(s,lo,hi); Mat<T> px = gen_mat<T>(s,w*b,h,lo,hi);
    Interleaved<T> g(w,h,b); for( uint32_t y = 0; y < h; y++ ) for( uint32_t i = 0; i < w*b; i++ ) { v.img->data[v.img->offset+y*v.img->stride+i] = px.at(i,y); g.at(i/b,y,i%b) = px.at(i,y); }
    v.take(); View<T> out; out.build_output(s,w,h,true); bool ro = out.img->width != w || out.img->height != h; int what = (int)s.draw(3);
    c.note(what == 0 ? "band average " : what == 1 ? "interleaved fill " : "interleaved setTo ",tname<T>()," ",w,"x",h,"x",b," layout ",lname(v.layout)," to ",out.text()," ",show(px)); c.label(what == 0 ? "band average" : what == 1 ? "interleaved fill" : "interleaved setTo"); c.label(std::string("input ")+lname(v.layout));
    c.nontrivial = w*h > 1 && v.layout;
    if( what == 0 ) { Gray<T> ref; convert_average(g,ref); convert_average(*v.img,*out.img); Mat<T> m(w,h); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) m.at(x,y) = ref.at(x,y); Mat<double> tol(w,h,std::is_floating_point<T>::value ? 4e-6*std::max(std::fabs((double)lo),std::fabs((double)hi)) : 0); expect_near(c,widen(m),tol,out.read(),"band average on views"); c.check(ro || out.surroundings_intact(),"memory outside the output window modified"); c.check(v.around_intact(true),"input modified"); }
    else if( what == 1 ) { T val = (T)s.draw(100); ImageMiscOps::fill(*v.img,val); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( uint32_t k = 0; k < b; k++ ) c.check(v.img->at(x,y,k) == val,"pixel not filled"); c.check(v.around_intact(false),"memory outside the window modified"); }
    else { IView<T> d; d.build(s,w,h,b,s.draw(1000)); d.img->setTo(*v.img); for( uint32_t y = 0; y < h; y++ ) for( uint32_t i = 0; i < w*b; i++ ) c.check(d.img->at(i/b,y,i%b) == px.at(i,y),"pixel (",i/b,",",y,") not copied"); c.check(d.around_intact(false),"memory outside the window modified"); c.check(v.around_intact(true),"input modified"); }
}
template<class T> void same(Source& s, Ctx& c, uint32_t w, uint32_t h, int64_t lo, int64_t hi) { int which = (int)s.draw(NSAME); Params p; gen_params(s,p,w,h,std::is_integral<T>::value,true,100); compare<T,T>(s,c,same_op<T>(p,which),same_op<T>(p,which),w,h,lo,hi); }
template<class T> void binarize(Source& s, Ctx& c, uint32_t w, uint32_t h) { int which = (int)s.draw(NBINARIZE); Params p; gen_params(s,p,w,h,true,false,100); if( which >= 3 && which <= 5 && s.draw(4) != 3 ) { p.relative = false; p.length = 1+(double)s.draw(std::min(w,h)); } compare<T,U8>(s,c,binarize_op<T>(p,which),binarize_op<T>(p,which),w,h,0,255); }
template<class T, class R> void conv(Source& s, Ctx& c, uint32_t w, uint32_t h) { int dir = (int)s.draw(3); Params p; gen_params(s,p,w,h,std::is_integral<T>::value,false,std::is_same<R,S16>::value ? 128 : 100000); compare<T,R>(s,c,conv_op<T,R>(p,dir),conv_op<T,R>(p,dir),w,h,0,255); }
void pbt_case(Source& s, Ctx& c) {
    uint32_t w,h; gen_shape(s,w,h,30,150);
    switch( s.draw(14) ) {
        case 0: same<U8>(s,c,w,h,0,255); break; case 1: same<F32>(s,c,w,h,-100,255); break; case 2: conv<U8,S16>(s,c,w,h); break; case 3: conv<U8,S32>(s,c,w,h); break; case 4: conv<F32,F32>(s,c,w,h); break;
        case 5: case 6: binarize<U8>(s,c,w,h); break; case 7: binarize<F32>(s,c,w,h); break;
        case 8: case 9: { int which = (int)s.draw(4); Params p; compare<U8,U8>(s,c,logic_op(p,which),logic_op(p,which),w,h,0,1); break; }
        case 10: { Params p; p.eight = s.flag(); std::shared_ptr<Finder> f1,f2; Op<U8,S32> a = label_op(p,f1), b = label_op(p,f2); compare<U8,S32>(s,c,a,b,w,h,0,1);
            c.check(f1->a.contours.size() == f2->a.contours.size() && f1->a.packedPoints.number_of_sets() == f2->a.packedPoints.number_of_sets(),"contour counts differ on views");
            for( uint32_t i = 0; i < f1->a.packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> q,r; f1->a.packedPoints.load_set(i,q); f2->a.packedPoints.load_set(i,r); c.check(q.size() == r.size(),"contour ",i," differs on views"); for( size_t k = 0; k < q.size(); k++ ) c.check(q[k].x == r[k].x && q[k].y == r[k].y,"contour ",i," differs on views"); }
            break; }
        case 11: switch( s.draw(7) ) { case 0: statistics<U8>(s,c,w,h); break; case 1: statistics<U16>(s,c,w,h); break; case 2: statistics<S16>(s,c,w,h); break; case 3: statistics<S32>(s,c,w,h); break; case 4: statistics<S64>(s,c,w,h); break; case 5: statistics<F32>(s,c,w,h); break; default: statistics<F64>(s,c,w,h); } break;
        case 12: switch( s.draw(3) ) { case 0: interleaved<U8>(s,c,w,h); break; case 1: interleaved<S16>(s,c,w,h); break; default: interleaved<F32>(s,c,w,h); } break;
        default: switch( s.draw(4) ) { case 0: same<U8>(s,c,w,h,0,255); break; case 1: same<F32>(s,c,w,h,0,255); break; case 2: { // fills and copies of the other types
                Params p; gen_params(s,p,w,h,true,true,100); int which = 5+(int)s.draw(4);
                auto f = [&](auto z) { typedef decltype(z) T; compare<T,T>(s,c,fill_op<T>(p,which),fill_op<T>(p,which),w,h,0,255); };
                switch( s.draw(5) ) { case 0: f(U16()); break; case 1: f(S16()); break; case 2: f(S32()); break; case 3: f(S64()); break; default: f(F64()); } break; }
            default: conv<U8,S32>(s,c,w,h); } break;
    }
}
