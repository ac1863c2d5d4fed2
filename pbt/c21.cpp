// C21: reused filters, finders, borders, outputs and work images against fresh ones
#include "ops.h"
#include "binary_gen.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C21";
const char* PBT_RULE = "A case is a history of 2 to 8 calls on up to three operation instances which share input, output and work images; every result is compared with a fresh instance on fresh images; filters and contour finders may be copied on the way. Non-trivial: at least one instance or output image was used before with another shape or content.";
const char* PBT_ASSUMPTIONS = "inputs and outputs do not overlap | float results may differ by rounding";
uint64_t PBT_CASES_QUICK = 80000;

template<class T> void fill(Gray<T>& g, const Mat<T>& m) { g.reshape(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) g.at(x,y) = m.at(x,y); }
template<class T> Mat<T> mat(const Gray<T>& g) { Mat<T> m(g.width,g.height); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) m.at(x,y) = g.at(x,y); return m; }
// one reused instance
template<class T, class R> struct Slot { std::function<Op<T,R>()> make; Op<T,R> op; bool live = false; };
template<class T, class R> void history(Source& s, Ctx& c, const std::function<std::function<Op<T,R>()>(Source&)>& draw_op) {
    const int NS = 3; Slot<T,R> slot[NS]; int n = 2+(int)s.draw(7), used = 1+(int)s.draw(NS); Gray<T> in[2], second, w1, w2, view_parent; Gray<R> out; Mat<T> content[2]; bool shaped = false; uint32_t base_w, base_h; gen_shape(s,base_w,base_h,24,60);
    for( int step = 0; step < n; step++ ) {
        int i = (int)s.draw(used); Slot<T,R>& q = slot[i]; bool before = q.live; if( !q.live ) { q.make = draw_op(s); q.op = q.make(); q.live = true; }
        int k = (int)s.draw(2); int how = (int)s.draw(4); if( content[k].v.empty() ) how = 0; const int64_t hi = q.op.binary ? 1 : 255;
        if( how <= 1 ) { uint32_t w = base_w, h = base_h; if( s.flag() ) gen_shape(s,w,h,24,60); content[k] = gen_mat<T>(s,w,h,0,hi); }       // another image
        else if( how == 2 ) content[k] = gen_mat<T>(s,content[k].w,content[k].h,0,hi);                                                      // same memory, other pixels
        const Mat<T>& m = content[k]; if( q.op.binary ) for( auto& p : content[k].v ) p = p != 0; fill(in[k],m); Mat<T> b(1,1); if( q.op.two ) b = gen_mat<T>(s,m.w,m.h,0,hi); fill(second,b);
        c.note("\nstep ",step," instance ",i," ",q.op.name," ",how == 3 ? "again " : "",show(m)); c.label(q.op.name);
        if( s.draw(5) == 4 ) {   // a rejected call first
            c.label("after a rejected call"); Gray<R> big(m.w+3,m.h+2), bad(big.makeSubimage(0,0,m.w+1+(uint32_t)s.draw(2),m.h+1)); if( throws([&]{ q.op.f(in[k],second,bad,w1,w2); }) ) c.note(" (rejected first)");
        }
        if( !q.op.reshapes ) out.reshape(m.w,m.h);
        bool rej = throws([&]{ q.op.f(in[k],second,out,w1,w2); });
        Op<T,R> fresh = q.make(); Gray<T> fi(1,1), fs(1,1), f1, f2; Gray<R> fo(m.w,m.h); fill(fi,m); fill(fs,b); bool rej2 = throws([&]{ fresh.f(fi,fs,fo,f1,f2); });
        c.check(rej == rej2,rej ? "the reused instance rejects a call a fresh one accepts" : "the reused instance accepts a call a fresh one rejects"); if( rej ) { c.label("rejected"); continue; }
        if( before || shaped ) c.nontrivial = true; shaped = true;
        if( std::is_floating_point<R>::value ) expect_near(c,widen(mat(fo)),Mat<double>(m.w,m.h,4e-6*256*q.op.gain),mat(out),"reused instance"); else expect_same(c,mat(fo),mat(out),"reused instance");
        expect_same(c,m,mat(in[k]),"input after the call");
    }
}
template<class T> std::function<Op<T,T>()> draw_same(Source& s) { Params p; gen_params(s,p,12,12,std::is_integral<T>::value,true,100); int which = (int)s.draw(5); return [=]{ return same_op<T>(p,which); }; }
template<class T> std::function<Op<T,U8>()> draw_binarize(Source& s) { Params p; gen_params(s,p,12,12,true,false,100); int which = (int)s.draw(NBINARIZE); return [=]{ return binarize_op<T>(p,which); }; }
template<class T, class R> std::function<Op<T,R>()> draw_conv(Source& s) { Params p; gen_params(s,p,12,12,std::is_integral<T>::value,false,128); int dir = (int)s.draw(3); return [=]{ return conv_op<T,R>(p,dir); }; }
std::function<Op<U8,U8>()> draw_u8(Source& s) { switch( s.draw(4) ) { case 0: case 1: return draw_binarize<U8>(s); case 2: return draw_same<U8>(s); default: { int which = (int)s.draw(4); return [=]{ return logic_op(Params(),which); }; } } }
// one contour finder under changing settings
void contours(Source& s, Ctx& c) {
    c.label("contour finder"); bool eight = s.flag(); std::unique_ptr<LinearContourLabelChang2004> finder(new LinearContourLabelChang2004(eight ? EIGHT : FOUR)), other; Gray<U8> in; Gray<S32> label; int n = 2+(int)s.draw(6); Mat<U8> m; const LinearContourLabelChang2004 def(FOUR); uint32_t mn = def.minContourSize, mx = def.maxContourSize; bool inner = def.saveInternalContours;
    c.note(eight ? "8" : "4","-connected finder");
    for( int step = 0; step < n; step++ ) {
        if( s.draw(6) == 5 ) {   // a copy takes over, and the first one is used or destroyed
            c.label("copied finder"); int how = (int)s.draw(3); c.note("\n",how == 0 ? "copied" : how == 1 ? "assigned" : "assigned to itself"); LinearContourLabelChang2004& same = *finder;
            if( how == 0 || (how == 1 && !other) ) other.reset(new LinearContourLabelChang2004(*finder)); else if( how == 1 ) *other = *finder; else *finder = same;
            if( other && how < 2 ) { c.check(other->contours.size() == finder->contours.size() && other->packedPoints.number_of_sets() == finder->packedPoints.number_of_sets(),"copy of a finder has other contours"); for( uint32_t i = 0; i < finder->packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> p,q; finder->packedPoints.load_set(i,p); other->packedPoints.load_set(i,q); c.check(p.size() == q.size(),"contour ",i," of a copied finder differs"); for( size_t j = 0; j < p.size(); j++ ) c.check(p[j].x == q[j].x && p[j].y == q[j].y,"contour ",i," of a copied finder differs"); }
                if( !m.v.empty() && s.flag() ) { Gray<U8> fi(1,1); fill(fi,m); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) if( (x*7+y*3)%5 == 0 ) fi.at(x,y) ^= 1; Gray<S32> fl; finder->process(fi,fl); }
                std::swap(finder,other); if( s.flag() ) other.reset(); }
        }
        LinearContourLabelChang2004& a = *finder;
        if( s.draw(3) == 2 ) { eight = s.flag(); a.setConnectRule(eight ? EIGHT : FOUR); c.note("\nrule ",eight ? 8 : 4); }
        if( s.draw(3) == 2 ) { mn = (uint32_t)s.draw(12); a.minContourSize = mn; c.note("\nminimum ",mn); }
        if( s.draw(3) == 2 ) { mx = s.flag() ? def.maxContourSize : (uint32_t)s.draw(30); a.maxContourSize = mx; c.note("\nmaximum ",mx); }
        if( s.draw(3) == 2 ) { inner = s.flag(); a.saveInternalContours = inner; c.note("\ninternal ",inner); }
        if( m.v.empty() || s.draw(4) != 3 ) m = gen_binary(s,24,60); else if( s.flag() ) for( auto& p : m.v ) p = !p;
        View<U8> v; v.build(s,m); View<S32> lv; bool own = s.flag(); if( own ) lv.build_output(s,m.w,m.h,true); c.note("\n",picture(m)); Gray<S32>& lab = own ? *lv.img : label;
        if( s.draw(6) == 5 ) { Gray<S32> big(m.w+2,m.h+2), bad(big.makeSubimage(0,0,m.w+1,m.h+1)); (void)throws([&]{ a.process(*v.img,bad); }); c.label("after a rejected call"); c.note("(rejected first)"); }
        a.process(*v.img,lab); c.nontrivial = step > 0;
        LinearContourLabelChang2004 f(eight ? EIGHT : FOUR); f.minContourSize = mn; f.maxContourSize = mx; f.saveInternalContours = inner; Gray<U8> fi(1,1); fill(fi,m); Gray<S32> fl; f.process(fi,fl);
        Mat<S32> want = mat(fl), got = mat(lab); expect_same(c,want,got,"labels of a reused finder");
        c.check(a.contours.size() == f.contours.size(),"reused finder has ",a.contours.size()," blobs instead of ",f.contours.size()); c.check(a.packedPoints.number_of_sets() == f.packedPoints.number_of_sets(),"reused finder has ",a.packedPoints.number_of_sets()," contours instead of ",f.packedPoints.number_of_sets());
        for( size_t i = 0; i < f.contours.size(); i++ ) c.check(a.contours[i].id == f.contours[i].id && a.contours[i].externalIndex == f.contours[i].externalIndex && a.contours[i].internalIndexes == f.contours[i].internalIndexes,"blob ",i," differs in a reused finder");
        for( uint32_t i = 0; i < f.packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> p,q; a.packedPoints.load_set(i,p); f.packedPoints.load_set(i,q); c.check(p.size() == q.size(),"contour ",i," has ",p.size()," points instead of ",q.size()," in a reused finder"); for( size_t j = 0; j < p.size(); j++ ) c.check(p[j].x == q[j].x && p[j].y == q[j].y,"contour ",i," differs in a reused finder"); }
        c.check(v.untouched(),"binary image modified");
    }
}
// statistics, kernels and conversions must not depend on what was computed before
template<class T> void functions(Source& s, Ctx& c) {
    c.label("histogram and Otsu"); GrowArray<uint32_t> h; int n = 2+(int)s.draw(5);
    for( int step = 0; step < n; step++ ) {
        uint32_t w,hh; gen_shape(s,w,hh,20,60); Mat<T> m = gen_mat<T>(s,w,hh,0,200); Gray<T> g(w,hh); fill(g,m); uint32_t bins = 201+(uint32_t)s.draw(200); bool o2 = s.flag(); c.note("\n",show(m)," bins ",bins); h.resize(bins); if( s.flag() ) h.fill(7);
        ImageStatistics::histogram(g,(T)0,h); std::vector<uint32_t> want(bins,0); for( T p : m.v ) want[(size_t)p]++; for( uint32_t i = 0; i < bins; i++ ) c.check(h[i] == want[i],"histogram bin ",i," is ",h[i]," expected ",want[i]," with a reused histogram");
        auto t1 = ThresholdOps::computeOtsu(g,(T)0,(T)200,o2); Gray<T> g2(w,hh); fill(g2,m); auto t2 = ThresholdOps::computeOtsu(g2,(T)0,(T)200,o2); c.check(t1 == t2,"repeated Otsu threshold differs"); if( step ) c.nontrivial = true;
        double sigma = 0.3+(double)s.draw(40)/10; int32_t width = s.flag() ? -1 : 1+(int32_t)s.draw(12); auto k1 = FactoryKernel::gaussian1D<F32>(sigma,width), k2 = FactoryKernel::gaussian1D<F32>(sigma,width); c.check(k1.width == k2.width && k1.offset == k2.offset,"repeated kernel differs"); for( uint32_t i = 0; i < k1.width; i++ ) c.check(k1.at(i) == k2.at(i),"repeated kernel differs");
    }
}
// one filter whose settings are changed between calls, against a fresh filter made with the new settings
template<class T> void settings(Source& s, Ctx& c) {
    c.label("changed settings"); int kind = (int)s.draw(6), n = 2+(int)s.draw(6); static const char* names[] = {"fixed","Otsu","local mean","block mean","block min-max","block Otsu"}; c.note(names[kind]," of ",tname<T>());
    auto len = [&]() -> ConfigLength { if( s.flag() ) return ConfigLength::fixed(1+(double)s.draw(14)); return ConfigLength::relative((double)(5+s.draw(60))/100,1+(int)s.draw(5)); };
    struct Set { ConfigLength l; float scale; bool down, local, o2; T t, lo, hi; float spread; double tuning; } q;
    q.l = len(); q.scale = 1; q.down = s.flag(); q.local = s.flag(); q.o2 = s.flag(); q.t = (T)100; q.lo = 0; q.hi = (T)255; q.spread = 10; q.tuning = s.flag() ? 0 : 0.5;
    auto make = [&]() -> std::shared_ptr<InputToBinary<Gray<T>>> {
        switch( kind ) { case 0: return std::make_shared<GlobalFixedBinaryFilter<T>>(q.t,q.down); case 1: return std::make_shared<GlobalOtsuBinaryFilter<T>>(q.lo,q.hi,q.down); case 2: return std::make_shared<LocalMeanBinaryFilter<T>>(q.l,q.scale,q.down);
            case 3: return std::make_shared<ThresholdBlockMean<T>>(q.l,q.local,(double)q.scale,q.down); case 4: return std::make_shared<ThresholdBlockMinMax<T>>(q.spread,q.l,q.local,q.scale,q.down); default: return std::make_shared<ThresholdBlockOtsu<T>>(q.o2,q.l,q.tuning,(double)q.scale,q.down,q.local); } };
    auto clone = [&](const std::shared_ptr<InputToBinary<Gray<T>>>& p) -> std::shared_ptr<InputToBinary<Gray<T>>> {
        switch( kind ) { case 0: return std::make_shared<GlobalFixedBinaryFilter<T>>(static_cast<GlobalFixedBinaryFilter<T>&>(*p)); case 1: return std::make_shared<GlobalOtsuBinaryFilter<T>>(static_cast<GlobalOtsuBinaryFilter<T>&>(*p)); case 2: return std::make_shared<LocalMeanBinaryFilter<T>>(static_cast<LocalMeanBinaryFilter<T>&>(*p));
            case 3: return std::make_shared<ThresholdBlockMean<T>>(static_cast<ThresholdBlockMean<T>&>(*p)); case 4: return std::make_shared<ThresholdBlockMinMax<T>>(static_cast<ThresholdBlockMinMax<T>&>(*p)); default: return std::make_shared<ThresholdBlockOtsu<T>>(static_cast<ThresholdBlockOtsu<T>&>(*p)); } };
    auto used = make(), spare = used; Gray<T> in; Gray<U8> out; Mat<T> m;
    for( int step = 0; step < n; step++ ) {
        if( step ) for( int k = (int)s.draw(3); k > 0; k-- ) switch( s.draw(6) ) {
            case 0: case 1: q.l = len(); break; case 2: q.down = !q.down; break; case 3: q.local = !q.local; break; case 4: q.scale = kind == 5 ? q.scale : (float)(50+s.draw(100))/100; break;
            default: q.t = (T)s.draw(256); q.spread = (float)s.draw(60)-1; q.hi = (T)(255+(sizeof(T) > 1 ? s.draw(400) : 0)); break; }
        if( s.draw(6) == 5 ) { c.label("copied filter"); c.note("\ncopied"); auto copy = clone(used); spare = used; used = copy; if( s.flag() ) spare.reset(); else if( m.w ) { Gray<T> fi(m.w+1,m.h); Gray<U8> fo(m.w+1,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x <= m.w; x++ ) fi.at(x,y) = (T)((x*5+y)%200); (void)throws([&]{ spare->process(fi,fo); }); } }
        switch( kind ) {   // whatever can be set from outside
            case 0: { auto& f = static_cast<GlobalFixedBinaryFilter<T>&>(*used); f.threshold = q.t; f.down = q.down; } break;
            case 1: { auto& f = static_cast<GlobalOtsuBinaryFilter<T>&>(*used); f.min_value = q.lo; f.max_value = q.hi; f.down = q.down; } break;
            case 2: { auto& f = static_cast<LocalMeanBinaryFilter<T>&>(*used); f.regionWidth = q.l; f.scale = q.scale; f.down = q.down; } break;
            case 3: { auto& f = static_cast<ThresholdBlockMean<T>&>(*used); f.requestedBlockWidth = q.l; f.setThresholdFromLocalBlocks(q.local); f.scale = q.scale; f.down = q.down; } break;
            case 4: { auto& f = static_cast<ThresholdBlockMinMax<T>&>(*used); f.requestedBlockWidth = q.l; f.setThresholdFromLocalBlocks(q.local); f.scale = q.scale; f.down = q.down; f.minimumSpread = q.spread; } break;
            default: { auto& f = static_cast<ThresholdBlockOtsu<T>&>(*used); f.requestedBlockWidth = q.l; f.setThresholdFromLocalBlocks(q.local); f.otsu.down = q.down; } }
        if( m.v.empty() || s.draw(3) == 2 ) { uint32_t w,h; gen_shape(s,w,h,24,60); m = gen_mat<T>(s,w,h,0,255); } else if( s.flag() ) m = gen_mat<T>(s,m.w,m.h,0,255);
        c.note("\nstep ",step," length ",q.l.length,"/",q.l.fraction," scale ",q.scale,q.down ? " down" : " up",q.local ? " local" : ""," threshold ",+q.t," spread ",q.spread," ",show(m));
        fill(in,m); out.reshape(m.w,m.h); bool rej = throws([&]{ used->process(in,out); });
        Gray<T> fi(1,1); fill(fi,m); Gray<U8> fo(m.w,m.h); auto fresh = make(); bool rej2 = throws([&]{ fresh->process(fi,fo); });
        c.check(rej == rej2,rej ? "the filter with changed settings rejects a call a fresh one accepts" : "the filter with changed settings accepts a call a fresh one rejects"); if( rej ) { c.label("rejected"); continue; }
        if( step ) c.nontrivial = true;
        expect_same(c,mat(fo),mat(out),"filter with changed settings");
    }
}
// a border object which is given other images and values
template<class T> void border(Source& s, Ctx& c) {
    c.label("reused border"); BorderType type = s.pick<BorderType>({EXTENDED,REFLECT,WRAP,ZERO}); auto b = FactoryImageBorder::create_SB<T>(type); ImageBorderValue<T> v((T)7); Gray<T> a[2]; int n = 2+(int)s.draw(5); bool fixed = s.draw(4) == 3; c.note("border ",(int)type,fixed ? " fixed value" : "");
    for( int step = 0; step < n; step++ ) {
        int k = (int)s.draw(2); if( a[k].total_pixels() == 0 || s.flag() ) { uint32_t w,h; gen_shape(s,w,h,12,40); fill(a[k],gen_mat<T>(s,w,h,0,255)); } ImageBorder<T>& o = fixed ? (ImageBorder<T>&)v : *b; o.setImage(a[k]); if( fixed && s.flag() ) v.value = (T)s.draw(200);
        c.note("\nstep ",step," image ",k," ",a[k].width,"x",a[k].height); c.nontrivial = step > 0; Mat<T> m = mat(a[k]); Gray<T> fi(1,1); fill(fi,m); std::shared_ptr<ImageBorder<T>> f = fixed ? FactoryImageBorder::value_SB<T>(v.value) : FactoryImageBorder::create_SB<T>(type); f->setImage(fi);
        for( int q = 0; q < 60; q++ ) { int32_t x = (int32_t)s.range(-(int)m.w-3,2*(int)m.w+3), y = (int32_t)s.range(-(int)m.h-3,2*(int)m.h+3); T g = o.get(x,y), w = f->get(x,y); if( g != w ) c.fail("reused border at (",x,",",y,") is ",+g," expected ",+w); }
        c.check(o.getWidth() == m.w && o.getHeight() == m.h,"reused border has another shape");
    }
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(13) ) {
        case 10: case 11: s.flag() ? settings<U8>(s,c) : settings<F32>(s,c); break; case 12: s.flag() ? border<U8>(s,c) : border<F32>(s,c); break;
        case 0: case 1: history<U8,U8>(s,c,draw_u8); break; case 2: history<F32,U8>(s,c,draw_binarize<F32>); break; case 3: history<F32,F32>(s,c,[](Source& q) -> std::function<Op<F32,F32>()> { if( q.flag() ) return draw_conv<F32,F32>(q); return draw_same<F32>(q); }); break;
        case 4: history<U8,S16>(s,c,draw_conv<U8,S16>); break; case 5: history<U8,S32>(s,c,[](Source& q) -> std::function<Op<U8,S32>()> { if( q.flag() ) return draw_conv<U8,S32>(q); bool e = q.flag(); return [e]{ Params p; p.eight = e; std::shared_ptr<Finder> f; return label_op(p,f); }; }); break;
        case 6: case 7: contours(s,c); break; case 8: functions<U8>(s,c); break; default: functions<U16>(s,c); break;
    }
}
