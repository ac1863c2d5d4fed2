// C19: one invalid argument: an exception, untouched arguments, no leak, and the same objects keep working
#include "ops.h"
#include "packed_sets.h"
#include "sanity_checks.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C19";
const char* PBT_RULE = "A case makes one call with an invalid argument twice (the second time measuring live memory), compares inputs and fixed-shape outputs with snapshots, then makes a valid call on the same objects and compares it with fresh ones; operations on images without pixels must do nothing or be refused. Non-trivial: every case which is a rejected call on objects holding more than one element, or a constructor.";
const char* PBT_ASSUMPTIONS = "work images and outputs which the operation may reshape can be changed by a call rejected for another reason | memory exhaustion and integer overflow of sizes are not generated";
uint64_t PBT_CASES_QUICK = 180000;

// calls it twice: must throw both times and leave the same number of blocks allocated
template<class F> void rejected(Ctx& c, const char* what, F f) {
    c.check(throws(f),what,": accepted"); long live = live_allocations(); bool t = throws(f); long after = live_allocations();
    c.check(t,what,": accepted the second time"); c.check(after == live,what,": leaks ",after-live," block(s)");
}
template<class T> Gray<T>* plain(const Mat<T>& m) { Gray<T>* g = new Gray<T>(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) g->at(x,y) = m.at(x,y); return g; }
template<class T> Mat<T> mat(const Gray<T>& g) { Mat<T> m(g.width,g.height); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) m.at(x,y) = g.at(x,y); return m; }
// every operation
template<class T, class R> void operation(Source& s, Ctx& c, const std::function<Op<T,R>(const Params&)>& make, Params p, Params good, bool bad_params, uint32_t w, uint32_t h) {
    Op<T,R> op = make(bad_params ? p : good); int64_t hi = op.binary ? 1 : 255; Mat<T> a = gen_mat<T>(s,w,h,0,hi), b = op.two ? gen_mat<T>(s,w,h,0,hi) : Mat<T>(1,1); Mat<R> out(w,h); 
    bool bad_second = false; uint32_t ow = w, oh = h;
    if( !bad_params ) {
        bad_second = op.two && s.flag();
        uint32_t dw = (uint32_t)s.draw(4), dh = (uint32_t)s.draw(4); int how = (int)s.draw(3); auto change = [&](uint32_t v, uint32_t d) { d++; return how == 0 ? v+d : how == 1 ? (v > d ? v-d : v+d) : v+d; }; 
        uint32_t nw = w, nh = h; int side = (int)s.draw(4); if( side == 3 && w != h ) std::swap(nw,nh); else { if( side != 1 ) nw = change(w,dw); if( side != 0 ) nh = change(h,dh); }
        if( bad_second ) b = gen_mat<T>(s,nw,nh,0,hi); else { ow = nw; oh = nh; }
    }
    c.label(op.name); c.note(op.name," ",tname<T>(),"->",tname<R>()," "); if( bad_params ) c.label("invalid parameter"); else c.label(bad_second ? "second input of another shape" : "output of another shape");
    View<T> va, vb, k1, k2; va.build(s,a); vb.build(s,b); View<R> vo; { Mat<R> junk(ow,oh); Stream st(s.draw(1000)); for( auto& q : junk.v ) q = View<R>::noise(st);
        // an output the operation reshapes has to be a view, otherwise any shape is fine
        if( op.reshapes && !bad_params && !bad_second ) vo.build(junk,s.flag() ? RAWVIEW : SUBIMAGE,(uint32_t)s.draw(4),(uint32_t)s.draw(4),(uint32_t)s.draw(4),(uint32_t)s.draw(4),s.draw(1000)); else vo.build(s,junk); }
    k1.build_output(s,w,h,true); k2.build_output(s,w,h,true); c.note("input ",va.text()," ",show(a)," second ",vb.text()," output ",vo.text());
    c.nontrivial = a.v.size() > 1;
    // a rejection for the shape of the output comes before anything is written to it
    rejected(c,op.name.c_str(),[&]{ op.f(*va.img,*vb.img,*vo.img,*k1.img,*k2.img); });
    c.check(va.untouched(),"rejected call modified its input"); c.check(vb.untouched(),"rejected call modified its second input");
    if( !bad_params && !bad_second ) c.check(vo.untouched(),"rejected call modified its output");
    c.check(vo.surroundings_intact(),"rejected call wrote outside of its output");
    if( bad_params ) return;
    // the same objects are usable afterwards
    std::unique_ptr<Gray<T>> second(plain(op.two ? gen_mat<T>(s,w,h,0,hi) : Mat<T>(1,1))), fa(plain(a)); Gray<R> o1(w,h), o2(w,h); Gray<T> f1, f2; Stream st(5); for( uint32_t i = 0; i < o1.data_length; i++ ) o1.data[i] = View<R>::noise(st);
    Op<T,R> fresh = make(good); bool r1 = throws([&]{ op.f(*va.img,*second,o1,f1,f2); }), r2 = throws([&]{ fresh.f(*fa,*second,o2,*k1.img,*k2.img); }); (void)r2; Gray<R> o3(w,h); Gray<T> g1,g2; Op<T,R> fresh2 = make(good); bool r3 = throws([&]{ fresh2.f(*fa,*second,o3,g1,g2); });
    c.check(r1 == r3,"after a rejected call a valid call is ",r1 ? "rejected" : "accepted"); if( r1 ) { c.label("no valid call"); return; }
    if( std::is_floating_point<R>::value ) { expect_near(c,widen(mat(o3)),Mat<double>(w,h,4e-6*256*op.gain),mat(o1),"valid call after a rejected one"); if( !r2 ) expect_near(c,widen(mat(o3)),Mat<double>(w,h,4e-6*256*op.gain),mat(o2),"valid call with the work images of a rejected one"); }
    else { expect_same(c,mat(o3),mat(o1),"valid call after a rejected one"); if( !r2 ) expect_same(c,mat(o3),mat(o2),"valid call with the work images of a rejected one"); }
}
template<class T> void filters(Source& s, Ctx& c, uint32_t w, uint32_t h) {
    Params p; gen_params(s,p,w,h,std::is_integral<T>::value,true,100); int which = (int)s.draw(5); Params bad = p; bool bp = which >= 3 && s.flag(); if( bp ) { if( which == 3 ) bad.radius = 0; else { bad.sigma = -(double)s.draw(3); bad.width = -(int32_t)s.draw(3); } }
    operation<T,T>(s,c,[which](const Params& q) { return same_op<T>(q,which); },bad,p,bp,w,h);
}
template<class T> void binarize(Source& s, Ctx& c, uint32_t w, uint32_t h) {
    Params p; gen_params(s,p,w,h,true,false,100); int which = (int)s.draw(NBINARIZE); uint32_t side = std::min(w,h); if( which >= 3 && which <= 5 ) { p.relative = false; p.length = 1+(double)s.draw(side); }
    Params bad = p; bool bp = which >= 3 && which <= 5 && s.flag(); if( bp ) switch( s.draw(4) ) { case 0: bad.relative = false; bad.length = 0; break; case 1: bad.relative = false; bad.length = side+1+(double)s.draw(5); break; case 2: bad.relative = false; bad.length = -1-(double)s.draw(3); break; default: bad.relative = true; bad.length = 0; bad.fraction = 0; break; }
    // a local mean needs a region of at least two pixels
    if( (which == 2 || which == 6) && s.draw(3) == 2 ) { bp = true; bad.relative = s.draw(4) == 3; bad.fraction = 0; switch( s.draw(3) ) { case 0: bad.length = 0; break; case 1: bad.length = 1; break; default: bad.length = bad.relative ? 1 : -1-(double)s.draw(3); break; } }
    operation<T,U8>(s,c,[which](const Params& q) { return binarize_op<T>(q,which); },bad,p,bp,w,h);
}
template<class T, class R> void conv(Source& s, Ctx& c, uint32_t w, uint32_t h) { Params p; gen_params(s,p,w,h,std::is_integral<T>::value,false,128); int dir = (int)s.draw(3); operation<T,R>(s,c,[dir](const Params& q) { return conv_op<T,R>(q,dir); },p,p,false,w,h); }

template<class T> void containers(Source& s, Ctx& c) {
    uint32_t w = 1+(uint32_t)s.draw(9), h = 1+(uint32_t)s.draw(9); Mat<T> m = gen_mat<T>(s,w,h,0,100); View<T> v; v.build(s,m); int what = (int)s.draw(5); c.note("Gray<",tname<T>(),"> ",v.text()," "); c.nontrivial = m.v.size() > 1;
    bool view = v.img->subimage; uint32_t a = (uint32_t)s.draw(6), b = (uint32_t)s.draw(6); uint64_t big = s.draw(4) == 3 ? 0xFFFFFFF0u : 0;
    switch( what ) {
        case 0: { uint32_t x = s.flag() ? w+a+(uint32_t)big%100000000u : (uint32_t)s.draw(w), y = x < w ? h+b : (uint32_t)s.draw(h); if( big && x >= w ) x = 0xFFFFFFFFu-a; c.note("at ",x,",",y); c.label("Gray at"); rejected(c,"pixel access out of range",[&]{ (void)v.img->at(x,y); }); break; }
        case 1: { uint32_t x0 = (uint32_t)s.draw(w+1), y0 = (uint32_t)s.draw(h+1), x1 = w, y1 = h; switch( s.draw(4) ) { case 0: x1 = w+1+a; break; case 1: y1 = h+1+b; break; case 2: if( x0 == 0 ) x0 = 1; x1 = x0-1; break; default: if( y0 == 0 ) y0 = 1; y1 = y0-1; break; } c.note("sub-image ",x0,",",y0,",",x1,",",y1); c.label("sub-image bounds"); rejected(c,"sub-image bounds",[&]{ Gray<T> q(v.img->makeSubimage(x0,y0,x1,y1)); }); break; }
        case 2: { uint32_t nw = w+1+a, nh = s.flag() ? h : h+b; if( s.flag() ) { nw = w; nh = h+1+b; } c.note("reshape ",nw,"x",nh); c.label("reshape of a view"); if( view ) rejected(c,"reshape of a view",[&]{ v.img->reshape(nw,nh); }); else c.nontrivial = false; break; }
        case 3: { Mat<T> o = gen_mat<T>(s,w+1+a,h+b,0,100); View<T> src; src.build(s,o); c.note("copy from ",src.text()); c.label("copy into a view"); if( view ) { rejected(c,"copy of another shape into a view",[&]{ v.img->copy(*src.img); }); c.check(src.untouched(),"source modified"); } else c.nontrivial = false; break; }
        default: { c.note("ragged rows"); c.label("ragged list"); T q = (T)s.draw(9); c.nontrivial = true; switch( s.draw(7) ) { case 3: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{q,q,q},{q,q},{q,q,q,q}}; (void)g; }); break; case 4: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{q,q},{q,q,q},{q}}; (void)g; }); break; case 5: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{q,q},{},{q,q,q,q}}; (void)g; }); break; case 0: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{q,q},{q}}; (void)g; }); break; case 1: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{q},{q,q},{q}}; (void)g; }); break; case 2: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{q,q,q},{q,q,q},{}}; (void)g; }); break; default: rejected(c,"ragged image rows",[&]{ Gray<T> g = {{},{q}}; (void)g; }); } }
    }
    c.check(v.untouched(),"image changed by a rejected call");
    expect_same(c,m,v.read(),"pixels after a rejected call"); Gray<T> copy; copy.copy(*v.img); expect_same(c,m,mat(copy),"copy after a rejected call");
    if( view ) { Mat<T> n = gen_mat<T>(s,w,h,0,100); std::unique_ptr<Gray<T>> g(plain(n)); v.img->copy(*g); expect_same(c,n,v.read(),"copy into the view afterwards"); c.check(v.surroundings_intact(),"copy wrote outside of the view"); } else { v.img->reshape(w+2,h+2); c.check(v.img->width == w+2 && v.img->height == h+2,"reshape afterwards"); v.img->at(w+1,h+1) = 1; }
}
template<class T> void interleaved(Source& s, Ctx& c) {
    uint32_t w = 1+(uint32_t)s.draw(9), h = 1+(uint32_t)s.draw(9), b = 1+(uint32_t)s.draw(4); IView<T> v; v.build(s,w,h,b,s.draw(1000)); bool view = v.img->subimage; int what = (int)s.draw(6); uint32_t k = (uint32_t)s.draw(6); c.note("Interleaved<",tname<T>(),"> ",w,"x",h,"x",b," ",lname(v.layout)," "); c.nontrivial = w*h > 1; c.label("interleaved");
    switch( what ) {
        case 0: { uint32_t x = (uint32_t)s.draw(w), y = (uint32_t)s.draw(h), z = (uint32_t)s.draw(b); switch( s.draw(3) ) { case 0: x = w+k; break; case 1: y = h+k; break; default: z = b+k; } c.note("at ",x,",",y,",",z); rejected(c,"band access out of range",[&]{ (void)v.img->at(x,y,z); }); break; }
        case 1: { uint32_t x0 = 0, y0 = 0, x1 = w, y1 = h; switch( s.draw(4) ) { case 0: x1 += 1+k; break; case 1: y1 += 1+k; break; case 2: x0 = 1; x1 = 0; break; default: y0 = 1; y1 = 0; } c.note("sub-image ",x0,",",y0,",",x1,",",y1); rejected(c,"sub-image bounds",[&]{ Interleaved<T> q(v.img->makeSubimage(x0,y0,x1,y1)); }); break; }
        case 2: if( view ) { bool t = s.flag(); rejected(c,"reshape of a view",[&]{ if( t ) v.img->reshape(w+1+k,h); else v.img->reshape(w,h+1+k); }); } else c.nontrivial = false; break;
        case 3: if( view ) rejected(c,"reshape of a view",[&]{ v.img->reshape(w,h,b+1+k); }); else c.nontrivial = false; break;
        case 4: if( view ) rejected(c,"band change of a view",[&]{ v.img->setNumberOfBands(b+1+k); }); else c.nontrivial = false; break;
        default: if( view ) { Interleaved<T> o(w+(k&1),h+(k>>1&1),k < 4 && (k&3) ? b : b+1); rejected(c,"setTo of another shape into a view",[&]{ v.img->setTo(o); }); } else c.nontrivial = false;
    }
    c.check(v.around_intact(true) && v.img->width == w && v.img->height == h && v.img->num_bands == b,"image changed by a rejected call");
    Interleaved<T> o(w,h,b); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( uint32_t z = 0; z < b; z++ ) o.at(x,y,z) = (T)(x*5+y*3+z); v.img->setTo(o); for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( uint32_t z = 0; z < b; z++ ) c.check(v.img->at(x,y,z) == (T)(x*5+y*3+z),"setTo after a rejected call");
    if( view ) c.check(v.around_intact(false),"setTo wrote outside of the view");
}
template<class T> void arrays_kernels(Source& s, Ctx& c) {
    uint32_t n = 1+(uint32_t)s.draw(12), k = (uint32_t)s.draw(20); T q = (T)s.draw(50); c.nontrivial = true; c.label("arrays and kernels");
    switch( s.draw(9) ) {
        case 0: { c.note("array access ",n+k," of ",n); GrowArray<T> a(n); a.fill(q); rejected(c,"array access out of range",[&]{ (void)a.at(n+k); }); c.check(a.size == n && a.at(n-1) == q,"array changed by a rejected call"); a.resize(n+3); c.check(a.at(0) == q,"array lost its values"); break; }
        case 1: { std::vector<T> ext(n,q); GrowArray<T> a(ext.data(),n,n); bool grow = s.flag(); c.note(grow ? "grow" : "resize"," of foreign memory ",n," to ",k); rejected(c,"resize of foreign memory",[&]{ if( grow ) a.grow_array(k); else a.resize(k); }); c.check(a.size == n && a.data == ext.data(),"wrapping array changed by a rejected call"); for( T x : ext ) c.check(x == q,"foreign memory changed"); a[0] = (T)(q+1); c.check(ext[0] == (T)(q+1),"wrapping array detached by a rejected call"); break; }
        case 2: { c.note("Kernel1D width ",n," origin ",n+k); rejected(c,"kernel origin outside",[&]{ Kernel1D<T> q1(n,n+k); }); Kernel1D<T> ok(n,n-1); c.check(ok.width == n && ok.offset == n-1 && ok.data.size == n,"valid kernel rejected or wrong"); break; }
        case 3: { c.note("Kernel2D width ",n," origin ",n+k); rejected(c,"kernel origin outside",[&]{ Kernel2D<T> q1(n,n+k); }); Kernel2D<T> ok(n,n-1); c.check(ok.width == n && ok.offset == n-1 && ok.data.size == n*n,"valid kernel rejected or wrong"); break; }
        case 4: { c.note("Kernel1D list origin ",3+k); rejected(c,"kernel origin outside",[&]{ Kernel1D<T> q1(3+k,{q,q,q}); }); Kernel1D<T> ok(2,{q,0,q}); c.check(ok.width == 3 && ok.at(2) == q,"valid kernel wrong"); break; }
        case 5: { c.note("Kernel2D list origin ",2+k); rejected(c,"kernel origin outside",[&]{ Kernel2D<T> q1(2+k,{{q,q},{q,q}}); }); Kernel2D<T> ok(1,{{q,0},{0,q}}); c.check(ok.width == 2 && ok.at(1,1) == q,"valid kernel wrong"); break; }
        case 6: { c.note("ragged Kernel2D"); switch( s.draw(7) ) { case 3: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(1,{{q,q,q},{q,q},{q,q,q,q}}); }); break; case 4: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(0,{{q,q,q,q},{}}); }); break; case 5: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(0,{{},{q,q,q,q}}); }); break; case 6: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(2,{{q},{q,q,q},{q,q,q,q,q}}); }); break; case 0: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(0,{{q,q},{q}}); }); break; case 1: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(0,{{q},{q}}); }); break; default: rejected(c,"ragged kernel rows",[&]{ Kernel2D<T> q1(1,{{q,q,q},{q,q,q},{q,q,q,q}}); }); } break; }
        case 7: { c.note("Kernel2D access ",n+k); Kernel2D<T> a(n,0); a.data.fill(q); bool x = s.flag(); uint32_t o = (uint32_t)s.draw(n); rejected(c,"kernel access out of range",[&]{ (void)(x ? a.at(n+k,o) : a.at(o,n+k)); }); c.check(a.width == n && a.at(n-1,n-1) == q,"kernel changed by a rejected call"); break; }
        default: { c.note("Kernel1D access ",n+k); Kernel1D<T> a(n,0); a.data.fill(q); rejected(c,"kernel access out of range",[&]{ (void)a.at(n+k); }); c.check(a.width == n && a.at(n-1) == q,"kernel changed by a rejected call"); }
    }
}
void misc(Source& s, Ctx& c) {
    c.nontrivial = true; double d = -(double)s.draw(5)/2; uint32_t k = (uint32_t)s.draw(30);
    switch( s.draw(9) ) {
        case 8: { c.label("shape check"); uint32_t w[3], h[3]; uint32_t W = (uint32_t)s.draw(9), H = (uint32_t)s.draw(9); bool same2, same3; for( int i = 0; i < 3; i++ ) { w[i] = W; h[i] = H; } int odd = (int)s.draw(3); switch( s.draw(6) ) { case 0: w[odd] += 1+k; break; case 1: h[odd] += 1+k; break; case 2: std::swap(w[odd],h[odd]); break; case 3: w[odd] += 65536; h[odd] = 0; break; case 4: w[odd] += 1+k; h[odd] += 1+k%3; break; default: break; }
            Gray<U8> a(w[0],h[0]); Interleaved<F32> b(w[1],h[1],1+k%3); Gray<S32> d(w[2],h[2]); same2 = w[0] == w[1] && h[0] == h[1]; same3 = same2 && w[0] == w[2] && h[0] == h[2]; c.note("shapes ",w[0],"x",h[0]," ",w[1],"x",h[1]," ",w[2],"x",h[2]);
            if( same2 ) { c.check(!throws([&]{ checkSameShape(a,b); }),"equal shapes were rejected"); } else rejected(c,"two different shapes",[&]{ checkSameShape(a,b); }); if( same3 ) { c.check(!throws([&]{ checkSameShape(a,b,d); }),"three equal shapes were rejected"); } else rejected(c,"three shapes not all equal",[&]{ checkSameShape(a,b,d); }); break; }
        case 0: { int r = -(int)s.draw(4); c.label("kernel sizes"); c.note("sigma for radius ",r); rejected(c,"radius",[&]{ (void)FactoryKernel::sigmaForRadius(r,(int32_t)k%4); }); break; }
        case 1: c.label("kernel sizes"); c.note("radius for sigma ",d); rejected(c,"sigma",[&]{ (void)FactoryKernel::radiusForSigma(d,(int32_t)k%4); }); break;
        case 2: { c.label("gaussian kernel"); int32_t w = -(int32_t)s.draw(3); c.note("gaussian kernel sigma ",d," width ",w); rejected(c,"gaussian kernel without sigma and width",[&]{ (void)FactoryKernel::gaussian1D<F32>(d,w); }); rejected(c,"gaussian kernel without sigma and width",[&]{ (void)FactoryKernel::gaussian2D<S32>(d,w); }); break; }
        case 3: { c.label("length"); ConfigLength l; l.length = -0.5-(double)s.draw(5); l.fraction = -0.5-(double)s.draw(5); c.note("length ",l.length," fraction ",l.fraction); double a = l.length, b = l.fraction; rejected(c,"length without a value",[&]{ l.checkValidity(); }); c.check(l.length == a && l.fraction == b,"length changed"); l.length = 0; l.checkValidity(); l.length = -1; l.fraction = 0; l.checkValidity(); break; }
        case 4: { c.label("border type"); int t = s.flag() ? (int)SKIP : 6+(int)s.draw(2); c.note("border type ",t); rejected(c,"border type",[&]{ (void)FactoryImageBorder::create_SB<U8>((BorderType)t); }); rejected(c,"border type",[&]{ (void)FactoryImageBorder::create_SB<F32>((BorderType)t); }); break; }
        case 5: { c.label("planar"); uint32_t w = 1+(uint32_t)s.draw(6), h = 1+(uint32_t)s.draw(6), b = 1+(uint32_t)s.draw(4); c.note("planar ",w,"x",h,"x",b); Planar<Gray<S16>> p(w,h,b); for( uint32_t z = 0; z < b; z++ ) for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) p.at(x,y,z) = (S16)(x+7*y+50*z);
            switch( s.draw(4) ) { case 0: rejected(c,"planar band",[&]{ (void)p.getBand(b+k); }); break; case 1: rejected(c,"planar band",[&]{ (void)p.at(0,0,b+k); }); break; case 2: rejected(c,"planar pixel",[&]{ (void)p.at(w+k,0,b-1); }); break; default: rejected(c,"planar pixel",[&]{ (void)p.at(0,h+k,0); }); }
            for( uint32_t z = 0; z < b; z++ ) for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) c.check(p.at(x,y,z) == (S16)(x+7*y+50*z),"planar image changed by a rejected call"); break; }
        default: { c.label("packed set"); PackedSet<S32> p(1+(uint32_t)s.draw(6)); std::vector<std::vector<S32>> m; uint32_t sets = 1+(uint32_t)s.draw(4); S32 v = 0; for( uint32_t i = 0; i < sets; i++ ) { p.start_new_set(); m.emplace_back(); uint32_t n = (uint32_t)s.draw(9); for( uint32_t j = 0; j < n; j++ ) { p.push_tail(v); m.back().push_back(v++); } }
            uint32_t i = (uint32_t)s.draw(sets); std::vector<S32> buf, wrong(m[i].size()+1+s.draw(3),-7), before; buf.push_back(99); before = buf; int what = (int)s.draw(5); if( what == 4 && m[i].empty() ) what = 3; if( what == 4 ) wrong.assign(m[i].size()-1,-7); c.note("packed set of ",sets," call ",what);
            auto call = [&]{ switch( what ) { case 0: (void)p.at(sets+k,0); break; case 1: (void)p.at(i,(uint32_t)m[i].size()+k); break; case 2: p.load_set(sets+k,buf); break; case 5: p.write_set(sets+k,wrong); break; default: p.write_set(i,wrong); } }; rejected(c,"packed set",call);
            c.check(buf == before,"output vector changed"); c.check(p.number_of_sets() == sets,"sets changed"); for( uint32_t q = 0; q < sets; q++ ) { std::vector<S32> o; p.load_set(q,o); c.check(o == m[q],"set ",q," changed by a rejected call"); } p.push_tail(5); m.back().push_back(5); std::vector<S32> o; p.load_set(sets-1,o); c.check(o == m.back(),"push after a rejected call"); }
    }
}
// an image without pixels: the call is refused or it does nothing, whatever lies around the images stays
template<class T, class R> void without_pixels(Source& s, Ctx& c, const std::function<Op<T,R>(const Params&)>& make, const Params& p) {
    Op<T,R> op = make(p); uint32_t w = (uint32_t)s.draw(12), h = (uint32_t)s.draw(12); switch( s.draw(3) ) { case 0: w = 0; break; case 1: h = 0; break; default: w = h = 0; }
    Mat<T> a(w,h), b(w,h); View<T> va, vb, k1, k2; va.build(s,a); vb.build(s,b); View<R> vo; vo.build_output(s,w,h,op.reshapes); k1.build_output(s,w,h,true); k2.build_output(s,w,h,true);
    c.note(op.name," ",tname<T>(),"->",tname<R>()," of an image without pixels ",va.text()," second ",vb.text()," output ",vo.text()," work ",k1.text()); c.label(op.name); c.label("image without pixels"); c.nontrivial = va.layout != WHOLE || vo.layout != WHOLE;
    bool r = throws([&]{ op.f(*va.img,*vb.img,*vo.img,*k1.img,*k2.img); }); c.label(r ? "refused" : "accepted");
    c.check(va.untouched(),"image without pixels: input modified"); c.check(vb.untouched(),"image without pixels: second input modified"); c.check(vo.surroundings_intact(),"image without pixels: memory outside of the output modified"); c.check(k1.surroundings_intact() && k2.surroundings_intact(),"image without pixels: memory outside of a work image modified");
    if( !r ) c.check(vo.img->width == w && vo.img->height == h,"image without pixels: output is ",vo.img->width,"x",vo.img->height," instead of ",w,"x",h);
    // the objects stay usable
    uint32_t W = 1+(uint32_t)s.draw(12), H = 1+(uint32_t)s.draw(12); Mat<T> m = gen_mat<T>(s,W,H,0,op.binary ? 1 : 255), n = gen_mat<T>(s,W,H,0,op.binary ? 1 : 255); std::unique_ptr<Gray<T>> f(plain(m)), g(plain(n)); Gray<R> o1(W,H), o2(W,H); Gray<T> w1, w2, w3, w4; Op<T,R> fresh = make(p);
    bool r1 = throws([&]{ op.f(*f,*g,o1,w1,w2); }), r2 = throws([&]{ fresh.f(*f,*g,o2,w3,w4); }); c.check(r1 == r2,"after an image without pixels a valid call is ",r1 ? "rejected" : "accepted"); if( !r1 ) expect_same(c,mat(o2),mat(o1),"valid call after an image without pixels");
}
template<class T> void empties(Source& s, Ctx& c) {
    const bool integral = std::is_integral<T>::value; int kind = (int)s.draw(4); Params p; gen_params(s,p,8,8,integral,kind == 0,100);
    if( kind == 0 ) { int which = (int)s.draw(5); without_pixels<T,T>(s,c,[which](const Params& q) { return same_op<T>(q,which); },p); }
    else if( kind == 1 ) { int dir = (int)s.draw(3); typedef typename std::conditional<std::is_integral<T>::value,S16,F32>::type R; without_pixels<T,R>(s,c,[dir](const Params& q) { return conv_op<T,R>(q,dir); },p); }
    else if( kind == 2 ) { int which = (int)s.draw(NBINARIZE); without_pixels<T,U8>(s,c,[which](const Params& q) { return binarize_op<T>(q,which); },p); }
    else if( s.flag() ) { int which = (int)s.draw(4); without_pixels<U8,U8>(s,c,[which](const Params& q) { return logic_op(q,which); },p); }
    else { std::shared_ptr<Finder> f; without_pixels<U8,S32>(s,c,[&f](const Params& q) { return label_op(q,f); },p); }
}
void pbt_case(Source& s, Ctx& c) {
    if( s.draw(20) == 19 ) { if( s.flag() ) empties<U8>(s,c); else empties<F32>(s,c); return; }
    c.note(std::string("invalid call: ")); uint32_t w,h; 
    switch( s.draw(20) ) {
        case 0: containers<U8>(s,c); break; case 1: containers<F64>(s,c); break; case 2: containers<S32>(s,c); break; case 3: interleaved<U8>(s,c); break; case 4: interleaved<F32>(s,c); break;
        case 5: arrays_kernels<S32>(s,c); break; case 6: arrays_kernels<F32>(s,c); break; case 7: case 8: misc(s,c); break;
        default: gen_shape(s,w,h,25,80); switch( s.draw(9) ) {
            case 0: filters<U8>(s,c,w,h); break; case 1: filters<F32>(s,c,w,h); break; case 2: conv<U8,S16>(s,c,w,h); break; case 3: conv<U8,S32>(s,c,w,h); break; case 4: conv<F32,F32>(s,c,w,h); break; case 5: binarize<U8>(s,c,w,h); break; case 6: binarize<F32>(s,c,w,h); break;
            case 7: { int which = (int)s.draw(4); operation<U8,U8>(s,c,[which](const Params& q) { return logic_op(q,which); },Params(),Params(),false,w,h); break; }
            default: { Params p; p.eight = s.flag(); operation<U8,S32>(s,c,[](const Params& q) { std::shared_ptr<Finder> f; return label_op(q,f); },p,p,false,w,h); }
        }
    }
}
