// C31: an output pixel depends on nothing but its own neighbourhood
#include "ops.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C31";
const char* PBT_RULE = "A case is one of the library's local operations and an image. It is run again with pixels changed (one, some, a stripe, or all which one chosen output pixel does not depend on; float pixels also to infinities, NaN and huge values), or on a crop of the image. Non-trivial: at least one output pixel had to stay the same while pixels elsewhere changed.";
const char* PBT_ASSUMPTIONS = "mean blurs of float images keep running sums, so that they are local only up to rounding: their single passes are included with whole numbers below 1000, the rest is left out | block Otsu gets pixels in [0,255] | binary images hold 0 and 1 | output does not overlap the input";
uint64_t PBT_CASES_QUICK = 300000;

// Positions along one axis which an output position reads, in order; -1 where the border rule supplies a constant
typedef std::vector<std::vector<int64_t>> Axis;
static Axis window(uint32_t n, int64_t before, int64_t after, int border, bool clip) {
    Axis a(n); for( int64_t o = 0; o < n; o++ ) { int64_t l = o-before, h = o+after; if( clip ) { l = std::max<int64_t>(l,0); h = std::min<int64_t>(h,(int64_t)n-1); } for( int64_t p = l; p <= h; p++ ) a[o].push_back(clip ? p : border_index(border,p,n)); }
    return a;
}
static Axis itself(uint32_t n) { return window(n,0,0,0,true); }
static Axis blocks(uint32_t n, uint32_t size, bool local) {      // the last block takes what is left over
    uint32_t cells = n/size; Axis a(n);
    for( uint32_t o = 0; o < n; o++ ) { int64_t k = std::min(o/size,cells-1), f = local ? std::max<int64_t>(0,k-1) : k, t = local ? std::min<int64_t>(cells-1,k+1) : k; int64_t e = t == cells-1 ? n : (t+1)*size; for( int64_t p = f*size; p < e; p++ ) a[o].push_back(p); }
    return a;
}
struct Area { Axis x, y; };
typedef std::function<std::vector<Area>(uint32_t,uint32_t)> Region;      // a pixel depends on the union of x[ox] times y[oy]

template<class T> T wild(Stream& st, int64_t lo, int64_t hi, bool specials) {
    if( std::is_floating_point<T>::value && specials ) switch( st.below(8) ) {
        case 0: return std::numeric_limits<T>::quiet_NaN(); case 1: return std::numeric_limits<T>::infinity(); case 2: return -std::numeric_limits<T>::infinity();
        case 3: return (T)1e30; case 4: return std::numeric_limits<T>::lowest(); case 5: return (T)1e-40; default: break;
    }
    return expand<T>(st,lo,hi);
}
template<class R> bool same(R a, R b) { return memcmp(&a,&b,sizeof(R)) == 0 || a == b || (a != a && b != b); }
static std::vector<char> affected(const std::vector<Area>& areas, const std::vector<char>& changed, uint32_t w, uint32_t h) {
    std::vector<char> bad((size_t)w*h,0);
    for( const Area& a : areas ) {
        std::vector<char> hit((size_t)w*h,0);     // column window of output column ox holds a change in row y
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( int64_t p : a.x[x] ) if( p >= 0 && changed[(size_t)y*w+p] ) { hit[(size_t)y*w+x] = 1; break; }
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( int64_t p : a.y[y] ) if( p >= 0 && hit[(size_t)p*w+x] ) { bad[(size_t)y*w+x] = 1; break; }
    }
    return bad;
}
struct Local { bool specials = true, crop = true; int64_t lo = 0, hi = 255; bool fraction = true; double tol = 0; };

template<class T, class R> void run(Source& s, Ctx& c, Op<T,R> op, const Region& region, uint32_t w, uint32_t h, Local k) {
    if( op.binary ) { k.lo = 0; k.hi = 1; }
    Mat<T> a = gen_mat<T>(s,w,h,k.lo,k.hi,k.fraction), b; if( op.two ) b = gen_mat<T>(s,w,h,k.lo,k.hi); else b = Mat<T>(1,1);
    int lay = (int)s.draw(NLAYOUT); uint32_t l = 0,t = 0,r = 0,bo = 0; if( lay ) { l = (uint32_t)s.draw(4); t = (uint32_t)s.draw(4); r = (uint32_t)s.draw(4); bo = (uint32_t)s.draw(4); }
    uint64_t seed = s.draw(1u<<16); Stream st(seed);
    c.label(op.name); c.label(std::string(tname<T>())+" to "+tname<R>()); c.note(op.name," ",tname<T>(),"->",tname<R>()," layout ",lname(lay),"\ninput ",show(a)); if( op.two ) c.note("\nsecond ",show(b));
    auto call = [&](const Mat<T>& m, const Mat<T>& m2, int layout, uint64_t fill, Mat<R>& out) {
        View<T> v, v2; v.build(m,layout,l,t,r,bo,fill); v2.build(m2,op.two ? layout : WHOLE,l,t,r,bo,fill+1); Gray<R> o(m.w,m.h); Stream g(fill); for( uint32_t i = 0; i < m.w*m.h; i++ ) o.data[i] = View<R>::noise(g); Gray<T> w1, w2;
        bool ok = !throws([&]{ op.f(*v.img,*v2.img,o,w1,w2); }); c.check(v.untouched() && v2.untouched(),"input modified");
        if( ok ) { c.check(o.width == m.w && o.height == m.h,"output of shape ",o.width,"x",o.height); out = Mat<R>(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) out.at(x,y) = o.at(x,y); }
        return ok;
    };
    const std::vector<Area> areas = region(w,h);
    if( k.crop && w > 1 && s.draw(4) == 3 ) {        // a crop gives the same pixels wherever it holds all they depend on
        uint32_t x0 = (uint32_t)s.draw(w), y0 = (uint32_t)s.draw(h), cw = 1+(uint32_t)s.draw(w-x0), ch = 1+(uint32_t)s.draw(h-y0);
        Mat<T> part(cw,ch), part2(op.two ? cw : 1,op.two ? ch : 1); double m = 1; for( uint32_t y = 0; y < ch; y++ ) for( uint32_t x = 0; x < cw; x++ ) { part.at(x,y) = a.at(x0+x,y0+y); m = std::max(m,std::fabs((double)part.at(x,y))); if( op.two ) part2.at(x,y) = b.at(x0+x,y0+y); }
        bool change = k.specials && s.flag(); if( change ) for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) if( x < x0 || y < y0 || x >= x0+cw || y >= y0+ch ) { a.at(x,y) = wild<T>(st,k.lo,k.hi,k.specials); if( op.two ) b.at(x,y) = wild<T>(st,k.lo,k.hi,k.specials); }
        c.note("\ncrop ",cw,"x",ch," at ",x0,",",y0,change ? " rest changed" : ""," seed ",seed); c.label("crop");
        Mat<R> whole, some; if( !call(a,b,lay,seed,whole) || !call(part,part2,lay,seed+5,some) ) { c.label("rejected"); return; }
        const std::vector<Area> inner = region(cw,ch); uint64_t n = 0;
        auto equal = [](const std::vector<int64_t>& big, const std::vector<int64_t>& small, int64_t shift) { if( big.size() != small.size() ) return false; for( size_t i = 0; i < big.size(); i++ ) if( (small[i] < 0) != (big[i] < 0) || (small[i] >= 0 && small[i]+shift != big[i]) ) return false; return true; };
        std::vector<char> ok((size_t)cw*ch,1);
        for( size_t i = 0; i < inner.size(); i++ ) { std::vector<char> ex(cw), ey(ch); for( uint32_t x = 0; x < cw; x++ ) ex[x] = equal(areas[i].x[x0+x],inner[i].x[x],x0); for( uint32_t y = 0; y < ch; y++ ) ey[y] = equal(areas[i].y[y0+y],inner[i].y[y],y0); for( uint32_t y = 0; y < ch; y++ ) for( uint32_t x = 0; x < cw; x++ ) ok[(size_t)y*cw+x] &= ex[x] && ey[y]; }
        for( uint32_t y = 0; y < ch; y++ ) for( uint32_t x = 0; x < cw; x++ ) if( ok[(size_t)y*cw+x] ) { n++; R p = whole.at(x0+x,y0+y), q = some.at(x,y);
            if( !(same(p,q) || std::fabs((double)p-(double)q) <= k.tol*m*op.gain) ) c.fail("pixel (",x,",",y,") of the crop is ",+q,", of the whole image ",+p); }
        c.nontrivial = n && cw*ch < w*h; return;
    }
    Mat<R> before; if( !call(a,b,lay,seed,before) ) { c.label("rejected"); return; }
    std::vector<char> changed((size_t)w*h,0); int mode = (int)s.draw(5); uint32_t ox = (uint32_t)s.draw(w), oy = (uint32_t)s.draw(h);
    if( mode == 0 ) changed[(size_t)oy*w+ox] = 1;
    else if( mode == 1 ) for( int i = 0; i < 5; i++ ) changed[st.below((uint64_t)w*h)] = 1;
    else if( mode == 2 ) { bool row = s.flag(); for( uint32_t i = 0; i < (row ? w : h); i++ ) changed[row ? (size_t)oy*w+i : (size_t)i*w+ox] = 1; }
    else { changed.assign((size_t)w*h,1); for( const Area& q : areas ) for( int64_t y : q.y[oy] ) for( int64_t x : q.x[ox] ) if( x >= 0 && y >= 0 ) changed[(size_t)y*w+x] = 0; if( mode == 4 ) for( auto& z : changed ) z = z && st.below(2); }
    Mat<T> a2 = a, b2 = b; bool one = op.two && s.flag(), single = s.flag(); T value = wild<T>(st,k.lo,k.hi,k.specials); bool any = false;
    for( size_t i = 0; i < changed.size(); i++ ) if( changed[i] ) { T v = op.binary ? (T)!a.v[i] : single ? value : wild<T>(st,k.lo,k.hi,k.specials); any |= !same(v,a.v[i]); if( !one ) a2.v[i] = v; if( op.two ) b2.v[i] = op.binary ? (T)!b.v[i] : wild<T>(st,k.lo,k.hi,k.specials); }
    std::vector<char> hit = affected(areas,changed,w,h); static const char* names[] = {"one pixel","some pixels","a stripe","everything else","half of everything else"};
    c.note("\nchanged ",names[mode]," at ",ox,",",oy," seed ",seed,"\nchanged image ",show(a2)); c.label(names[mode]);
    Mat<R> after; c.check(call(a2,b2,lay,seed+1000,after),"rejected because of its pixels"); uint64_t n = 0;
    for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) if( !hit[(size_t)y*w+x] ) { n++; if( !same(before.at(x,y),after.at(x,y)) ) c.fail("pixel (",x,",",y,") of ",w,"x",h," changed from ",+before.at(x,y)," to ",+after.at(x,y)," although nothing in its neighbourhood did"); }
    c.nontrivial = n && any;
}
static void shape(Source& s, uint32_t& w, uint32_t& h) { gen_shape(s,w,h,40,200,20000); }
template<class T, class R> void conv(Source& s, Ctx& c) {
    uint32_t w,h; shape(s,w,h); int dir = (int)s.draw(3); Params p; gen_params(s,p,w,h,std::is_integral<T>::value,false,std::is_same<R,S16>::value ? 128 : 100000);
    c.note("border ",p.border," value ",p.value," kernel ",show(dir == 2 ? p.k2 : p.k1),"\n"); const Ker& q = dir == 2 ? p.k2 : p.k1; int64_t b = q.off, e = (int64_t)q.w-1-q.off; int border = p.border;
    Local k; if( std::is_floating_point<T>::value ) { k.lo = -100; k.tol = 4e-6; }
    Op<T,R> op = conv_op<T,R>(p,dir);
    if( s.draw(4) == 3 ) {      // the reference implementation
        typedef typename TypeInfo<T>::signed_type K; auto bo = make_border<T>(p.border,(T)p.value); auto k1 = ker1<K>(p.k1); auto k2 = ker2<K>(p.k2); op.name = "naive "+op.name;
        op.f = [=](const Gray<T>& in, const Gray<T>&, Gray<R>& out, Gray<T>&, Gray<T>&) { bo->setImage(in); if( dir == 0 ) ConvolveNaive::horizontal(*k1,*bo,out); else if( dir == 1 ) ConvolveNaive::vertical(*k1,*bo,out); else ConvolveNaive::convolve(*k2,*bo,out); };
    }
    run<T,R>(s,c,op,[=](uint32_t W, uint32_t H) { return std::vector<Area>{Area{dir == 1 ? itself(W) : window(W,b,e,border,false),dir == 0 ? itself(H) : window(H,b,e,border,false)}}; },w,h,k);
}
static void gaussian_reach(double sigma, int64_t width, int64_t& before, int64_t& after) { if( width <= 0 ) width = 2*(int64_t)std::ceil((5*sigma-1)/2)+1; before = width/2; after = width-1-before; }
template<class T> void normalized(Source& s, Ctx& c) {
    uint32_t w,h; shape(s,w,h); int which = s.pick({0,1,2,4}); Params p; gen_params(s,p,w,h,std::is_integral<T>::value,true,100); if( which == 4 && p.sigma <= 0 && p.width < 2 ) p.width = 2;
    int64_t b = p.k1.off, e = (int64_t)p.k1.w-1-p.k1.off; if( which == 4 ) gaussian_reach(p.sigma,p.width,b,e);
    c.note("kernel ",show(p.k1)," sigma ",p.sigma," width ",p.width,"\n"); Local k; if( std::is_floating_point<T>::value ) { k.lo = -100; k.tol = 4e-6; }
    Op<T,T> op = same_op<T>(p,which); op.gain = 1;
    if( which < 2 && s.draw(4) == 3 ) { typedef typename TypeInfo<T>::signed_type K; auto k1 = ker1<K>(p.k1); op.name = "naive "+op.name; op.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { if( which == 0 ) ConvolveNormalizedNaive::horizontal(*k1,in,out); else ConvolveNormalizedNaive::vertical(*k1,in,out); }; }
    run<T,T>(s,c,op,[=](uint32_t W, uint32_t H) { return std::vector<Area>{Area{which == 1 ? itself(W) : window(W,b,e,0,true),which == 0 ? itself(H) : window(H,b,e,0,true)}}; },w,h,k);
}
template<class T> void mean(Source& s, Ctx& c, int which) {
    uint32_t w,h; shape(s,w,h); Params p; gen_params(s,p,w,h,true,true,100); int64_t r = p.radius; c.note("radius ",r,"\n"); Op<T,T> op; Local k; k.specials = false; k.fraction = false; if( std::is_signed<T>::value ) { k.lo = -900; k.hi = 900; }
    if( which == 2 ) op = same_op<T>(p,3);
    else { op.name = which ? "mean vertical" : "mean horizontal"; op.f = [=](const Gray<T>& in, const Gray<T>&, Gray<T>& out, Gray<T>&, Gray<T>&) { if( which ) ConvolveImageMean::vertical(in,out,(uint32_t)r); else ConvolveImageMean::horizontal(in,out,(uint32_t)r); }; }
    run<T,T>(s,c,op,[=](uint32_t W, uint32_t H) { return std::vector<Area>{Area{which == 1 ? itself(W) : window(W,r,r,0,true),which == 0 ? itself(H) : window(H,r,r,0,true)}}; },w,h,k);
}
template<class T> void binarize(Source& s, Ctx& c) {
    uint32_t w,h; shape(s,w,h); int which = s.pick({0,3,4,5,2,6}); if( !std::is_integral<T>::value && (which == 2 || which == 6) ) which = 3+(which == 6); Params p; gen_params(s,p,w,h,true,false,100);
    if( which && s.draw(4) != 3 ) { p.relative = false; p.length = (which == 2 || which == 6 ? 2 : 1)+(double)s.draw(std::min(w,h)); }
    auto size = [=](uint32_t W, uint32_t H) { double n = std::min(W,H); return (uint32_t)std::floor((p.relative ? std::max(p.fraction*n,(double)(int)p.length) : p.length)+0.5); };
    c.note("width ",p.relative ? "relative " : "fixed ",p.fraction," ",p.length," local ",p.local," scale ",p.scale," down ",p.down," spread ",p.spread," value ",p.value,"\n");
    Region region; const bool local = p.local;
    if( which == 0 ) region = [](uint32_t W, uint32_t H) { return std::vector<Area>{Area{itself(W),itself(H)}}; };
    else if( which == 2 || which == 6 ) region = [=](uint32_t W, uint32_t H) { int64_t r = size(W,H)/2; return std::vector<Area>{Area{window(W,r,r,0,true),window(H,r,r,0,true)}}; };
    else region = [=](uint32_t W, uint32_t H) { uint32_t q = size(W,H); if( q == 0 || q > std::min(W,H) ) return std::vector<Area>{Area{itself(W),itself(H)}}; return std::vector<Area>{Area{blocks(W,W/(W/q),local),blocks(H,H/(H/q),local)}}; };
    Local k; k.crop = which == 0 || ((which == 2 || which == 6) && !p.relative); k.specials = which != 5;
    run<T,U8>(s,c,binarize_op<T>(p,which),region,w,h,k);
}
template<class T> void per_pixel(Source& s, Ctx& c) {      // band average
    uint32_t w,h; shape(s,w,h); uint32_t bands = 1+(uint32_t)s.draw(4); Params p; Op<T,T> op; op.name = "band average";
    op.f = [=](const Gray<T>& in, const Gray<T>& other, Gray<T>& out, Gray<T>&, Gray<T>&) { Interleaved<T> i(in.width,in.height,bands); for( uint32_t y = 0; y < in.height; y++ ) for( uint32_t x = 0; x < in.width; x++ ) for( uint32_t k = 0; k < bands; k++ ) i.at(x,y,k) = k%2 ? other.at(x,y) : in.at(x,y); convert_average(i,out); };
    op.two = true; Local k; if( std::is_signed<T>::value ) k.lo = -1000; k.hi = std::is_same<T,U8>::value ? 255 : 1000;
    run<T,T>(s,c,op,[](uint32_t W, uint32_t H) { return std::vector<Area>{Area{itself(W),itself(H)}}; },w,h,k);
}
static void logic(Source& s, Ctx& c) {
    uint32_t w,h; shape(s,w,h); int which = (int)s.draw(4); Params p;
    Region region = [](uint32_t W, uint32_t H) { return std::vector<Area>{Area{itself(W),itself(H)}}; };
    if( which >= 2 ) region = [](uint32_t W, uint32_t H) { return std::vector<Area>{Area{window(W,1,1,-1,false),itself(H)},Area{itself(W),window(H,1,1,-1,false)}}; };
    run<U8,U8>(s,c,logic_op(p,which),region,w,h,Local());
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(16) ) {
        case 0: conv<U8,S16>(s,c); break; case 1: conv<U8,S32>(s,c); break; case 2: case 3: conv<F32,F32>(s,c); break;
        case 4: normalized<U8>(s,c); break; case 5: case 6: normalized<F32>(s,c); break;
        case 7: mean<U8>(s,c,(int)s.draw(3)); break; case 8: mean<F32>(s,c,(int)s.draw(2)); break;
        case 9: case 10: binarize<U8>(s,c); break; case 11: case 12: binarize<F32>(s,c); break;
        case 13: s.draw(3) ? s.flag() ? per_pixel<U8>(s,c) : per_pixel<S16>(s,c) : per_pixel<F32>(s,c); break;
        default: logic(s,c); break;
    }
}
