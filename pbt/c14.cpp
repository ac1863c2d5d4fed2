// C14: gray, interleaved and planar images against model arrays with explicit aliasing
#include "common.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C14";
const char* PBT_RULE = "A case is a history of up to 40 operations over five image variables (construct, list, wrap memory, sub-image of sub-images, copy construct, assign, copy/setTo, reshape, band change, pixel writes through any alias, destroy, invalid calls) of one pixel type, after each of which every pixel of every variable is compared with the model. Non-trivial: an alias of written pixels, an assignment or a copy occurred.";
const char* PBT_ASSUMPTIONS = "views are not used after their parent is reshaped or destroyed | images are not assigned a view of themselves | copies between overlapping windows are not made | pixels after a reshape or a band change of an interleaved image are unspecified until written";
uint64_t PBT_CASES_QUICK = 170000;

template<class T> struct GrayA {
    typedef Gray<T> I; static const bool multi = false; static const char* name() { return "Gray"; }
    static I* make(uint32_t w, uint32_t h, uint32_t) { return new I(w,h); }
    static I* wrap(T* d, uint32_t len, uint32_t w, uint32_t h, uint32_t, uint32_t off, uint32_t stride) { return new I(d,len,w,h,off,stride); }
    static T& at(I& i, uint32_t x, uint32_t y, uint32_t) { return i.at(x,y); }
    static T& unsafe_at(I& i, uint32_t x, uint32_t y, uint32_t) { return i.unsafe_at(x,y); }
    static uint32_t index(I& i, uint32_t x, uint32_t y, uint32_t) { return i.index_of(x,y); }
    static uint32_t bands(I&) { return 1; }
    static void reshape(I& i, uint32_t w, uint32_t h, uint32_t, uint32_t, uint32_t) { i.reshape(w,h); }
    static void copy(I& i, const I& s) { i.copy(s); }
};
template<class T> struct InterA {
    typedef Interleaved<T> I; static const bool multi = true; static const char* name() { return "Interleaved"; }
    static I* make(uint32_t w, uint32_t h, uint32_t b) { return new I(w,h,b); }
    static I* wrap(T* d, uint32_t len, uint32_t w, uint32_t h, uint32_t b, uint32_t off, uint32_t stride) { return new I(d,len,w,h,b,off,stride); }
    static T& at(I& i, uint32_t x, uint32_t y, uint32_t b) { return i.at(x,y,b); }
    static T& unsafe_at(I& i, uint32_t x, uint32_t y, uint32_t b) { return i.unsafe_at(x,y,b); }
    static uint32_t index(I& i, uint32_t x, uint32_t y, uint32_t b) { return i.index_of(x,y,b); }
    static uint32_t bands(I& i) { return i.num_bands; }
    static void reshape(I& i, uint32_t w, uint32_t h, uint32_t b, uint32_t oldb, uint32_t how) { if( b == oldb && how ) i.reshape(w,h); else i.reshape(w,h,b); }
    static void copy(I& i, const I& s) { i.setTo(s); }
};
static uint32_t side(Source& s) { uint32_t k = (uint32_t)s.draw(24); return (uint32_t)s.draw(k == 23 ? 40 : k >= 16 ? 9 : 5); }

template<class T> struct Root { uint32_t w = 0, h = 0, b = 1; std::vector<T> v; std::vector<char> known; T* ext = nullptr; uint32_t extlen = 0; int owner = -1; bool dead = false;
    void shape(uint32_t W, uint32_t H, uint32_t B) { w = W; h = H; b = B; v.assign((size_t)w*h*b,T()); known.assign(v.size(),0); }
    size_t i(uint32_t x, uint32_t y, uint32_t k) const { return ((size_t)y*w+x)*b+k; } };
template<class A, class T> struct World {
    typedef typename A::I I; enum { N = 5 };
    struct Slot { I* img = nullptr; int root = -1; uint32_t x0 = 0, y0 = 0, w = 0, h = 0; bool view = false; };
    Source& s; Ctx& c; Slot sl[N]; std::vector<Root<T>> roots;
    World(Source& s, Ctx& c) : s(s), c(c) {}
    ~World() { for( int i = 0; i < N; i++ ) delete sl[i].img; for( auto& r : roots ) delete [] r.ext; }
    T val() { int64_t lo,hi; (void)lo; (void)hi; uint64_t k = s.draw(1000); if( k == 0 ) return T(); if( k == 1 ) return std::numeric_limits<T>::max(); if( k == 2 ) return std::numeric_limits<T>::lowest(); return std::is_floating_point<T>::value ? (T)((double)k/8-60) : (T)(k*2654435761u); }
    // views of the storage owned by variable i become unusable
    void kill_views(int i) { if( sl[i].img && !sl[i].view ) for( int k = 0; k < N; k++ ) if( k != i && sl[k].img && sl[k].root == sl[i].root ) { delete sl[k].img; sl[k] = Slot(); } }
    void drop(int i) { if( !sl[i].img ) return; kill_views(i); if( !sl[i].view ) roots[(size_t)sl[i].root].dead = true; delete sl[i].img; sl[i] = Slot(); }
    int new_root(uint32_t w, uint32_t h, uint32_t b) { roots.emplace_back(); roots.back().shape(w,h,b); return (int)roots.size()-1; }
    void own(int i, uint32_t w, uint32_t h, uint32_t b) { sl[i].root = new_root(w,h,b); sl[i].x0 = sl[i].y0 = 0; sl[i].w = w; sl[i].h = h; sl[i].view = false; }
    uint32_t bands(int i) { return roots[(size_t)sl[i].root].b; }
    bool overlap(int i, int j) { const Slot& a = sl[i]; const Slot& b = sl[j]; return a.root == b.root && a.x0 < b.x0+b.w && b.x0 < a.x0+a.w && a.y0 < b.y0+b.h && b.y0 < a.y0+a.h; }
    void copy_pixels(int i, int j) { std::vector<std::pair<T,char>> t; Root<T>& rj = roots[(size_t)sl[j].root]; for( uint32_t y = 0; y < sl[j].h; y++ ) for( uint32_t x = 0; x < sl[j].w; x++ ) for( uint32_t b = 0; b < rj.b; b++ ) { size_t k = rj.i(sl[j].x0+x,sl[j].y0+y,b); t.push_back(std::make_pair(rj.v[k],rj.known[k])); }
        Root<T>& ri = roots[(size_t)sl[i].root]; size_t q = 0; for( uint32_t y = 0; y < sl[i].h; y++ ) for( uint32_t x = 0; x < sl[i].w; x++ ) for( uint32_t b = 0; b < ri.b; b++ ) { size_t k = ri.i(sl[i].x0+x,sl[i].y0+y,b); ri.v[k] = t[q].first; ri.known[k] = t[q].second; q++; } }
    void create(int i) {
        drop(i); uint32_t kind = (uint32_t)s.draw(7);
        int j = (int)s.draw(N); if( kind >= 3 && kind <= 5 && (j == i || !sl[j].img) ) kind = 0;
        if( kind == 0 || kind == 1 ) { uint32_t w = side(s), h = side(s), b = A::multi ? (uint32_t)s.draw(5) : 1; if( s.draw(10) == 9 ) { w = h = 0; b = A::multi ? 0 : 1; c.note(" ",i,":new()"); sl[i].img = new I(); } else { c.note(" ",i,":new(",w,",",h,",",b,")"); sl[i].img = A::make(w,h,b); } own(i,w,h,b); Root<T>& R = roots[(size_t)sl[i].root]; R.known.assign(R.known.size(),1); /* new images hold zeros */ }
        else if( kind == 2 || kind == 6 ) {
            uint32_t rw = side(s)+1, rh = side(s)+1, b = A::multi ? 1+(uint32_t)s.draw(4) : 1, x0 = (uint32_t)s.draw(rw+1), y0 = (uint32_t)s.draw(rh+1), w = (uint32_t)s.draw(rw-x0+1), h = (uint32_t)s.draw(rh-y0+1);
            c.note(" ",i,":wrap(",w,",",h,",",b," at ",x0,",",y0," of ",rw,"x",rh,")"); c.label("wrapped memory"); int r = new_root(rw,rh,b); Root<T>& R = roots[(size_t)r]; R.extlen = rw*rh*b; R.ext = new T[R.extlen]; for( uint32_t k = 0; k < R.extlen; k++ ) { R.v[k] = R.ext[k] = (T)(k*7+3); R.known[k] = 1; }
            sl[i].img = A::wrap(R.ext,R.extlen,w,h,b,(y0*rw+x0)*b,rw*b); sl[i].root = r; sl[i].x0 = x0; sl[i].y0 = y0; sl[i].w = w; sl[i].h = h; sl[i].view = true;
        } else if( kind == 3 || kind == 4 ) {
            uint32_t x0 = (uint32_t)s.draw(sl[j].w+1), y0 = (uint32_t)s.draw(sl[j].h+1), x1 = sl[j].w-(uint32_t)s.draw(sl[j].w-x0+1), y1 = sl[j].h-(uint32_t)s.draw(sl[j].h-y0+1);
            c.note(" ",i,":",j,".sub(",x0,",",y0,",",x1,",",y1,")"); c.label(sl[j].view ? "nested sub-image" : "sub-image");
            sl[i].img = new I(sl[j].img->makeSubimage(x0,y0,x1,y1)); sl[i].root = sl[j].root; sl[i].x0 = sl[j].x0+x0; sl[i].y0 = sl[j].y0+y0; sl[i].w = x1-x0; sl[i].h = y1-y0; sl[i].view = true; c.nontrivial = true;
        } else {
            c.note(" ",i,":copy of ",j); c.label("copy constructed"); sl[i].img = new I(*sl[j].img); c.nontrivial = true;
            if( sl[j].view ) { sl[i] = Slot{sl[i].img,sl[j].root,sl[j].x0,sl[j].y0,sl[j].w,sl[j].h,true}; }
            else { own(i,sl[j].w,sl[j].h,bands(j)); copy_pixels(i,j); }
        }
    }
    void verify(int k) {
        Slot& x = sl[k]; if( !x.img ) return; I& im = *x.img; Root<T>& r = roots[(size_t)x.root];
        c.check(im.width == x.w && im.height == x.h && im.getWidth() == x.w && im.getHeight() == x.h && im.total_pixels() == x.w*x.h && A::bands(im) == r.b,"image ",k," is ",im.width,"x",im.height,"x",A::bands(im)," (reported ",im.getWidth(),"x",im.getHeight(),", ",im.total_pixels()," pixels) expected ",x.w,"x",x.h,"x",r.b);
        c.check(im.subimage == x.view,"image ",k,im.subimage ? " claims" : " does not claim"," to be a sub-image");
        for( uint32_t y = 0; y < x.h; y++ ) for( uint32_t xx = 0; xx < x.w; xx++ ) for( uint32_t b = 0; b < r.b; b++ ) {
            size_t i = r.i(x.x0+xx,x.y0+y,b); T& ref = A::at(im,xx,y,b);
            c.check(&ref == &A::unsafe_at(im,xx,y,b) && &ref == &im.data[A::index(im,xx,y,b)],"image ",k,": at, unsafe_at and index_of disagree at (",xx,",",y,",",b,")");
            if( r.known[i] ) c.check(ref == r.v[i],"image ",k," pixel (",xx,",",y,",",b,") is ",+ref," expected ",+r.v[i]);
            if( r.ext ) c.check(&ref == r.ext+i,"image ",k," no longer refers to the wrapped memory");
        }
        c.check(!im.isInBounds(x.w,0) && !im.isInBounds(0,x.h) && (x.w == 0 || x.h == 0 || im.isInBounds(x.w-1,x.h-1)),"isInBounds is wrong for image ",k);
    }
    void verify_all() {
        for( int k = 0; k < N; k++ ) verify(k);
        for( auto& r : roots ) if( r.ext ) for( uint32_t k = 0; k < r.extlen; k++ ) if( r.known[k] ) c.check(r.ext[k] == r.v[k],"element ",k," of the wrapped memory is ",+r.ext[k]," expected ",+r.v[k]);
    }
    void fill(int i) { Slot& x = sl[i]; Root<T>& r = roots[(size_t)x.root]; for( uint32_t y = 0; y < x.h; y++ ) for( uint32_t xx = 0; xx < x.w; xx++ ) for( uint32_t b = 0; b < r.b; b++ ) { T v = (T)(s.draw(4)*60+xx+y*8+b*3); A::unsafe_at(*x.img,xx,y,b) = v; size_t k = r.i(x.x0+xx,x.y0+y,b); r.v[k] = v; r.known[k] = 1; } }
    void run() {
        for( int i = 0; i < N; i++ ) { create(i); if( s.flag() ) fill(i); }
        verify_all();
        int n = 1+(int)s.draw(40);
        for( int q = 0; q < n; q++ ) {
            int i = (int)s.draw(N), j = (int)s.draw(N); Slot& x = sl[i];
            uint32_t op = (uint32_t)s.draw(12);
            if( !x.img ) op = 0;
            switch( op ) {
                case 0: create(i); break;
                case 1: c.note(" ",i,":delete"); drop(i); break;
                case 2: c.note(" ",i,":fill"); fill(i); break;
                case 3: case 4: { if( !x.w || !x.h || !bands(i) ) break; uint32_t a = (uint32_t)s.draw(x.w), b = (uint32_t)s.draw(x.h), k = (uint32_t)s.draw(bands(i)); T v = val(); c.note(" ",i,".at(",a,",",b,",",k,")=",+v); A::at(*x.img,a,b,k) = v; Root<T>& r = roots[(size_t)x.root]; size_t e = r.i(x.x0+a,x.y0+b,k); r.v[e] = v; r.known[e] = 1; break; }
                case 5: case 6: { // reshape
                    uint32_t w = s.draw(4) == 3 ? x.w : side(s), h = s.draw(4) == 3 ? x.h : side(s), b = A::multi ? (s.flag() ? bands(i) : (uint32_t)s.draw(5)) : 1, how = (uint32_t)s.draw(2), ob = bands(i);
                    c.note(" ",i,".reshape(",w,",",h,",",b,")"); bool same = w == x.w && h == x.h && b == ob;
                    if( x.view && !same ) { c.check(throws([&]{ A::reshape(*x.img,w,h,b,ob,how); }),"reshape of sub-image ",i," did not throw"); c.label("rejected reshape"); break; }
                    if( !same ) kill_views(i);
                    A::reshape(*x.img,w,h,b,ob,how); if( !same ) own(i,w,h,b); break; }
                case 7: { // copy / setTo
                    if( !sl[j].img ) break; if( i != j && overlap(i,j) ) break;
                    bool same = x.w == sl[j].w && x.h == sl[j].h && bands(i) == bands(j);
                    if( i == j || (!x.view && !same && sl[j].root == x.root) ) break;
                    c.note(" ",i,".copy(",j,")"); c.label("copy");
                    if( x.view && !same ) { c.check(throws([&]{ A::copy(*x.img,*sl[j].img); }),"copy of another shape into sub-image ",i," did not throw"); c.label("rejected copy"); break; }
                    if( !same ) kill_views(i);
                    A::copy(*x.img,*sl[j].img); if( !same ) own(i,sl[j].w,sl[j].h,bands(j)); copy_pixels(i,j); c.nontrivial = true; break; }
                case 8: { // assignment
                    if( !sl[j].img ) break;
                    if( i == j ) { c.note(" ",i,"=",i); I& alias = *x.img; *x.img = alias; break; }
                    bool same = x.w == sl[j].w && x.h == sl[j].h && bands(i) == bands(j);
                    if( sl[j].view ) {
                        if( !x.view && sl[j].root == x.root ) break;
                        c.note(" ",i,"=",j," (view)"); c.label("assigned a view"); kill_views(i); if( !x.view ) roots[(size_t)x.root].dead = true; *x.img = *sl[j].img; x = Slot{x.img,sl[j].root,sl[j].x0,sl[j].y0,sl[j].w,sl[j].h,true};
                    } else {
                        if( overlap(i,j) ) break;
                        c.note(" ",i,"=",j); c.label("assigned an image");
                        if( x.view && !same ) { c.check(throws([&]{ *x.img = *sl[j].img; }),"assignment of another shape to sub-image ",i," did not throw"); break; }
                        if( !same ) kill_views(i);
                        *x.img = *sl[j].img; if( !same ) own(i,sl[j].w,sl[j].h,bands(j)); copy_pixels(i,j);
                    }
                    c.nontrivial = true; break; }
                case 9: { // out of range pixel
                    uint32_t a = (uint32_t)s.draw(x.w+4), b = (uint32_t)s.draw(x.h+4), k = A::multi ? (uint32_t)s.draw(bands(i)+3) : 0; if( s.draw(6) == 5 ) a = 0xFFFFFFFFu-(uint32_t)s.draw(3); if( s.draw(6) == 5 ) b = 0xFFFFFFFFu;
                    bool bad = a >= x.w || b >= x.h || k >= bands(i); c.note(" ",i,".at(",a,",",b,",",k,")?"); c.check(throws([&]{ A::at(*x.img,a,b,k); }) == bad,"at(",a,",",b,",",k,") on image ",i,bad ? " did not throw" : " threw"); c.check(x.img->isInBounds(a,b) == (a < x.w && b < x.h),"isInBounds(",a,",",b,") is wrong"); break; }
                case 10: { // illegal window
                    uint32_t x0 = (uint32_t)s.draw(x.w+3), x1 = (uint32_t)s.draw(x.w+3), y0 = (uint32_t)s.draw(x.h+3), y1 = (uint32_t)s.draw(x.h+3); if( s.draw(8) == 7 ) x1 = 0xFFFFFFFFu; if( s.draw(8) == 7 ) y0 = 0xFFFFFFFFu;
                    bool bad = x1 > x.w || y1 > x.h || x1 < x0 || y1 < y0; c.note(" ",i,".sub(",x0,",",y0,",",x1,",",y1,")?"); c.check(throws([&]{ x.img->makeSubimage(x0,y0,x1,y1); }) == bad,"window (",x0,",",y0,",",x1,",",y1,") on image ",i,bad ? " did not throw" : " threw"); break; }
                default: multi_op(i,std::integral_constant<bool,A::multi>()); break;
            }
            verify_all();
        }
    }
    void multi_op(int, std::false_type) {
        // ragged or regular list
        std::unique_ptr<Gray<T>> g; T a = val(), b = val(), d = val(), e = val(), f = val(), h = val();
        switch( s.draw(4) ) {
            case 0: g.reset(new Gray<T>({{a,b,d},{e,f,h}})); c.check(g->width == 3 && g->height == 2 && g->at(0,0) == a && g->at(2,0) == d && g->at(0,1) == e && g->at(2,1) == h && !g->subimage,"image from a list has the wrong content"); break;
            case 1: g.reset(new Gray<T>({{a},{b},{d}})); c.check(g->width == 1 && g->height == 3 && g->at(0,0) == a && g->at(0,1) == b && g->at(0,2) == d,"image from a list has the wrong content"); break;
            case 2: g.reset(new Gray<T>(std::initializer_list<std::initializer_list<T>>{})); c.check(g->width == 0 && g->height == 0 && g->total_pixels() == 0,"image from an empty list is not empty"); break;
            default: c.check(throws([&]{ Gray<T> r({{a,b},{d}}); }) && throws([&]{ Gray<T> r({{a},{b,d}}); }),"ragged list was accepted");
        }
    }
    void multi_op(int i, std::true_type) {
        Slot& x = sl[i]; uint32_t b = (uint32_t)s.draw(6), ob = bands(i); c.note(" ",i,".bands=",b);
        set_bands(*x.img,i,b,ob);
    }
    template<class G> void set_bands(G& im, int i, uint32_t b, uint32_t ob) {
        Slot& x = sl[i];
        if( x.view && b != ob ) { c.check(throws([&]{ im.setNumberOfBands(b); }),"band change of sub-image ",i," did not throw"); c.label("rejected band change"); return; }
        if( b != ob ) kill_views(i);
        im.setNumberOfBands(b); c.label("band change"); if( b != ob ) own(i,x.w,x.h,b);
    }
};
template<class A, class T> void history(Source& s, Ctx& c) { c.note(A::name()," ",tname<T>(),":"); c.label(std::string(A::name())+" "+tname<T>()); World<A,T> w(s,c); w.run(); }

template<class T> void planar(Source& s, Ctx& c) {
    typedef Planar<Gray<T>> P; const int N = 3; c.note("Planar ",tname<T>(),":"); c.label(std::string("Planar ")+tname<T>());
    struct M { P* p = nullptr; uint32_t w = 0, h = 0; std::vector<Mat<T>> v; std::vector<std::vector<char>> known; };
    M m[N]; struct Clean { M* m; ~Clean() { for( int i = 0; i < N; i++ ) delete m[i].p; } } clean{m};
    auto fresh = [&](M& x, size_t b, bool zero) { x.v[b] = Mat<T>(x.w,x.h); for( auto& p : x.v[b].v ) p = T(); x.known[b].assign((size_t)x.w*x.h,zero); };
    auto create = [&](int i) {
        M& x = m[i]; delete x.p; x.p = nullptr; int j = (int)s.draw(N);
        if( s.draw(4) == 3 && j != i && m[j].p ) { c.note(" ",i,":copy of ",j); x.p = new P(*m[j].p); x.w = m[j].w; x.h = m[j].h; x.v = m[j].v; x.known = m[j].known; c.label("copy constructed"); c.nontrivial = true; return; }
        x.w = side(s); x.h = side(s); uint32_t b = (uint32_t)s.draw(4); bool def = s.draw(8) == 7; if( def ) x.w = x.h = b = 0;
        c.note(" ",i,":new(",x.w,",",x.h,",",b,")"); x.p = def ? new P() : new P(x.w,x.h,b); x.v.resize(b); x.known.resize(b); for( uint32_t k = 0; k < b; k++ ) fresh(x,k,true);
    };
    auto verify = [&]() {
        for( int i = 0; i < N; i++ ) {
            M& x = m[i]; P& p = *x.p; c.check(p.width == x.w && p.height == x.h && p.getWidth() == x.w && p.getHeight() == x.h && p.total_pixels() == x.w*x.h && p.num_bands == x.v.size(),"planar ",i," is ",p.width,"x",p.height,"x",p.num_bands," expected ",x.w,"x",x.h,"x",x.v.size());
            for( uint32_t b = 0; b < x.v.size(); b++ ) { Gray<T>& g = p.getBand(b); c.check(g.width == x.w && g.height == x.h,"band ",b," of planar ",i," is ",g.width,"x",g.height," expected ",x.w,"x",x.h);
                for( uint32_t y = 0; y < x.h; y++ ) for( uint32_t a = 0; a < x.w; a++ ) { T& r = p.at(a,y,b); c.check(&r == &g.at(a,y),"planar at() and band disagree"); if( x.known[b][(size_t)y*x.w+a] ) c.check(r == x.v[b].at(a,y),"planar ",i," pixel (",a,",",y,",",b,") is ",+r," expected ",+x.v[b].at(a,y)); } }
        }
    };
    for( int i = 0; i < N; i++ ) create(i);
    verify(); int n = 1+(int)s.draw(40);
    for( int q = 0; q < n; q++ ) {
        int i = (int)s.draw(N), j = (int)s.draw(N); M& x = m[i];
        switch( s.draw(8) ) {
            case 0: create(i); break;
            case 1: case 2: { if( x.v.empty() ) break; uint32_t b = (uint32_t)s.draw(x.v.size()); c.note(" ",i,".fill(",b,")"); for( uint32_t y = 0; y < x.h; y++ ) for( uint32_t a = 0; a < x.w; a++ ) { T v = (T)(s.draw(3)*50+a+7*y+b); if( s.flag() ) x.p->at(a,y,b) = v; else x.p->getBand(b).at(a,y) = v; x.v[b].at(a,y) = v; x.known[b][(size_t)y*x.w+a] = 1; } break; }
            case 3: { uint32_t w = s.draw(3) == 2 ? x.w : side(s), h = s.draw(3) == 2 ? x.h : side(s); c.note(" ",i,".reshape(",w,",",h,")"); bool same = w == x.w && h == x.h; x.p->reshape(w,h); if( !same ) { x.w = w; x.h = h; for( size_t b = 0; b < x.v.size(); b++ ) fresh(x,b,false); } break; }
            case 4: { uint32_t b = (uint32_t)s.draw(5), ob = (uint32_t)x.v.size(); c.note(" ",i,".bands=",b); x.p->setNumberOfBands(b); x.v.resize(b); x.known.resize(b); for( uint32_t k = ob; k < b; k++ ) fresh(x,k,true); c.label("band change"); if( ob && b && ob != b ) c.nontrivial = true; break; }
            case 5: { c.note(" ",i,".setTo(",j,")"); x.p->setTo(*m[j].p); if( i != j ) { x.w = m[j].w; x.h = m[j].h; x.v = m[j].v; x.known = m[j].known; c.nontrivial = true; } break; }
            case 6: { c.note(" ",i,"=",j); *x.p = *m[j].p; if( i != j ) { x.w = m[j].w; x.h = m[j].h; x.v = m[j].v; x.known = m[j].known; c.nontrivial = true; } break; }
            default: { uint32_t b = (uint32_t)s.draw(x.v.size()+3), a = (uint32_t)s.draw(x.w+3), y = (uint32_t)s.draw(x.h+3); bool bad = b >= x.v.size(); c.note(" ",i,".at(",a,",",y,",",b,")?"); c.check(throws([&]{ x.p->getBand(b); }) == bad,"getBand(",b,") on ",x.v.size()," bands",bad ? " did not throw" : " threw"); bad = bad || a >= x.w || y >= x.h; c.check(throws([&]{ x.p->at(a,y,b); }) == bad,"planar at(",a,",",y,",",b,")",bad ? " did not throw" : " threw"); }
        }
        verify();
    }
}
void pbt_case(Source& s, Ctx& c) {
    uint64_t t = s.draw(14); c.note("image history starts here, long enough: ");
    long before = live_allocations();
    switch( t ) {
        case 0: history<GrayA<U8>,U8>(s,c); break; case 1: history<GrayA<U16>,U16>(s,c); break; case 2: history<GrayA<S16>,S16>(s,c); break; case 3: history<GrayA<S32>,S32>(s,c); break;
        case 4: history<GrayA<S64>,S64>(s,c); break; case 5: history<GrayA<F32>,F32>(s,c); break; case 6: history<GrayA<F64>,F64>(s,c); break;
        case 7: history<InterA<U8>,U8>(s,c); break; case 8: history<InterA<S16>,S16>(s,c); break; case 9: history<InterA<S32>,S32>(s,c); break; case 10: history<InterA<F32>,F32>(s,c); break; case 11: history<InterA<F64>,F64>(s,c); break;
        case 12: planar<U8>(s,c); break; default: planar<F32>(s,c); break;
    }
    c.check(live_allocations() == before,"heap allocations leaked: ",live_allocations()-before);
}
