// C29: calls which run out of memory
#include "ops.h"
#include "binary_gen.h"
#include "packed_sets.h"
#include "faults.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C29";
const char* PBT_RULE = "A case is one call (constructing, copying, reshaping, growing and assigning containers and kernels; every filter, convolution, threshold, binary operation and contour search; conversions, borders, generated kernels) on drawn objects. It is first made with memory available, then once for each of its allocations (a choice of 14 when there are more than 16) with that allocation failing, alone, along with all later ones, or with another fault in the repeated call, and then repeated with memory available. Non-trivial: at least one fault reached the caller.";
const char* PBT_ASSUMPTIONS = "memory is allocated with operator new | the contents of an object which was being written are unspecified after the failure, its shape and storage are not";
uint64_t PBT_CASES_QUICK = 60000;

template<class T> void pattern(Gray<T>& g, uint64_t seed) { Stream st(seed); for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) g.at(x,y) = (T)st.below(200); }
template<class T> void pattern(Interleaved<T>& g, uint64_t seed) { Stream st(seed); for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) for( uint32_t k = 0; k < g.num_bands; k++ ) g.at(x,y,k) = (T)st.below(200); }
template<class T> void pattern(Planar<Gray<T>>& g, uint64_t seed) { for( uint32_t k = 0; k < g.num_bands; k++ ) pattern(g.getBand(k),seed+k); }
template<class G> G fresh(uint32_t w, uint32_t h, uint32_t n);
template<class G> struct Maker; 
template<class T> struct Maker<Gray<T>> { static Gray<T>* make(uint32_t w, uint32_t h, uint32_t) { return new Gray<T>(w,h); } static void shape(Gray<T>& g, uint32_t w, uint32_t h, uint32_t) { g.reshape(w,h); } static void bands(Gray<T>& g, uint32_t n) { g.reshape(g.width+n,g.height); } static void set(Gray<T>& a, const Gray<T>& b) { a.copy(b); } };
template<class T> struct Maker<Interleaved<T>> { static Interleaved<T>* make(uint32_t w, uint32_t h, uint32_t n) { return new Interleaved<T>(w,h,n); } static void shape(Interleaved<T>& g, uint32_t w, uint32_t h, uint32_t n) { if( n ) g.reshape(w,h,n); else g.reshape(w,h); } static void bands(Interleaved<T>& g, uint32_t n) { g.setNumberOfBands(n); } static void set(Interleaved<T>& a, const Interleaved<T>& b) { a.setTo(b); } };
template<class T> struct Maker<Planar<Gray<T>>> { typedef Planar<Gray<T>> P; static P* make(uint32_t w, uint32_t h, uint32_t n) { return new P(w,h,n); } static void shape(P& g, uint32_t w, uint32_t h, uint32_t) { g.reshape(w,h); } static void bands(P& g, uint32_t n) { g.setNumberOfBands(n); } static void set(P& a, const P& b) { a.setTo(b); } };
// G: an image class
template<class G> struct Images { std::unique_ptr<G> a, src, made; };
template<class G> void image_case(Source& s, Ctx& c, const char* kind) {
    uint32_t w = (uint32_t)s.draw(12), h = (uint32_t)s.draw(12), n = (uint32_t)s.draw(4), w2 = (uint32_t)s.draw(16), h2 = (uint32_t)s.draw(16), n2 = (uint32_t)s.draw(6); bool keep = s.draw(3) == 2, shrunk = s.flag(); int op = (int)s.draw(7);
    static const char* names[] = {"construct","reshape","reshape keeping bands","bands","copy","assign","copy construct"};
    if( keep ) { w2 = w+(uint32_t)s.draw(3); h2 = h+(uint32_t)s.draw(3); }
    c.note(kind," ",w,"x",h,"x",n," other ",w2,"x",h2,"x",n2," ");
    drive(s,c,[=]() {
        typedef Images<G> S; std::unique_ptr<LTrial<S>> t(new LTrial<S>()); S& x = t->s; x.a.reset(Maker<G>::make(w+(shrunk ? 3 : 0),h+(shrunk ? 2 : 0),n)); if( shrunk ) Maker<G>::shape(*x.a,w,h,n); x.src.reset(Maker<G>::make(w2,h2,n2)); pattern(*x.a,3); pattern(*x.src,4);
        t->f = [=](S& x) { switch( op ) {
            case 0: x.made.reset(Maker<G>::make(w2,h2,n2)); break; case 1: Maker<G>::shape(*x.a,w2,h2,n2); break; case 2: Maker<G>::shape(*x.a,w2,h2,0); break; case 3: Maker<G>::bands(*x.a,n2); break;
            case 4: Maker<G>::set(*x.a,*x.src); break; case 5: *x.a = *x.src; break; default: x.made.reset(new G(*x.src)); break; } };
        t->a = [=](Ctx& c, S& x) {
            c.check(consistent(*x.a),kind," ",names[op],": after running out of memory the image does not describe pixels it has: ",x.a->width,"x",x.a->height); c.check(!x.made,"an object was made without memory");
            std::unique_ptr<G> q(Maker<G>::make(w2,h2,n2)); pattern(*q,4); Blob b1,b2; put(b1,*q); put(b2,*x.src); first_difference(c,b1,b2,std::string(names[op])+": the image read from changed"); };
        t->r = [=](Ctx& c, S& x, Blob& b) { c.check(consistent(*x.a),kind," ",names[op],": inconsistent image"); if( op >= 1 && op <= 3 ) pattern(*x.a,9); put(b,*x.a); put(b,*x.src); if( x.made ) { put(b,*x.made); pattern(*x.made,11); put(b,*x.made); } };
        return std::unique_ptr<Trial>(std::move(t));
    },std::string(kind)+" "+names[op]);
}
template<class T> struct Arrays { GrowArray<T> a, src; std::unique_ptr<GrowArray<T>> made; std::vector<T> v; };
template<class T> void array_case(Source& s, Ctx& c) {
    uint32_t n = (uint32_t)s.draw(20), m = (uint32_t)s.draw(40), p = (uint32_t)s.draw(30); int def = (int)s.draw(3), op = (int)s.draw(8); static const char* names[] = {"construct","resize","grow","set","list","assign","copy","fill after growing"};
    c.note("array of ",n," other ",m," ");
    drive(s,c,[=]() {
        typedef Arrays<T> S; std::unique_ptr<LTrial<S>> t(new LTrial<S>()); S& x = t->s; x.a.default_value = (T)def; x.a.resize(n); for( uint32_t k = 0; k < n; k++ ) x.a[k] = (T)(k+1); x.src.resize(m); for( uint32_t k = 0; k < m; k++ ) x.src[k] = (T)(k+5); x.v.assign(p,(T)7);
        t->f = [=](S& x) { switch( op ) {
            case 0: x.made.reset(new GrowArray<T>(m)); break; case 1: x.a.resize(m); break; case 2: x.a.grow_array(m); break; case 3: x.a.set(x.v.data(),p); break; case 4: x.a.setTo({(T)1,(T)2,(T)3,(T)4,(T)5,(T)6,(T)7,(T)8,(T)9,(T)1,(T)2,(T)3,(T)4}); break;
            case 5: x.a = x.src; break; case 6: x.made.reset(new GrowArray<T>(x.src)); break; default: x.a.resize(m); x.a.fill((T)3); break; } };
        t->a = [=](Ctx& c, S& x) { c.check(consistent(x.a),"array ",names[op],": after running out of memory it has size ",x.a.size," capacity ",x.a.array_length); c.check(x.src.size == m,"array read from changed"); for( uint32_t k = 0; k < m; k++ ) c.check(x.src[k] == (T)(k+5),"array read from changed"); c.check(!x.made,"made without memory"); };
        t->r = [=](Ctx& c, S& x, Blob& b) { c.check(consistent(x.a),"array ",names[op],": inconsistent"); if( op == 2 ) { c.check(x.a.size == 0 && x.a.array_length >= m,"capacity after growing"); bool f = m > std::max(n,10u); x.a.resize(m); if( !f ) x.a.fill((T)1); } if( op == 1 && m > n && m <= std::max(n,10u) ) for( uint32_t k = n; k < m; k++ ) x.a[k] = 0; put(b,x.a); put(b,x.src); if( x.made ) put(b,*x.made); b.push_back((double)x.a.default_value); };
        return std::unique_ptr<Trial>(std::move(t));
    },std::string("array ")+names[op]);
}
template<class K> bool kernel_ok(const KernelBase<K>& k) { return consistent(k.data) && k.data.size == (k.dimension() == 1 ? k.width : k.width*k.width); }
template<class K> void put_kernel(Blob& b, const KernelBase<K>& k) { b.push_back(k.width); b.push_back(k.offset); for( uint32_t i = 0; i < k.data.size; i++ ) b.push_back((double)k.data[i]); }
template<class Q> struct Kernels { Q a, src; std::unique_ptr<Q> made; };
template<class Q> struct KOps; 
template<class K> struct KOps<Kernel1D<K>> { static const int dim = 1; static Kernel1D<K> gauss(double s, int32_t w) { return FactoryKernel::gaussian1D<K>(s,w); } static void list(Kernel1D<K>*& q) { q = new Kernel1D<K>(1,{(K)1,(K)2,(K)3,(K)4,(K)5,(K)6,(K)7,(K)8,(K)9,(K)1,(K)2}); } };
template<class K> struct KOps<Kernel2D<K>> { static const int dim = 2; static Kernel2D<K> gauss(double s, int32_t w) { return FactoryKernel::gaussian2D<K>(s,w); } static void list(Kernel2D<K>*& q) { q = new Kernel2D<K>(1,{{(K)1,(K)2,(K)3,(K)4},{(K)5,(K)6,(K)7,(K)8},{(K)9,(K)1,(K)2,(K)3},{(K)4,(K)5,(K)6,(K)7}}); } };
template<class Q> void kernel_case(Source& s, Ctx& c, const char* kind) {
    uint32_t w = 1+(uint32_t)s.draw(14), off = (uint32_t)s.draw(w), w2 = 1+(uint32_t)s.draw(18), off2 = (uint32_t)s.draw(w2); int op = (int)s.draw(7); double sigma = 0.4+(double)s.draw(30)/10; static const char* names[] = {"construct","list","reshape","assign","copy","gaussian","mean and table"};
    typedef typename std::decay<decltype(Q().data[0])>::type K; c.note(kind," ",w," other ",w2," sigma ",sigma," ");
    drive(s,c,[=]() {
        typedef Kernels<Q> S; std::unique_ptr<LTrial<S>> t(new LTrial<S>()); S& x = t->s; x.a.reshape(w,off); for( uint32_t k = 0; k < x.a.data.size; k++ ) x.a.data[k] = (K)(k+1); x.src.reshape(w2,off2); for( uint32_t k = 0; k < x.src.data.size; k++ ) x.src.data[k] = (K)(2*k+1);
        t->f = [=](S& x) { switch( op ) {
            case 0: x.made.reset(new Q(w2,off2)); break; case 1: { Q* q = nullptr; KOps<Q>::list(q); x.made.reset(q); break; } case 2: x.a.reshape(w2,off2); break; case 3: x.a = x.src; break; case 4: x.made.reset(new Q(x.src)); break;
            case 5: x.made.reset(new Q(KOps<Q>::gauss(sigma,(int32_t)w2))); break; default: { auto m = FactoryKernel::mean1D<K>(w2); auto tb = FactoryKernel::table1D<K>(w2); x.made.reset(new Q(w,off)); for( uint32_t k = 0; k < x.made->data.size; k++ ) x.made->data[k] = m[k%w2]+tb[k%w2]; break; } } };
        t->a = [=](Ctx& c, S& x) { c.check(kernel_ok(x.a),kind," ",names[op],": after running out of memory the kernel has width ",x.a.width," and ",x.a.data.size," weights"); c.check(kernel_ok(x.src) && x.src.width == w2 && x.src.offset == off2,"kernel read from changed"); for( uint32_t k = 0; k < x.src.data.size; k++ ) c.check(x.src.data[k] == (K)(2*k+1),"kernel read from changed"); c.check(!x.made,"made without memory"); };
        t->r = [=](Ctx& c, S& x, Blob& b) { c.check(kernel_ok(x.a),kind," ",names[op],": inconsistent"); if( op == 2 ) for( uint32_t k = 0; k < x.a.data.size; k++ ) x.a.data[k] = (K)k; put_kernel(b,x.a); put_kernel(b,x.src); if( x.made ) { c.check(kernel_ok(*x.made),"inconsistent"); put_kernel(b,*x.made); } };
        return std::unique_ptr<Trial>(std::move(t));
    },std::string(kind)+" "+names[op]);
}
struct Sets { std::unique_ptr<PackedSet<S32>> p, q; size_t done = 0, first = 0; std::vector<int32_t> plan; };   // plan: -1 starts a set, -2 removes the last one, other values are added
void sets_case(Source& s, Ctx& c) {
    uint32_t block = 1+(uint32_t)s.draw(6); std::vector<int32_t> plan(s.draw(50)); for( auto& q : plan ) { uint64_t k = s.draw(8); q = k == 7 ? -1 : k == 6 && s.flag() ? -2 : (int32_t)s.draw(1000); } size_t first = (size_t)s.draw(plan.size()+1); bool ctor = s.draw(6) == 5, reuse = s.flag(); int copy = ctor ? 0 : (int)s.draw(4) == 3 ? 1+(int)s.draw(2) : 0; if( copy ) first = plan.size();   // 1: copied, 2: assigned to one with other contents
    c.note("packed sets in blocks of ",block,", ",plan.size()," steps, ",first," of them before; ");
    auto model = [](const std::vector<int32_t>& plan, size_t n) { std::vector<std::vector<int32_t>> m; for( size_t i = 0; i < n; i++ ) if( plan[i] == -1 ) m.emplace_back(); else if( plan[i] == -2 ) { if( !m.empty() ) m.pop_back(); } else { if( m.empty() ) m.emplace_back(); m.back().push_back(plan[i]); } return m; };
    auto steps = [](Sets& x, size_t end) { for( ; x.done < end; x.done++ ) { int32_t q = x.plan[x.done]; if( q == -1 ) x.p->start_new_set(); else if( q == -2 ) x.p->remove_tail(); else x.p->push_tail(q); } };
    drive(s,c,[=]() {
        typedef Sets S; std::unique_ptr<LTrial<S>> t(new LTrial<S>()); S& x = t->s; x.plan = plan; x.first = first; if( !ctor ) { x.p.reset(new PackedSet<S32>(block)); if( reuse ) { for( int i = 0; i < 9; i++ ) x.p->push_tail(i); x.p->clear(); } steps(x,first); }
        if( copy == 2 ) { x.q.reset(new PackedSet<S32>(block%4+1)); for( int i = 0; i < 7; i++ ) { if( i%3 == 0 ) x.q->start_new_set(); x.q->push_tail(-i); } }
        t->f = [=](S& x) { if( copy == 1 ) x.q.reset(new PackedSet<S32>(*x.p)); else if( copy == 2 ) *x.q = *x.p; if( ctor && !x.p ) x.p.reset(new PackedSet<S32>(block)); steps(x,x.plan.size()); };
        // every step which was completed shows, none which was not
        t->a = [=](Ctx& c, S& x) { if( !x.p ) return; auto m = model(x.plan,x.done); uint32_t n = x.p->number_of_sets(); if( n == m.size()+1 && m.empty() && x.p->size_of_tail() == 0 ) m.emplace_back(); c.check(n == m.size(),"after running out of memory there are ",n," sets instead of ",m.size()); uint32_t total = 0; for( uint32_t i = 0; i < n; i++ ) { std::vector<S32> v; x.p->load_set(i,v); c.check(v == std::vector<S32>(m[i].begin(),m[i].end()),"after running out of memory set ",i," has other elements (",v.size()," instead of ",m[i].size(),")"); total += (uint32_t)v.size(); } c.check(x.p->_total_element == total,"number of elements");
            if( copy == 1 ) c.check(!x.q,"copied without memory"); if( copy == 2 ) { for( uint32_t i = 0; i < x.q->number_of_sets(); i++ ) { std::vector<S32> v; x.q->load_set(i,v); } x.q->clear(); x.q->push_tail(3); c.check(x.q->number_of_sets() == 1 && x.q->at(0,0) == 3,"packed sets can't be used after an assignment for which there was no memory"); } };
        t->r = [=](Ctx& c, S& x, Blob& b) { (void)c; for( uint32_t i = 0; i < x.p->number_of_sets(); i++ ) { std::vector<S32> v; x.p->load_set(i,v); b.push_back((double)v.size()); for( auto e : v ) b.push_back(e); } if( x.q ) { b.push_back(x.q->number_of_sets()); for( uint32_t i = 0; i < x.q->number_of_sets(); i++ ) { std::vector<S32> v; x.q->load_set(i,v); b.push_back((double)v.size()); for( auto e : v ) b.push_back(e); } } };
        return std::unique_ptr<Trial>(std::move(t));
    },ctor ? "construct packed sets" : copy == 1 ? "copy packed sets" : copy ? "assign packed sets" : "packed sets");
}
// any image operation: the objects, the operation's own state possibly left by an earlier image
template<class T, class R> struct OpTrial : Trial {
    Op<T,R> op; View<T> in, in2, w1, w2; View<R> out; std::shared_ptr<Finder> keep; bool use;
    void call() override { op.f(*in.img,op.two ? *in2.img : *in.img,*out.img,*w1.img,*w2.img); }
    void after(Ctx& c) override {
        c.check(in.untouched() && in2.untouched(),op.name,": the input image changed"); c.check(out.surroundings_intact(),op.name,": pixels outside of the output image changed");
        c.check(consistent(*out.img),op.name,": the output image does not describe pixels it has"); c.check(consistent(*w1.img) && consistent(*w2.img),op.name,": a work image does not describe pixels it has");
        if( use ) { uint32_t w = out.img->width, h = out.img->height; if( !out.img->subimage && op.reshapes && !op.inplace ) { out.img->reshape(w+5,h+3); c.check(consistent(*out.img),op.name,": output image can't be used"); out.img->reshape(w,h); } w1.img->reshape(w+2,h+9); c.check(consistent(*w1.img),op.name,": work image can't be used"); }
    }
    void result(Ctx& c, Blob& b) override { c.check(in.untouched() && in2.untouched(),op.name,": the input image changed"); put(b,*out.img);
        if( keep ) { auto& a = keep->a; for( auto& k : a.contours ) { b.push_back(k.id); b.push_back(k.externalIndex); for( auto i : k.internalIndexes ) b.push_back(i); } for( uint32_t i = 0; i < a.packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> q; a.packedPoints.load_set(i,q); b.push_back((double)q.size()); for( auto& k : q ) { b.push_back(k.x); b.push_back(k.y); } } } }
};
template<class T, class R> void op_case(Source& s, Ctx& c, std::function<Op<T,R>(std::shared_ptr<Finder>&)> make, uint32_t w, uint32_t h) {
    std::shared_ptr<Finder> probe_keep; std::string name; bool binary, reshapes; { Op<T,R> p = make(probe_keep); name = p.name; binary = p.binary; reshapes = p.reshapes; }
    Mat<T> m = binary ? Mat<T>() : gen_mat<T>(s,w,h,0,255), m2; if( binary ) { m = gen_mat<T>(s,w,h,0,1); } m2 = gen_mat<T>(s,w,h,0,binary ? 1 : 255);
    int lin = (int)s.draw(NLAYOUT), lout = (int)s.draw(NLAYOUT); bool warm = s.flag(), other = reshapes && s.flag(), use = s.flag(), works = s.flag(); uint32_t ow = (uint32_t)s.draw(w+4), oh = (uint32_t)s.draw(h+4);
    c.note("image ",w,"x",h," ",lname(lin)," output ",other ? "of another shape" : lname(lout),warm ? " used before" : "",": ");
    drive(s,c,[=]() {
        std::unique_ptr<OpTrial<T,R>> t(new OpTrial<T,R>()); t->op = make(t->keep); t->use = use; t->in.build(m,lin,1,2,1,1,7); t->in2.build(m2,WHOLE,0,0,0,0,7);
        if( other ) t->out.build(Mat<R>(ow,oh,(R)3),WHOLE,0,0,0,0,5); else t->out.build(Mat<R>(w,h,(R)3),lout,2,1,0,1,5);
        t->w1.build(works ? Mat<T>(w,h,(T)1) : Mat<T>(0,0),WHOLE,0,0,0,0,1); t->w2.build(works ? Mat<T>(w/2,h/2,(T)1) : Mat<T>(0,0),WHOLE,0,0,0,0,1);
        if( warm ) { uint32_t a = std::max(1u,w/2), d = std::max(1u,h/2+1); Gray<T> i(a,d), u1, u2; Gray<R> o(a,d); for( uint32_t y = 0; y < d; y++ ) for( uint32_t x = 0; x < a; x++ ) i.at(x,y) = (T)((x+y)%2); try { t->op.f(i,i,o,u1,u2); } catch( const std::exception& ) {} }
        return std::unique_ptr<Trial>(std::move(t));
    },name);
}
struct Found { std::unique_ptr<LinearContourLabelChang2004> a; Gray<U8> in; Gray<S32> out; Found(uint32_t w, uint32_t h) : in(w,h), out(2,1) {} };
void contour_case(Source& s, Ctx& c) {
    Mat<U8> m = gen_binary(s,24,60,3000); bool eight = s.flag(), before = s.flag(), inner = s.draw(4) != 0; uint32_t mn = (uint32_t)s.draw(5), mx = s.flag() ? 5+(uint32_t)s.draw(40) : 1000000; c.note("image ",show(m)," min ",mn," max ",mx,before ? " used before " : " ");
    bool long_one = s.draw(40) == 39; if( long_one ) { m = Mat<U8>(120,70); for( uint32_t y = 0; y < 70; y++ ) for( uint32_t x = 0; x < 120; x++ ) m.at(x,y) = (x+y)&1; c.label("several blocks of contour points"); }
    drive(s,c,[=]() {
        typedef Found S; std::unique_ptr<LTrial<S>> t(new LTrial<S>(m.w,m.h)); S& x = t->s; for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t k = 0; k < m.w; k++ ) x.in.at(k,y) = m.at(k,y);
        if( before ) { x.a.reset(new LinearContourLabelChang2004(eight ? FOUR : EIGHT)); Gray<U8> g(7,5); g.at(2,2) = g.at(4,1) = 1; x.a->process(g,x.out); }
        t->f = [=](S& x) { if( !x.a ) x.a.reset(new LinearContourLabelChang2004(eight ? EIGHT : FOUR)); x.a->setConnectRule(eight ? EIGHT : FOUR); x.a->minContourSize = mn; x.a->maxContourSize = mx; x.a->saveInternalContours = inner; x.a->process(x.in,x.out); };
        t->a = [=](Ctx& c, S& x) { for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t k = 0; k < m.w; k++ ) c.check(x.in.at(k,y) == m.at(k,y),"contours: the input image changed"); c.check(consistent(x.out),"contours: the label image does not describe pixels it has"); if( x.a ) { c.check(consistent(x.a->border),"contours: the finder's image does not describe pixels it has"); for( uint32_t i = 0; i < x.a->packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> q; x.a->packedPoints.load_set(i,q); } } };
        t->r = [=](Ctx&, S& x, Blob& b) { put(b,x.out); for( auto& k : x.a->contours ) { b.push_back(k.id); b.push_back(k.externalIndex); for( auto i : k.internalIndexes ) b.push_back(i); } for( uint32_t i = 0; i < x.a->packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> q; x.a->packedPoints.load_set(i,q); b.push_back((double)q.size()); for( auto& k : q ) { b.push_back(k.x); b.push_back(k.y); } } };
        return std::unique_ptr<Trial>(std::move(t));
    },"contours");
}
template<class T> struct Misc { Interleaved<T> i; Gray<T> g, out; std::shared_ptr<ImageBorder<T>> b; std::vector<double> v; Misc(uint32_t w, uint32_t h) : i(w,h,2), g(w,h), out(1,2) { pattern(i,1); pattern(g,2); } };
template<class T> void misc_case(Source& s, Ctx& c) {
    uint32_t w = 1+(uint32_t)s.draw(20), h = 1+(uint32_t)s.draw(20); int op = (int)s.draw(4); int border = (int)s.draw(5); bool otsu2 = s.flag(); static const char* names[] = {"convert average","make a border","otsu","view of an image"}; c.note(w,"x",h," ");
    drive(s,c,[=]() {
        typedef Misc<T> S; std::unique_ptr<LTrial<S>> t(new LTrial<S>(w,h));
        t->f = [=](S& x) { switch( op ) {
            case 0: convert_average(x.i,x.out); break;
            case 1: x.b = make_border<T>(border,(T)3); x.b->setImage(x.g); break;
            case 2: { x.v.clear(); auto r = ThresholdOps::computeOtsu(x.g,(T)0,(T)255,otsu2); NoFaults q; x.v.push_back((double)r); break; }
            default: { Gray<T> sub(x.g.makeSubimage(0,0,w,h/2+1)); Gray<T> copy(sub), whole(x.g); Gray<T> as; as = sub; NoFaults q; x.v = {(double)copy.at(w-1,h/2),(double)as.at(0,0),(double)whole.at(w-1,h-1)}; break; } } };
        t->a = [=](Ctx& c, S& x) { Interleaved<T> i(w,h,2); pattern(i,1); Gray<T> g(w,h); pattern(g,2); Blob b1,b2; put(b1,i); put(b1,g); put(b2,x.i); put(b2,x.g); first_difference(c,b1,b2,"input changed"); c.check(consistent(x.out),names[op],": the output image does not describe pixels it has"); };
        t->r = [=](Ctx&, S& x, Blob& b) { put(b,x.g); put(b,x.i); if( op == 0 ) put(b,x.out); if( x.b ) for( int32_t y = -2; y < (int32_t)h+2; y++ ) for( int32_t k = -2; k < (int32_t)w+2; k++ ) b.push_back((double)x.b->get(k,y)); for( double v : x.v ) b.push_back(v); };
        return std::unique_ptr<Trial>(std::move(t));
    },names[op]);
}
template<class T> void typed(Source& s, Ctx& c) {
    switch( s.draw(4) ) { case 0: image_case<Gray<T>>(s,c,"gray"); break; case 1: image_case<Interleaved<T>>(s,c,"interleaved"); break; case 2: image_case<Planar<Gray<T>>>(s,c,"planar"); break; default: array_case<T>(s,c); break; }
}
static int cold = (pbt_cold = 4);
void pbt_case(Source& s, Ctx& c) {
    Params p; int which; uint32_t w,h; std::shared_ptr<Finder> none; typedef std::shared_ptr<Finder>& K;
    uint64_t kind = s.draw(20);
    if( kind >= 9 && kind < 18 ) { gen_shape(s,w,h,20,60,0); }
    switch( kind ) {
        case 0: typed<U8>(s,c); break; case 1: typed<S16>(s,c); break; case 2: typed<S32>(s,c); break; case 3: typed<F32>(s,c); break; case 4: if( s.flag() ) typed<F64>(s,c); else if( s.flag() ) typed<U16>(s,c); else typed<S64>(s,c); break;
        case 5: if( s.flag() ) kernel_case<Kernel1D<S32>>(s,c,"1D kernel"); else kernel_case<Kernel1D<F32>>(s,c,"1D kernel"); break;
        case 6: if( s.flag() ) kernel_case<Kernel2D<S32>>(s,c,"2D kernel"); else kernel_case<Kernel2D<F32>>(s,c,"2D kernel"); break;
        case 7: sets_case(s,c); break; case 8: contour_case(s,c); break;
        case 9: gen_params(s,p,w,h,true,true,100); which = (int)s.draw(NSAME); op_case<U8,U8>(s,c,[=](K){ return same_op<U8>(p,which); },w,h); break;
        case 10: gen_params(s,p,w,h,false,true,100); which = (int)s.draw(NSAME); op_case<F32,F32>(s,c,[=](K){ return same_op<F32>(p,which); },w,h); break;
        case 11: gen_params(s,p,w,h,true,false,128); which = (int)s.draw(3); op_case<U8,S16>(s,c,[=](K){ return conv_op<U8,S16>(p,which); },w,h); break;
        case 12: gen_params(s,p,w,h,true,false,100000); which = (int)s.draw(3); op_case<U8,S32>(s,c,[=](K){ return conv_op<U8,S32>(p,which); },w,h); break;
        case 13: gen_params(s,p,w,h,false,false,128); which = (int)s.draw(3); op_case<F32,F32>(s,c,[=](K){ return conv_op<F32,F32>(p,which); },w,h); break;
        case 14: case 15: gen_params(s,p,w,h,true,false,100); which = (int)s.draw(NBINARIZE); op_case<U8,U8>(s,c,[=](K){ return binarize_op<U8>(p,which); },w,h); break;
        case 16: gen_params(s,p,w,h,true,false,100); which = (int)s.draw(NBINARIZE); op_case<F32,U8>(s,c,[=](K){ return binarize_op<F32>(p,which); },w,h); break;
        case 17: which = (int)s.draw(5); if( which == 4 ) { p.eight = s.flag(); op_case<U8,S32>(s,c,[=](K k){ return label_op(p,k); },w,h); } else op_case<U8,U8>(s,c,[=](K){ return logic_op(Params(),which); },w,h); break;
        default: if( s.flag() ) misc_case<U8>(s,c); else misc_case<F32>(s,c); break;
    }
}
