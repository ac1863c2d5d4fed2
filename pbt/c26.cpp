// C26: the same calls from several threads on separate objects, and alone
#include "ops.h"
#include "binary_gen.h"
#include "packed_sets.h"
#include "config_types.h"
#include <thread>
#include <atomic>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C26";
const char* PBT_RULE = "A case starts 2 to 4 threads at once, each of which runs 1 to 4 drawn calls on objects of its own (shared: constant input images, kernels and interleaved images; the sub-images of one output image are given one to each thread); the same calls are run again by one thread on fresh objects and everything they returned is compared bit by bit. Each case runs in a process of its own, so that first calls are concurrent too; one of the two builds has ThreadSanitizer. Non-trivial: at least two threads process images of more than one pixel.";
const char* PBT_ASSUMPTIONS = "an object which is written by one thread is not used by another one meanwhile | filters, finders, borders, work images and generators are used by one thread each | which data races are seen depends on ThreadSanitizer's history, which interleavings are run on the scheduler";
uint64_t PBT_CASES_QUICK = 6000;

typedef std::vector<double> Blob;
static const uint32_t MAXT = 4;
// what the threads share, made anew for each of the two runs
struct World {
    uint32_t w, h; bool across; uint32_t threads; const Mat<U8>& u8; const Mat<U8>& bin; const Mat<F32>& f32; int layout;
    View<U8> vu, vb; View<F32> vf; Interleaved<U8> inter; Planar<Gray<U8>> planar; std::shared_ptr<Kernel1D<S32>> ki; std::shared_ptr<Kernel1D<F32>> kf; std::shared_ptr<Kernel2D<S32>> k2;
    Gray<U8> t8; Gray<S16> t16; Gray<S32> t32; Gray<F32> tf;
    World(uint32_t w, uint32_t h, bool across, uint32_t threads, int layout, const Mat<U8>& u8, const Mat<U8>& bin, const Mat<F32>& f32, const Ker& a, const Ker& b, const Ker& q) : w(w), h(h), across(across), threads(threads), u8(u8), bin(bin), f32(f32), layout(layout), inter(w,h,3), planar(w,h,MAXT), ki(ker1<S32>(a)), kf(ker1<F32>(b)), k2(ker2<S32>(q)) {
        vu.build(u8,layout,1,2,3,1,7); vb.build(bin,layout,1,2,3,1,8); vf.build(f32,layout,1,2,3,1,9);
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( uint32_t k = 0; k < 3; k++ ) inter.at(x,y,k) = (U8)(u8.at(x,y)+k*31);
        uint32_t W = across ? w*threads : w, H = across ? h : h*threads; t8.reshape(W,H); t16.reshape(W,H); t32.reshape(W,H); tf.reshape(W,H);
        ImageMiscOps::fill(t8,(U8)3); ImageMiscOps::fill(t16,(S16)3); ImageMiscOps::fill(t32,(S32)3); ImageMiscOps::fill(tf,(F32)3); for( uint32_t k = 0; k < MAXT; k++ ) ImageMiscOps::fill(planar.getBand(k),(U8)5);
    }
    template<class T> Gray<T> part(Gray<T>& all, uint32_t t) { uint32_t x = across ? w*t : 0, y = across ? 0 : h*t; return all.makeSubimage(x,y,x+w,y+h); }
    Gray<U8> tile(uint32_t t, U8) { return part(t8,t); } Gray<S16> tile(uint32_t t, S16) { return part(t16,t); } Gray<S32> tile(uint32_t t, S32) { return part(t32,t); } Gray<F32> tile(uint32_t t, F32) { return part(tf,t); }
    const Gray<U8>& input(U8, bool binary) const { return binary ? *vb.img : *vu.img; } const Gray<F32>& input(F32, bool) const { return *vf.img; }
    template<class T> static void put(Blob& b, const Gray<T>& g) { b.push_back(g.width); b.push_back(g.height); for( uint32_t y = 0; y < g.height; y++ ) for( uint32_t x = 0; x < g.width; x++ ) b.push_back((double)g.at(x,y)); }
    void all(Blob& b) const { put(b,t8); put(b,t16); put(b,t32); put(b,tf); for( uint32_t k = 0; k < MAXT; k++ ) put(b,planar.getBand(k)); put(b,*vu.img); put(b,*vb.img); put(b,*vf.img); for( auto v : inter_values() ) b.push_back(v); }
    std::vector<double> inter_values() const { std::vector<double> r; for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) for( uint32_t k = 0; k < 3; k++ ) r.push_back(inter.at(x,y,k)); return r; }
};
struct Job { std::string name; std::function<void(World&,uint32_t,Blob&)> run; };
template<class T> void fill(Gray<T>& g, const Mat<T>& m) { g.reshape(m.w,m.h); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) g.at(x,y) = m.at(x,y); }
template<class F> void guarded(Blob& b, F f) { try { f(); b.push_back(0); } catch( const std::exception& e ) { b.push_back(1); for( const char* p = e.what(); *p; p++ ) b.push_back(*p); } }

template<class T, class R> Job image_job(Source& s, std::function<Op<T,R>()> make, uint32_t w, uint32_t h) {
    bool own_in = s.draw(3) == 2, own_out = s.flag(); int reps = 1+(int)s.draw(3); Op<T,R> probe = make(); bool binary = probe.binary; Mat<T> m; if( own_in ) m = gen_mat<T>(s,w,h,0,binary ? 1 : 255);
    Job j; j.name = probe.name; j.run = [=](World& W, uint32_t t, Blob& b) {
        Op<T,R> op = make(); Gray<T> own, w1, w2; if( own_in ) fill(own,m);
        for( int r = 0; r < reps; r++ ) {
            const Gray<T>& in = own_in ? own : W.input(T(),binary);
            if( own_out ) { Gray<R> out(w,h); guarded(b,[&]{ op.f(in,in,out,w1,w2); }); World::put(b,out); }
            else { Gray<R> out(W.tile(t,R())); guarded(b,[&]{ op.f(in,in,out,w1,w2); }); World::put(b,out); }
        } };
    return j;
}
Job draw_job(Source& s, uint32_t w, uint32_t h) {
    Params p; int which; Job j;
    switch( s.draw(16) ) {
        case 0: gen_params(s,p,w,h,true,true,100); which = (int)s.draw(NSAME); return image_job<U8,U8>(s,[=]{ return same_op<U8>(p,which); },w,h);
        case 1: gen_params(s,p,w,h,false,true,100); which = (int)s.draw(NSAME); return image_job<F32,F32>(s,[=]{ return same_op<F32>(p,which); },w,h);
        case 2: gen_params(s,p,w,h,true,false,128); which = (int)s.draw(3); return image_job<U8,S16>(s,[=]{ return conv_op<U8,S16>(p,which); },w,h);
        case 3: gen_params(s,p,w,h,true,false,100000); which = (int)s.draw(3); return image_job<U8,S32>(s,[=]{ return conv_op<U8,S32>(p,which); },w,h);
        case 4: gen_params(s,p,w,h,false,false,128); which = (int)s.draw(3); return image_job<F32,F32>(s,[=]{ return conv_op<F32,F32>(p,which); },w,h);
        case 5: case 6: gen_params(s,p,w,h,true,false,100); which = (int)s.draw(NBINARIZE); return image_job<U8,U8>(s,[=]{ return binarize_op<U8>(p,which); },w,h);
        case 7: gen_params(s,p,w,h,true,false,100); which = (int)s.draw(NBINARIZE); return image_job<F32,U8>(s,[=]{ return binarize_op<F32>(p,which); },w,h);
        case 8: which = (int)s.draw(4); return image_job<U8,U8>(s,[=]{ return logic_op(Params(),which); },w,h);
        case 9: { bool eight = s.flag(), inner = s.flag(); uint32_t mn = (uint32_t)s.draw(6); int reps = 1+(int)s.draw(2); j.name = "contours"; j.run = [=](World& W, uint32_t t, Blob& b) {
                LinearContourLabelChang2004 a(eight ? EIGHT : FOUR); a.saveInternalContours = inner; a.minContourSize = mn;
                for( int r = 0; r < reps; r++ ) { Gray<S32> out(W.tile(t,S32())); a.process(*W.vb.img,out); World::put(b,out);
                    for( auto& k : a.contours ) { b.push_back(k.id); b.push_back(k.externalIndex); for( auto i : k.internalIndexes ) b.push_back(i); }
                    for( uint32_t i = 0; i < a.packedPoints.number_of_sets(); i++ ) { std::vector<Point2D<S32>> q; a.packedPoints.load_set(i,q); b.push_back((double)q.size()); for( auto& k : q ) { b.push_back(k.x); b.push_back(k.y); } } } };
            return j; }
        case 10: { bool o2 = s.flag(); j.name = "statistics"; j.run = [=](World& W, uint32_t, Blob& b) { const Gray<U8>& g = *W.vu.img; b.push_back(ImageStatistics::min(g)); b.push_back(ImageStatistics::max(g)); b.push_back(ImageStatistics::sum(g)); b.push_back(ImageStatistics::mean(g));
                GrowArray<uint32_t> hist; hist.resize(256); ImageStatistics::histogram(g,(U8)0,hist); for( uint32_t i = 0; i < 256; i++ ) b.push_back(hist[i]); b.push_back(ThresholdOps::computeOtsu(g,(U8)0,(U8)255,o2));
                b.push_back(ImageStatistics::sum(*W.vf.img)); b.push_back(ImageStatistics::mean(*W.vf.img)); b.push_back(ImageStatistics::max(*W.vf.img)); };
            return j; }
        case 11: { double sigma = 0.3+(double)s.draw(40)/10; int32_t width = s.flag() ? -1 : 1+(int32_t)s.draw(14); j.name = "kernels"; j.run = [=](World& W, uint32_t, Blob& b) {
                auto a = FactoryKernel::gaussian1D<F32>(sigma,width); auto q = FactoryKernel::gaussian1D<S32>(sigma,width); auto d = FactoryKernel::gaussian2D<F32>(sigma,width); auto m = FactoryKernel::mean1D<F32>(a.width); auto tb = FactoryKernel::table1D<S32>(a.width);
                for( uint32_t i = 0; i < a.width; i++ ) { b.push_back(a.at(i)); b.push_back(m.at(i)); b.push_back(tb.at(i)); } for( uint32_t i = 0; i < q.width; i++ ) b.push_back(q.at(i)); for( uint32_t i = 0; i < d.width*d.width; i++ ) b.push_back(d.data[i]);
                b.push_back(FactoryKernel::sigmaForRadius((double)a.width,0)); b.push_back(FactoryKernel::radiusForSigma(sigma,0));
                Kernel1D<S32> copy(*W.ki); copy.data[0] = copy.data[0]+1; for( uint32_t i = 0; i < copy.width; i++ ) b.push_back(copy.at(i)); for( uint32_t i = 0; i < W.ki->width; i++ ) b.push_back(W.ki->at(i)); };
            return j; }
        case 12: { int kind = (int)s.draw(3); int border = (int)s.draw(5); int64_t value = border == B_VALUE ? (int64_t)s.draw(200) : 0; j.name = "shared kernel"; j.run = [=](World& W, uint32_t t, Blob& b) {
                auto bo = make_border<U8>(border,(U8)value); bo->setImage(*W.vu.img); Gray<S32> out(W.tile(t,S32()));
                guarded(b,[&]{ if( kind == 0 ) ConvolveImage::horizontal(*W.ki,*bo,out); else if( kind == 1 ) ConvolveImage::vertical(*W.ki,*bo,out); else ConvolveImage::convolve(*W.k2,*bo,out); }); World::put(b,out);
                Gray<F32> fo(W.tile(t,F32())); guarded(b,[&]{ if( kind == 0 ) ConvolveNormalized::horizontal(*W.kf,*W.vf.img,fo); else ConvolveNormalized::vertical(*W.kf,*W.vf.img,fo); }); World::put(b,fo);
                for( int32_t y = -3; y < (int32_t)W.h+3; y++ ) for( int32_t x = -3; x < (int32_t)W.w+3; x += 2 ) b.push_back(bo->get(x,y)); };
            return j; }
        case 13: { int n = 3+(int)s.draw(40); uint32_t block = 1+(uint32_t)s.draw(9); uint64_t seed = s.draw(1000); j.name = "packed sets and arrays"; j.run = [=](World&, uint32_t, Blob& b) {
                PackedSet<S32> q(block); Stream st(seed); GrowArray<S32> g; GrowArray<F32> f(3);
                for( int i = 0; i < n; i++ ) switch( st.below(6) ) { case 0: q.start_new_set(); break; case 5: if( st.below(8) == 0 ) q.clear(); else if( q.number_of_sets() ) q.remove_tail(); break; default: if( q.number_of_sets() == 0 ) q.start_new_set(); q.push_tail((S32)i); }
                for( uint32_t i = 0; i < q.number_of_sets(); i++ ) { std::vector<S32> v; q.load_set(i,v); for( auto x : v ) b.push_back(x); b.push_back(-1); }
                for( int i = 0; i < n; i++ ) { g.resize((uint32_t)st.below(30)); g.fill((S32)i); for( uint32_t k = 0; k < g.size; k++ ) b.push_back(g[k]); } GrowArray<S32> c(g); c.resize(5); for( uint32_t k = 0; k < std::min<uint32_t>(5,g.size); k++ ) b.push_back(c[k]);
                guarded(b,[&]{ g.at(1000); }); f.resize(2); b.push_back(f.size); };
            return j; }
        case 14: { uint64_t seed = s.draw(1000); j.name = "containers"; j.run = [=](World& W, uint32_t t, Blob& b) {
                Gray<U8> out(W.tile(t,U8())); convert_average(W.inter,out); World::put(b,out); Gray<U8> c(*W.vu.img); World::put(b,c); Interleaved<U8> i2; i2.setTo(W.inter); for( uint32_t y = 0; y < i2.height; y++ ) for( uint32_t x = 0; x < i2.width; x++ ) b.push_back(i2.at(x,y,1));
                Gray<U8>& band = W.planar.getBand(t); band.copy(*W.vu.img); std::mt19937 g((unsigned)seed); ImageMiscOps::fill_uniform(band,(U8)0,(U8)200,g); World::put(b,band); ImageMiscOps::fill_border(band,(U8)9,1u); World::put(b,band);
                Planar<Gray<U8>> own(W.w,W.h,1+t); own.setNumberOfBands(2); own.getBand(0).copy(band); Planar<Gray<U8>> own2(own); own2.reshape(W.w+1,W.h); World::put(b,own.getBand(0)); };
            return j; }
        default: { j.name = "refused calls"; j.run = [=](World& W, uint32_t t, Blob& b) {
                Gray<U8> small(W.w+1,W.h+1), bad(small.makeSubimage(0,0,W.w+1,W.h)), wk, out(W.tile(t,U8()));
                guarded(b,[&]{ BlurImageOps::mean(*W.vu.img,bad,1,wk); }); guarded(b,[&]{ BlurImageOps::mean(*W.vu.img,out,0,wk); }); guarded(b,[&]{ BinaryImageOps::logicAnd(*W.vu.img,small,out); }); guarded(b,[&]{ W.vu.img->at(W.w,0); }); guarded(b,[&]{ FactoryImageBorder::create_SB<U8>((BorderType)0); });
                guarded(b,[&]{ BlurImageOps::gaussian(*W.vu.img,out,-1,-1,wk); }); guarded(b,[&]{ BlurImageOps::mean(*W.vu.img,out,2,wk); }); World::put(b,out); ConfigLength l = ConfigLength::relative(0.3,2); b.push_back(l.compute(W.w)); b.push_back(l.computeI(W.h)); };
            return j; }
    }
}
static void nap() { struct timespec t = {0,20000}; nanosleep(&t,nullptr); }
static int retries = (pbt_retries = 6);
void pbt_case(Source& s, Ctx& c) {
    uint32_t w,h; gen_shape(s,w,h,24,60,0); uint32_t threads = 2+(uint32_t)s.draw(MAXT-1); bool across = s.flag(); int layout = (int)s.draw(NLAYOUT);
    Mat<U8> u8 = gen_mat<U8>(s,w,h,0,255), bin = gen_mat<U8>(s,w,h,0,1); Mat<F32> f32 = gen_mat<F32>(s,w,h,0,255); uint32_t kw = 1+(uint32_t)s.draw(9); Ker ka = gen_signed_kernel<S32>(s,kw,gen_korigin(s,kw),false,1000), kb = gen_positive_kernel<F32>(s,kw,gen_korigin(s,kw),1000), kq = gen_signed_kernel<S32>(s,1+kw/2,0,true,1000);
    std::vector<std::vector<Job>> plan(threads); c.note(threads," threads, images ",w,"x",h,", parts ",across ? "side by side" : "below each other",", shared inputs ",lname(layout),"\nu8 ",show(u8));
    for( uint32_t t = 0; t < threads; t++ ) { int n = 1+(int)s.draw(4); c.note("\nthread ",t,":"); for( int i = 0; i < n; i++ ) { plan[t].push_back(draw_job(s,w,h)); c.note(i ? ", " : " ",plan[t].back().name); c.label(plan[t].back().name); } }
    c.nontrivial = w*h > 1;
    // a process of its own: nothing in it was called before
    char* msg = (char*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if( msg == MAP_FAILED ) throw Discard(); msg[0] = 0;
    int log = memfd_create("log",0); pid_t pid = fork(); if( pid < 0 ) { munmap(msg,4096); close(log); throw Discard(); }
    if( pid == 0 ) {
        dup2(log,2); alarm(60);
        for( int attempt = pbt_isolated ? 30 : 1; attempt > 0 && !msg[0]; attempt-- ) {   // one interleaving is enough while exploring
            std::vector<Blob> got(threads), want(threads); Blob all_got, all_want; std::string thrown[MAXT];
            auto body = [&](World& W, uint32_t t, Blob& b) { try { for( auto& j : plan[t] ) j.run(W,t,b); } catch( const std::exception& e ) { thrown[t] = e.what(); b.push_back(-77); } };
            {
                World W(w,h,across,threads,layout,u8,bin,f32,ka,kb,kq); std::atomic<uint32_t> ready(0); std::vector<std::thread> th;
                for( uint32_t t = 0; t < threads; t++ ) th.emplace_back([&,t]{ ready.fetch_add(1,std::memory_order_relaxed); while( ready.load(std::memory_order_relaxed) < threads ) nap(); body(W,t,got[t]); });
                for( auto& t : th ) t.join(); W.all(all_got);
            }
            { World W(w,h,across,threads,layout,u8,bin,f32,ka,kb,kq); for( uint32_t t = 0; t < threads; t++ ) body(W,t,want[t]); W.all(all_want); }
            for( uint32_t t = 0; t < threads && !msg[0]; t++ ) if( got[t].size() != want[t].size() || memcmp(got[t].data(),want[t].data(),got[t].size()*8) != 0 ) snprintf(msg,4096,"thread %u of %u got other results beside the others than alone %s",t,threads,thrown[t].c_str());
            if( !msg[0] && (all_got.size() != all_want.size() || memcmp(all_got.data(),all_want.data(),all_got.size()*8) != 0) ) snprintf(msg,4096,"the shared images' contents differ from those after running the threads one after another");
        }
        _exit(msg[0] ? 42 : 0);
    }
    int st = 0; while( waitpid(pid,&st,0) < 0 && errno == EINTR ) {}
    std::string m = msg; munmap(msg,4096); std::string text; lseek(log,0,SEEK_SET); char buf[4096]; ssize_t k; while( text.size() < 60000 && (k = read(log,buf,sizeof buf)) > 0 ) text.append(buf,(size_t)k); close(log);
    if( WIFEXITED(st) && WEXITSTATUS(st) == 0 ) return;
    if( WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ) throw Discard();
    if( WIFEXITED(st) && WEXITSTATUS(st) == 42 ) c.fail(m);
    std::string why; size_t at = 0; int lines = 0;
    while( at < text.size() && lines < 10 ) { size_t e = text.find('\n',at); if( e == std::string::npos ) e = text.size(); std::string l = text.substr(at,e-at); at = e+1; if( l.find("WARNING:") == 0 || l.find("boofcv") != std::string::npos || l.find(" of size ") != std::string::npos || l.find("Location") != std::string::npos ) { why += "\n"+l; lines++; } }
    if( WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ) c.fail("the threads did not end");
    if( WIFSIGNALED(st) ) c.fail("crash (signal ",WTERMSIG(st),") of threads using separate objects",why);
    c.fail("threads using separate objects ended with exit status ",WEXITSTATUS(st),why);
}
