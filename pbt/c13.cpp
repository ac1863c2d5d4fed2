// C13: block thresholds against a block partition reference
#include "otsu.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C13";
const char* PBT_RULE = "A case processes 1..3 images of different shapes with one block mean, min-max or Otsu filter (requested width fixed or relative, local blocks on or off, also switched between images). Non-trivial: an accepted image divided into at least two blocks.";
const char* PBT_ASSUMPTIONS = "scale and pixel values keep the scaled block mean within the pixel type | float pixels of the Otsu filter lie in [0,256) | pixels within float rounding of the threshold may go either way | minimum spreads are at least 0 or at most -1";
uint64_t PBT_CASES_QUICK = 35000;

struct Grid { uint32_t bw,bh,cols,rows,w,h; 
    void make(uint32_t W, uint32_t H, uint32_t req) { w = W; h = H; bh = h/(h/req); bw = w/(w/req); cols = w/bw; rows = h/bh; }
    uint32_t x0(uint32_t i) const { return i*bw; } uint32_t x1(uint32_t i) const { return i == cols-1 ? w : (i+1)*bw; } uint32_t y0(uint32_t i) const { return i*bh; } uint32_t y1(uint32_t i) const { return i == rows-1 ? h : (i+1)*bh; } };
template<class F> void around(const Grid& g, bool local, uint32_t bx, uint32_t by, F f) {
    int r = local ? 1 : 0; for( int64_t y = (int64_t)by-r; y <= (int64_t)by+r; y++ ) for( int64_t x = (int64_t)bx-r; x <= (int64_t)bx+r; x++ ) if( x >= 0 && y >= 0 && x < g.cols && y < g.rows ) f((uint32_t)x,(uint32_t)y);
}
// -1 either, otherwise the required value of a pixel with the threshold known to be in [lo,hi]
static int want(bool down, double p, double lo, double hi) { if( p <= lo ) return down; if( p > hi ) return !down; return -1; }
enum { MEAN, MINMAX, OTSU };
struct Conf { int kind; bool relative; double length, fraction; bool local, down, otsu2; double scale, tuning; float spread; };

template<class T> void verify(Ctx& c, const Conf& k, const Grid& g, const Mat<T>& m, const Mat<U8>& f) {
    const bool integral = std::is_integral<T>::value; const float scale = (float)k.scale;
    const bool dyadic = scale == 1 || scale == 0.5f || scale == 2 || scale == 0.25f;
    auto bad = [&](uint32_t x, uint32_t y, int w, const std::string& why) { c.fail("pixel (",x,",",y,") value ",+m.at(x,y)," in block ",x/g.bw,",",y/g.bh," is ",+f.at(x,y)," expected ",w,", ",why,"; blocks are ",g.bw,"x",g.bh); };
    // block statistics
    Mat<double> a(g.cols,g.rows), b(g.cols,g.rows), tol(g.cols,g.rows);
    std::vector<std::vector<uint64_t>> hist; if( k.kind == OTSU ) hist.assign((size_t)g.cols*g.rows,std::vector<uint64_t>(256,0));
    for( uint32_t by = 0; by < g.rows; by++ ) for( uint32_t bx = 0; bx < g.cols; bx++ ) {
        double S = 0, A = 0, mn = 1e300, mx = -1e300; uint32_t n = 0;
        for( uint32_t y = g.y0(by); y < g.y1(by); y++ ) for( uint32_t x = g.x0(bx); x < g.x1(bx); x++ ) { double p = (double)m.at(x,y); S += p; A += std::fabs(p); mn = std::min(mn,p); mx = std::max(mx,p); n++; if( k.kind == OTSU ) hist[(size_t)by*g.cols+bx][(size_t)p]++; }
        if( k.kind == MEAN ) {
            double v = (double)scale*S/n;
            if( integral ) { double e = dyadic ? 0 : 4e-7*(std::fabs(v)+1); a.at(bx,by) = std::floor(v+0.5-e); b.at(bx,by) = std::floor(v+0.5+e); }
            else { a.at(bx,by) = v; tol.at(bx,by) = ftol(n+3,std::fabs((double)scale)*A/n); }
        } else { a.at(bx,by) = mn; b.at(bx,by) = mx; }
    }
    for( uint32_t by = 0; by < g.rows; by++ ) for( uint32_t bx = 0; bx < g.cols; bx++ ) {
        double lo = 0, hi = 0; bool flat = false, maybe_flat = false; std::ostringstream why; AcceptSet accept; bool use_set = false;
        if( k.kind == MEAN ) {
            double sl = 0, sh = 0, t = 0; uint32_t n = 0; around(g,k.local,bx,by,[&](uint32_t x, uint32_t y) { sl += a.at(x,y); sh += b.at(x,y); t += tol.at(x,y)+1.3e-7*10*std::fabs(a.at(x,y)); n++; });
            if( integral ) { lo = std::floor(sl/n); hi = std::floor(sh/n); } else { lo = (sl-t)/n; hi = (sl+t)/n; }
            why << "mean threshold " << lo << ".." << hi;
        } else if( k.kind == MINMAX ) {
            double mn = 1e300, mx = -1e300; around(g,k.local,bx,by,[&](uint32_t x, uint32_t y) { mn = std::min(mn,a.at(x,y)); mx = std::max(mx,b.at(x,y)); });
            double sp = mx-mn; flat = maybe_flat = sp <= (double)k.spread;
            if( !integral ) { double e = 1.3e-7*sp; if( std::fabs(sp-(double)k.spread) <= e && (float)sp != sp ) { flat = false; maybe_flat = true; } }
            if( integral ) { double mid = std::floor((mx+mn)/2), v = (double)scale*mid, e = dyadic ? 0 : 2e-7*(std::fabs(v)+1); lo = std::floor(v-e); hi = std::floor(v+e); }
            else { double v = (double)scale*((mx+mn)/2), e = 3e-7*std::fabs((double)scale)*(std::fabs(mx)+std::fabs(mn)); lo = v-e; hi = v+e; }
            why << "min " << mn << " max " << mx << " mid-range threshold " << lo << ".." << hi;
        } else {
            std::vector<uint64_t> h(256,0); uint64_t total = 0; around(g,k.local,bx,by,[&](uint32_t x, uint32_t y) { auto& q = hist[(size_t)y*g.cols+x]; for( int i = 0; i < 256; i++ ) { h[(size_t)i] += q[(size_t)i]; total += q[(size_t)i]; } });
            accept = otsu_final(otsu_ref(h,total,k.otsu2),256,k.otsu2,k.tuning,k.down,k.scale); use_set = true;
        }
        if( use_set ) {
            bool ok = false;
            for( int64_t t : accept ) {
                bool all = true;
                for( uint32_t y = g.y0(by); y < g.y1(by) && all; y++ ) for( uint32_t x = g.x0(bx); x < g.x1(bx); x++ ) if( f.at(x,y) != (k.down == (std::floor((double)m.at(x,y)) <= (double)t)) ) { all = false; break; }
                if( all ) { ok = true; break; }
            }
            if( !ok ) { std::ostringstream o; for( uint32_t y = g.y0(by); y < g.y1(by); y++ ) for( uint32_t x = g.x0(bx); x < g.x1(bx); x++ ) if( o.tellp() < 200 ) o << " " << +m.at(x,y) << ">" << +f.at(x,y); c.fail("block ",bx,",",by," (blocks are ",g.bw,"x",g.bh,") does not follow an Otsu threshold out of {",show_set(accept),"}:",o.str()); }
            continue;
        }
        for( uint32_t y = g.y0(by); y < g.y1(by); y++ ) for( uint32_t x = g.x0(bx); x < g.x1(bx); x++ ) {
            int v = f.at(x,y); int w = flat ? 1 : want(k.down,(double)m.at(x,y),lo,hi); if( maybe_flat && !flat && v == 1 ) continue;
            if( w < 0 ? v > 1 : v != w ) bad(x,y,w,flat ? "flat block" : why.str());
        }
    }
}
template<class T> void run(Source& s, Ctx& c) {
    Conf k; k.kind = (int)s.draw(3); k.relative = s.draw(3) == 2; k.length = 1+(double)s.draw(s.flag() ? 5 : 14); k.fraction = -1;
    if( k.relative ) { k.fraction = (double)(1+s.draw(105))/100; k.length = (double)s.draw(6); } else if( s.draw(5) == 4 ) k.length += (double)s.draw(8)/8;
    if( s.draw(60) == 59 ) k.length += (double)s.draw(60);
    k.local = s.flag(); k.down = s.flag(); k.otsu2 = s.flag(); k.tuning = s.draw(3) == 2 ? (double)s.draw(20)/4 : 0; if( s.draw(40) == 39 ) { k.tuning = std::pow(2.0,(double)s.draw(17))*1.5; c.label("large tuning"); }
    k.scale = s.flag() ? 1.0 : s.pick<double>({0.5,0.95,0.9,0.75,1.05,2.0}); k.spread = s.draw(4) == 3 ? -1-(float)s.draw(3) : s.flag() ? (float)s.draw(120) : (float)s.draw(400)/8;
    c.note(tname<T>(),k.kind == MEAN ? " mean" : k.kind == MINMAX ? " min-max" : k.otsu2 ? " otsu2" : " otsu"," width ",k.relative ? "relative " : "fixed ",k.fraction," ",k.length," local ",k.local," scale ",k.scale,k.down ? " down" : " up"," spread ",k.spread," tuning ",k.tuning);
    c.label(k.kind == MEAN ? "mean" : k.kind == MINMAX ? "min-max" : "otsu"); c.label(k.local ? "local blocks" : "single blocks"); c.label(tname<T>()); 
    ConfigLength cfg = k.relative ? ConfigLength::relative(k.fraction,(int)k.length) : ConfigLength::fixed(k.length);
    std::unique_ptr<InputToBinary<Gray<T>>> filt; std::function<void(bool)> set_local;
    if( k.kind == MEAN ) { auto p = new ThresholdBlockMean<T>(cfg,k.local,k.scale,k.down); filt.reset(p); set_local = [p](bool b) { p->setThresholdFromLocalBlocks(b); }; }
    else if( k.kind == MINMAX ) { auto p = new ThresholdBlockMinMax<T>(k.spread,cfg,k.local,(float)k.scale,k.down); filt.reset(p); set_local = [p](bool b) { p->setThresholdFromLocalBlocks(b); }; }
    else { auto p = new ThresholdBlockOtsu<T>(k.otsu2,cfg,k.tuning,k.scale,k.down,k.local); filt.reset(p); set_local = [p](bool b) { p->setThresholdFromLocalBlocks(b); }; }
    int n = 1+(int)s.draw(3);
    for( int i = 0; i < n; i++ ) {
        uint32_t w,h; if( k.kind == OTSU ) { gen_shape(s,w,h,30,80,6000); } else gen_shape(s,w,h,50,300);
        int64_t lo,hi; full_range<T>(s,lo,hi); if( k.kind == OTSU ) { lo = 0; hi = 255; } if( std::is_integral<T>::value && k.kind != OTSU && k.scale > 1 ) hi = (int64_t)(250/k.scale);
        Mat<T> m = gen_mat<T>(s,w,h,lo,hi);
        if( i && s.draw(4) == 3 ) { k.local = !k.local; set_local(k.local); c.note(" local ",k.local); }
        View<T> in; in.build(s,m); View<U8> out; out.build_output(s,w,h,false);
        double total = std::min(w,h), size = k.relative ? std::max(k.fraction*total,k.length) : k.length; uint32_t req = (uint32_t)std::floor(size+0.5);
        if( std::fabs(size+0.5-std::floor(size+0.5+1e-9)) < 1e-9 && k.relative && size != std::floor(size) && size*2 != std::floor(size*2) ) throw Discard();
        c.note("\nimage ",i," requested ",req," ",in.text()," output ",out.text()," ",show(m));
        if( req == 0 || req > std::min(w,h) ) {
            c.label("rejected");
            c.check(throws([&]{ filt->process(*in.img,*out.img); }),"a block width of ",req," for a ",w,"x",h," image was accepted");
            c.check(out.untouched(),"output changed by a rejected call");
        } else {
            Grid g; g.make(w,h,req); if( g.cols*g.rows > 1 ) c.nontrivial = true; c.label(w%g.bw || h%g.bh ? "uneven blocks" : "even blocks");
            filt->process(*in.img,*out.img);
            verify(c,k,g,m,out.read());
            c.check(out.surroundings_intact(),"memory outside the output window modified");
        }
        c.check(in.untouched(),"input modified");
    }
}
void pbt_case(Source& s, Ctx& c) { if( s.draw(2) == 0 ) run<U8>(s,c); else run<F32>(s,c); }
