// C16: image statistics against a direct computation
#include "oracle.h"
#include "image_statistics.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C16";
const char* PBT_RULE = "A case computes min, max, sum, mean and a histogram of one image of one of the seven pixel types in some memory layout, with values of any sign up to the limits of the type. Non-trivial: at least two different pixel values.";
const char* PBT_ASSUMPTIONS = "non-empty images for min, max and mean | the sum fits the accumulator type | histogram values lie inside the bins | finite floats, compared within rounding of a float sum";
uint64_t PBT_CASES_QUICK = 180000;

template<class T> void run(Source& s, Ctx& c) {
    typedef typename TypeInfo<T>::sum_type sum_type; const bool integral = std::is_integral<T>::value;
    uint32_t w,h; gen_shape(s,w,h,80,3000); if( s.draw(40) == 39 ) { w = 0; if( s.flag() ) h = 0; } else if( s.draw(400) == 399 ) { w = 300+(uint32_t)s.draw(500); h = 200+(uint32_t)s.draw(300); }
    const double n = (double)w*h;
    int64_t lo,hi; full_range<T>(s,lo,hi);
    int wide = (int)s.draw(4); bool many = false;
    if( wide == 3 ) {   // up to the limits of the pixel type or of the accumulator
        double lim = std::is_same<T,S64>::value ? 4e18/std::max(1.0,n) : (double)std::numeric_limits<sum_type>::max()/std::max(1.0,n);
        double tmax = std::is_floating_point<T>::value ? 1e15 : std::is_same<T,S64>::value ? 4e18 : (double)std::numeric_limits<T>::max(), tmin = std::is_floating_point<T>::value ? -1e15 : std::is_same<T,S64>::value ? -4e18 : (double)std::numeric_limits<T>::lowest();
        hi = (int64_t)std::min(tmax,std::floor(lim)); lo = (int64_t)std::max(tmin,-std::floor(lim)); int side = (int)s.draw(3); if( side == 1 ) lo = hi-std::min<int64_t>(hi/2,1000); else if( side == 2 && lo < 0 ) hi = lo+std::min<int64_t>(-(lo/2),1000);
        if( hi < lo ) hi = lo; c.label("wide values");
    } else if( s.draw(60) == 59 && integral ) {   // a histogram of many bins
        int64_t span = 60000+(int64_t)s.draw(80000); lo = std::is_unsigned<T>::value ? 0 : std::is_same<T,S16>::value ? -32768 : -(int64_t)s.draw(70000); hi = std::min<int64_t>(lo+span,std::is_floating_point<T>::value || sizeof(T) > 2 ? lo+span : (int64_t)std::numeric_limits<T>::max()); many = true;
    }
    if( integral && !std::is_same<T,S64>::value ) { int64_t most = (int64_t)((double)std::numeric_limits<sum_type>::max()/std::max(1.0,n)); hi = std::min(hi,most); lo = std::max(lo,-most); }
    Mat<T> m = gen_mat<T>(s,w,h,lo,hi);
    View<T> in; in.build(s,m);
    c.note(tname<T>()," ",in.text()," values in [",lo,",",hi,"] ",show(m)); c.label(tname<T>()); c.label(lname(in.layout));
    bool var = false; for( T v : m.v ) if( v != m.v[0] ) var = true; c.nontrivial = var;
    long double S = 0, A = 0; for( T v : m.v ) { S += (long double)v; A += std::fabs((long double)v); }
    sum_type got = ImageStatistics::sum(*in.img);
    if( integral ) { c.check((long double)got == S,"sum is ",+got," expected ",(double)S); }
    else c.check(std::fabs((double)((long double)got-S)) <= ftol(n,(double)A),"sum is ",+got," expected ",(double)S);
    if( !m.v.empty() ) {
        T mn = m.v[0], mx = m.v[0]; for( T v : m.v ) { mn = std::min(mn,v); mx = std::max(mx,v); }
        T a = ImageStatistics::min(*in.img), b = ImageStatistics::max(*in.img);
        c.check(a == mn,"min is ",+a," expected ",+mn); c.check(b == mx,"max is ",+b," expected ",+mx);
        T mean = ImageStatistics::mean(*in.img);
        if( integral ) { __int128 q = (__int128)S/(__int128)n; c.check((__int128)mean == q,"mean is ",+mean," expected ",(int64_t)q); }
        else c.check(std::fabs((double)((long double)mean-S/n)) <= ftol(n+2,(double)(A/n)),"mean is ",+mean," expected ",(double)(S/n));
        double span = (double)((long double)mx-(long double)mn);
        const double big = integral ? 1e300 : many ? 250000 : 8192;
        if( span < (many ? 150000 : 3000) && std::fabs((double)mn) < big && std::fabs((double)mx) < big ) {
            T base = mn; uint32_t extra = (uint32_t)s.draw(4); uint32_t down = (uint32_t)s.draw(5); if( (double)mn-down >= (double)std::numeric_limits<T>::lowest() ) base = (T)(mn-(T)down);
            uint32_t bins = (uint32_t)std::floor((double)((long double)mx-(long double)base))+1+extra;
            GrowArray<uint32_t> hist; hist.resize(bins); for( uint32_t i = 0; i < bins; i++ ) hist[i] = 1000+i;
            c.note(" histogram of ",bins," bins from ",+base); c.label(bins > 65536 ? "histogram of more than 65536 bins" : "histogram");
            ImageStatistics::histogram(*in.img,base,hist);
            std::vector<uint32_t> ref(bins,0); for( T v : m.v ) ref[(size_t)std::floor((double)((long double)v-(long double)base))]++;
            c.check(hist.size == bins,"histogram resized to ",hist.size); for( uint32_t i = 0; i < bins; i++ ) c.check(hist[i] == ref[i],"histogram bin ",i," is ",hist[i]," expected ",ref[i]);
        }
    }
    c.check(in.untouched(),"input modified");
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(7) ) { case 0: run<U8>(s,c); break; case 1: run<U16>(s,c); break; case 2: run<S16>(s,c); break; case 3: run<S32>(s,c); break; case 4: run<S64>(s,c); break; case 5: run<F32>(s,c); break; default: run<F64>(s,c); }
}
