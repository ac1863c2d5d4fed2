// C06: kernel factories
#include "gen_kernel.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C06";
const char* PBT_RULE = "A case is one factory call (table, mean, Gaussian 1D/2D, normalisation, sigma/radius conversion, integer conversion) with generated width, sigma and element type. Non-trivial: kernel wider than one element.";
const char* PBT_ASSUMPTIONS = "weights of integer Gaussian kernels fit the element type (S32, S16, U8 with unit 1/100 of the maximum) | a result exactly at an integer boundary may be truncated to either side within 1e-9";
uint64_t PBT_CASES_QUICK = 300000;

static double gen_sigma(Source& s) {
    switch( s.draw(4) ) {
        case 0: return s.pick<double>({1.0,0.5,2.0,0.4,3.0,0.2,5.0,0.6,1.4});
        case 1: return 0.1+(double)s.draw(1000)/100.0;
        case 2: return (1+(double)s.draw(40))/5.0 + (s.flag() ? 0 : 0.001);   // around changes of the derived width
        default: return 0.05+(double)s.draw(100000)/4000.0;
    }
}
static int64_t radius_of(double sigma, double order) { return (int64_t)std::ceil(((5+0.8*order)*sigma-1)/2); }
static Ker gaussian(double sigma, int64_t width) {
    if( width <= 0 ) width = 2*radius_of(sigma,0)+1;
    else if( sigma <= 0 ) sigma = (2.0*(double)(width/2)+1)/5;
    Ker k; k.w = (uint32_t)width; k.off = (uint32_t)(width/2); double sum = 0;
    for( int64_t i = 0; i < width; i++ ) { double x = (double)i-(double)(width-1)/2.0, v = std::exp(-x*x/(2*sigma*sigma)); k.v.push_back(v); sum += v; }
    for( double& v : k.v ) v /= sum;
    return k;
}
template<class K> void shape(Ctx& c, const KernelBase<K>& k, uint32_t w, uint32_t off, uint32_t n, uint32_t dim) {
    c.check(k.width == w && k.offset == off && k.data.size == n,"kernel has width ",k.width," origin ",k.offset," elements ",k.data.size,", expected ",w," ",off," ",n);
    c.check(k.dimension() == dim && k.radius() == w/2,"kernel reports dimension ",k.dimension()," radius ",k.radius());
}
static void widths(Source& s, double& sigma, int& width) {
    int mode = (int)s.draw(3);
    sigma = gen_sigma(s); width = 1+(int)s.draw(41);
    if( s.draw(100) == 99 ) { width += (int)s.draw(700); sigma *= 20; }
    if( mode == 1 ) width = -(int)s.draw(3);
    if( mode == 2 ) { sigma = -(double)s.draw(3)/2; if( width == 1 ) width = 2; }
}
template<class F> void table(Source& s, Ctx& c) {
    uint32_t w = 1+(uint32_t)s.draw(s.draw(50) == 49 ? 70000 : 60);
    c.note("table1D/mean1D<",tname<F>(),"> width ",w); c.label("table and mean"); c.nontrivial = w > 1;
    Kernel1D<F> t = FactoryKernel::table1D<F>(w); shape(c,t,w,w/2,w,1);
    for( uint32_t i = 0; i < w; i++ ) c.check(t.at(i) == 1,"table element ",i," is ",+t.at(i));
    c.check((double)t.sum() == w && t.element_max() == 1 && t.element_min() == 1,"table sum ",+t.sum());
    Kernel1D<F> m = FactoryKernel::mean1D<F>(w); shape(c,m,w,w/2,w,1);
    for( uint32_t i = 0; i < w; i++ ) { double ex = std::is_integral<F>::value ? 1 : 1.0/w; c.check(std::fabs((double)m.at(i)-ex) <= 2e-7*ex,"mean element ",i," is ",+m.at(i)," expected ",ex); }
}
template<class F> double eps() { return std::is_same<F,F64>::value ? 1e-12 : 3e-6; }

template<class F> void gauss_float(Source& s, Ctx& c) {
    double sigma; int width; widths(s,sigma,width);
    bool two = s.chance(40); if( two && width > 21 ) width = s.draw(20) == 19 ? std::min(width,70) : 21; 
    if( two && width <= 0 && sigma > 5 ) sigma = 5;
    c.note("gaussian",two ? "2D<" : "1D<",tname<F>(),"> sigma ",sigma," width ",width); c.label(two ? "gaussian2D float" : "gaussian1D float"); if( width <= 0 ) c.label("width derived"); else if( sigma <= 0 ) c.label("sigma derived"); 
    Ker e = gaussian(sigma,width); c.nontrivial = e.w > 1; if( e.w%2 == 0 ) c.label("even width");
    double sum = 0;
    if( !two ) {
        Kernel1D<F> k = FactoryKernel::gaussian1D<F>(sigma,width); shape(c,k,e.w,e.w/2,e.w,1);
        for( uint32_t i = 0; i < e.w; i++ ) {
            double v = (double)k.at(i); sum += v;
            c.check(std::fabs(v-e.v[i]) <= eps<F>()*(e.v[i]+1e-30) + 1e-37,"element ",i," is ",v," expected ",e.v[i]);
            c.check(v >= 0 && std::fabs(v-(double)k.at(e.w-1-i)) <= eps<F>()*v,"element ",i," not symmetric: ",v," and ",k.at(e.w-1-i));
            if( i > 0 && 2*i <= e.w-1 ) c.check(k.at(i) >= k.at(i-1),"element ",i," smaller than one further from the centre");
        }
    } else {
        Kernel2D<F> k = FactoryKernel::gaussian2D<F>(sigma,width); shape(c,k,e.w,e.w/2,e.w*e.w,2);
        for( uint32_t y = 0; y < e.w; y++ ) for( uint32_t x = 0; x < e.w; x++ ) {
            double v = (double)k.at(x,y), ex = e.v[x]*e.v[y]; sum += v;
            c.check(std::fabs(v-ex) <= 4*eps<F>()*ex + 1e-37,"element (",x,",",y,") is ",v," expected ",ex);
        }
    }
    c.check(std::fabs(sum-1) <= 10*eps<F>(),"elements sum up to ",sum);
}
template<class K> void check_int(Ctx& c, double got, double q, const char* what, uint32_t i) {
    if( !(got == std::floor(q) || got == std::floor(q*(1+1e-9)) || got == std::floor(q*(1-1e-9))) ) c.fail(what," element ",i," is ",got," expected ",q," truncated");
}
template<class K> void gauss_int(Source& s, Ctx& c) {
    double sigma; int width; widths(s,sigma,width);
    bool two = s.chance(40); if( two && width > 21 ) width = s.draw(20) == 19 ? std::min(width,70) : 21; 
    if( two && width <= 0 && sigma > 5 ) sigma = 5;
    c.note("gaussian",two ? "2D<" : "1D<",tname<K>(),"> sigma ",sigma," width ",width); c.label(two ? "gaussian2D integer" : "gaussian1D integer");
    Ker e = gaussian(sigma,width); c.nontrivial = e.w > 1;
    std::vector<double> v = e.v;
    if( two ) { v.clear(); for( double a : e.v ) for( double b : e.v ) v.push_back(a*b); }
    double mx = 0, mn = 1e300; for( double a : v ) { mx = std::max(mx,a); mn = std::min(mn,a); }
    double unit = std::max(mn,mx/100);
    if( !two ) {
        Kernel1D<K> k = FactoryKernel::gaussian1D<K>(sigma,width); shape(c,k,e.w,e.w/2,e.w,1);
        for( uint32_t i = 0; i < e.w; i++ ) check_int<K>(c,(double)k.at(i),v[i]/unit,"integer Gaussian",i);
    } else {
        Kernel2D<K> k = FactoryKernel::gaussian2D<K>(sigma,width); shape(c,k,e.w,e.w/2,e.w*e.w,2);
        for( uint32_t i = 0; i < e.w*e.w; i++ ) check_int<K>(c,(double)k.at(i%e.w,i/e.w),v[i]/unit,"integer Gaussian",i);
    }
}
template<class F> void norm(Source& s, Ctx& c) {
    bool two = s.flag(); uint32_t w = 1+(uint32_t)s.draw(two ? 12 : 40), off = (uint32_t)s.draw(w);
    Ker k; k.w = w; k.off = off; Stream st(s.draw(1000)); uint32_t n = two ? w*w : w; double sum = 0;
    for( uint32_t i = 0; i < n; i++ ) { double v = (double)(F)((1+st.below(1000))/37.0); k.v.push_back(v); sum += v; }
    c.note("normalize ",two ? "2D " : "1D ",tname<F>()," ",show(k)); c.label("normalize"); c.nontrivial = w > 1;
    Kernel1D<F> k1; Kernel2D<F> k2; KernelBase<F>& b = two ? (KernelBase<F>&)k2 : (KernelBase<F>&)k1;
    fill_kernel(b,k,two);
    double mx = 0, mn = 1e300; for( double v : k.v ) { mx = std::max(mx,v); mn = std::min(mn,v); }
    c.check(std::fabs((double)b.sum()-sum) <= eps<F>()*sum && (double)b.element_max() == mx && (double)b.element_min() == mn && (double)b.element_abs_max() == mx && (double)b.element_abs_min() == mn,"sum/max/min of kernel are ",b.sum()," ",b.element_max()," ",b.element_min());
    FactoryKernel::normalize(b); shape(c,b,w,off,n,two ? 2 : 1);
    double t = 0; for( uint32_t i = 0; i < n; i++ ) { t += (double)b.data[i]; c.check(std::fabs((double)b.data[i]-k.v[i]/sum) <= eps<F>()*k.v[i]/sum,"element ",i," is ",b.data[i]," expected ",k.v[i]/sum); }
    c.check(std::fabs(t-1) <= 10*eps<F>(),"normalised kernel sums up to ",t);
}
static void conversions(Source& s, Ctx& c) {
    int order = (int)s.draw(4);
    double sigma = gen_sigma(s); double radius = s.flag() ? (double)(1+s.draw(40)) : 0.1+(double)s.draw(1000)/50.0;
    c.note("conversions sigma ",sigma," radius ",radius," order ",order); c.label("conversions"); c.nontrivial = true;
    double es = (2*radius+1)/(5+0.8*order);
    c.check(std::fabs(FactoryKernel::sigmaForRadius(radius,order)-es) <= 1e-12*es,"sigmaForRadius gives ",FactoryKernel::sigmaForRadius(radius,order)," expected ",es);
    double er = ((5+0.8*order)*sigma-1)/2; int64_t r = FactoryKernel::radiusForSigma(sigma,order);
    c.check(r == (int64_t)std::ceil(er) || r == (int64_t)std::ceil(er-1e-9) || r == (int64_t)std::ceil(er+1e-9),"radiusForSigma gives ",r," expected ceil of ",er);
    double bad = -(double)s.draw(20)/4; int w = 2+(int)s.draw(20);
    c.check(throws([&]() { FactoryKernel::sigmaForRadius(bad,order); }),"radius ",bad," accepted");
    c.check(throws([&]() { FactoryKernel::radiusForSigma(bad,order); }),"sigma ",bad," accepted");
    c.check(throws([&]() { FactoryKernel::gaussian1D<F32>(bad,-(int)s.draw(3)); }),"gaussian1D without sigma and width accepted");
    c.check(throws([&]() { FactoryKernel::gaussian1D<S32>(bad,1); }),"gaussian1D of width 1 without sigma accepted");
    c.check(throws([&]() { FactoryKernel::gaussian2D<F32>(bad,-(int)s.draw(3)); }),"gaussian2D without sigma and width accepted");
    double x = (double)s.range(-200,200)/16, mean = (double)s.range(-50,50)/16;
    double pdf = std::exp(-(x-mean)*(x-mean)/(2*sigma*sigma))/(sigma*std::sqrt(2*3.14159265358979323846));
    c.check(std::fabs(FactoryKernel::computePDF(mean,sigma,x)-pdf) <= 1e-9*pdf,"computePDF gives ",FactoryKernel::computePDF(mean,sigma,x)," expected ",pdf);
    // float to integer conversion with another fraction
    Kernel1D<F64> k((uint32_t)w); Stream st(s.draw(1000)); double mx = 0, mn = 1e300;
    for( int i = 0; i < w; i++ ) { k[i] = ((double)st.below(2001)-1000)/77.0; if( k[i] == 0 ) k[i] = 1; mx = std::max(mx,std::fabs(k[i])); mn = std::min(mn,std::fabs(k[i])); }
    double frac = s.pick<double>({0.01,0.1,0.5,0.001}); double unit = std::max(mn,mx*frac);
    Kernel1D<S32> ki = FactoryKernel::float_to_int<S32>(k,frac);
    c.check(ki.width == (uint32_t)w && ki.offset == k.offset,"float_to_int changed the shape");
    for( int i = 0; i < w; i++ ) { double q = std::fabs(k[i])/unit; double g = std::fabs((double)ki[i]); check_int<S32>(c,g,q,"float_to_int",i); c.check(ki[i] == 0 || (ki[i] > 0) == (k[i] > 0),"float_to_int changed the sign of element ",i); }
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(12) ) {
        case 0: table<F32>(s,c); break; case 1: table<S32>(s,c); break; case 2: table<F64>(s,c); break; case 3: s.flag() ? table<U8>(s,c) : table<S16>(s,c); break;
        case 4: case 5: gauss_float<F32>(s,c); break; case 6: gauss_float<F64>(s,c); break;
        case 7: gauss_int<S32>(s,c); break; case 8: s.flag() ? gauss_int<S16>(s,c) : gauss_int<U8>(s,c); break;
        case 9: s.flag() ? norm<F32>(s,c) : norm<F64>(s,c); break;
        default: conversions(s,c); break;
    }
}
