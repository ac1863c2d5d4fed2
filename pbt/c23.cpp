// C23: configured lengths and squared point distance
#include "common.h"
#include "config_types.h"
#include "geometry_types.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C23";
const char* PBT_RULE = "A case evaluates one length configuration (fixed, relative, invalid, built through the factories, the constructor or the fields) for three totals, and one pair of points of one coordinate type. Non-trivial: relative length where the fraction and the minimum differ, or distinct points.";
const char* PBT_ASSUMPTIONS = "lengths, fractions and totals are finite and results fit an int | squared distances fit the accumulator type | lengths within one rounding error of a half may round either way";
uint64_t PBT_CASES_QUICK = 400000;

static double real(Source& s) {
    switch( s.draw(6) ) { case 0: return (double)s.draw(20); case 1: return (double)s.draw(4000)/8; case 2: return (double)s.draw(1000000)/977.0; case 3: return (double)s.draw(2000000000); case 4: return (double)s.draw(1000)/1e6; default: return (double)s.draw(64)/4; }
}
static bool rounds_to(double size, int got) { double e = 1e-12*(1+std::fabs(size)); return got == (int64_t)std::floor(size+0.5-e) || got == (int64_t)std::floor(size+0.5) || got == (int64_t)std::floor(size+0.5+e); }
template<class E> void points(Source& s, Ctx& c) {
    int64_t lim = std::is_same<E,U8>::value ? 255 : std::is_same<E,S16>::value || std::is_same<E,U16>::value ? 32000 : std::is_same<E,S64>::value ? 1000000000 : 32000;
    int64_t lo = std::is_unsigned<E>::value ? 0 : -lim; int64_t hi = lim;
    if( std::is_same<E,S32>::value || std::is_same<E,S16>::value ) { lo = -16000; hi = 16000; }
    if( s.flag() ) { lo = std::max<int64_t>(lo,-5); hi = 5; }
    E v[4]; for( auto& e : v ) { e = (E)s.range(lo,hi); if( std::is_floating_point<E>::value && s.flag() ) e += (E)((double)s.draw(1000)/64); }
    if( std::is_same<E,S32>::value && s.draw(4) == 3 ) { int64_t base = s.flag() ? 2147480000 : -2147480000; for( auto& e : v ) e = (E)(base+s.range(-3000,3000)); }
    Point2D<E> p(v[0],v[1]), q(v[2],v[3]);
    c.note(" ",tname<E>()," points (",+v[0],",",+v[1],") (",+v[2],",",+v[3],")"); c.label(std::string("points ")+tname<E>());
    long double dx = (long double)v[0]-(long double)v[2], dy = (long double)v[1]-(long double)v[3], d = dx*dx+dy*dy;
    auto a = p.distanceSq(q), b = q.distanceSq(p), e = p.distanceSq(v[2],v[3]);
    if( std::is_integral<E>::value ) c.check((long double)a == d,"distanceSq is ",+a," expected ",(double)d);
    else { double M = std::max(std::max(std::fabs((double)v[0]),std::fabs((double)v[1])),std::max(std::fabs((double)v[2]),std::fabs((double)v[3]))); double eps = std::numeric_limits<E>::epsilon(); c.check(std::fabs((double)((long double)a-d)) <= 8*eps*(double)d + 8*eps*M*(std::fabs((double)dx)+std::fabs((double)dy)),"distanceSq is ",+a," expected ",(double)d); }
    c.check(a == b && a == e,"distanceSq is not symmetric: ",+a," ",+b," ",+e); c.check((a == 0) == (v[0] == v[2] && v[1] == v[3]),"distanceSq is ",+a," for (",+v[0],",",+v[1],") and (",+v[2],",",+v[3],")");
    c.check(p.x == v[0] && p.y == v[1] && q.x == v[2] && q.y == v[3],"point changed"); c.check(p.distanceSq(p) == 0,"distance to itself is not zero");
    Point2D<E> z; c.check(z.x == 0 && z.y == 0,"default point is not the origin"); if( d != 0 ) c.nontrivial = true;
}
void pbt_case(Source& s, Ctx& c) {
    int kind = (int)s.draw(6); double len = -1, frac = -1; ConfigLength k;
    switch( kind ) {
        case 0: len = real(s); k = ConfigLength::fixed(len); break;
        case 1: case 2: len = (double)s.draw(40); frac = s.flag() ? (double)s.draw(300)/100 : real(s)/1000; k = ConfigLength::relative(frac,(int)len); break;
        case 3: len = s.flag() ? real(s) : -1; frac = s.flag() ? (double)s.draw(200)/128 : -1; k = ConfigLength(len,frac); break;
        case 4: len = -real(s); frac = s.flag() ? -real(s) : (double)s.draw(200)/128; k.length = len; k.fraction = frac; break;
        default: break;   // as constructed: neither
    }
    c.note("length ",len," fraction ",frac);
    bool rel = frac >= 0; c.label(rel ? "relative" : len >= 0 ? "fixed" : "invalid");
    c.check(k.length == len && k.fraction == frac,"configuration holds length ",k.length," fraction ",k.fraction);
    c.check(k.isRelative() == rel && k.isFixed() == !rel,"isRelative ",k.isRelative()," isFixed ",k.isFixed());
    c.check(throws([&]{ k.checkValidity(); }) == (len < 0 && frac < 0),"checkValidity ",len < 0 && frac < 0 ? "accepted" : "rejected"," the configuration");
    for( int i = 0; i < 3; i++ ) {
        double total = real(s); if( rel && frac*total > 2e9 ) total = 1000/(frac+1);
        double size = rel ? std::max(frac*total,len) : len;
        double got = k.compute(total); int gi = k.computeI(total); c.note(" total ",total);
        c.check(std::fabs(got-size) <= 1e-15*std::fabs(size),"compute(",total,") is ",got," expected ",size);
        if( size >= 0 ) c.check(gi >= 0 && rounds_to(size,gi),"computeI(",total,") is ",gi," for a length of ",size); else c.check(gi == -1,"computeI(",total,") is ",gi," for an invalid length");
        if( rel && frac*total > len ) c.nontrivial = true;
    }
    if( len >= 0 ) c.check(rounds_to(len,k.getLengthI()),"getLengthI is ",k.getLengthI()," for a length of ",len);
    switch( s.draw(7) ) { case 0: points<U8>(s,c); break; case 1: points<S16>(s,c); break; case 2: points<U16>(s,c); break; case 3: points<S32>(s,c); break; case 4: points<S64>(s,c); break; case 5: points<F32>(s,c); break; default: points<F64>(s,c); }
}
