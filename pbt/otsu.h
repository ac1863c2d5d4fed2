// Otsu threshold from its definition, as sets of acceptable answers
#pragma once
#include "oracle.h"
#include <set>
namespace pbt {
struct OtsuCand { double t, var; };
struct OtsuRef { double best = 0; std::vector<OtsuCand> cands; };
// between-class variance w0*w1*(m0-m1)^2 with values scaled to i/bins
inline OtsuRef otsu_ref(const std::vector<uint64_t>& h, uint64_t total, bool otsu2) {
    OtsuRef r; const long double n = (long double)h.size();
    std::vector<OtsuCand> all; long double sum = 0; for( size_t i = 0; i < h.size(); i++ ) sum += (long double)i*h[i];
    long double sb = 0; uint64_t wb = 0;
    for( size_t i = 0; i < h.size(); i++ ) {
        wb += h[i]; sb += (long double)i*h[i];
        if( wb == 0 || wb == total ) continue;
        long double wf = total-wb, mb = sb/wb, mf = (sum-sb)/wf, d = (mb-mf)/n;
        double var = (double)(wb*wf*d*d);
        all.push_back({otsu2 ? (double)((mb+mf)/2) : (double)i,var});
        if( var > r.best ) r.best = var;
    }
    if( r.best <= 0 ) { r.best = 0; r.cands.push_back({0,0}); return r; }
    for( auto& a : all ) if( a.var >= r.best*(1-1e-9) ) r.cands.push_back(a);
    return r;
}
// thresholds after tuning, scaling and rounding; each candidate gives an interval because of rounding differences
typedef std::set<int64_t> AcceptSet;
inline AcceptSet otsu_final(const OtsuRef& r, uint32_t bins, bool otsu2, double tuning, bool down, double scale) {
    std::vector<int64_t> res; (void)bins; auto put = [&](int64_t v) { if( res.empty() || res.back() != v ) res.push_back(v); };
    const double e = 1e-9;
    for( auto& k : r.cands ) for( int i = otsu2 ? -1 : 0; i <= (otsu2 ? 1 : 0); i++ ) {
        double t = otsu2 ? k.t*(1+i*e) : k.t;
        for( int j = tuning != 0 ? -1 : 0; j <= (tuning != 0 ? 1 : 0); j++ ) {
            double v = r.best*(1+j*2*e)+0.001;
            double adj = (double)(int64_t)(tuning*t*tuning*t/v*(1+j*e)+0.5);
            // a large adjustment may be rounded to either side
            for( int d = adj > 1e5 ? -1 : 0; d <= (adj > 1e5 ? 1 : 0); d++ ) {
                double u = down ? t-(adj+d) : t+(adj+d);
                for( int q = -1; q <= 1; q++ ) put((int64_t)(scale*std::max(u,0.0)*(1+q*e)+0.5));
                if( adj > 1e5 ) for( int q = -1; q <= 1; q += 2 ) put((int64_t)(scale*std::max(u,0.0)+0.5)+q);
            }
        }
    }
    std::sort(res.begin(),res.end()); res.erase(std::unique(res.begin(),res.end()),res.end());
    return AcceptSet(res.begin(),res.end());
}
inline bool accepted(const AcceptSet& a, double t) {
    if( t != std::floor(t) || std::fabs(t) > 9e18 ) return false;
    if( std::fabs(t) < 1e6 ) return a.count((int64_t)t) > 0;
    for( int64_t v : a ) if( std::fabs((double)v-t) <= 1e-8*std::fabs(t) ) return true;   // what is added to a threshold is only exact to a number of digits
    return false;
}
inline std::string show_set(const AcceptSet& a) { std::ostringstream o; int n = 0; for( int64_t v : a ) { if( n++ ) o << ", "; o << v; if( n > 20 ) { o << " ..."; break; } } return o.str(); }
}
