// C08: contours: a validity predicate computed from flood filled regions, plus size filters against the unfiltered run
#include "binary_gen.h"
#include <set>
#include <map>
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C08";
const char* PBT_RULE = "A case traces one binary image without filters, checks every contour against the flood filled regions, then traces it again under up to three size limits or with internal contours disabled. Non-trivial: the image has at least one internal contour or two blobs.";
const char* PBT_ASSUMPTIONS = "binary images hold only 0 and 1 | orientation of contours and order of internal contours are not specified";
uint64_t PBT_CASES_QUICK = 25000;

typedef std::vector<Point2D<S32>> Pts;
static Pts load(LinearContourLabelChang2004& a, uint32_t i) { Pts p; a.packedPoints.load_set(i,p); return p; }
static std::string text(const Pts& p) { std::ostringstream o; for( size_t i = 0; i < p.size() && i < 60; i++ ) o << "(" << p[i].x << "," << p[i].y << ")"; return o.str(); }

void pbt_case(Source& s, Ctx& c) {
    bool eight = s.flag();
    Mat<U8> m = s.draw(10000) == 9999 ? gen_huge_binary(s) : gen_binary(s,30,200,25000);
    View<U8> in; in.build(s,m); Gray<S32> labeled;
    c.note(eight ? "8" : "4","-connected ",in.text(),"\n",picture(m));
    uint32_t n; Mat<S32> lab = components(m,1,eight,n);
    // background with a 1 pixel frame around the image, so the outside is component 1
    Mat<U8> fm(m.w+2,m.h+2); for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) fm.at(x+1,y+1) = m.at(x,y);
    uint32_t nb; Mat<S32> bg = components(fm,0,!eight,nb);
    // first raster pixel of every background component: the pixel above belongs to the blob that encloses it
    std::vector<S32> owner(nb+1,0); std::vector<bool> seen(nb+1,false);
    for( uint32_t i = 0; i < fm.v.size(); i++ ) { S32 b = bg.v[i]; if( b && !seen[(size_t)b] ) { seen[(size_t)b] = true; if( b > 1 ) owner[(size_t)b] = lab.at(i%fm.w-1,i/fm.w-2); } }
    typedef std::set<std::pair<S32,S32>> PtSet;
    std::map<std::pair<S32,S32>,PtSet> touch;   // (blob, background component) -> blob pixels touching it
    std::vector<S32> outer(n+1,0); std::vector<std::pair<S32,S32>> first(n+1,std::make_pair(-1,-1));
    for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) {
        S32 l = lab.at(x,y); if( !l ) continue;
        if( first[(size_t)l].first < 0 ) { first[(size_t)l] = std::make_pair((S32)x,(S32)y); outer[(size_t)l] = bg.at(x+1,y); }
        for( int dy = -1; dy <= 1; dy++ ) for( int dx = -1; dx <= 1; dx++ ) {
            if( eight && dx && dy ) continue;
            S32 b = bg.at((uint32_t)((int)x+1+dx),(uint32_t)((int)y+1+dy)); if( b ) touch[std::make_pair(l,b)].insert(std::make_pair((S32)x,(S32)y));
        }
    }
    std::vector<std::vector<S32>> holes_of(n+1); for( uint32_t b = 2; b <= nb; b++ ) if( owner[b] >= 0 ) holes_of[(size_t)owner[b]].push_back((S32)b);
    uint32_t holes = nb-1;
    c.nontrivial = holes > 0 || n > 1;
    c.label(eight ? "8-connected" : "4-connected"); if( n > 65535 ) c.label("65536+ blobs"); c.label(holes == 0 ? "no holes" : holes < 4 ? "1..3 holes" : "4+ holes");
    LinearContourLabelChang2004 alg(eight ? EIGHT : FOUR);
    alg.process(*in.img,labeled);
    c.check(alg.contours.size() == n,alg.contours.size()," blobs, expected ",n);
    c.check(alg.packedPoints.number_of_sets() == n+holes,alg.packedPoints.number_of_sets()," contours, expected ",n," external and ",holes," internal");
    std::vector<int> used(alg.packedPoints.number_of_sets(),0);
    std::vector<Pts> full(used.size());
    auto take = [&](uint32_t i) -> const Pts& { c.check(i < used.size(),"contour index ",i," out of range"); c.check(used[i]++ == 0,"contour ",i," used twice"); full[i] = load(alg,i); return full[i]; };
    auto chain = [&](const Pts& p, S32 l, const char* what) -> PtSet {
        PtSet r; c.check(!p.empty(),what," contour of blob ",l," is empty");
        std::set<std::pair<std::pair<S32,S32>,std::pair<S32,S32>>> steps;
        for( size_t i = 0; i < p.size(); i++ ) {
            const Point2D<S32>& a = p[i]; const Point2D<S32>& b = p[(i+1)%p.size()];
            c.check(a.x >= 0 && a.y >= 0 && a.x < (S32)m.w && a.y < (S32)m.h && lab.at((uint32_t)a.x,(uint32_t)a.y) == l,what," contour of blob ",l," leaves the blob: ",text(p));
            if( p.size() > 1 ) {
                int dx = std::abs(a.x-b.x), dy = std::abs(a.y-b.y);
                c.check(eight ? std::max(dx,dy) == 1 : dx+dy == 1,what," contour of blob ",l," is not a closed chain at point ",i,": ",text(p));
                c.check(steps.insert(std::make_pair(std::make_pair(a.x,a.y),std::make_pair(b.x,b.y))).second,what," contour of blob ",l," repeats a step at point ",i,": ",text(p));
            }
            r.insert(std::make_pair(a.x,a.y));
        }
        return r;
    };
    for( uint32_t k = 0; k < n; k++ ) {
        ContourPacked& cp = alg.contours[k]; S32 l = (S32)k+1;
        c.check(cp.id == (uint32_t)l,"blob ",k," has id ",cp.id);
        const Pts& e = take(cp.externalIndex);
        PtSet got = chain(e,l,"external");
        c.check(e[0].x == first[(size_t)l].first && e[0].y == first[(size_t)l].second,"external contour of blob ",l," does not start at its first pixel: ",text(e));
        c.check(got == touch[std::make_pair(l,outer[(size_t)l])],"external contour of blob ",l," does not visit exactly the pixels touching its outside: ",text(e));
        std::vector<PtSet> want, have;
        for( S32 b : holes_of[(size_t)l] ) want.push_back(touch[std::make_pair(l,b)]);
        for( uint32_t i : cp.internalIndexes ) have.push_back(chain(take(i),l,"internal"));
        c.check(want.size() == have.size(),"blob ",l," has ",have.size()," internal contours and ",want.size()," holes");
        std::sort(want.begin(),want.end()); std::sort(have.begin(),have.end());
        c.check(want == have,"internal contours of blob ",l," do not visit exactly the pixels touching its holes");
    }
    for( size_t i = 0; i < used.size(); i++ ) c.check(used[i] == 1,"contour ",i," belongs to no blob");
    int rounds = (int)s.draw(4);
    for( int r = 0; r < rounds; r++ ) {
        LinearContourLabelChang2004 fresh(eight ? EIGHT : FOUR);
        LinearContourLabelChang2004& f = s.flag() ? alg : fresh;
        auto limit = [&](uint32_t none) -> uint32_t {
            switch( s.draw(4) ) { case 0: return none; case 1: return (uint32_t)s.draw(12); case 2: { uint32_t base = full.empty() ? 1 : (uint32_t)full[s.draw(full.size())].size(); return base+(uint32_t)s.draw(3)-1; } default: return (uint32_t)s.draw(80); }
        };
        f.minContourSize = limit(0); f.maxContourSize = limit(std::numeric_limits<uint32_t>::max()); f.saveInternalContours = s.flag();
        if( m.v.size() > 5000 && r ) break;
        c.note("\nround ",r,&f == &alg ? " reused" : " fresh"," min ",f.minContourSize," max ",f.maxContourSize," save internal ",f.saveInternalContours); c.label("size limits");
        std::vector<ContourPacked> before = alg.contours;
        Gray<S32> l2; f.process(*in.img,l2);
        for( uint32_t y = 0; y < m.h; y++ ) for( uint32_t x = 0; x < m.w; x++ ) c.check(l2.at(x,y) == lab.at(x,y),"limits changed the label at (",x,",",y,")");
        c.check(f.contours.size() == n && f.packedPoints.number_of_sets() == full.size(),"limits changed the number of blobs or contours");
        for( uint32_t k = 0; k < n; k++ ) {
            c.check(f.contours[k].id == before[k].id && f.contours[k].externalIndex == before[k].externalIndex && f.contours[k].internalIndexes == before[k].internalIndexes,"limits changed the contour indexes of blob ",k+1);
            auto cmp = [&](uint32_t i, bool internal) {
                Pts p = load(f,i); size_t z = full[i].size();
                bool empty = z < f.minContourSize || z >= f.maxContourSize || (internal && !f.saveInternalContours);
                if( empty ) c.check(p.empty(),internal ? "internal" : "external"," contour of ",z," points should be empty, has ",p.size());
                else { c.check(p.size() == z,internal ? "internal" : "external"," contour has ",p.size()," points, expected ",z); for( size_t q = 0; q < z; q++ ) c.check(p[q].x == full[i][q].x && p[q].y == full[i][q].y,"limits changed a contour that is within them"); }
            };
            cmp(f.contours[k].externalIndex,false); for( uint32_t i : f.contours[k].internalIndexes ) cmp(i,true);
        }
    }
    c.check(in.untouched(),"input modified");
}
