// C07: connected component labelling against a flood fill
#include "binary_gen.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C07";
const char* PBT_RULE = "A case labels one binary image (explicit small images, noise of any density, nested rings, rectangles, spirals, strokes, grids) in some memory layout. Non-trivial: at least one foreground and one background pixel.";
const char* PBT_ASSUMPTIONS = "binary images hold only 0 and 1";
uint64_t PBT_CASES_QUICK = 250000;

void pbt_case(Source& s, Ctx& c) {
    bool eight = s.flag(); int ctor = (int)s.draw(3);
    LinearContourLabelChang2004 alg(eight != (ctor == 2) ? EIGHT : FOUR);
    if( ctor ) alg.setConnectRule(eight ? EIGHT : FOUR);
    int filt = (int)s.draw(6);
    if( filt == 5 ) { alg.minContourSize = (uint32_t)s.draw(30); alg.maxContourSize = (uint32_t)s.draw(40); alg.saveInternalContours = s.flag(); }
    Mat<U8> m = s.draw(6000) == 5999 ? gen_huge_binary(s) : gen_binary(s);
    View<U8> in; in.build(s,m);
    View<S32> out; out.build_output(s,m.w,m.h,true); bool reshaped = out.img->width != m.w || out.img->height != m.h;
    c.note(eight ? "8" : "4","-connected, min ",alg.minContourSize," max ",alg.maxContourSize," save internal ",alg.saveInternalContours," input ",in.text()," labels ",out.text(),"\n",picture(m));
    uint32_t n; Mat<S32> ref = components(m,1,eight,n);
    bool fg = false, bg = false; for( U8 p : m.v ) (p ? fg : bg) = true;
    c.nontrivial = fg && bg;
    c.label(eight ? "8-connected" : "4-connected"); c.label(n == 0 ? "no blobs" : n == 1 ? "1 blob" : n < 10 ? "2..9 blobs" : n <= 65535 ? "10+ blobs" : "65536+ blobs"); c.label(lname(in.layout));
    c.check(alg.getConnectRule() == (eight ? EIGHT : FOUR),"connect rule does not read back");
    int repeat = 1+(s.draw(6) == 5);
    for( int i = 0; i < repeat; i++ ) {
        alg.process(*in.img,*out.img);
        expect_same(c,ref,out.read(),"labels");
        c.check(alg.contours.size() == n,alg.contours.size()," blobs reported, the image has ",n);
        for( uint32_t k = 0; k < n; k++ ) c.check(alg.contours[k].id == k+1,"blob ",k," has id ",alg.contours[k].id);
        c.check(in.untouched(),"input modified");
        c.check(reshaped || out.surroundings_intact(),"memory outside the label image modified");
    }
}
