// C10: binary logic and morphology
#include "oracle.h"
#include "binary_ops.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C10";
const char* PBT_RULE = "A case is one or two images (0..60 pixels a side, any layout), an operation and, for the logical ones, which of the inputs the output is. Non-trivial: at least two pixels and input not constant.";
const char* PBT_ASSUMPTIONS = "morphology inputs are 0/1 | the output of morphology does not alias its input; logical output may be exactly one of the inputs";
uint64_t PBT_CASES_QUICK = 300000;

Mat<U8> gen_binary(Source& s, uint32_t w, uint32_t h, int top) {
    Mat<U8> m = gen_mat<U8>(s,w,h,0,top);
    if( s.flag() && m.v.size() ) { Stream st(s.draw(1000)); uint32_t p = 1+(uint32_t)s.draw(95); for( U8& v : m.v ) v = st.below(100) < p ? (top == 1 ? 1 : (U8)(1+st.below(top))) : 0; }
    return m;
}
static void dims(Source& s, uint32_t& w, uint32_t& h) { gen_shape(s,w,h); if( s.draw(40) == 39 ) { if( s.flag() ) w = 0; if( s.flag() ) h = 0; } }
void pbt_case(Source& s, Ctx& c) {
    int op = (int)s.draw(4);
    uint32_t w,h; dims(s,w,h);
    static const char* names[] = {"and","or","erode4","dilate4"};
    c.label(names[op]);
    if( w == 0 || h == 0 ) c.label("empty"); else if( w == 1 || h == 1 ) c.label("one pixel wide"); else if( w == 2 || h == 2 ) c.label("two pixels wide");
    if( op < 2 ) {
        Mat<U8> a = gen_binary(s,w,h,s.flag() ? 255 : 1), b = gen_binary(s,w,h,s.flag() ? 255 : 1);
        int alias = (int)s.draw(5);  // 0,1 none, 2 output is a, 3 output is b, 4 all the same
        View<U8> va,vb,vo; va.build(s,a); vb.build(s,b); vo.build_output(s,w,h,true);
        bool reshaped = vo.img->width != w || vo.img->height != h;
        c.note(names[op]," alias ",alias,"\na ",va.text()," ",show(a),"\nb ",vb.text()," ",show(b),"\noutput ",vo.text());
        c.label(alias < 2 ? "separate output" : alias < 4 ? "output is an input" : "all the same image");
        for( U8 p : a.v ) if( p != a.v[0] ) c.nontrivial = true;
        Gray<U8>& A = *va.img; Gray<U8>& B = alias == 4 ? A : *vb.img; Gray<U8>& O = alias < 2 ? *vo.img : alias == 3 ? *vb.img : A;
        if( op == 0 ) BinaryImageOps::logicAnd(A,B,O); else BinaryImageOps::logicOr(A,B,O);
        Mat<U8> ex(w,h); const Mat<U8>& bb = alias == 4 ? a : b;
        for( size_t i = 0; i < ex.v.size(); i++ ) ex.v[i] = op == 0 ? (a.v[i] != 0 && bb.v[i] != 0) : (a.v[i] != 0 || bb.v[i] != 0);
        View<U8>& vout = alias < 2 ? vo : alias == 3 ? vb : va;
        expect_same(c,ex,vout.read(),names[op]);
        c.check(&vout == &va ? va.surroundings_intact() : va.untouched(),"first input modified");
        c.check(&vout == &vb ? vb.surroundings_intact() : vb.untouched(),"second input modified");
        c.check(reshaped || vo.surroundings_intact(),"memory outside the output window modified");
    } else {
        Mat<U8> a = gen_binary(s,w,h,1);
        View<U8> va,vo; va.build(s,a); vo.build_output(s,w,h,true);
        bool reshaped = vo.img->width != w || vo.img->height != h;
        c.note(names[op],"\ninput ",va.text()," ",show(a),"\noutput ",vo.text());
        c.label(std::string("in=")+lname(va.layout)); c.label(std::string("out=")+lname(vo.layout));
        for( U8 p : a.v ) if( p != a.v[0] ) c.nontrivial = true;
        if( op == 2 ) BinaryImageOps::erode4(*va.img,*vo.img); else BinaryImageOps::dilate4(*va.img,*vo.img);
        Mat<U8> ex(w,h);
        auto get = [&](int64_t x, int64_t y) { return x < 0 || y < 0 || x >= w || y >= h ? 0 : (int)a.at((uint32_t)x,(uint32_t)y); };
        for( uint32_t y = 0; y < h; y++ ) for( uint32_t x = 0; x < w; x++ ) {
            int n = get(x,y)+get((int64_t)x-1,y)+get(x+1,y)+get(x,(int64_t)y-1)+get(x,y+1);
            ex.at(x,y) = op == 2 ? n == 5 : n > 0;
        }
        expect_same(c,ex,vo.read(),names[op]);
        c.check(va.untouched(),"input modified");
        c.check(reshaped || vo.surroundings_intact(),"memory outside the output window modified");
    }
}
