// C05: border lookups
#include "oracle.h"
#include "image_border.h"
using namespace pbt;
const char* PBT_PROPERTY = "C05";
const char* PBT_RULE = "A case is an image (shape 1..60, any pixel type, whole/sub-image/reshaped), a border object and up to 60 coordinates, near, several periods away, at the limits of 32 bits and anywhere up to +-2^31. Non-trivial: at least one coordinate outside the image.";
const char* PBT_ASSUMPTIONS = "non-empty images | coordinates fit in int32";
uint64_t PBT_CASES_QUICK = 160000;

template<class T> static std::shared_ptr<boofcv::ImageBorder<T>> make_border(int b, T value) {
    switch( b ) {
        case B_EXTENDED: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::EXTENDED);
        case B_REFLECT: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::REFLECT);
        case B_WRAP: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::WRAP);
        case B_ZERO: return boofcv::FactoryImageBorder::create_SB<T>(boofcv::ZERO);
        default: return boofcv::FactoryImageBorder::value_SB<T>(value);
    }
}
static int64_t coord(Source& s, int64_t n) {
    switch( s.draw(11) ) {
        case 0: return s.range(0,n-1);
        case 1: case 2: return -1-(int64_t)s.draw(3);
        case 3: case 4: return n+(int64_t)s.draw(3);
        case 5: return s.range(-3*n,4*n);
        case 6: return s.range(-12*n,12*n);
        case 7: { int64_t k = s.range(-20,20); return k*(n > 1 ? 2*(n-1) : 1)+s.range(-2,2); }
        case 8: { int64_t k = s.range(-20,20); return k*n+s.range(-2,2); }
        case 9: { int64_t a = (int64_t)s.draw(s.flag() ? 4 : 200); return s.flag() ? INT32_MAX-a : (int64_t)INT32_MIN+a; }   // the limits of a coordinate
        default: { int64_t a = (int64_t)s.draw(1ull<<31); return s.flag() ? a : -a-1; }
    }
}
template<class T> void run(Source& s, Ctx& c) {
    int64_t lo,hi; full_range<T>(s,lo,hi);
    uint32_t w,h; gen_shape(s,w,h);
    Mat<T> m = gen_mat<T>(s,w,h,lo,hi);
    View<T> v; v.build(s,m);
    int b = (int)s.draw(5);
    T value = b == B_VALUE ? (T)s.range(lo,hi) : (T)0;
    auto border = make_border<T>(b,value);
    if( b == B_VALUE && s.flag() ) { c.label("border made with its image"); border = std::make_shared<boofcv::ImageBorderValue<T>>(*v.img,value); } else border->setImage(*v.img);
    c.note(tname<T>()," ",bname(b)," value ",+value," image ",v.text()," ",show(m));
    c.label(std::string("border=")+bname(b)); c.label(std::string("layout=")+lname(v.layout)); c.label(std::string("type=")+tname<T>());
    c.check(border->getWidth() == w && border->getHeight() == h,"border reports ",border->getWidth(),"x",border->getHeight()," for an image of ",w,"x",h);
    int n = 1+(int)s.draw(60);
    for( int i = 0; i < n; i++ ) {
        int64_t x = coord(s,w), y = coord(s,h);
        bool ox = x < 0 || x >= w, oy = y < 0 || y >= h;
        if( ox || oy ) c.nontrivial = true;
        if( ox && oy ) c.label("corner lookup");
        if( x < -(int64_t)w || x >= 2*(int64_t)w || y < -(int64_t)h || y >= 2*(int64_t)h ) c.label("more than one image away");
        T found = border->get((int32_t)x,(int32_t)y);
        T expected = (T)border_get(m,b,value,x,y);
        if( !(found == expected) ) c.fail("get(",x,",",y,") = ",+found," expected ",+expected);
        if( ox || oy ) {
            T f2 = border->outside_get((int32_t)x,(int32_t)y);
            if( !(f2 == expected) ) c.fail("outside_get(",x,",",y,") = ",+f2," expected ",+expected);
        }
    }
    // a second border object of the same or another kind, in use at the same time
    if( s.chance(20) ) {
        c.label("two border objects");
        Mat<T> m2 = gen_mat<T>(s,gen_dim(s),gen_dim(s),lo,hi);
        View<T> v2; v2.build(s,m2);
        int b2 = s.flag() ? b : (int)s.draw(5); T value2 = b2 == B_VALUE ? (T)s.range(lo,hi) : (T)0;
        auto other = make_border<T>(b2,value2); other->setImage(*v2.img);
        for( int i = 0; i < 8; i++ ) {
            int64_t x = coord(s,w), y = coord(s,h), x2 = coord(s,m2.w), y2 = coord(s,m2.h);
            T found = border->get((int32_t)x,(int32_t)y), expected = (T)border_get(m,b,value,x,y);
            if( !(found == expected) ) c.fail("next to a second border ",bname(b2)," get(",x,",",y,") = ",+found," expected ",+expected);
            T found2 = other->get((int32_t)x2,(int32_t)y2), expected2 = (T)border_get(m2,b2,value2,x2,y2);
            if( !(found2 == expected2) ) c.fail("second border ",bname(b2)," get(",x2,",",y2,") = ",+found2," expected ",+expected2);
        }
        c.check(border->getWidth() == w && border->getHeight() == h,"border reports another image's shape");
    }
    // the same border object moved to another image
    if( s.chance(30) ) {
        c.label("reused for another image");
        Mat<T> m2 = gen_mat<T>(s,gen_dim(s),gen_dim(s),lo,hi);
        View<T> v2; v2.build(s,m2);
        border->setImage(*v2.img);
        for( int i = 0; i < 8; i++ ) {
            int64_t x = coord(s,m2.w), y = coord(s,m2.h);
            T found = border->get((int32_t)x,(int32_t)y), expected = (T)border_get(m2,b,value,x,y);
            if( !(found == expected) ) c.fail("second image ",m2.w,"x",m2.h," get(",x,",",y,") = ",+found," expected ",+expected);
        }
    }
    if( s.chance(5) ) {
        c.label("unsupported type");
        auto t = s.flag() ? boofcv::SKIP : boofcv::NORMALIZED;
        c.check(throws([&]() { boofcv::FactoryImageBorder::create_SB<T>(t); }),"border type ",(int)t," was not rejected");
    }
    c.check(v.untouched(),"image modified by lookups");
}
void pbt_case(Source& s, Ctx& c) {
    switch( s.draw(6) ) {
        case 0: run<U8>(s,c); break;
        case 1: run<F32>(s,c); break;
        case 2: run<S16>(s,c); break;
        case 3: run<U16>(s,c); break;
        case 4: run<S32>(s,c); break;
        default: run<F64>(s,c); break;
    }
}
