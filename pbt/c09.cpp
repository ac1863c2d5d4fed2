// C09: PackedSet against a vector of vectors
#include "common.h"
#include "packed_sets.h"
#include "geometry_types.h"
using namespace pbt; using namespace boofcv;
const char* PBT_PROPERTY = "C09";
const char* PBT_RULE = "A case is a history of up to 60 operations (start set, push runs, remove tail, clear, read, write through at(), load, write_set, out of range accesses, wrong sized writes, copies and assignments) on one packed set with block size 1..12 or up to 2000, rarely up to 140000. Non-trivial: at least two sets existed and one set spans a block boundary.";
const char* PBT_ASSUMPTIONS = "fewer than 2^32 elements | block size at least 1";
uint64_t PBT_CASES_QUICK = 150000;

template<class T> struct El;
template<> struct El<S32> { static S32 make(uint64_t v) { return (S32)v; } static bool eq(S32 a, S32 b) { return a == b; } static const char* name() { return "int"; } };
template<> struct El<U8> { static U8 make(uint64_t v) { return (U8)v; } static bool eq(U8 a, U8 b) { return a == b; } static const char* name() { return "byte"; } };
template<> struct El<Point2D<S32>> { static Point2D<S32> make(uint64_t v) { return Point2D<S32>((S32)v,(S32)(v*31+7)); } static bool eq(const Point2D<S32>& a, const Point2D<S32>& b) { return a.x == b.x && a.y == b.y; } static const char* name() { return "point"; } };

template<class T> void history(Source& s, Ctx& c) {
    uint32_t block = s.draw(12) == 11 ? 1+(uint32_t)s.draw(2000) : 1+(uint32_t)s.draw(12);
    bool huge = s.draw(1500) == 1499; if( huge ) { block = 60000+(uint32_t)s.draw(80000); c.label("blocks and sets of tens of thousands of elements"); }
    bool deflt = !huge && s.draw(20) == 19; if( deflt ) block = 2000;
    c.note(" of ",El<T>::name()," block size ",block); c.label(block == 1 ? "block 1" : block <= 12 ? "block 2..12" : "large blocks"); c.label(El<T>::name());
    std::unique_ptr<PackedSet<T>> ps(deflt ? new PackedSet<T>() : new PackedSet<T>(block)); std::unique_ptr<PackedSet<T>> other; std::vector<std::vector<T>> mo; uint32_t other_block = block;
    std::vector<std::vector<T>> m; uint64_t counter = 0; bool spans = false, two = false;
    auto verify_set = [&](uint32_t i, const char* when) {
        std::vector<T> out; size_t pre = s.draw(3); for( size_t k = 0; k < pre; k++ ) out.push_back(El<T>::make(900+k));
        ps->load_set(i,out);
        c.check(out.size() == pre+m[i].size(),when,": set ",i," loads ",out.size()-pre," elements, expected ",m[i].size());
        for( size_t k = 0; k < pre; k++ ) c.check(El<T>::eq(out[k],El<T>::make(900+k)),when,": load_set changed what was in the output before");
        for( size_t k = 0; k < m[i].size(); k++ ) c.check(El<T>::eq(out[pre+k],m[i][k]),when,": set ",i," element ",k," is wrong");
    };
    auto verify_all = [&](const char* when) {
        c.check(ps->number_of_sets() == m.size(),when,": ",ps->number_of_sets()," sets, expected ",m.size());
        c.check(ps->size_of_tail() == (m.empty() ? 0 : m.back().size()),when,": tail has ",ps->size_of_tail()," elements, expected ",m.empty() ? 0 : m.back().size());
        for( uint32_t i = 0; i < m.size(); i++ ) {
            verify_set(i,when);
            for( uint32_t k = 0; k < m[i].size(); k++ ) c.check(El<T>::eq(ps->at(i,k),m[i][k]),when,": at(",i,",",k,") is wrong");
        }
    };
    int n = 1+(int)s.draw(huge ? 14 : 60);
    for( int q = 0; q < n; q++ ) {
        switch( s.draw(14) ) {
            case 0: case 1: c.note(" start"); ps->start_new_set(); m.emplace_back(); break;
            case 2: case 3: case 4: case 5: {
                uint32_t k = 1+(uint32_t)s.draw(s.flag() ? 3 : 2*std::min<uint32_t>(block,40)+3); c.note(" push*",k);
                if( block > 12 && s.draw(10) == 9 ) k += block; if( huge && s.draw(3) ) k += 20000+(uint32_t)s.draw(50000);
                for( uint32_t i = 0; i < k; i++ ) { T e = El<T>::make(++counter*2654435761u>>3); ps->push_tail(e); if( m.empty() ) m.emplace_back(); m.back().push_back(e); }
                break; }
            case 6: case 7: c.note(" remove_tail"); ps->remove_tail(); if( !m.empty() ) m.pop_back(); break;
            case 8: if( s.draw(4) == 3 ) { c.note(" clear"); ps->clear(); m.clear(); } break;
            case 9: if( !m.empty() ) { uint32_t i = (uint32_t)s.draw(m.size()); if( m[i].empty() ) break; uint32_t k = (uint32_t)s.draw(m[i].size()); c.note(" at(",i,",",k,")="); T e = El<T>::make(++counter); ps->at(i,k) = e; m[i][k] = e; } break;
            case 10: if( !m.empty() ) { uint32_t i = (uint32_t)s.draw(m.size()); c.note(" write(",i,")"); for( auto& e : m[i] ) e = El<T>::make(++counter*77); ps->write_set(i,m[i]); } break;
            case 11: switch( s.draw(3) ) {   // copies have contents of their own
                case 0: c.note(" copy"); c.label("copied"); other.reset(new PackedSet<T>(*ps)); mo = m; other_block = block; break;
                case 1: if( !other ) { other_block = 1+(uint32_t)s.draw(12); other.reset(new PackedSet<T>(other_block)); mo.clear(); uint32_t k = (uint32_t)s.draw(9); for( uint32_t i = 0; i < k; i++ ) { T e = El<T>::make(++counter); other->push_tail(e); if( mo.empty() ) mo.emplace_back(); mo.back().push_back(e); } }
                    c.note(" assign"); c.label("assigned"); *other = *ps; mo = m; other_block = block; break;
                default: c.note(" assign itself"); { PackedSet<T>& q = *ps; *ps = q; } break; }
                break;
            case 12: if( other ) { c.note(" swap"); std::swap(ps,other); std::swap(m,mo); std::swap(block,other_block); } break;
            default: {
                uint32_t i = (uint32_t)s.draw(m.size()+2); int kind = (int)s.draw(3); c.note(" invalid",kind,"(",i,")");
                bool oor = i >= m.size(); std::vector<T> v; uint32_t past = (uint32_t)s.draw(3);
                if( kind == 0 ) { uint32_t k = oor ? past : (uint32_t)m[i].size()+past; c.check(throws([&]{ ps->at(i,k); }),"at(",i,",",k,") out of range did not throw"); }
                else if( kind == 1 ) { if( oor ) { c.check(throws([&]{ ps->load_set(i,v); }),"load_set(",i,") out of range did not throw"); c.check(v.empty(),"rejected load_set wrote to its output"); } }
                else { size_t z = oor ? past : m[i].size()+1+past; if( !oor && !m[i].empty() && s.flag() ) z = s.draw(m[i].size()); for( size_t k = 0; k < z; k++ ) v.push_back(El<T>::make(5)); c.check(throws([&]{ ps->write_set(i,v); }),"write_set(",i,") of wrong size did not throw"); }
                break; }
        }
        two = two || m.size() > 1; uint32_t at = 0; for( auto& v : m ) { if( v.size() > 1 && at/block != (at+v.size()-1)/block ) spans = true; at += (uint32_t)v.size(); }
        if( s.draw(6) == 5 ) verify_all("after an operation"); else if( !m.empty() ) verify_set((uint32_t)s.draw(m.size()),"after an operation");
        c.check(ps->number_of_sets() == m.size() && ps->size_of_tail() == (m.empty() ? 0 : m.back().size()),"number of sets or tail size wrong");
    }
    verify_all("at the end");
    if( other ) { std::swap(ps,other); std::swap(m,mo); verify_all("in the copy at the end"); }
    if( two && spans ) c.nontrivial = true;
}
void pbt_case(Source& s, Ctx& c) {
    if( s.draw(500) == 499 ) { c.label("block without elements"); c.check(throws([&]{ PackedSet<S32> z(0); z.push_tail(1); }),"a packed set with blocks of no elements was accepted"); }
    uint64_t t = s.draw(3); c.note("packed set history starts here, ");
    long before = live_allocations();
    if( t == 0 ) history<S32>(s,c); else if( t == 1 ) history<Point2D<S32>>(s,c); else history<U8>(s,c);
    c.check(live_allocations() == before,"heap allocations leaked: ",live_allocations()-before);
}
