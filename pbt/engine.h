// Small property-based testing engine: every generated value comes from a Source (a choice sequence), so that a
// failing case can be replayed and shrunk as a plain list of integers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <initializer_list>

namespace pbt {

inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
// deterministic stream used to expand one drawn seed into pixel values
struct Stream {
    uint64_t s;
    explicit Stream(uint64_t seed) : s(mix64(seed ^ 0x5851F42D4C957F2DULL)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

class Source {
public:
    std::vector<uint64_t> rec;
    // random mode
    explicit Source(uint64_t seed) : mode(0), st(seed) {}
    // replay mode: missing choices are zero
    explicit Source(const std::vector<uint64_t>& choices) : mode(1), st(0), list(choices) {}
    // byte mode, used by the coverage guided fuzzer
    Source(const uint8_t* data, size_t size) : mode(2), st(0), bytes(data), nbytes(size) {}

    // uniform in [0,n). Zero is the simplest choice
    uint64_t draw(uint64_t n) {
        if( n <= 1 ) return 0;   // no choice, so nothing to record: a replay must read the same positions
        uint64_t v = 0;
        if( mode == 0 ) v = st.next() % n;
        else if( mode == 1 ) { v = pos < list.size() ? list[pos] : 0; if( v >= n ) v = v % n; pos++; }
        else {
            int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull<<32) ? 4 : 8;
            for( int i = 0; i < k; i++ ) { v = (v << 8) | (bpos < nbytes ? bytes[bpos] : 0); bpos++; }
            v %= n;
        }
        rec.push_back(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi-lo)+1); }
    // lo is simplest
    bool chance(uint32_t percent) { return draw(100) >= 100-percent; }
    bool flag() { return draw(2) != 0; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin()+draw(l.size())); }
private:
    int mode;
    Stream st;
    std::vector<uint64_t> list;
    size_t pos = 0;
    const uint8_t* bytes = nullptr; size_t nbytes = 0, bpos = 0;
};

struct Failure { std::string msg; };
struct Discard {};

class Ctx {
public:
    bool want_desc = false;
    std::ostringstream desc;
    bool nontrivial = false;
    void label(const std::string& s);
    template<class... A> [[noreturn]] void fail(A&&... a) { std::ostringstream o; put(o,a...); throw Failure{o.str()}; }
    template<class... A> void check(bool ok, A&&... a) { if( !ok ) fail(a...); }
    template<class... A> void note(A&&... a) { if( want_desc ) { put(desc,a...); publish(); } }
private:
    void publish();
    static void put(std::ostringstream&) {}
    template<class H, class... A> static void put(std::ostringstream& o, H&& h, A&&... a) { o << h; put(o,a...); }
};

// number of live heap allocations made with new (and malloc in the sanitizer build)
long live_allocations();

// Allocation faults: of the calls of operator new which this thread makes from now on, number k (from 1) throws
// std::bad_alloc, with "onwards" those after it as well. k = 0: none fails, they are only counted
void fail_allocation(uint64_t k, bool onwards = false);
uint64_t end_allocation_faults();        // allocations seen since; none fails any more
uint64_t allocations_failed();           // of those, how many failed
// allocations made for the harness's own purposes while faults are injected
struct NoFaults { NoFaults(); ~NoFaults(); };

} // namespace pbt

// Supplied by each property harness
extern const char* PBT_PROPERTY;
extern const char* PBT_RULE;
extern uint64_t PBT_CASES_QUICK;        // cases in the quick tier, production build
extern const char* PBT_ASSUMPTIONS;
extern int pbt_retries;                  // attempts a replay, confirmation or shrinking step has to show a failure: more than one only where it depends on the scheduler
extern bool pbt_isolated;               // the case is being replayed, confirmed or shrunk: checks which depend on the scheduler may try harder
extern bool pbt_fresh;                  // no case was run in this process before
extern int pbt_cold;                    // one worker in this many (0: none) runs each of its cases in a process of its own
void pbt_case(pbt::Source& s, pbt::Ctx& c);
