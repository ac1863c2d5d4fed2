#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <ctime>
#include <map>
#include <unordered_set>
#include <set>
#include <new>
#include <atomic>
#include <exception>
#include <typeinfo>
#include <fstream>
#include <algorithm>
#include <cxxabi.h>
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

bool pbt_isolated = false;
bool pbt_fresh = false;
int pbt_cold = 0;
int pbt_retries = 1;
static std::atomic<long> g_live(0);   // harnesses may start threads
static thread_local uint64_t f_seen = 0, f_at = 0, f_hit = 0; static thread_local bool f_on = false, f_onwards = false; static thread_local int f_quiet = 0;
static void maybe_fail() {
    if( !f_on || f_quiet ) return;
    f_seen++;
    if( f_at && (f_seen == f_at || (f_onwards && f_seen > f_at)) ) { f_hit++; throw std::bad_alloc(); }
}
namespace pbt {
void fail_allocation(uint64_t k, bool onwards) { f_seen = f_hit = 0; f_at = k; f_onwards = onwards; f_on = true; }
uint64_t end_allocation_faults() { f_on = false; return f_seen; }
uint64_t allocations_failed() { return f_hit; }
NoFaults::NoFaults() { f_quiet++; }
NoFaults::~NoFaults() { f_quiet--; }
}
#ifdef PBT_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void pbt_set_death(void(*f)(void)) { __sanitizer_set_death_callback(f); }
#endif
#if defined(PBT_ASAN) && !defined(PBT_FAULTS)
#define PBT_HOOKS 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
static void hook_m(const volatile void*, size_t) { g_live.fetch_add(1,std::memory_order_relaxed); }
static void hook_f(const volatile void* p) { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); }
#else
// Count allocations and fill fresh memory with garbage, so that reads of uninitialised memory show up
static thread_local uint32_t g_fill = 0x9D;
static void* pbt_new(size_t n) {
    maybe_fail();
    void* p = malloc(n ? n : 1);
    if( !p ) throw std::bad_alloc();
    g_live.fetch_add(1,std::memory_order_relaxed);
    g_fill = g_fill*1664525u + 1013904223u;
    memset(p,(int)(g_fill>>24)|1,n < (1u<<20) ? n : (1u<<20));
    return p;
}
void* operator new(size_t n) { return pbt_new(n); }
void* operator new[](size_t n) { return pbt_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return pbt_new(n); } catch( const std::bad_alloc& ) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return pbt_new(n); } catch( const std::bad_alloc& ) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); free(p); }
void operator delete(void* p) noexcept { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); free(p); }
void operator delete[](void* p) noexcept { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); free(p); }
void operator delete(void* p, size_t) noexcept { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); free(p); }
void operator delete[](void* p, size_t) noexcept { if( p ) g_live.fetch_sub(1,std::memory_order_relaxed); free(p); }
#endif
long pbt::live_allocations() { return g_live.load(std::memory_order_relaxed); }

namespace pbt {

static const int MAXLAB = 96;
struct Lab { char name[56]; uint64_t count; };
struct Worker {
    volatile uint64_t current;      // case index + 1 being run
    uint64_t evaluations, discarded, nontrivial;
    uint64_t sample[4]; uint32_t nsample;
    Lab labs[MAXLAB]; uint32_t nlab;
    volatile int failed; uint64_t failed_index, hash;
    char msg[1<<15];
    char desc[1<<17];
};
static Worker* W = nullptr;         // this process' slot

void Ctx::label(const std::string& s) {
    if( !W ) return;
    for( uint32_t i = 0; i < W->nlab; i++ ) if( s == W->labs[i].name ) { W->labs[i].count++; return; }
    if( W->nlab < MAXLAB ) {
        Lab& l = W->labs[W->nlab++];
        snprintf(l.name,sizeof l.name,"%s",s.c_str()); l.count = 1;
    }
}
static char* g_descbuf = nullptr;   // the description of the running case, readable after a crash
void Ctx::publish() { if( g_descbuf ) snprintf(g_descbuf,(1<<17)-1,"%s",desc.str().c_str()); }
static uint64_t hash_choices(const std::vector<uint64_t>& v) {
    uint64_t h = 0x1234567ULL ^ v.size();
    for( uint64_t x : v ) h = mix64(h ^ x) + h*31;
    return h;
}
static uint64_t case_seed(uint64_t seed, uint64_t index) {
    uint64_t h = mix64(seed*0x9E3779B97F4A7C15ULL + 77);
    for( const char* p = PBT_PROPERTY; *p; p++ ) h = mix64(h ^ (uint64_t)*p);
    return mix64(h ^ mix64(index+1));
}
static std::string exc_name() {
    const std::type_info* t = abi::__cxa_current_exception_type();
    return t ? t->name() : "?";
}
// runs one case. returns true on failure
static bool run_one(Source& s, Ctx& c, std::string& msg) {
    try { pbt_case(s,c); return false; }
    catch( const Discard& ) { throw; }
    catch( const Failure& f ) { msg = f.msg; }
    catch( const std::exception& e ) { msg = std::string("unexpected exception ")+exc_name()+": "+e.what(); }
    catch( ... ) { msg = std::string("unexpected exception of type ")+exc_name(); }
    return true;
}
static void arm(int seconds) {
    struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF,&t,nullptr);
}
static const int CASE_CPU_LIMIT = 20;
static std::string status_text(int st) {
    char b[128];
    if( WIFSIGNALED(st) ) {
        if( WTERMSIG(st) == SIGPROF ) snprintf(b,sizeof b,"did not return within %d s of CPU time",CASE_CPU_LIMIT);
        else snprintf(b,sizeof b,"crashed with signal %d (%s)",WTERMSIG(st),strsignal(WTERMSIG(st)));
    } else snprintf(b,sizeof b,"aborted with exit status %d",WEXITSTATUS(st));
    return b;
}
static Worker* shared(size_t n) {
    void* p = mmap(nullptr,sizeof(Worker)*n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if( p == MAP_FAILED ) { perror("mmap"); exit(3); }
    return (Worker*)p;
}
// runs a choice list in a child. Returns 0 pass, 1 fail, 2 could not be decided
static std::string g_errfile;
static int run_isolated_once(const std::vector<uint64_t>& choices, Worker* slot, int cpu, std::string& msg, std::string* desc, std::vector<uint64_t>* used) {
    slot->msg[0] = 0; slot->desc[0] = 0; slot->failed = 0; slot->nsample = 0;
    if( g_errfile.size() ) { int fd = open(g_errfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); if( fd >= 0 ) close(fd); }
    // choices actually consumed are handed back through a pipe sized file
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if( pid < 0 ) return 2;
    if( pid == 0 ) {
        W = nullptr; pbt_isolated = pbt_fresh = true;
        int fd = open(g_errfile.size() ? g_errfile.c_str() : "/dev/null",O_WRONLY|O_APPEND); if( fd >= 0 ) { dup2(fd,2); dup2(fd,1); }
        arm(cpu);
        Source s(choices); Ctx c; c.want_desc = desc != nullptr;
        std::string m; bool bad = false;
        g_descbuf = slot->desc;
        try { bad = run_one(s,c,m); } catch( const Discard& ) {}
        snprintf(slot->msg,sizeof slot->msg,"%s",m.c_str());
        slot->failed = bad ? 1 : 0; slot->evaluations = s.rec.size(); slot->nontrivial = c.nontrivial;
        _exit(bad ? 42 : 0);
    }
    int st = 0;
    while( waitpid(pid,&st,0) < 0 && errno == EINTR ) {}
    if( WIFEXITED(st) && WEXITSTATUS(st) == 0 ) { if( desc ) *desc = slot->desc; return 0; }
    if( WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ) { msg = "killed"; return 2; }
    if( WIFEXITED(st) && WEXITSTATUS(st) == 42 ) msg = slot->msg;
    else {
        msg = status_text(st);
        if( g_errfile.size() ) {   // first lines of a sanitizer report
            std::ifstream in(g_errfile); std::string l; int n = 0;
            while( n < 12 && std::getline(in,l) ) if( l.find("ERROR:") != std::string::npos || l.find("    #") == 0 || l.find(" of size ") != std::string::npos || l.find("runtime error") != std::string::npos ) { msg += "\n"+l; n++; }
        }
    }
    if( desc ) *desc = slot->desc;
    (void)used;
    return 1;
}
static int run_isolated(const std::vector<uint64_t>& choices, Worker* slot, int cpu, std::string& msg, std::string* desc, std::vector<uint64_t>* used, int tries = pbt_retries) {
    int r = 0; for( int k = 0; k < std::max(1,tries); k++ ) if( (r = run_isolated_once(choices,slot,cpu,msg,desc,used)) != 0 ) break;
    return r;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, Worker* slot, std::string& msg, double budget) {
    double t0 = now(); int attempts = 0;
    int cpu = msg.find("did not return") != std::string::npos ? 4 : CASE_CPU_LIMIT;
    auto attempt = [&](const std::vector<uint64_t>& v) {
        if( now()-t0 > budget || attempts > 6000 ) return false;
        attempts++;
        std::string m;
        if( run_isolated(v,slot,cpu,m,nullptr,nullptr,1) != 1 ) return false;
        best = v; msg = m;
        while( best.size() && best.back() == 0 ) best.pop_back();
        return true;
    };
    auto out_of_time = [&]() { return now()-t0 > budget || attempts > 6000; };
    bool improved = true;
    while( improved && !out_of_time() ) {
        improved = false;
        // truncate
        for( size_t n = best.size(); n > 0 && !out_of_time(); n /= 2 ) {
            if( n >= best.size() ) { if( best.size() > 1 ) continue; }
            std::vector<uint64_t> v(best.begin(),best.begin()+std::min(n,best.size()));
            if( v.size() < best.size() && attempt(v) ) improved = true;
        }
        // zero and delete blocks
        for( size_t k = std::max<size_t>(1,best.size()/2); k >= 1 && !out_of_time(); k /= 2 ) {
            for( size_t i = 0; i < best.size() && !out_of_time(); ) {
                std::vector<uint64_t> v = best; bool nz = false;
                size_t e = std::min(i+k,best.size());
                for( size_t j = i; j < e; j++ ) { nz |= v[j] != 0; v[j] = 0; }
                if( nz && attempt(v) ) { improved = true; i += k; continue; }
                if( k <= 8 || k >= best.size()/8 ) {
                    v = best; v.erase(v.begin()+i,v.begin()+e);
                    if( attempt(v) ) { improved = true; continue; }
                }
                i += k;
            }
            if( k == 1 ) break;
        }
        // lower single values
        for( size_t i = 0; i < best.size() && !out_of_time(); i++ ) {
            uint64_t lo = 0, hi = best[i];
            while( lo < hi && i < best.size() && !out_of_time() ) {
                uint64_t mid = lo + (hi-lo)/2;
                std::vector<uint64_t> v = best; v[i] = mid;
                if( attempt(v) ) { improved = true; hi = mid; } else lo = mid+1;
            }
        }
    }
    return best;
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for( unsigned char ch : s ) {
        if( ch == '"' || ch == '\\' ) { o += '\\'; o += (char)ch; }
        else if( ch == '\n' ) o += "\\n";
        else if( ch < 32 || ch > 126 ) { char b[8]; snprintf(b,sizeof b,"\\u%04x",ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}
static std::vector<uint64_t> load_choices(const char* path) {
    std::ifstream in(path); std::string line; std::vector<uint64_t> v;
    while( std::getline(in,line) ) if( line.compare(0,8,"choices:") == 0 ) {
        std::istringstream is(line.substr(8)); uint64_t x; while( is >> x ) v.push_back(x);
    }
    return v;
}

// Failures which need state left by earlier cases of the same process: runs the last "count" of them in one child
static int run_sequence(uint64_t seed, uint64_t step, uint64_t last, uint64_t count, Worker* slot, std::string& msg, std::string* desc) {
    slot->msg[0] = 0; slot->desc[0] = 0;
    if( g_errfile.size() ) { int fd = open(g_errfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); if( fd >= 0 ) close(fd); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if( pid < 0 ) return 2;
    if( pid == 0 ) {
        W = nullptr;
        int fd = open(g_errfile.size() ? g_errfile.c_str() : "/dev/null",O_WRONLY|O_APPEND); if( fd >= 0 ) { dup2(fd,2); dup2(fd,1); }
        uint64_t n = std::min(count,last/step+1);
        for( uint64_t k = n; k-- > 0; ) {
            arm(CASE_CPU_LIMIT);
            Source s(case_seed(seed,last-k*step)); Ctx c; c.want_desc = k == 0 && desc; std::string m; bool bad = false;
            g_descbuf = k == 0 ? slot->desc : nullptr;
            pbt_fresh = k+1 == n; try { bad = run_one(s,c,m); } catch( const Discard& ) {}
            if( bad ) { snprintf(slot->msg,sizeof slot->msg,"%s",m.c_str()); _exit(42); }
        }
        _exit(0);
    }
    int st = 0;
    while( waitpid(pid,&st,0) < 0 && errno == EINTR ) {}
    if( desc ) *desc = slot->desc;
    if( WIFEXITED(st) && WEXITSTATUS(st) == 0 ) return 0;
    if( WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ) return 2;
    msg = WIFEXITED(st) && WEXITSTATUS(st) == 42 ? std::string(slot->msg) : status_text(st);
    return 1;
}

// Runs a case in a child and returns the choices it drew, also when it crashes
struct Rec { volatile uint64_t n; uint64_t v[1<<20]; };
static Source* g_rec_src = nullptr; static Rec* g_rec = nullptr;
static void rec_dump() {
    uint64_t n = g_rec_src->rec.size(); if( n > (1u<<20) ) n = 1u<<20;
    for( uint64_t k = 0; k < n; k++ ) g_rec->v[k] = g_rec_src->rec[k];
    g_rec->n = n;
}
static void rec_signal(int) { rec_dump(); _exit(43); }
template<class F> static std::vector<uint64_t> record_case( F make ) {
    Rec* r = (Rec*)mmap(nullptr,sizeof(Rec),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if( pid == 0 ) {
        int fd = open("/dev/null",O_WRONLY); if( fd >= 0 ) { dup2(fd,2); dup2(fd,1); }
        W = nullptr; pbt_fresh = true; arm(CASE_CPU_LIMIT);
        g_rec_src = make(); g_rec = r;
        stack_t ss; ss.ss_sp = mmap(nullptr,1<<16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ss.ss_size = 1<<16; ss.ss_flags = 0; sigaltstack(&ss,nullptr);
        for( int sg : {SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGPROF,SIGTRAP} ) {
            struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler = rec_signal; sa.sa_flags = SA_ONSTACK|SA_NODEFER;
            sigaction(sg,&sa,nullptr);
        }
#ifdef PBT_ASAN
        pbt_set_death(rec_dump);
#endif
        Ctx c; std::string m;
        try { run_one(*g_rec_src,c,m); } catch( const Discard& ) {}
        rec_dump(); _exit(0);
    }
    int st; waitpid(pid,&st,0);
    std::vector<uint64_t> ch(r->v,r->v+r->n);
    munmap(r,sizeof(Rec));
    return ch;
}
static void write_replay(const std::string& path, const std::string& build, uint64_t seed, const std::string& msg, const std::string& desc, const std::vector<uint64_t>& ch) {
    std::ofstream f(path);
    f << "property: " << PBT_PROPERTY << "\nbuild: " << build << "\nseed: " << seed << "\nmessage: " << jstr(msg) << "\ncase: " << jstr(desc) << "\nchoices:";
    for( uint64_t x : ch ) f << ' ' << x;
    f << "\n";
}
static int finish_external(std::vector<uint64_t> ch, Worker* slot, double budget, const std::string& replay, const std::string& build, uint64_t seed) {
    std::string m,d;
    if( run_isolated(ch,slot,CASE_CPU_LIMIT,m,nullptr,nullptr) != 1 ) { printf("not reproducible\n"); return 2; }
    ch = shrink(ch,slot,m,budget);
    for( int k = 0; k < 3; k++ ) if( run_isolated(ch,slot,CASE_CPU_LIMIT,m,&d,nullptr) != 1 ) { printf("flaky\n"); return 2; }
    if( replay.size() ) write_replay(replay,build,seed,m,d,ch);
    printf("%s\n%s\n",m.c_str(),d.c_str());
    return 1;
}
} // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ
// coverage guided mode: bytes become choices; a failure is saved as a choice list and aborts
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    Source s(data,size); Ctx c; std::string m; bool bad = false;
    try { bad = run_one(s,c,m); } catch( const Discard& ) { return 0; }
    if( bad ) { fprintf(stderr,"PBT-FAILURE %s\n",m.c_str()); abort(); }
    return 0;
}
#else
int main(int argc, char** argv) {
    std::map<std::string,std::string> a;
    for( int i = 1; i+1 < argc; i += 2 ) a[argv[i]] = argv[i+1];
    auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(),nullptr,10) : d; };
    if( a.count("--print-cases") ) { printf("%llu\n",(unsigned long long)PBT_CASES_QUICK); return 0; }
    signal(SIGPIPE,SIG_IGN);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    if( const char* mb = getenv("PBT_AS_MB") ) { rlim_t n = (rlim_t)strtoull(mb,nullptr,10) << 20; if( n ) { struct rlimit r = {n,n}; setrlimit(RLIMIT_AS,&r); } }
#endif
#ifdef PBT_HOOKS
    __sanitizer_install_malloc_and_free_hooks(hook_m,hook_f);
#endif
    g_errfile = a.count("--errfile") ? a["--errfile"] : "";
    Worker* main_slot = shared(1);
    if( a.count("--replay") ) {
        std::vector<uint64_t> v = load_choices(a["--replay"].c_str());
        std::string m,d; std::ifstream in(a["--replay"]); std::string line;
        while( std::getline(in,line) ) if( line.compare(0,9,"sequence:") == 0 ) {
            std::istringstream is(line.substr(9)); uint64_t q[4]; is >> q[0] >> q[1] >> q[2] >> q[3];
            int r = 0; for( int k = 0; k < std::max(1,pbt_retries) && r == 0; k++ ) r = run_sequence(q[0],q[1],q[2],q[3],main_slot,m,&d);
            printf("%s\n%s\n%s\n",d.c_str(), r == 1 ? "FAILS:" : r == 0 ? "passes" : "undecided",m.c_str());
            return r;
        }
        int r = run_isolated(v,main_slot,CASE_CPU_LIMIT,m,&d,nullptr,pbt_retries > 1 ? 40 : 1);
        printf("%s\n%s\n%s\n",d.c_str(), r == 1 ? "FAILS:" : r == 0 ? "passes" : "undecided",m.c_str());
        return r;
    }
    if( a.count("--bytes") ) {   // turn a fuzzer input into a choice list
        std::ifstream in(a["--bytes"],std::ios::binary);
        std::string b((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>());
        std::vector<uint64_t> v = record_case([&]() { return new Source((const uint8_t*)b.data(),b.size()); });
        printf("choices:"); for( uint64_t x : v ) printf(" %llu",(unsigned long long)x);
        printf("\n");
        return 0;
    }
    if( a.count("--shrink-file") ) {   // shrink and confirm a choice list found elsewhere
        std::vector<uint64_t> v = load_choices(a["--shrink-file"].c_str());
        return finish_external(v,main_slot,(double)num("--shrink",40),a.count("--replay-out") ? a["--replay-out"] : "",a.count("--build") ? a["--build"] : "",num("--seed",1));
    }
    const uint64_t seed = num("--seed",1), cases = num("--cases",PBT_CASES_QUICK);
    const uint32_t procs = (uint32_t)num("--procs",4);
    const double tcap = (double)num("--time",120);
    const double shrink_budget = (double)num("--shrink",40);
    const std::string out = a.count("--out") ? a["--out"] : "/dev/stdout";
    const std::string replay = a.count("--replay-out") ? a["--replay-out"] : "";
    const std::string build = a.count("--build") ? a["--build"] : "";
    const std::string hashdir = a.count("--hashes") ? a["--hashes"] : "";
    double t0 = now();
    Worker* ws = shared(procs);
    std::vector<pid_t> pids(procs,0);
    uint64_t undecided = 0;
    for( uint32_t w = 0; w < procs; w++ ) {
        fflush(stdout);
        pid_t pid = fork();
        if( pid == 0 ) {
            W = &ws[w];
            int fd = open("/dev/null",O_WRONLY); if( fd >= 0 && !a.count("--verbose") ) { dup2(fd,2); dup2(fd,1); }
            std::vector<uint64_t> hashes;
            const bool cold = pbt_cold && w%(uint32_t)pbt_cold == (uint32_t)pbt_cold-1;
            for( uint64_t i = w; i < cases; i += cold ? (uint64_t)procs*8 : procs ) {
                if( (cold || (W->evaluations & 15) == 0) && now()-t0 > tcap ) break;
                W->current = i+1;
                pid_t child = 0;
                if( cold ) {
                    W->hash = 0; child = fork(); if( child < 0 ) break;
                    if( child == 0 ) { pbt_fresh = true; prctl(PR_SET_PDEATHSIG,SIGKILL); }
                    else {
                        int st = 0; while( waitpid(child,&st,0) < 0 && errno == EINTR ) {}
                        if( WIFSIGNALED(st) ) { signal(WTERMSIG(st),SIG_DFL); kill(getpid(),WTERMSIG(st)); _exit(43); }
                        if( WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 44 ) _exit(WEXITSTATUS(st));
                        if( W->hash ) hashes.push_back(W->hash);
                        continue;
                    }
                }
                arm(CASE_CPU_LIMIT);
                Source s(case_seed(seed,i)); Ctx c; std::string m; bool bad;
                try { bad = run_one(s,c,m); } catch( const Discard& ) { W->discarded++; W->evaluations++; if( cold ) _exit(44); continue; }
                W->evaluations++;
                if( bad ) {
                    snprintf(W->msg,sizeof W->msg,"%s",m.c_str()); W->failed_index = i; W->failed = 1; _exit(42);
                }
                if( c.nontrivial ) {
                    W->nontrivial++; uint64_t h = hash_choices(s.rec); if( cold ) W->hash = h ? h : 1; else hashes.push_back(h);
                    if( W->nsample < 4 && W->evaluations > 20*(W->nsample+1) ) W->sample[W->nsample++] = i;
                }
                if( cold ) _exit(0);
            }
            arm(0);
            W->current = 0;
            if( hashdir.size() ) {
                std::string p = hashdir+"/h"+std::to_string(w);
                FILE* f = fopen(p.c_str(),"wb"); if( f ) { fwrite(hashes.data(),8,hashes.size(),f); fclose(f); }
            }
            _exit(0);
        }
        pids[w] = pid;
    }
    // wait; the first abnormal end stops the others
    uint32_t running = procs; std::set<uint32_t> failed; bool stopping = false; double deadline = t0+tcap+60;
    while( running ) {
        int st; pid_t p = waitpid(-1,&st,WNOHANG);
        if( p == 0 ) {
            usleep(5000);
            if( now() > deadline && !stopping ) { stopping = true; for( pid_t q : pids ) if( q ) kill(q,SIGKILL); }
            continue;
        }
        if( p < 0 ) break;
        for( uint32_t w = 0; w < procs; w++ ) if( pids[w] == p ) {
            pids[w] = 0; running--;
            if( WIFEXITED(st) && WEXITSTATUS(st) == 0 ) break;
            if( WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM) ) { if( !stopping ) undecided++; break; }
            if( !ws[w].failed ) { ws[w].failed_index = ws[w].current ? ws[w].current-1 : 0; snprintf(ws[w].msg,sizeof ws[w].msg,"%s",status_text(st).c_str()); ws[w].evaluations++; }
            failed.insert(w);
            if( !stopping ) { stopping = true; for( pid_t q : pids ) if( q ) kill(q,SIGKILL); }
        }
    }
    uint64_t ev = 0, disc = 0, nt = 0; std::map<std::string,uint64_t> labs;
    for( uint32_t w = 0; w < procs; w++ ) {
        ev += ws[w].evaluations; disc += ws[w].discarded; nt += ws[w].nontrivial;
        for( uint32_t i = 0; i < ws[w].nlab; i++ ) labs[ws[w].labs[i].name] += ws[w].labs[i].count;
    }
    std::unordered_set<uint64_t> uniq;
    if( hashdir.size() ) for( uint32_t w = 0; w < procs; w++ ) {
        FILE* f = fopen((hashdir+"/h"+std::to_string(w)).c_str(),"rb"); uint64_t h;
        if( f ) { while( fread(&h,8,1,f) == 1 ) uniq.insert(h); fclose(f); }
    }
    int result = 0; std::string vmsg, vdesc; std::vector<uint64_t> vch; std::string sequence; double explore_s = now()-t0;
    for( uint32_t w : failed ) {
        uint64_t i = ws[w].failed_index;
        std::vector<uint64_t> ch = record_case([&]() { return new Source(case_seed(seed,i)); });
        std::string m = ws[w].msg; std::string d;
        int rr = run_isolated(ch,main_slot,CASE_CPU_LIMIT,m,nullptr,nullptr);
        if( rr != 1 ) {   // does it take state left behind by earlier cases?
            std::string first = ws[w].msg; uint64_t count = 2; bool hit = false; double t1 = now();
            auto run = [&](std::string* desc) { for( int k = 0; k < std::max(1,pbt_retries); k++ ) if( run_sequence(seed,procs,i,count,main_slot,m,desc) == 1 ) return true; return false; };
            for( ; ; count *= 4 ) { if( run(nullptr) ) { hit = true; break; } if( count > i/procs+1 || now()-t1 > 60 ) break; }
            for( int k = 0; hit && k < 2; k++ ) hit = run(&d);
            if( hit ) { result = 1; vmsg = "after earlier calls in the same process: "+m; vdesc = d; std::ostringstream q; q << seed << " " << procs << " " << i << " " << count; sequence = q.str(); break; }
            vmsg = "not reproducible in isolation: "+first; if( result == 0 ) result = 2; continue;
        }
        const std::vector<uint64_t> drawn = ch;
        ch = shrink(ch,main_slot,m,shrink_budget);
        int again = 0;
        for( int k = 0; k < 3; k++ ) { std::string m2,d2; if( run_isolated(ch,main_slot,CASE_CPU_LIMIT,m2,&d2,nullptr) == 1 ) { again++; m = m2; d = d2; } }
        if( again == 3 ) { result = 1; vmsg = m; vdesc = d; vch = ch; break; }
        // depends on the schedule: the case as it was drawn may fail more readily than the shrunk one
        int seen = 0; double t1 = now();
        for( int k = 0; pbt_retries > 1 && k < 60 && seen < 3 && now()-t1 < 60; k++ ) { std::string m2,d2; if( run_isolated(drawn,main_slot,CASE_CPU_LIMIT,m2,&d2,nullptr,1) == 1 ) { seen++; m = m2; d = d2; } }
        if( seen >= 2 ) { result = 1; vmsg = m; vdesc = d; vch = drawn; break; }
        vmsg = "flaky: "+m; if( result == 0 ) result = 2;
    }
    if( result == 1 && replay.size() ) {
        write_replay(replay,build,seed,vmsg,vdesc,vch);
        if( sequence.size() ) { std::ofstream f(replay,std::ios::app); f << "sequence: " << sequence << "\n"; }
    }
    std::ostringstream o;
    o << "{\"property\":" << jstr(PBT_PROPERTY) << ",\"build\":" << jstr(build) << ",\"result\":" << result << ",\"evaluations\":" << ev << ",\"discarded\":" << disc
      << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << uniq.size() << ",\"undecided\":" << undecided << ",\"planned\":" << cases
      << ",\"rule\":" << jstr(PBT_RULE) << ",\"assumptions\":" << jstr(PBT_ASSUMPTIONS) << ",\"explore_s\":" << explore_s << ",\"message\":" << jstr(vmsg) << ",\"case\":" << jstr(vdesc) << ",\"classes\":{";
    bool first = true; for( auto& kv : labs ) { o << (first?"":",") << jstr(kv.first) << ":" << kv.second; first = false; }
    o << "},\"samples\":["; first = true; int ns = 0;
    for( uint32_t w = 0; w < procs && ns < 5 && result == 0; w++ ) for( uint32_t k = 0; k < ws[w].nsample && k < 2 && ns < 5; k++, ns++ ) {
        pid_t pid = fork();
        if( pid == 0 ) { int fd = open("/dev/null",O_WRONLY); if( fd >= 0 ) { dup2(fd,2); dup2(fd,1); } W = nullptr; Source s(case_seed(seed,ws[w].sample[k])); Ctx c; c.want_desc = true; std::string m; try { run_one(s,c,m); } catch( const Discard& ) {} snprintf(main_slot->desc,2400,"%s",c.desc.str().c_str()); _exit(0); }
        int st; waitpid(pid,&st,0);
        o << (first?"":",") << jstr(std::string("case ")+std::to_string(ws[w].sample[k])+": "+main_slot->desc); first = false;
    }
    o << "]}\n";
    std::ofstream f(out); f << o.str(); f.close();
    return result;
}
#endif
