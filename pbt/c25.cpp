// C25: finding and loading the native library
#include "common.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>
using namespace pbt;
const char* PBT_PROPERTY = "C25";
const char* PBT_RULE = "A case starts one to three Java VMs on the same drawn set of directories: the native library (whole, made for another processor, a text file or empty) in any of the places it is looked for, as directory or jar on the class path, or a history of direct calls of the loader's methods. Non-trivial: a library lies in at least one place, or the history has at least two operations.";
const char* PBT_ASSUMPTIONS = "Linux on x86-64 | the temporary directory is not changed by others than the library";
uint64_t PBT_CASES_QUICK = 200;

typedef std::string Str;
static Str slurp(const Str& p) { FILE* f = fopen(p.c_str(),"rb"); Str s; if( !f ) return s; char b[65536]; size_t n; while( (n = fread(b,1,sizeof b,f)) > 0 ) s.append(b,n); fclose(f); return s; }
[[noreturn]] static void die(const char* what) { fprintf(stderr,"harness: %s\n",what); kill(getpid(),SIGKILL); for(;;) pause(); }
static void dump(const Str& p, const Str& data) { FILE* f = fopen(p.c_str(),"wb"); if( !f || fwrite(data.data(),1,data.size(),f) != data.size() || fclose(f) ) die(("cannot write "+p).c_str()); }
static void dirs(const Str& p) { for( size_t i = 1; i <= p.size(); i++ ) if( i == p.size() || p[i] == '/' ) mkdir(p.substr(0,i).c_str(),0755); }
static std::vector<Str> list(const Str& p) { std::vector<Str> r; DIR* d = opendir(p.c_str()); if( !d ) return r; while( dirent* e = readdir(d) ) { Str n = e->d_name; if( n != "." && n != ".." ) r.push_back(n); } closedir(d); std::sort(r.begin(),r.end()); return r; }
static void wipe(const Str& p) { struct stat st; if( lstat(p.c_str(),&st) ) return; if( S_ISDIR(st.st_mode) ) { for( auto& n : list(p) ) wipe(p+"/"+n); rmdir(p.c_str()); } else unlink(p.c_str()); }
static uint32_t crc32(const Str& s) { static uint32_t t[256]; if( !t[1] ) for( uint32_t i = 0; i < 256; i++ ) { uint32_t c = i; for( int k = 0; k < 8; k++ ) c = c&1 ? 0xEDB88320u^(c >> 1) : c >> 1; t[i] = c; } uint32_t c = ~0u; for( unsigned char b : s ) c = t[(c^b)&255]^(c >> 8); return ~c; }
// a jar without compression
static Str jar(const std::vector<std::pair<Str,Str>>& files) {
    Str r, dir; auto le = [](Str& o, uint32_t v, int n) { for( int i = 0; i < n; i++ ) o += (char)(v >> (8*i)); };
    for( auto& f : files ) { uint32_t at = (uint32_t)r.size(), crc = crc32(f.second), n = (uint32_t)f.second.size(); Str common; le(common,0,2); le(common,0,2); le(common,0,2); le(common,0x21,2); le(common,crc,4); le(common,n,4); le(common,n,4); le(common,(uint32_t)f.first.size(),2); le(common,0,2);
        le(r,0x04034b50,4); le(r,10,2); r += common+f.first+f.second; le(dir,0x02014b50,4); le(dir,10,2); le(dir,10,2); dir += common; le(dir,0,2); le(dir,0,2); le(dir,0,2); le(dir,0,4); le(dir,at,4); dir += f.first; }
    uint32_t at = (uint32_t)r.size(); r += dir; le(r,0x06054b50,4); le(r,0,4); le(r,(uint32_t)files.size(),2); le(r,(uint32_t)files.size(),2); le(r,(uint32_t)dir.size(),4); le(r,at,4); le(r,0,2); return r;
}
static const char* EXT[] = {".so",".dll",".dylib"};
struct World {
    Source& s; Ctx& c; Str base, classes, good, small;
    World(Source& s, Ctx& c) : s(s), c(c) {
        const char* sc = getenv("PBT_SCRATCH"); const char* cp = getenv("PBT_JAVA_CP"); const char* lib = getenv("PBT_JAVA_LIB"); if( !sc || !cp || !lib || !getenv("PBT_JAVA") ) die("environment is not set");
        classes = cp; static Str g, m; if( g.empty() ) { g = slurp(Str(lib)+"/libJNIBoofCPP.so"); m = slurp(Str(lib)+"/empty.so"); } good = g; small = m; if( good.empty() || small.empty() ) die("no library");
        base = Str(sc)+"/c25.XXXXXX"; if( !mkdtemp(&base[0]) ) die("mkdtemp"); 
    }
    ~World() { wipe(base); }
    // contents of a library file and whether it can be loaded
    Str contents(int kind, const Str& whole) { Str d = kind == 1 ? Str("not a library\n") : kind == 2 ? Str() : whole; if( kind == 3 ) d[18] = (char)183; else if( kind == 0 && s.draw(3) == 2 ) d += Str((size_t)s.draw(1100),'x'); return d; }
    int quality() { return s.draw(4) == 3 ? 1+(int)s.draw(3) : 0; }
    struct Out { std::vector<Str> lines; Str err; int status; };
    // starts n VMs on the same script at once
    std::vector<Out> run(const Str& script, const Str& cp, const Str& libpath, const Str& tmp, int n) {
        dump(base+"/script",script); std::vector<pid_t> pid; std::vector<Out> res;
        for( int i = 0; i < n; i++ ) {
            Str o = base+"/out"+std::to_string(i), e = base+"/err"+std::to_string(i); pid_t p = fork(); if( p < 0 ) die("fork");
            if( p == 0 ) {
                int fo = open(o.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644), fe = open(e.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644), fi = open("/dev/null",O_RDONLY); dup2(fi,0); dup2(fo,1); dup2(fe,2); if( chdir((base+"/work").c_str()) ) _exit(99);
                Str a1 = "-Djava.io.tmpdir="+tmp, a2 = "-Djava.library.path="+libpath, sc = base+"/script"; const char* java = getenv("PBT_JAVA");
                execl(java,java,"-XX:-UsePerfData","-XX:+UseSerialGC","-XX:TieredStopAtLevel=1","-Xmx64m","-Xshare:auto","-XX:-CreateCoredumpOnCrash",a1.c_str(),a2.c_str(),"-cp",cp.c_str(),"Loader",sc.c_str(),(char*)nullptr); _exit(99);
            }
            pid.push_back(p);
        }
        for( int i = 0; i < n; i++ ) {
            Out r; int t = 0; while( waitpid(pid[i],&r.status,WNOHANG) == 0 ) { if( ++t > 24000 ) { for( pid_t p : pid ) kill(p,SIGKILL); wipe(base); die("a Java VM did not end within two minutes"); } timespec d = {0,5000000}; nanosleep(&d,nullptr); }
            r.err = slurp(base+"/err"+std::to_string(i)); Str o = slurp(base+"/out"+std::to_string(i)), l; for( char ch : o ) if( ch == '\n' ) { r.lines.push_back(l); l.clear(); } else l += ch;
            if( r.err.find("insufficient memory") != Str::npos || r.err.find("Could not create the Java Virtual Machine") != Str::npos || (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 99) || (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGKILL) ) { wipe(base); die("a Java VM could not be run"); }
            res.push_back(r);
        }
        for( auto& r : res ) { if( r.lines.empty() || r.lines.back() != "end" || r.status != 0 ) { Str m; for( auto& l : r.lines ) m += l+"\n"; c.fail("the Java VM ended with status ",r.status," after\n",m,r.err.substr(0,1500)); } }
        return res;
    }
    // directories and jars on the class path holding the given resources
    Str classpath(std::vector<std::pair<Str,Str>>& res) {
        int mode = (int)s.draw(3); std::vector<std::pair<Str,Str>> inJar; Str cp = classes;
        for( auto& r : res ) if( mode == 1 || (mode == 2 && s.flag()) ) inJar.push_back(r); else { Str p = base+"/resources"+r.first; dirs(p.substr(0,p.rfind('/'))); dump(p,r.second); }
        for( auto& r : inJar ) r.first = r.first.substr(1);
        if( !inJar.empty() ) { dump(base+"/lib.jar",jar(inJar)); cp += ":"+base+"/lib.jar"; c.label("jar"); } dirs(base+"/resources"); return cp+":"+base+"/resources";
    }
    std::vector<Str> temporary(const Str& tmp) {   // leftovers of others
        int n = (int)s.draw(3); for( int i = 0; i < n; i++ ) { Str d = tmp+"/boofcpplibs"+std::to_string(1000+s.draw(1000000)); dirs(d); if( s.flag() ) dump(d+"/libJNIBoofCPP.so","another's"); } return list(tmp);
    }
    void clean(const Str& tmp, const std::vector<Str>& before) { std::vector<Str> now = list(tmp); Str l; for( auto& n : now ) { l += n; for( auto& f : list(tmp+"/"+n) ) l += "/"+f; l += " "; } c.check(now == before,"temporary directory holds ",l,"after the VM ended"); for( auto& n : now ) for( auto& f : list(tmp+"/"+n) ) c.check(slurp(tmp+"/"+n+"/"+f) == "another's","temporary file of another process was changed"); }

    void search() {
        bool missing = s.draw(10) == 9; Str tmp = base+"/tmp", libpath = base+"/libpath"; if( !missing ) dirs(tmp); dirs(libpath); dirs(base+"/work"); std::vector<Str> before; if( !missing ) before = temporary(tmp); if( missing ) c.label("no temporary directory");
        struct Place { Str dir; bool resource; }; Place places[] = {{libpath,false},{base+"/work/build/boofcpp-jni",false},{base+"/build/boofcpp-jni",false},{"/",true},{"/arm64-v8a/",true},{"/armeabi-v7a/",true}};
        Str expect; bool any = false; std::vector<std::pair<Str,Str>> res; uint64_t many = s.draw(4); int begin = (int)s.draw(9); if( begin > 6 ) begin = 0;
        for( int p = 0; p < 6; p++ ) {
            if( p < begin || s.draw(4) > many ) continue; if( !places[p].resource ) dirs(places[p].dir); int first = p == 0 ? 0 : (int)s.draw(3), count = p == 0 ? 1 : 1+(int)s.draw(2);
            for( int k = 0; k < 3; k++ ) {
                if( k < first || k >= first+count ) continue; int q = quality(); Str name = Str("libJNIBoofCPP")+EXT[k], d = contents(q,good); any = true; const char* kinds[] = {"","text ","empty ","foreign "}; c.note("\n ",kinds[q],"library in place ",p,": ",name);
                if( places[p].resource ) res.push_back({places[p].dir+name,d}); else dump(places[p].dir+"/"+name,d);
                if( q == 0 && expect.empty() && !(places[p].resource && missing) ) { expect = places[p].resource ? "/"+name+" (deleted)" : places[p].dir+"/"+name; c.label(Str("found in place ")+std::to_string(p)); }
            }
        }
        Str cp = classpath(res); int n = s.draw(4) == 3 ? 2+(int)s.draw(2) : 1, threads = s.draw(3) == 2 ? 2+(int)s.draw(4) : 1; c.note("\n ",n," VMs with ",threads," threads",missing ? ", no temporary directory" : ""); if( expect.empty() ) c.label("no library anywhere"); if( any ) c.nontrivial = true; if( n > 1 ) c.label("several VMs");
        std::vector<Out> out = run("initialize\t"+std::to_string(threads)+"\nfilter\nmapped\t"+base+"\n",cp,libpath,tmp,n);
        for( auto& o : out ) {
            c.check(o.lines[0] == "fine","BoofCPP could not be initialized: ",o.lines[0]); bool told = o.err.find("Failed to load native library") != Str::npos;
            if( expect.empty() ) { c.check(told,"no library anywhere, but nothing was reported. Mapped: ",o.lines[2]); c.check(o.lines[1] != "0 0 1","a filter ran without a library"); }
            else {
                c.check(!told,"library not loaded although there is one: ",expect," ",o.err.substr(0,600)); c.check(o.lines[1] == "0 0 1","fixed threshold above 10 of 5 10 200 gave ",o.lines[1]); Str m = o.lines[2]; size_t bar = m.find('|'); bool jarred = expect[0] == '/' && expect.compare(0,base.size(),base) != 0; std::set<Str> libs; 
                while( true ) { Str one = m.substr(0,bar); if( one.find(".jar") == Str::npos && !one.empty() ) libs.insert(one); if( bar == Str::npos ) break; m = m.substr(bar+1); bar = m.find('|'); }
                c.check(libs.size() == 1,libs.size()," libraries are mapped: ",o.lines[2]); Str got = *libs.begin(); c.check(jarred ? got.size() > expect.size() && got.compare(got.size()-expect.size(),expect.size(),expect) == 0 && got.compare(0,tmp.size(),tmp) == 0 : got == expect || got == base+"/work/../build/boofcpp-jni/"+expect.substr(expect.rfind('/')+1),"loaded ",got," instead of ",expect);
            }
            c.check(o.err.find("Exception") == Str::npos,"a stack trace was printed: ",o.err.substr(0,800));
        }
        if( !missing ) clean(tmp,before); else c.check(list(tmp).empty(),"a missing temporary directory was filled");
    }
    void direct() {
        Str tmp = base+"/tmp"; dirs(tmp); dirs(base+"/work"); dirs(base+"/none"); std::vector<Str> before = temporary(tmp); std::vector<Str> names = {"JNIBoofCPP","x","a.b"}, rdirs = {"/","/a/","/a/b/"}, ldirs = {base+"/l0",base+"/l1",base+"/l1/deep"}; std::vector<std::pair<Str,Str>> res;
        // library number n has these files: quality by place and extension, or none
        int there[3][6][3]; for( auto& a : there ) for( auto& b : a ) for( int& q : b ) q = -1;
        for( int i = 0, n = (int)s.draw(40); i < n; i++ ) { int name = (int)s.draw(3), place = (int)s.draw(6), ext = (int)s.draw(3), q = quality(); if( there[name][place][ext] >= 0 ) continue; there[name][place][ext] = q; Str f = "lib"+names[name]+EXT[ext], d = contents(q,small); c.note("\n ",f," of kind ",q," in place ",place); if( place < 3 ) { dirs(ldirs[place]); dump(ldirs[place]+"/"+f,d); } else res.push_back({rdirs[place-3]+f,d}); }
        Str cp = classpath(res), script; std::vector<Str> want, what; std::set<int> loaded; int name = 0; script = "name\t"+names[0]+"\n"; want.push_back("fine"); what.push_back("setLibraryName"); int n = 1+(int)s.draw(12); if( n > 1 ) c.nontrivial = true;
        for( int i = 0; i < n; i++ ) {
            int op = (int)s.draw(8); Str line;
            // a resource of a file name which was loaded before counts as loaded: the VM knows the temporary file's name already
            auto found = [&](int place) { for( int k = 0; k < 3; k++ ) if( there[name][place][k] == 0 || (there[name][place][k] > 0 && place > 2 && loaded.count(3*name+k)) ) { if( place > 2 ) loaded.insert(3*name+k); return Str("true"); } return Str("false"); };
            if( op == 0 ) { name = (int)s.draw(3); line = "name\t"+names[name]; want.push_back("fine"); }
            else if( op < 3 ) { int p = (int)s.draw(4); if( p == 3 ) { line = "local\t"+base+(s.flag() ? "/none" : "/absent"); want.push_back("false"); } else { line = "local\t"+ldirs[p]+(s.flag() ? "/" : ""); want.push_back(found(p)); c.label(want.back() == "true" ? "local found" : "local not found"); } }
            else if( op < 5 ) { int p = (int)s.draw(5); if( p == 3 ) { line = "jar\t/absent"; want.push_back("false"); } else if( p == 4 ) { line = "jar\trelative"; want.push_back("threw java.lang.IllegalArgumentException"); } else { Str d = rdirs[p]; if( d.size() > 1 && s.flag() ) d.pop_back(); line = "jar\t"+d; want.push_back(found(p+3)); c.label(want.back() == "true" ? "resource found" : "resource not found"); } }
            else { uint32_t size = s.draw(3) == 2 ? 1024*(uint32_t)s.draw(6)+(uint32_t)s.draw(3)-1 : (uint32_t)s.draw(9000); if( size > 100000 ) size = 0; uint32_t chunk = s.flag() ? 1000000 : 1+(uint32_t)s.draw(3000); int fail = s.draw(4) == 3 ? (int)s.draw(size+1) : -1; line = "copy\t"+base+"/work/copy\t"+std::to_string(size)+"\t"+std::to_string(chunk)+"\t"+std::to_string(fail)+"\t"+(s.flag() ? "1" : "0"); want.push_back(fail >= 0 ? "failed" : "fine"); c.label("copy"); }
            what.push_back(line); script += line+"\n"; c.note("\n ",line);
        }
        std::vector<Out> out = run(script,cp,base+"/none",tmp,1); c.check(out[0].lines.size() == want.size()+1,"harness lost a line");
        for( size_t i = 0; i < want.size(); i++ ) { Str got = out[0].lines[i]; if( want[i].compare(0,5,"threw") == 0 ) got = got.substr(0,want[i].size()); c.check(got == want[i],"operation ",i," ",what[i]," gave '",out[0].lines[i],"' instead of '",want[i],"'"); }
        clean(tmp,before); c.check(list(base+"/work").empty(),"files were left in the working directory");
    }
};
void pbt_case(Source& s, Ctx& c) { World w(s,c); if( s.draw(3) == 2 ) w.direct(); else w.search(); }
