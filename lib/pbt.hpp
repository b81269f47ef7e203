// Minimal property-based-testing runtime: deterministic case generation from a
// (seed,index) pair, a text format for cases (the replay files), counters for
// the evidence, and a run/gen/replay command line used by bin/check.py.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace pbt {
using i64 = std::int64_t;
using u64 = std::uint64_t;
using i128 = __int128;
using u128 = unsigned __int128;

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // inclusive range
    i64 in(i64 lo, i64 hi) {
        u64 span = static_cast<u64>(hi) - static_cast<u64>(lo);
        if(span == ~0ull) return static_cast<i64>(next());
        u64 r = static_cast<u64>((static_cast<u128>(next()) * (static_cast<u128>(span) + 1)) >> 64);
        return static_cast<i64>(static_cast<u64>(lo) + r);
    }
    bool chance(int num, int den) { return in(1,den) <= num; }
    double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[static_cast<std::size_t>(in(0,static_cast<i64>(v.size())-1))]; }
    i64 pick(std::initializer_list<i64> v) { return *(v.begin() + in(0,static_cast<i64>(v.size())-1)); }
};

struct P {
    i64 x=0, y=0;
    auto operator<=>(const P&) const = default;
};

struct Loop {
    int set=0;   // 0: subject, 1: clip (or a harness-specific meaning)
    int kind=0;  // harness-specific flags
    std::vector<P> pts;
    bool operator==(const Loop&) const = default;
};

struct Case {
    std::string prop;
    std::map<std::string,i64> p;
    std::vector<Loop> loops;
    std::vector<std::vector<i64>> words;

    i64 get(const std::string &k,i64 def=0) const {
        auto it = p.find(k);
        return it == p.end() ? def : it->second;
    }

    std::string text() const {
        std::ostringstream o;
        o << "prop " << prop << "\n";
        for(auto &[k,v] : p) o << "param " << k << ' ' << v << "\n";
        for(auto &l : loops) {
            o << "loop " << l.set << ' ' << l.kind;
            for(auto &q : l.pts) o << ' ' << q.x << ',' << q.y;
            o << "\n";
        }
        for(auto &w : words) {
            o << "word";
            for(auto v : w) o << ' ' << v;
            o << "\n";
        }
        return o.str();
    }

    static Case parse(std::istream &is) {
        Case c;
        std::string line;
        while(std::getline(is,line)) {
            if(line.empty() || line[0] == '#') continue;
            std::istringstream ls(line);
            std::string tag;
            ls >> tag;
            if(tag == "prop") ls >> c.prop;
            else if(tag == "param") { std::string k; i64 v; ls >> k >> v; c.p[k] = v; }
            else if(tag == "loop") {
                Loop l;
                ls >> l.set >> l.kind;
                std::string tok;
                while(ls >> tok) {
                    auto k = tok.find(',');
                    l.pts.push_back({std::stoll(tok.substr(0,k)),std::stoll(tok.substr(k+1))});
                }
                c.loops.push_back(std::move(l));
            } else if(tag == "word") {
                std::vector<i64> w;
                i64 v;
                while(ls >> v) w.push_back(v);
                c.words.push_back(std::move(w));
            }
        }
        return c;
    }
};

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
// the case is outside the property's domain: it counts as trivial
struct Discard {};

struct Stats {
    u64 evaluations=0, discarded=0, nontrivial=0;
    std::map<std::string,u64> counters;
    std::set<u64> hashes;   // distinct non-trivial cases
    void bump(const std::string &k,u64 n=1) { counters[k] += n; }
};

struct Ctx {
    Stats &st;
    bool nontriv=false;
    void nontrivial(bool v=true) { nontriv = nontriv || v; }
    void bump(const std::string &k,u64 n=1) { st.bump(k,n); }
};

template<typename... A> std::string cat(const A&... a) {
    std::ostringstream o;
    (o << ... << a);
    return o.str();
}
template<typename... A> [[noreturn]] void fail(const A&... a) { throw Failure(cat(a...)); }
#define REQUIRE_PROP(cond,...) do { if(!(cond)) ::pbt::fail(__VA_ARGS__); } while(0)

struct Property {
    std::function<Case(Rng&)> gen;
    std::function<void(const Case&,Ctx&)> check;
};
inline std::map<std::string,Property> &registry() { static std::map<std::string,Property> r; return r; }
struct Register {
    Register(const std::string &id,std::function<Case(Rng&)> g,std::function<void(const Case&,Ctx&)> c) { registry()[id] = {g,c}; }
};

inline u64 hash_str(const std::string &s) {
    u64 h = 1469598103934665603ull;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline u64 case_seed(u64 seed,u64 index,const std::string &prop) {
    Rng r(seed * 0x9e3779b97f4a7c15ull ^ hash_str(prop));
    u64 a = r.next();
    Rng r2(a ^ (index * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull));
    return r2.next();
}
inline Case make_case(const std::string &prop,u64 seed,u64 index) {
    Rng r(case_seed(seed,index,prop));
    Case c = registry().at(prop).gen(r);
    c.prop = prop;
    return c;
}

// CPU-time watchdog: a single case is given this many seconds of CPU before it
// counts as non-terminating (typical cases take well under 50 ms)
inline int &cpu_limit() { static int v = 20; return v; }
inline void on_prof(int) {
    static const char m[] = "FAILURE: timeout: the case used up its CPU-time limit\n";
    (void)!write(2,m,sizeof(m)-1);
    _exit(77);
}
inline void arm() {
    itimerval t{};
    t.it_value.tv_sec = cpu_limit();
    setitimer(ITIMER_PROF,&t,nullptr);
}
inline void disarm() {
    itimerval t{};
    setitimer(ITIMER_PROF,&t,nullptr);
}

inline std::string jesc(const std::string &s) {
    std::string o;
    for(char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c == '\n') o += "\\n";
        else if(static_cast<unsigned char>(c) < 0x20) o += ' ';
        else o += c;
    }
    return o;
}

inline int pbt_main(int argc,char **argv) {
    signal(SIGPROF,on_prof);
    if(const char *l = getenv("PBT_CPU_LIMIT")) cpu_limit() = atoi(l);
    std::string mode = argc > 1 ? argv[1] : "";
    if(mode == "replay" && argc > 2) {
        std::ifstream f(argv[2]);
        if(!f) { std::cerr << "cannot read " << argv[2] << "\n"; return 2; }
        Case c = Case::parse(f);
        Stats st;
        Ctx ctx{st};
        if(!registry().count(c.prop)) { std::cerr << "unknown property " << c.prop << "\n"; return 2; }
        arm();
        try {
            registry().at(c.prop).check(c,ctx);
        } catch(const Failure &e) {
            std::cerr << "FAILURE: " << e.what() << "\n";
            return 1;
        } catch(const Discard&) {
            std::cerr << "discarded\n";
            return 0;
        } catch(const std::exception &e) {
            std::cerr << "FAILURE: unexpected exception: " << e.what() << "\n";
            return 1;
        }
        std::cerr << (ctx.nontriv ? "ok (non-trivial)\n" : "ok (trivial)\n");
        return 0;
    }
    if(mode == "gen" && argc > 4) {
        std::cout << make_case(argv[2],std::strtoull(argv[3],nullptr,10),std::strtoull(argv[4],nullptr,10)).text();
        return 0;
    }
    // run PROP SEED START STRIDE SECONDS MAXCASES STATUSFILE STATSFILE
    if(mode == "run" && argc > 9) {
        std::string prop = argv[2];
        u64 seed = std::strtoull(argv[3],nullptr,10), start = std::strtoull(argv[4],nullptr,10), stride = std::strtoull(argv[5],nullptr,10);
        double seconds = std::atof(argv[6]);
        u64 maxcases = std::strtoull(argv[7],nullptr,10);
        int fd = open(argv[8],O_RDWR|O_CREAT|O_TRUNC,0644);
        if(fd < 0 || ftruncate(fd,16) != 0) return 2;
        auto *status = static_cast<volatile u64*>(mmap(nullptr,16,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0));
        Stats st;
        std::vector<std::string> samples;
        bool failed = false;
        std::string msg;
        u64 idx = start;
        auto t0 = std::chrono::steady_clock::now();
        Property &pr = registry().at(prop);
        for(u64 n=0; n<maxcases; ++n, idx += stride) {
            if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count() >= seconds) break;
            status[0] = idx; status[1] = n+1;
            arm();
            Case c = make_case(prop,seed,idx);
            Ctx ctx{st};
            ++st.evaluations;
            try {
                pr.check(c,ctx);
            } catch(const Failure &e) { failed = true; msg = e.what(); }
            catch(const Discard&) { ++st.discarded; continue; }
            catch(const std::exception &e) { failed = true; msg = std::string("unexpected exception: ") + e.what(); }
            if(failed) break;
            if(ctx.nontriv) {
                ++st.nontrivial;
                std::string t = c.text();
                if(st.hashes.size() < 4000000) st.hashes.insert(hash_str(t));
                if(samples.size() < 3 && (st.nontrivial % 37) == 1) samples.push_back(t.size() > 1200 ? t.substr(0,1200) + "..." : t);
            }
        }
        disarm();
        std::ofstream o(argv[9]);
        o << "{\"evaluations\":" << st.evaluations << ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial << ",\"distinct\":" << st.hashes.size()
          << ",\"failed\":" << (failed ? "true" : "false") << ",\"index\":" << idx << ",\"message\":\"" << jesc(msg) << "\",\"counters\":{";
        bool first = true;
        for(auto &[k,v] : st.counters) { if(!first) o << ','; first = false; o << '"' << jesc(k) << "\":" << v; }
        o << "},\"samples\":[";
        first = true;
        for(auto &s : samples) { if(!first) o << ','; first = false; o << '"' << jesc(s) << '"'; }
        o << "]}\n";
        o.close();
        status[1] = ~0ull;
        if(failed) { std::cerr << "FAILURE: " << msg << "\n"; return 1; }
        return 0;
    }
    std::cerr << "usage: run|gen|replay\n";
    return 2;
}
} // namespace pbt
#endif
