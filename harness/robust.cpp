// Memory: nothing leaks, nothing is read or written out of place, and running
// out of memory (or any other exception) does no lasting damage.
#include "bool_common.hpp"
#include <memory_resource>
using namespace pbt; using namespace geom; using namespace bc;
namespace po = poly_ops;

[[noreturn]] static void die(const char *m) { std::fputs("FAILURE: ",stderr); std::fputs(m,stderr); std::fputs("\n",stderr); std::fflush(stderr); std::_Exit(1); }

// Keeps account of its blocks and runs out at a chosen request. (A resource of
// its own kind: blocks given back with another size or twice are noticed.)
struct Meter final : std::pmr::memory_resource {
    std::map<void*,std::pair<std::size_t,std::size_t>> live;
    u64 requests = 0, fail_at = 0; // 1 is the first
    bool for_good = false, ran_out = false;
    void *do_allocate(std::size_t n,std::size_t a) override {
        ++requests;
        if(fail_at && (for_good ? requests >= fail_at : requests == fail_at)) { ran_out = true; throw std::bad_alloc(); }
        // aligned as asked for and no more
        char *p = static_cast<char*>(std::pmr::new_delete_resource()->allocate(n+a,a*2))+a;
        std::memset(p,0xa5,n);
        live[p] = {n,a};
        return p;
    }
    void do_deallocate(void *p,std::size_t n,std::size_t a) override {
        auto at = live.find(p);
        if(at == live.end()) die("memory: a block was given back that was not taken from this resource, or was given back twice");
        if(at->second != std::pair(n,a)) die("memory: a block was given back with another size or alignment than it was taken with");
        live.erase(at);
        std::memset(p,0x5a,n);
        std::pmr::new_delete_resource()->deallocate(static_cast<char*>(p)-a,n+a,a*2);
    }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
    void plan(i64 at,bool good) { fail_at = at > 0 ? requests+static_cast<u64>(at) : 0; for_good = good; ran_out = false; }
    void calm() { fail_at = 0; }
};

// The pools of libstdc++ 13 crash once their memory ran out (whoever uses them),
// and hide misuse from AddressSanitizer. These take their place.
void *std::pmr::unsynchronized_pool_resource::do_allocate(std::size_t n,std::size_t a) { return upstream_resource()->allocate(n,a); }
void std::pmr::unsynchronized_pool_resource::do_deallocate(void *p,std::size_t n,std::size_t a) { upstream_resource()->deallocate(p,n,a); }

struct Stop {};
// a range that stops with an exception after some points
struct Broken {
    const std::vector<po::point_t<std::int32_t>> *v;
    i64 after;
    struct iterator {
        using value_type = po::point_t<std::int32_t>; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
        const Broken *b; i64 i;
        value_type operator*() const { if(i >= b->after) throw Stop{}; return (*b->v)[static_cast<std::size_t>(i)]; }
        iterator &operator++() { ++i; return *this; }
        void operator++(int) { ++i; }
        bool operator==(const iterator &o) const { return i == o.i; }
    };
    iterator begin() const { return {this,0}; }
    iterator end() const { return {this,static_cast<i64>(v->size())}; }
};

using C32 = std::int32_t;
using Out = std::vector<std::vector<P>>;
template<typename R> static Out flat(R &&r) { Out o; for(auto &&l : r) { o.emplace_back(); for(auto p : l) { if constexpr(requires { p.p; }) o.back().push_back({p.p[0],p.p[1]}); else o.back().push_back({p[0],p[1]}); } } return o; }
template<typename L> static void tree_rec(L &&l,Out &o,i64 depth) {
    o.push_back({{depth,static_cast<i64>(l.size())}});
    for(auto p : l) { if constexpr(requires { p.p; }) o.back().push_back({p.p[0],p.p[1]}); else o.back().push_back({p[0],p[1]}); }
    for(auto k : l.inner_loops()) tree_rec(k,o,depth+1);
}
template<typename R> static Out nested(R &&r) { Out o; for(auto l : r) tree_rec(l,o,0); return o; }

template<typename CL> static void put(CL &cl,const std::vector<Loop> &in,i64 off,i64 closed,i64 step) {
    for(auto &l : in) {
        auto v = subj::conv<C32>(l.pts);
        if(off) po::add_offset(cl,v,subj::bset(l.set),static_cast<double>(off),static_cast<C32>(step),closed != 0);
        else cl.add_loops(v,subj::bset(l.set));
    }
}
template<typename CL> static Out ask(CL &cl,int op,bool tree) {
    if(tree) return nested(cl.template execute<true>(subj::op(op)));
    return flat(cl.template execute<false>(subj::op(op)));
}
static Out answer(const Case &c) {
    po::clipper<C32> cl;
    put(cl,c.loops,c.get("offset"),c.get("closed"),c.get("step",10));
    return ask(cl,static_cast<int>(c.get("op")),c.get("tree") != 0);
}
static std::string text(const Out &o) { std::vector<Loop> r; for(auto &l : o) r.push_back({0,0,l}); return show(r); }

// words: {what,where,for_good,then}
//  what: 0 memory runs out while adding, 1 while executing, 2 the points stop with an exception
//  then: 0 give up, 1 reset and do it again, 2 do it again, 3 execute what there is, reset and do it again
template<typename CL> static void trouble(const Case &c,Ctx &ctx,CL &cl,Meter &m,const Out &want,bool tracked) {
    int op = static_cast<int>(c.get("op"));
    bool tree = c.get("tree");
    i64 off = c.get("offset"), closed = c.get("closed"), step = c.get("step",10);
    for(auto &w : c.words) {
        if(w.size() < 4) continue;
        i64 what = w[0], where = w[1], then = w[3];
        bool caught = false;
        if(what == 0 && tracked) what = 1; // a tracker is told of points by a destructor
        if(what == 2) {
            if(c.loops.empty()) continue;
            auto v = subj::conv<C32>(c.loops[static_cast<std::size_t>(where) % c.loops.size()].pts);
            try { cl.add_loops(Broken{&v,w[2]},po::bool_set::subject); } catch(const Stop&) { caught = true; ctx.bump("stopped points"); }
        } else {
            try {
                if(what == 0) m.plan(where,w[2]);
                put(cl,c.loops,off,closed,step);
                if(what == 0) m.calm();
                if(what == 1) m.plan(where,w[2]);
                Out got = ask(cl,op,tree);
                m.calm();
                if(!m.ran_out) REQUIRE_PROP(got == want,"memory: ",op_name(op)," with a memory resource gives ",text(got)," instead of ",text(want));
            } catch(const std::bad_alloc&) { caught = true; ctx.bump(what == 0 ? "ran out while adding" : "ran out while executing"); }
            m.calm();
            REQUIRE_PROP(caught == m.ran_out,"memory: that memory ran out was ",caught ? "reported without reason" : "not reported");
        }
        if(caught) ctx.nontrivial(true);
        if(then == 0) return;
        if(then == 3) ask(cl,op,!tree);
        if(then == 2 && what == 1) {} // an execution consumes the input
        else cl.reset();
        put(cl,c.loops,off,closed,step);
        Out got = ask(cl,op,tree);
        REQUIRE_PROP(got == want,"memory: ",op_name(op),": after ",caught ? "a failure" : "an operation"," (",what,",",where,",",w[2],",",then,") the result is ",text(got)," instead of ",text(want));
        ctx.bump("done again");
    }
}
static void failing_check(const Case &c,Ctx &ctx) {
    bool off = c.get("offset");
    if(off) {
        for(auto &l : c.loops) for(auto &p : l.pts) if(std::abs(p.x) > 50000000 || std::abs(p.y) > 50000000) throw Discard{};
        if(std::abs(c.get("offset")) > 1000000 || c.get("step",10) < 1 || std::abs(c.get("offset"))/c.get("step",10)*static_cast<i64>(segments(c.loops).size()+1) > 400) throw Discard{};
    } else if(!fits_type(c.loops,0) || gen::intersection_lcm(c.loops,1) != 1) throw Discard{};
    if(off && c.words.size() > 1) throw Discard{}; // only the first result can be told: rounding is random
    Out want = answer(c);
    Meter m, t;
    // whoever gives a memory resource wants it to be used
    struct Nothing { std::pmr::memory_resource *old = std::pmr::set_default_resource(std::pmr::null_memory_resource()); ~Nothing() { std::pmr::set_default_resource(old); } } nothing;
    {
        if(c.get("tracked")) {
            po::origin_tracked_clipper<C32> cl(po::origin_point_tracker<>(&t),&m);
            if(off) { auto d = c; d.words.clear(); d.words.push_back({1,c.words.empty() ? 0 : c.words[0][1],c.words.empty() ? 0 : c.words[0][2],0}); trouble(d,ctx,cl,m,want,true); }
            else trouble(c,ctx,cl,m,want,true);
        } else {
            po::clipper<C32> cl(&m);
            REQUIRE_PROP(cl.memory() == &m,"memory: memory() is not the resource given");
            if(off) { auto d = c; for(auto &w : d.words) if(w.size() > 3) w[3] = 0; trouble(d,ctx,cl,m,want,false); }
            else trouble(c,ctx,cl,m,want,false);
        }
    }
    REQUIRE_PROP(m.live.empty(),"memory: ",m.live.size()," blocks were not given back");
    REQUIRE_PROP(t.live.empty(),"memory: ",t.live.size()," blocks of the tracker were not given back");
    ctx.bump("requests",m.requests);
    // results that own their memory outlive the clipper
    if(!off) {
        Meter n;
        {
            auto own = [&]() { po::clipper<C32> cl(&n); put(cl,c.loops,0,1,1); return std::move(cl).execute<false>(subj::op(static_cast<int>(c.get("op")))); }();
            auto moved = std::move(own);
            if(!c.get("tree")) REQUIRE_PROP(flat(moved) == want,"memory: a result that outlives its clipper gives ",text(flat(moved))," instead of ",text(want));
            auto own2 = [&]() { po::clipper<C32> cl(&n); put(cl,c.loops,0,1,1); return std::move(cl).execute<true>(subj::op(static_cast<int>(c.get("op")))); }();
            auto moved2 = std::move(own2);
            if(c.get("tree")) REQUIRE_PROP(nested(moved2) == want,"memory: a result that outlives its clipper gives ",text(nested(moved2))," instead of ",text(want));
        }
        REQUIRE_PROP(n.live.empty(),"memory: ",n.live.size()," blocks of results were not given back");
    }
    // free functions, from the resource they are given as well
    {
        Meter n, t2;
        {
            std::vector<std::vector<po::point_t<C32>>> sub,clip;
            for(auto &l : c.loops) (l.set ? clip : sub).push_back(subj::conv<C32>(l.pts));
            auto op = subj::op(static_cast<int>(c.get("op")));
            using T = po::origin_point_tracker<>;
            auto look = [&](const char *what,auto &&f) {
                try {
                    auto r = f();
                    auto s = std::move(r);
                    u64 k = 0;
                    for(auto &&l : s) for(auto p : l) { k += 1; if constexpr(requires { p.p; }) k += p.original_points.size(); }
                    ctx.bump("points of free functions",k);
                } catch(const std::bad_alloc&) { REQUIRE_PROP(false,"memory: ",what," does not only use the resource it is given"); }
            };
            bool tr = c.get("tracked"), tree = c.get("tree");
            i64 step = c.get("step",10);
            if(off) {
                double mag = static_cast<double>(c.get("offset"));
                bool closed = c.get("closed") != 0;
                if(tr) tree ? look("offset",[&]() { return po::offset<true,C32>(sub,mag,static_cast<C32>(step),T(&t2),closed,&n); }) : look("offset",[&]() { return po::offset<false,C32>(sub,mag,static_cast<C32>(step),T(&t2),closed,&n); });
                else tree ? look("offset",[&]() { return po::offset<true,C32>(sub,mag,static_cast<C32>(step),closed,&n); }) : look("offset",[&]() { return po::offset<false,C32>(sub,mag,static_cast<C32>(step),closed,&n); });
            } else if(tree) {
                if(tr) { look("union_op",[&]() { return po::union_op<true,C32>(sub,T(&t2),&n); }); look("normalize_op",[&]() { return po::normalize_op<true,C32>(sub,T(&t2),&n); }); look("boolean_op",[&]() { return po::boolean_op<true,C32>(sub,clip,op,T(&t2),&n); }); }
                else { look("union_op",[&]() { return po::union_op<true,C32>(sub,&n); }); look("normalize_op",[&]() { return po::normalize_op<true,C32>(sub,&n); }); look("boolean_op",[&]() { return po::boolean_op<true,C32>(sub,clip,op,&n); }); }
            } else {
                if(tr) { look("union_op",[&]() { return po::union_op<false,C32>(sub,T(&t2),&n); }); look("normalize_op",[&]() { return po::normalize_op<false,C32>(sub,T(&t2),&n); }); look("boolean_op",[&]() { return po::boolean_op<false,C32>(sub,clip,op,T(&t2),&n); }); }
                else { look("union_op",[&]() { return po::union_op<false,C32>(sub,&n); }); look("normalize_op",[&]() { return po::normalize_op<false,C32>(sub,&n); }); look("boolean_op",[&]() { return po::boolean_op<false,C32>(sub,clip,op,&n); }); }
            }
        }
        REQUIRE_PROP(n.live.empty() && t2.live.empty(),"memory: ",n.live.size()+t2.live.size()," blocks of free functions were not given back");
        REQUIRE_PROP(c.loops.empty() || n.requests > 0,"memory: a free function took nothing from the resource it was given");
    }
}
static void thin(std::vector<Loop> &l,std::size_t most) { while(l.size() > 1 && segments(l).size() > most) l.pop_back(); }
static Case gen_failing(Rng &r) {
    Case c = gen_exact(r);
    thin(c.loops,60);
    c.p["tree"] = r.in(0,1);
    c.p["tracked"] = r.in(0,1);
    if(r.chance(1,3)) {
        c = gen_any(r,r.pick({100,3000,100000}));
        thin(c.loops,15);
        c.p["op"] = pick_op(r);
        c.p["tree"] = r.in(0,1);
        c.p["offset"] = r.in(1,200)*(r.chance(1,3) ? -1 : 1);
        c.p["closed"] = r.in(0,1);
        c.p["step"] = std::max<i64>(r.in(1,100),std::abs(c.get("offset"))*static_cast<i64>(segments(c.loops).size())/60);
        c.p["tracked"] = r.in(0,1);
    }
    i64 most = static_cast<i64>(segments(c.loops).size());
    for(i64 n=c.get("offset") ? 1 : r.in(1,4); n>0; --n) {
        i64 what = r.in(0,5);
        if(what > 2) what = 1;
        if(what == 0) c.p["tracked"] = 0;
        c.words.push_back({what,what == 2 ? r.in(0,9) : what == 0 ? r.in(1,6) : r.chance(1,2) ? r.in(1,12) : r.in(1,12+most*3),what == 2 ? r.in(0,6) : r.in(0,1),n > 1 ? r.in(1,3) : r.in(0,3)});
    }
    return c;
}

// ---- anything at all, under the sanitizers
template<typename C,typename R> static u64 walk(R &&res,bool) {
    u64 n = 0;
    for(auto &&l : res) { std::size_t k = 0; for(auto p : l) { ++k; if constexpr(requires { p.p; }) n += p.original_points.size(); } REQUIRE_PROP(k == l.size(),"hostile: a loop has ",k," points and size() ",l.size()); n += k; }
    return n;
}
template<typename L> static u64 walk_tree(L &&l) {
    u64 n = 0;
    for(auto p : l) { ++n; if constexpr(requires { p.p; }) n += p.original_points.size(); }
    for(auto k : l.inner_loops()) n += walk_tree(k);
    return n;
}
template<typename C,typename Index> static void hostile_as(const Case &c,Ctx &ctx) {
    int op = static_cast<int>(c.get("op"));
    Meter m;
    u64 n = 0;
    {
        auto feed = [&](auto &cl) {
            for(auto &l : c.loops) {
                auto v = subj::conv<C>(l.pts);
                if(l.kind) po::add_offset(cl,v,subj::bset(l.set),static_cast<double>(c.get("mag")),static_cast<C>(c.get("step",1)),l.kind == 1);
                else cl.add_loops(v,subj::bset(l.set));
            }
        };
        if(c.get("tracked")) {
            po::origin_tracked_clipper<C,Index> cl(po::origin_point_tracker<Index>(&m),&m);
            for(int i=0; i<2; ++i) {
                feed(cl);
                if(c.get("tree")) for(auto l : cl.template execute<true>(subj::op(op))) n += walk_tree(l);
                else n += walk<C>(cl.template execute<false>(subj::op(op)),true);
            }
        } else {
            po::clipper<C,Index> cl(&m);
            for(int i=0; i<2; ++i) {
                feed(cl);
                if(c.get("tree")) for(auto l : cl.template execute<true>(subj::op(op))) n += walk_tree(l);
                else n += walk<C>(cl.template execute<false>(subj::op(op)),false);
            }
        }
    }
    REQUIRE_PROP(m.live.empty(),"memory: ",m.live.size()," blocks were not given back");
    ctx.bump("output points",n);
    ctx.bump(cat("int",sizeof(C)*8));
    ctx.nontrivial(n > 0);
}
static void hostile_check(const Case &c,Ctx &ctx) {
    i64 t = c.get("wide");
    if(!fits_type(c.loops,t)) throw Discard{};
    Box b = bounds(c.loops);
    i64 mag = c.get("mag"), step = c.get("step",1);
    bool any = false;
    for(auto &l : c.loops) any |= l.kind != 0;
    if(any) { // offset points, also those of mitres that reach out, have to be representable
        i64 a = std::abs(mag)*4+16;
        if(step < 1 || a < 0 || a > type_max(t)/4 || (b.x1 <= b.x2 && (b.x1 < type_min(t)+a || b.y1 < type_min(t)+a || b.x2 > type_max(t)-a || b.y2 > type_max(t)-a || b.x2-b.x1 > type_max(t)-2*a || b.y2-b.y1 > type_max(t)-2*a))) throw Discard{};
        if(std::abs(mag) / step * static_cast<i64>(segments(c.loops).size()+1) > 400) throw Discard{};
        for(auto &l : c.loops) if(l.kind < 0 || l.kind > 2) throw Discard{};
    }
    switch(t) {
    case 0: c.get("index") ? hostile_as<std::int32_t,std::int32_t>(c,ctx) : hostile_as<std::int32_t,std::size_t>(c,ctx); break;
    case 1: c.get("index") ? hostile_as<std::int64_t,std::uint32_t>(c,ctx) : hostile_as<std::int64_t,std::size_t>(c,ctx); break;
    default: c.get("index") ? hostile_as<std::int16_t,std::int64_t>(c,ctx) : hostile_as<std::int16_t,std::uint16_t>(c,ctx);
    }
}
static Case gen_hostile(Rng &r) {
    Case c;
    switch(r.in(0,4)) {
    case 0: c = gen_exact(r); break;
    case 1: c = gen_meet(r); break;
    default: c = gen_any(r,r.chance(1,2) ? 0 : r.chance(1,4) ? i64(1) << r.in(32,56) : r.pick({400,3000,30000,100000,10000000,500000000,2000000000}));
    }
    bool off = r.chance(1,3);
    if(!r.chance(1,20)) thin(c.loops,off ? 20 : 70);
    i64 t = r.chance(1,2) ? 0 : r.in(0,2);
    if(!fits_type(c.loops,t)) t = fits_type(c.loops,0) ? 0 : 1;
    c.p["wide"] = t;
    c.p["tree"] = r.in(0,1);
    c.p["tracked"] = r.in(0,1);
    c.p["index"] = r.in(0,1);
    if(off) {
        Box b = bounds(c.loops);
        i64 size = b.x1 > b.x2 ? 10 : std::max<i64>(1,std::max(b.x2-b.x1,b.y2-b.y1));
        c.p["mag"] = r.chance(1,6) ? r.in(-2,2) : r.in(-size/8-1,size/4+1);
        c.p["step"] = std::max<i64>({1,std::abs(c.get("mag"))/100*static_cast<i64>(segments(c.loops).size()),r.chance(1,2) ? std::abs(c.get("mag"))/r.in(1,100) : r.in(1,1000)});
        for(auto &l : c.loops) { l.kind = static_cast<int>(r.in(0,2)); if(r.chance(1,8)) l.pts.resize(std::min<std::size_t>(l.pts.size(),static_cast<std::size_t>(r.in(0,2)))); }
    } else if(r.chance(1,3)) place(r,c.loops,t);
    return c;
}

Register r1("failing",gen_failing,failing_check);
Register r2("hostile",gen_hostile,hostile_check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
