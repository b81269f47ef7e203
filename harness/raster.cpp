// The rasterizer against exact scan lines.
#include "gen.hpp"
#include "poly_ops/poly_ops.hpp"
#include "poly_ops/polydraw.hpp"
using namespace pbt; using namespace geom;
namespace po = poly_ops;
namespace pd = poly_ops::draw;

struct Frac { i128 n,d; }; // d > 0
static bool operator<(const Frac &a,const Frac &b) { return a.n*b.d < b.n*a.d; }
static bool operator==(const Frac &a,const Frac &b) { return a.n*b.d == b.n*a.d; }
static i128 floor_of(const Frac &f) { i128 q = f.n/f.d; return f.n%f.d < 0 ? q-1 : q; }

struct Row { std::set<i64> must,may; };
static bool fills(int rule,long w) { return rule == 0 ? w != 0 : rule == 1 ? w % 2 != 0 : rule == 2 ? w > 0 : w < 0; }

// rule < 0: span for every winding number; the winding of the strict inside of
// spans goes to "wind" instead
static Row exact_row(const std::vector<Loop> &loops,i64 y,i64 width,int rule,std::map<i64,std::set<long>> *wind=nullptr) {
    std::vector<std::pair<Frac,int>> xs;
    for(auto &l : loops) for(std::size_t i=0; i<l.pts.size(); ++i) {
        P a = l.pts[i], b = l.pts[(i+1)%l.pts.size()];
        if(a.y == b.y) continue;
        int dir = 1;
        if(a.y > b.y) { std::swap(a,b); dir = -1; }
        if(y < a.y || y >= b.y) continue;
        i128 dy = b.y-a.y;
        xs.push_back({{i128(a.x)*dy+i128(b.x-a.x)*(y-a.y),dy},dir});
    }
    std::sort(xs.begin(),xs.end(),[](auto &a,auto &b) { return a.first < b.first; });
    Row row;
    long w = 0;
    auto put = [&](std::set<i64> &s,i128 a,i128 b) { // pixels a..b that exist
        if(b < 0 || a >= width) return;
        for(i64 x=static_cast<i64>(std::max<i128>(a,0)); x<=static_cast<i64>(std::min<i128>(b,width-1)); ++x) s.insert(x);
    };
    for(std::size_t i=0; i<xs.size();) {
        std::size_t j = i;
        while(j < xs.size() && xs[j].first == xs[i].first) w -= xs[j++].second; // from left to right: upward edges enter
        if(j-i > 1) put(row.may,floor_of(xs[i].first),xs[i].first.n/xs[i].first.d);   // zero width
        if(j < xs.size() && w != 0) {
            i128 a = floor_of(xs[i].first), b = floor_of(xs[j].first);
            if(wind) { for(i128 x=std::max<i128>(a+1,a == -1 ? 1 : 0); x<=std::min<i128>(b-1,width-1); ++x) (*wind)[static_cast<i64>(x)].insert(w); }
            if(rule < 0 || fills(rule,w)) {
                put(row.must,a,b);
                // a span that ends between -1 and 0 is truncated towards 0
                put(row.may,a,b < 0 && xs[j].first.n > -xs[j].first.d ? 0 : b);
            }
        }
        i = j;
    }
    return row;
}
template<typename C> static void check_with(const Case &c,Ctx &ctx,pd::rasterizer<C> &ras,i64 width,i64 height,int rule,int api) {
    std::map<i64,std::set<i64>> got;
    i64 last_y = -1;
    auto row = [&](unsigned x1,unsigned x2,unsigned y) {
        REQUIRE_PROP(x1 <= x2 && x2 < width && y < height,"raster: span ",x1,"..",x2," in row ",y," of a ",width,"x",height," picture");
        REQUIRE_PROP(static_cast<i64>(y) >= last_y,"raster: row ",y," after row ",last_y);
        last_y = y;
        for(i64 x=x1; x<=x2; ++x) got[y].insert(x);
    };
    std::map<i64,std::map<i64,std::set<long>>> wind;
    if(api == 0) ras.draw(static_cast<unsigned>(width),static_cast<unsigned>(height),row,static_cast<pd::fill_rule_t>(rule));
    else {
        auto st = ras.scan_lines(static_cast<unsigned>(width),static_cast<unsigned>(height));
        pd::scan_line sc;
        i64 px = 0, py = -1;
        while(st(ras,sc)) {
            REQUIRE_PROP(sc.winding != 0,"raster: span with winding number 0 in row ",sc.y);
            REQUIRE_PROP(static_cast<i64>(sc.y) != py || static_cast<i64>(sc.x2) <= px,"raster: spans overlap in row ",sc.y,": ",sc.x1,"..",sc.x2," after one that starts at ",px);
            px = sc.x1; py = sc.y;
            row(sc.x1,sc.x2,sc.y);
            for(i64 x=sc.x1; x<=i64(sc.x2); ++x) wind[sc.y][x].insert(sc.winding);
        }
        rule = -1;
    }
    u64 painted = 0, blank = 0;
    for(i64 y=0; y<height; ++y) {
        std::map<i64,std::set<long>> w;
        Row e = exact_row(c.loops,y,width,rule,&w);
        auto &g = got[y];
        for(i64 x : e.must) { if(!g.count(x)) fail("raster: pixel ",x," of row ",y," is not painted"); ++painted; }
        for(i64 x : g) if(!e.must.count(x) && !e.may.count(x)) fail("raster: pixel ",x," of row ",y," is painted");
        blank += static_cast<u64>(width)-g.size();
        if(api) for(auto &[x,s] : w) if(s != wind[y][x]) fail("raster: pixel ",x," of row ",y," has winding number ",*s.begin()," but is reported with ",wind[y][x].empty() ? 0 : *wind[y][x].begin());
    }
    ctx.bump("painted",painted);
    ctx.bump("blank",blank);
    ctx.nontrivial(painted && blank);
}
template<typename C> static void check_type(const Case &c,Ctx &ctx) {
    pd::rasterizer<C> ras;
    i64 w = c.get("width"), h = c.get("height");
    int n = static_cast<int>(c.get("repeat"));
    auto add = [&] {
        std::vector<std::vector<po::point_t<C>>> all;
        for(auto &l : c.loops) {
            all.emplace_back();
            for(auto &p : l.pts) all.back().push_back({static_cast<C>(p.x),static_cast<C>(p.y)});
        }
        if(c.get("add") == 0) ras.add_loops(all);
        else if(c.get("add") == 1) for(auto &l : all) ras.add_loops(l);
        else for(auto &l : all) { auto s = ras.add_loop(); for(auto &p : l) s(p); }
    };
    add();
    for(int i=0; i<=n; ++i) {
        if(i == 1) { // drawing again, then other loops
            check_with<C>(c,ctx,ras,w,h,static_cast<int>(c.get("rule")),static_cast<int>(c.get("api")));
            ctx.bump("drawn-again");
        }
        if(i == 2) { add(); ctx.bump("cleared"); }
        if(i == 3) { ras.add_loops(std::vector<po::point_t<C>>{{0,0},{5,0},{0,5}}); ras.clear(); add(); }
        check_with<C>(c,ctx,ras,w,h,static_cast<int>(c.get("rule")),static_cast<int>(c.get("api")));
    }
}
static void raster_check(const Case &c,Ctx &ctx) {
    i64 w = c.get("width"), h = c.get("height"), t = c.get("type");
    if(w < 1 || h < 1 || w > 4000 || h > 4000 || c.get("rule") < 0 || c.get("rule") > 3) throw Discard{};
    i64 lim = t == 1 ? (i64(1) << 14)-1 : t == 2 ? (i64(1) << 60) : (i64(1) << 30)-1;
    for(auto &l : c.loops) for(auto &p : l.pts) if(std::abs(p.x) > lim || std::abs(p.y) > std::min<i64>(lim,200000)) throw Discard{};
    if(t == 1) check_type<std::int16_t>(c,ctx);
    else if(t == 2) check_type<std::int64_t>(c,ctx);
    else check_type<std::int32_t>(c,ctx);
    auto s = segments(c.loops);
    u64 cr = 0, tj = 0, same = 0;
    if(s.size() < 40) for(std::size_t i=0; i<s.size(); ++i) for(std::size_t j=i+1; j<s.size(); ++j) {
        auto k = classify(s[i],s[j]);
        cr += k == CROSS; tj += k == TJUNC; same += k == SAME || k == PARTIAL_OVERLAP;
    }
    if(cr) ctx.bump("with-crossings");
    if(tj) ctx.bump("with-T-junctions");
    if(same) ctx.bump("with-coincident-edges");
}
static Case gen_raster(Rng &r) {
    Case c;
    i64 m = r.pick({4,8,12,30,60,100});
    int n = static_cast<int>(r.in(1,4));
    for(int i=0; i<n; ++i) {
        Loop l;
        switch(r.in(0,6)) {
        case 0: l.pts = gen::random_poly(r,static_cast<int>(r.in(1,8)),0,m); break;
        case 1: l.pts = gen::rectilinear_walk(r,static_cast<int>(m)); break;
        case 2: l.pts = gen::octilinear_walk(r,static_cast<int>(m)); break;
        case 3: l.pts = gen::star_poly(r,m/2,m/2,m/2+1,static_cast<int>(r.in(5,11)),2); break;
        case 4: l.pts = gen::blob(r,r.in(0,m),r.in(0,m),m/2+1,static_cast<int>(r.in(3,12))); break;
        case 5: { P q{r.in(0,m),r.in(0,m)}; int k = static_cast<int>(r.in(1,4)); for(int j=0; j<k; ++j) { l.pts.push_back(q); l.pts.push_back({r.in(0,m),r.in(0,m)}); l.pts.push_back({r.in(0,m),r.in(0,m)}); } } break; // a fan through one point
        default: l.pts = gen::random_poly(r,3,0,m);
        }
        c.loops.push_back(l);
    }
    gen::spice(r,c.loops);
    for(auto &l : c.loops) l.set = l.kind = 0;
    i64 dx = 0, dy = 0, kx = 1, ky = 1;
    if(r.chance(1,3)) { dx = r.in(-m,m); dy = r.in(-m,m); }
    if(r.chance(1,8)) kx = r.pick({2,3,100,100000,7000000});
    if(r.chance(1,8)) ky = r.pick({2,3,20});
    for(auto &l : c.loops) for(auto &p : l.pts) { p.x = (p.x+dx)*kx; p.y = (p.y+dy)*ky; }
    c.p["width"] = r.chance(3,4) ? r.in(1,m+2) : r.in(1,300);
    c.p["height"] = r.chance(3,4) ? r.in(m/2+1,m+2) : r.in(1,300);
    c.p["rule"] = r.in(0,3);
    c.p["api"] = r.chance(1,3);
    c.p["add"] = r.in(0,2);
    c.p["repeat"] = r.chance(1,4) ? r.in(1,3) : 0;
    c.p["type"] = r.in(0,2);
    return c;
}
Register r1("raster",gen_raster,raster_check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
