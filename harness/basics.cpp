// Small building blocks: winding_dir and the views of raw memory.
#include "gen.hpp"
#include "subject.hpp"
#include <poly_ops/poly_ops.hpp>
#include <list>
#include <forward_list>
#include <span>
using namespace pbt; using namespace geom;
namespace po = poly_ops;

struct UserPoint { const char *name; i64 easting, northing; };
template<> struct poly_ops::point_ops<UserPoint> {
    static i64 get_x(const UserPoint &p) { return p.easting; }
    static i64 get_y(const UserPoint &p) { return p.northing; }
};

// ------------------------------------------------------------- winding_dir
static i128 wide(const poly_ops::large_ints::compound_int<2> &v) { return static_cast<i128>((static_cast<u128>(v[1]) << 64) | static_cast<u128>(v[0])); }
template<typename T> static i128 wide(T v) requires std::is_integral_v<T> { return v; }

template<typename It> struct InputOnly { // a single-pass view
    struct iterator {
        using value_type = std::iter_value_t<It>; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
        It i;
        value_type operator*() const { return *i; }
        iterator &operator++() { ++i; return *this; }
        void operator++(int) { ++i; }
        bool operator==(const iterator &b) const { return i == b.i; }
    };
    It a,b;
    iterator begin() const { return {a}; }
    iterator end() const { return {b}; }
};

template<typename C> static void wind_as(const std::vector<P> &pts,i128 expect,Ctx &ctx) {
    using pt = po::point_t<C>;
    i64 lim = std::numeric_limits<C>::max();
    i64 x1=INT64_MAX,x2=INT64_MIN,y1=INT64_MAX,y2=INT64_MIN;
    for(auto &p : pts) { x1=std::min(x1,p.x); x2=std::max(x2,p.x); y1=std::min(y1,p.y); y2=std::max(y2,p.y); }
    if(!pts.empty()) {
        if(x1 < std::numeric_limits<C>::min() || y1 < std::numeric_limits<C>::min() || x2 > lim || y2 > lim) return;
        if(i128(x2)-x1 > lim || i128(y2)-y1 > lim) return;
    }
    if constexpr(sizeof(C) < 8) {
        i128 most = (i128(1) << (sizeof(C)*16-1)) - 1;
        // partial sums are kept in the long type as well
        i128 part = 0;
        for(std::size_t i=0; i<pts.size(); ++i) { i128 t = area2({pts[0],pts[i],pts[(i+1)%pts.size()]}); part += t < 0 ? -t : t; }
        if(part > most) { ctx.bump("too-large"); return; }
    }
    ctx.bump(cat("int",sizeof(C)*8));
    std::vector<pt> v;
    for(auto &p : pts) v.push_back({static_cast<C>(p.x),static_cast<C>(p.y)});
    auto same = [&](const char *how,i128 got) { REQUIRE_PROP(got == expect,"winding: winding_dir (int",sizeof(C)*8,", ",how,") gives ",static_cast<double>(got)," instead of ",static_cast<double>(expect)," for ",show(pts)); };
    same("vector",wide(po::winding_dir<C>(v)));
    same("list",wide(po::winding_dir<C>(std::list<pt>(v.begin(),v.end()))));
    same("single-pass range",wide(po::winding_dir<C>(InputOnly<typename std::vector<pt>::const_iterator>{v.begin(),v.end()})));
    std::vector<std::array<C,2>> raw;
    for(auto &p : v) raw.push_back({p[0],p[1]});
    std::vector<std::span<C,2>> sp;
    for(auto &p : raw) sp.emplace_back(p);
    same("spans",wide(po::winding_dir<C>(sp)));
    if constexpr(sizeof(C) == 8) {
        std::vector<UserPoint> u;
        for(auto &p : pts) u.push_back({"p",p.x,p.y});
        same("user-defined points",wide(po::winding_dir<C>(u)));
    }
    if(!v.empty()) {
        po::winding_dir_sink<C> s(v[0]);
        for(std::size_t i=1; i<v.size(); ++i) s(v[i]);
        same("sink",wide(s.close()));
    }
    if(v.size() == 3) same("triangle_winding",wide(po::triangle_winding<C>(v[0],v[1],v[2])));
    std::vector<pt> rev(v.rbegin(),v.rend());
    REQUIRE_PROP(wide(po::winding_dir<C>(rev)) == -expect,"winding: the reverse of ",show(pts)," does not have the opposite winding_dir");
}
static Case gen_winding(Rng &r) {
    Case c;
    Loop l;
    i64 lim = r.pick({3,10,100,10000,30000,1000000,1500000000,INT32_MAX,i64(1)<<40,i64(1)<<52,i64(1)<<60,(i64(1)<<62)-1});
    int n = static_cast<int>(r.in(0,12));
    switch(r.in(0,3)) {
    case 0: l.pts = gen::random_poly(r,n,0,lim); break;
    case 1: l.pts = gen::random_poly(r,3,0,lim); break;
    case 2: if(lim >= 16) { l.pts = gen::blob(r,lim/2,lim/2,lim/3,n+3); break; } [[fallthrough]];
    default: l.pts = gen::rect(0,0,r.in(0,lim),r.in(0,lim)); if(r.chance(1,2)) gen::reverse(l.pts);
    }
    i64 room = lim < 30000 ? INT16_MAX : lim <= INT32_MAX ? INT32_MAX : INT64_MAX;
    i64 dx = r.chance(1,3) ? 0 : r.in(-room,room-lim), dy = r.chance(1,3) ? 0 : r.in(-room,room-lim);
    for(auto &p : l.pts) { p.x += dx; p.y += dy; }
    if(r.chance(1,6) && !l.pts.empty()) l.pts.push_back(l.pts[0]);
    if(r.chance(1,6) && !l.pts.empty()) l.pts.insert(l.pts.begin(),l.pts[0]);
    c.loops.push_back(l);
    return c;
}
static void winding_check(const Case &c,Ctx &ctx) {
    for(auto &l : c.loops) {
        for(auto &p : l.pts) for(auto &q : l.pts) if(i128(p.x)-q.x > INT64_MAX || i128(p.y)-q.y > INT64_MAX) throw Discard{};
        i128 e = area2(l.pts);
        wind_as<std::int16_t>(l.pts,e,ctx);
        wind_as<std::int32_t>(l.pts,e,ctx);
        wind_as<std::int64_t>(l.pts,e,ctx);
        ctx.nontrivial(e != 0);
        ctx.bump(e > 0 ? "clockwise" : e < 0 ? "counter-clockwise" : "degenerate");
    }
}

// ------------------------------------------------------ views of raw memory
template<typename R,typename F> static void random_access(R &&r,std::size_t n,F &&at,Rng &g,const char *what) {
    auto b = std::ranges::begin(r), e = std::ranges::end(r);
    i64 len = static_cast<i64>(n);
    REQUIRE_PROP(static_cast<i64>(std::ranges::size(r)) == len,"strided: the size of ",what," is ",static_cast<i64>(std::ranges::size(r))," instead of ",len);
    REQUIRE_PROP(e - b == len && b - e == -len && std::ranges::distance(r) == len && std::ranges::empty(r) == (n == 0),"strided: the distance between begin() and end() of ",what," is not ",len);
    i64 k = 0;
    for(auto &&x : r) { at(x,k); ++k; }
    REQUIRE_PROP(k == len,"strided: iterating over ",what," gives ",k," values instead of ",len);
    k = len;
    for(auto it=e; it!=b;) { --it; --k; at(*it,k); }
    REQUIRE_PROP(k == 0,"strided: iterating over ",what," backwards gives another number of values");
    for(auto &&x : r | std::views::reverse) { at(x,len-1-k); ++k; }
    for(int j=0; j<6 && n; ++j) {
        i64 p = g.in(0,len-1), q = g.in(0,len-1);
        at(b[p],p); at(*(b+p),p); at(*(p+b),p); at(*(e-(len-p)),p);
        auto it = b; it += p; at(*it,p);
        at(it[q-p],q);
        auto jt = it; jt += q-p; at(*jt,q); REQUIRE_PROP(jt-it == q-p,"strided: wrong distance between iterators of ",what);
        jt -= q-p; REQUIRE_PROP(jt == it && !(jt < it) && jt <= it,"strided: moving an iterator of ",what," there and back does not lead to the same place");
        auto q2 = b+q;
        REQUIRE_PROP((it < q2) == (p < q) && (it > q2) == (p > q) && (it <= q2) == (p <= q) && (it == q2) == (p == q),"strided: iterators of ",what," are ordered wrongly");
        auto c1 = it++; at(*c1,p); REQUIRE_PROP(it-c1 == 1,"strided: post-increment of an iterator of ",what);
        auto c2 = it--; REQUIRE_PROP(c2-it == 1 && it == c1,"strided: post-decrement of an iterator of ",what);
    }
}
template<typename Coord,typename Src> static void strided_as(const Case &c,Ctx &ctx) {
    i64 nl = c.get("loops"), np = c.get("points");
    i64 cs = c.get("cs")*static_cast<i64>(sizeof(Src)), ps = c.get("ps")*static_cast<i64>(sizeof(Src)), ls = c.get("ls")*static_cast<i64>(sizeof(Src));
    // the place of every value, relative to the first one
    i64 lo = 0, hi = 0;
    for(i64 a : {i64(0),std::max<i64>(nl-1,0)}) for(i64 b : {i64(0),std::max<i64>(np-1,0)}) for(i64 d : {0,1}) { i64 o = a*ls+b*ps+d*cs; lo = std::min(lo,o); hi = std::max(hi,o); }
    std::size_t bytes = static_cast<std::size_t>(hi-lo)+sizeof(Src);
    std::vector<Src> mem(bytes/sizeof(Src));
    Rng g(static_cast<u64>(c.get("fill")));
    for(auto &v : mem) {
        if constexpr(std::is_floating_point_v<Src>) v = static_cast<Src>(g.in(-2000,2000))/4;
        else v = static_cast<Src>(g.in(-100,100));
        // any value of the type
        if(c.get("big",0)) {
            if constexpr(std::is_floating_point_v<Src>) v = static_cast<Src>(static_cast<double>(g.in(-(i64(1) << 30),i64(1) << 30))/4);
            else v = static_cast<Src>(g.in(std::numeric_limits<Src>::min(),std::numeric_limits<Src>::max()));
        }
    }
    const char *base = reinterpret_cast<const char*>(mem.data())-lo;
    auto ref = [&](i64 l,i64 p,int d) { Src v; std::memcpy(&v,base+l*ls+p*ps+d*cs,sizeof v); return static_cast<Coord>(v); };
    Rng h(static_cast<u64>(c.get("fill"))+1);
    auto loops = po::blob_to_point_range_range<Coord,Src>(base,cs,ps,ls,static_cast<std::size_t>(np),static_cast<std::size_t>(nl));
    auto point_at = [&](i64 l) { return [&,l](const po::point_t<Coord> &p,i64 i) { REQUIRE_PROP(p[0] == ref(l,i,0) && p[1] == ref(l,i,1),"strided: point ",i," of loop ",l," is wrong"); }; };
    random_access(loops,static_cast<std::size_t>(nl),[&](auto &&l,i64 i) {
        auto f = point_at(i);
        REQUIRE_PROP(static_cast<i64>(std::ranges::size(l)) == np,"strided: the size of loop ",i," is ",static_cast<i64>(std::ranges::size(l)),", not ",np);
        i64 k = 0;
        for(auto &&p : l) f(p,k++);
        REQUIRE_PROP(k == np,"strided: loop ",i," has ",k," points instead of ",np);
    },h,"the loops");
    std::vector<std::vector<po::point_t<Coord>>> copy;
    for(i64 l=0; l<nl; ++l) {
        auto pts = po::blob_to_point_range<Coord,Src>(base+l*ls,cs,ps,static_cast<std::size_t>(np));
        random_access(pts,static_cast<std::size_t>(np),point_at(l),h,"the points");
        copy.emplace_back();
        for(i64 p=0; p<np; ++p) copy.back().push_back({ref(l,p,0),ref(l,p,1)});
    }
    auto plain = [](auto &&r) { std::vector<std::vector<P>> o; for(auto &&l : r) o.push_back(subj::back(l)); return o; };
    if(!c.get("big",0)) REQUIRE_PROP(plain(po::union_op<false,Coord>(loops)) == plain(po::union_op<false,Coord>(copy)),"strided: the union of the loops in memory is not the union of the same loops in a vector");
    if(nl > 0 && !c.get("big",0)) REQUIRE_PROP(plain(po::normalize_op<false,Coord>(po::blob_to_point_range<Coord,Src>(base,cs,ps,static_cast<std::size_t>(np)))) == plain(po::normalize_op<false,Coord>(copy[0])),"strided: normalizing the loop in memory gives something else than with the same loop in a vector");
    // a mutable strided range: writing through the pointers
    auto wr = po::make_strided_range(reinterpret_cast<char*>(mem.data())-lo,static_cast<std::size_t>(np),ps,[](char *x) { return reinterpret_cast<Src*>(x); });
    for(auto *x : wr) *x = static_cast<Src>(7);
    for(i64 p=0; p<np; ++p) REQUIRE_PROP(ref(0,p,0) == 7,"strided: a value written through a strided range did not arrive");
    ctx.nontrivial(nl > 1 && np > 1);
    ctx.bump(ps < 0 ? "negative-stride" : "positive-stride");
    if(c.get("big",0)) ctx.bump("values-of-any-size");
}
static Case gen_strided(Rng &r) {
    Case c;
    c.p["loops"] = r.in(0,4); c.p["points"] = r.in(0,8);
    c.p["type"] = r.in(0,6);
    c.p["fill"] = r.in(0,1000000);
    c.p["big"] = r.chance(1,3);
    i64 cs,ps,ls;
    do {
        switch(r.in(0,3)) {
        case 0: cs = 1; ps = 2; ls = 2*c.get("points"); break;          // packed
        case 1: ps = 1; cs = r.in(8,12); ls = 2*cs; break;              // by coordinate
        case 2: ls = 1; cs = 4; ps = 8; break;                          // loops innermost
        default: cs = r.in(1,3); ps = r.in(2,9); ls = r.in(1,40);
        }
        if(r.chance(1,3)) cs = -cs;
        if(r.chance(1,3)) ps = -ps;
        if(r.chance(1,3)) ls = -ls;
    } while(ls == 0 && ((ls = 1),false));
    c.p["cs"] = cs; c.p["ps"] = ps; c.p["ls"] = ls;
    return c;
}
static void strided_check(const Case &c,Ctx &ctx) {
    if(c.get("ps") == 0 || c.get("ls") == 0) throw Discard{}; // a stride of zero means an empty range
    switch(c.get("type")) {
    case 0: strided_as<int,int>(c,ctx); break;
    case 1: strided_as<int,std::int8_t>(c,ctx); break;
    case 2: strided_as<int,std::int16_t>(c,ctx); break;
    case 3: strided_as<int,double>(c,ctx); break;
    case 4: strided_as<std::int64_t,std::int64_t>(c,ctx); break;
    case 5: strided_as<int,float>(c,ctx); break;
    default: strided_as<std::int64_t,int>(c,ctx);
    }
}

// ------------------------------------------------------ arithmetic of points
template<typename T> static const char *type_name() {
    if constexpr(std::is_same_v<T,std::int16_t>) return "int16";
    else if constexpr(std::is_same_v<T,std::int32_t>) return "int32";
    else if constexpr(std::is_same_v<T,std::int64_t>) return "int64";
    else return "double";
}
template<typename T> static bool fits(i128 v) {
    if constexpr(std::is_floating_point_v<T>) return v <= (i128(1) << 53) && v >= -(i128(1) << 53);
    else return v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max();
}
template<typename T,typename U> using both = std::common_type_t<T,U>;
// is the calculation within what T and U (promoted) can hold?
template<typename T,typename U> static bool room(i128 v) { return fits<both<T,U>>(v) && fits<decltype(T()+U())>(v); }

template<typename T,typename U> static void arith(const P &a,const P &b,i64 k,Ctx &ctx) {
    if(!fits<T>(a.x) || !fits<T>(a.y) || !fits<U>(b.x) || !fits<U>(b.y)) return;
    using R = both<T,U>;
    const po::point_t<T> pa(static_cast<T>(a.x),static_cast<T>(a.y));
    const po::point_t<U> pb(static_cast<U>(b.x),static_cast<U>(b.y));
    auto is = [&](const char *what,const auto &r,i128 x,i128 y) {
        ctx.bump(what);
        REQUIRE_PROP(r[0] == static_cast<R>(x) && r[1] == static_cast<R>(y) && r.x() == r[0] && r.y() == r[1],
            "points: ",what," of ",a.x,",",a.y," (",type_name<T>(),") and ",b.x,",",b.y," (",type_name<U>(),"), factor ",k,", is ",static_cast<long double>(r[0]),",",static_cast<long double>(r[1])," instead of ",static_cast<long double>(x),",",static_cast<long double>(y));
    };
    auto number = [&](const char *what,auto r,i128 v) {
        ctx.bump(what);
        REQUIRE_PROP(r == static_cast<decltype(r)>(v),"points: ",what," of ",a.x,",",a.y," (",type_name<T>(),") and ",b.x,",",b.y," (",type_name<U>(),") is ",static_cast<long double>(r)," instead of ",static_cast<long double>(v));
    };
    i128 ax=a.x,ay=a.y,bx=b.x,by=b.y;
    for(i128 v : {ax,ay,bx,by}) if(!fits<R>(v)) return; // a double cannot hold it
    static_assert(std::is_same_v<decltype(pa+pb),po::point_t<R>> && std::is_same_v<decltype(pa*pb),po::point_t<R>>);
    if(room<T,U>(ax+bx) && room<T,U>(ay+by)) is("sum",pa+pb,ax+bx,ay+by);
    if(room<T,U>(ax-bx) && room<T,U>(ay-by)) is("difference",pa-pb,ax-bx,ay-by);
    if(room<T,U>(ax*bx) && room<T,U>(ay*by)) {
        is("product",pa*pb,ax*bx,ay*by);
        if(room<T,U>(ax*bx+ay*by)) number("dot product",po::vdot(pa,pb),ax*bx+ay*by);
    }
    if(fits<U>(k) && fits<R>(k) && room<T,U>(ax*k) && room<T,U>(ay*k)) is("multiple",pa*static_cast<U>(k),ax*k,ay*k);
    if(fits<T>(k) && room<T,U>(k*bx) && room<T,U>(k*by)) is("multiple from the left",static_cast<T>(k)*pb,k*bx,k*by);
    if constexpr(!std::is_floating_point_v<T> && !std::is_floating_point_v<U>) {
        if(b.x && b.y && room<T,U>(ax/bx) && room<T,U>(ay/by)) is("quotient",pa/pb,ax/bx,ay/by);
    } else if(b.x && b.y) {
        // integers that divide evenly have an exact quotient
        if(ax%bx == 0 && ay%by == 0) is("even quotient",pa/pb,ax/bx,ay/by);
        auto q = pa/pb;
        REQUIRE_PROP(std::abs(static_cast<double>(q[0])*static_cast<double>(bx)-static_cast<double>(ax)) <= 1e-9*(1+std::abs(static_cast<double>(ax))),"points: quotient of ",a.x," and ",b.x," is ",q[0]);
        REQUIRE_PROP(std::abs(static_cast<double>(q[1])*static_cast<double>(by)-static_cast<double>(ay)) <= 1e-9*(1+std::abs(static_cast<double>(ay))),"points: quotient of ",a.y," and ",b.y," is ",q[1]);
    }
    // conversion
    if(fits<U>(ax) && fits<U>(ay)) {
        auto v = po::vcast<U>(pa);
        static_assert(std::is_same_v<decltype(v),po::point_t<U>>);
        is("vcast",v,ax,ay);
    }
}
template<typename T> static void own(const P &a,const P &b,i64 k,Ctx &ctx) {
    if(!fits<T>(a.x) || !fits<T>(a.y) || !fits<T>(b.x) || !fits<T>(b.y)) return;
    using pt = po::point_t<T>;
    const pt pa(static_cast<T>(a.x),static_cast<T>(a.y)), pb(static_cast<T>(b.x),static_cast<T>(b.y));
    i128 ax=a.x,ay=a.y,bx=b.x,by=b.y;
    auto is = [&](const char *what,const pt &r,i128 x,i128 y) {
        ctx.bump(what);
        REQUIRE_PROP(r[0] == static_cast<T>(x) && r[1] == static_cast<T>(y),"points: ",what," of ",a.x,",",a.y," and ",b.x,",",b.y," (",type_name<T>(),") is ",static_cast<long double>(r[0]),",",static_cast<long double>(r[1]));
    };
    if(fits<T>(ax+bx) && fits<T>(ay+by)) { pt r = pa; pt &s = (r += pb); is("+=",r,ax+bx,ay+by); REQUIRE_PROP(&s == &r,"points: += does not return its left side"); }
    if(fits<T>(ax-bx) && fits<T>(ay-by)) { pt r = pa; pt &s = (r -= pb); is("-=",r,ax-bx,ay-by); REQUIRE_PROP(&s == &r,"points: -= does not return its left side"); }
    if(fits<T>(k) && fits<T>(ax*k) && fits<T>(ay*k) && fits<decltype(T()*T())>(ax*k) && fits<decltype(T()*T())>(ay*k)) { pt r = pa; pt &s = (r *= static_cast<T>(k)); is("*=",r,ax*k,ay*k); REQUIRE_PROP(&s == &r,"points: *= does not return its left side"); }
    if(fits<T>(-ax) && fits<T>(-ay)) is("opposite",-pa,-ax,-ay);
    { pt r = pa, q = pb; using std::swap; swap(r,q); is("swap (first)",r,bx,by); is("swap (second)",q,ax,ay); swap(r,r); is("swap with itself",r,bx,by); }
    { pt r = pa; r = pb; is("assignment",r,bx,by); r.x() = pa.x(); is("x()",r,ax,by); r.y() = pa[1]; is("y()",r,ax,ay); r[0] = pb[0]; is("[0]",r,bx,ay); r[1] = pb[1]; is("[1]",r,bx,by);
      *r.begin() = pa[0]; r.data()[1] = pa[1]; is("data()",r,ax,ay); REQUIRE_PROP(r.end()-r.begin() == 2 && r.size() == 2 && std::as_const(r).end()[-1] == pa[1] && std::as_const(r).data()[0] == pa[0],"points: a point is not a range of two coordinates"); }
    bool eq = a == b;
    REQUIRE_PROP((pa == pb) == eq && (pa != pb) != eq,"points: comparison of ",a.x,",",a.y," and ",b.x,",",b.y," (",type_name<T>(),")");
    // any consistent order will do
    po::point_less less;
    int lt = less(pa,pb), gt = less(pb,pa);
    REQUIRE_PROP(lt+gt == (eq ? 0 : 1) && !less(pa,pa),"points: point_less does not order ",a.x,",",a.y," and ",b.x,",",b.y);
    if(i128 s = ax*ax+ay*ay; fits<T>(ax*ax) && fits<T>(ay*ay) && fits<T>(s) && fits<decltype(T()*T())>(s)) REQUIRE_PROP(po::square(pa) == static_cast<T>(s),"points: square of ",a.x,",",a.y," (",type_name<T>(),") is ",static_cast<long double>(po::square(pa)));
    { // from things like points
        T raw[2] = {pa[0],pa[1]};
        is("point from an array",pt(raw),ax,ay);
        is("point from a span",pt(std::span<T,2>(raw)),ax,ay);
        if constexpr(sizeof(T) == 8 && !std::is_floating_point_v<T>) is("point from a user-defined point",pt(UserPoint{"p",a.x,a.y}),ax,ay);
    }
}
template<typename C> static void metric(const P &a,const P &b,const P &c,double mag,Ctx &ctx) {
    using pt = po::point_t<C>;
    i64 lim = std::numeric_limits<C>::max();
    for(auto &p : {a,b,c}) if(!fits<C>(p.x) || !fits<C>(p.y)) return;
    for(auto &p : {a,b,c}) for(auto &q : {a,b,c}) if(i128(p.x)-q.x > lim || i128(p.y)-q.y > lim) return;
    pt pa(static_cast<C>(a.x),static_cast<C>(a.y)), pb(static_cast<C>(b.x),static_cast<C>(b.y)), pc(static_cast<C>(c.x),static_cast<C>(c.y));
    // vmag
    long double len = std::hypot(static_cast<long double>(a.x),static_cast<long double>(a.y));
    REQUIRE_PROP(std::abs(po::vmag<C>(pa)-len) <= 1e-12L*len,"points: vmag of ",a.x,",",a.y," is ",po::vmag<C>(pa)," instead of ",len);
    // vangle
    pt u = pb-pa, v = pc-pa;
    long double ux=u[0],uy=u[1],vx=v[0],vy=v[1];
    if((ux || uy) && (vx || vy)) {
        long double e = std::abs(std::atan2(ux*vy-uy*vx,ux*vx+uy*vy));
        double g = po::vangle<C>(u,v), h = po::vangle<C>(v,u);
        // the arc cosine is flat at both ends
        REQUIRE_PROP(std::abs(g-e) <= 1e-7L && std::abs(g-h) <= 1e-7,"points: vangle of ",ux,",",uy," and ",vx,",",vy," is ",g," and ",h," instead of ",e);
        REQUIRE_PROP(g >= 0 && g <= 3.1415926535898,"points: vangle of ",ux,",",uy," and ",vx,",",vy," is ",g);
        ctx.bump("angles");
    }
    if(ux || uy) {
        auto pv = po::perp_vector<C>(pa,pb,mag);
        static_assert(std::is_same_v<decltype(pv),po::point_t<po::real_coord_t<C>>>);
        long double l = std::hypot(ux,uy);
        // turned by a quarter, of the length asked for
        REQUIRE_PROP(std::abs(pv[0]-mag*uy/l) <= 1e-9L*std::abs(mag) && std::abs(pv[1]+mag*ux/l) <= 1e-9L*std::abs(mag),"points: perp_vector of the line from ",a.x,",",a.y," to ",b.x,",",b.y," and magnitude ",mag," is ",pv[0],",",pv[1]);
        ctx.bump("perpendiculars");
    }
    // rounding to coordinates
    for(double f : {-0.75,-0.5,-0.25,-0.125,0.0,0.125,0.25,0.5,0.75}) {
        for(i64 base : {a.x,b.y}) {
            double x = static_cast<double>(base)+f;
            if(std::abs(x) > 1e15 || std::abs(x)+1 >= static_cast<double>(lim)) continue;
            using O = po::coord_ops<C>;
            auto r = static_cast<double>(po::vround<C>({x,-x}).x()), s = static_cast<double>(po::vround<C>({x,-x}).y());
            REQUIRE_PROP(std::abs(r-x) <= 0.5 && std::abs(s+x) <= 0.5,"points: vround of ",x,",",-x," is ",r,",",s);
            double fl = static_cast<double>(O::floor(x)), ce = static_cast<double>(O::ceil(x)), ro = static_cast<double>(O::round(x)), tc = static_cast<double>(O::to_coord(x));
            REQUIRE_PROP(fl <= x && x-fl < 1 && ce >= x && ce-x < 1,"points: floor and ceil of ",x," are ",fl," and ",ce);
            REQUIRE_PROP(ro == r && std::abs(tc) <= std::abs(x) && std::abs(x-tc) < 1,"points: round and to_coord of ",x," are ",ro," and ",tc);
        }
    }
    REQUIRE_PROP(wide(po::coord_ops<C>::mul(pa[0],pb[1])) == i128(a.x)*b.y,"points: mul of ",a.x," and ",b.y);
    REQUIRE_PROP(wide(po::triangle_winding<C>(pa,pb,pc)) == area2({a,b,c}),"points: triangle_winding of ",show({a,b,c}));
    ctx.bump(type_name<C>());
}
static Case gen_points(Rng &r) {
    Case c;
    Loop l;
    static const std::vector<i64> lims = {1,3,50,181,30000,40000,i64(1)<<30,i64(1)<<31,i64(3037000499),i64(1)<<45,i64(1)<<53,i64(1)<<61,INT64_MAX};
    auto value = [&](i64 lim) {
        if(r.chance(1,10)) return r.pick({0,1,-1,INT16_MAX,INT16_MIN,INT32_MAX,INT32_MIN,INT64_MAX,INT64_MIN});
        return r.in(-lim,lim);
    };
    i64 lim = r.pick(lims);
    for(int i=0; i<3; ++i) { l.pts.push_back({value(lim),value(lim)}); if(r.chance(1,4)) lim = r.pick(lims); }
    if(r.chance(1,6)) l.pts[1].x = l.pts[0].x;
    if(r.chance(1,6)) l.pts[1].y = l.pts[0].y;
    if(r.chance(1,6)) l.pts[2] = l.pts[static_cast<std::size_t>(r.in(0,1))];
    if(r.chance(1,8)) { i64 k = r.in(-5,5); l.pts[2] = {r.in(-99,99)*k,r.in(-99,99)*k}; }
    c.p["k"] = r.in(-1000,1000);
    c.p["mag"] = r.in(-100000,100000);
    c.loops.push_back(l);
    return c;
}
static void points_check(const Case &c,Ctx &ctx) {
    if(c.loops.empty() || c.loops[0].pts.size() < 3) throw Discard{};
    P a = c.loops[0].pts[0], b = c.loops[0].pts[1], d = c.loops[0].pts[2];
    i64 k = c.get("k",1);
    auto row = [&](auto t) {
        using T = decltype(t);
        arith<T,std::int16_t>(a,b,k,ctx); arith<T,std::int32_t>(a,b,k,ctx); arith<T,std::int64_t>(a,b,k,ctx); arith<T,double>(a,b,k,ctx);
        own<T>(a,b,k,ctx);
    };
    row(std::int16_t()); row(std::int32_t()); row(std::int64_t()); row(double());
    double m = static_cast<double>(c.get("mag"))/64;
    metric<std::int16_t>(a,b,d,m,ctx); metric<std::int32_t>(a,b,d,m,ctx); metric<std::int64_t>(a,b,d,m,ctx);
    // the order is transitive
    po::point_less less;
    using pt = po::point_t<i64>;
    pt q[3] = {{a.x,a.y},{b.x,b.y},{d.x,d.y}};
    for(auto &x : q) for(auto &y : q) for(auto &z : q) REQUIRE_PROP(!(less(x,y) && less(y,z)) || less(x,z),"points: point_less is not transitive for ",show({a,b,d}));
    ctx.nontrivial((a.x || a.y) && (b.x || b.y) && a != b);
}
Register r1("winding",gen_winding,winding_check);
Register r2("strided",gen_strided,strided_check);
Register r3("points",gen_points,points_check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
