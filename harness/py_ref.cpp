// The C++ library behind a plain C function: what the Python module is compared with.
#include <cstdint>
#include <cstring>
#include <vector>
#include <poly_ops/poly_ops.hpp>
namespace po = poly_ops;
using coord = std::int64_t;
using pt = po::point_t<coord>;
static std::vector<std::int64_t> out;

template<bool Tracked,bool Tree,typename R> static void put(const R &r) {
    out.push_back(static_cast<std::int64_t>(r.size()));
    for(auto &&l : r) {
        out.push_back(static_cast<std::int64_t>(l.size()));
        if constexpr(Tracked) for(auto &&[p,o] : l) {
            out.push_back(p[0]); out.push_back(p[1]);
            out.push_back(static_cast<std::int64_t>(o.size()));
            for(auto i : o) out.push_back(static_cast<std::int64_t>(i));
        } else for(auto &&p : l) { out.push_back(p[0]); out.push_back(p[1]); }
        if constexpr(Tree) put<Tracked,true>(l.inner_loops());
    }
}

struct session {
    bool tracked;
    po::clipper<coord> c;
    po::origin_tracked_clipper<coord> tc;
};
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT void *ref_new(int tracked) { auto *s = new session; s->tracked = tracked; return s; }
EXPORT void ref_free(void *v) { delete static_cast<session*>(v); }
EXPORT void ref_reset(void *v) { auto &s = *static_cast<session*>(v); if(s.tracked) s.tc.reset(); else s.c.reset(); }
EXPORT void ref_set_next(void *v,std::int64_t i) { static_cast<session*>(v)->tc.base.next_orig_i() = static_cast<std::size_t>(i); }
EXPORT std::int64_t ref_next(void *v) { return static_cast<std::int64_t>(static_cast<session*>(v)->tc.base.next_orig_i()); }
EXPORT void ref_add(void *v,int set_,int offset,double mag,int step,int closed,std::int64_t n,const std::int64_t *xy) {
    auto &s = *static_cast<session*>(v);
    auto set = static_cast<po::bool_set>(set_);
    std::vector<pt> pts;
    for(std::int64_t i=0; i<n; ++i) pts.emplace_back(xy[2*i],xy[2*i+1]);
    if(s.tracked) {
        if(offset) po::add_offset(s.tc.base,pts,set,mag,step,closed != 0,s.tc.tracker.callbacks());
        else s.tc.base.add_loops(pts,set,s.tc.tracker.callbacks());
    } else {
        if(offset) po::add_offset(s.c,pts,set,mag,step,closed != 0);
        else s.c.add_loops(pts,set);
    }
}
/* the result as one array; the input is consumed */
EXPORT const std::int64_t *ref_exec(void *v,int op_,int tree,std::int64_t *size) {
    auto &s = *static_cast<session*>(v);
    auto op = static_cast<po::bool_op>(op_);
    out.clear();
    if(s.tracked) { if(tree) put<true,true>(s.tc.base.template execute<true>(op,s.tc.tracker)); else put<true,false>(s.tc.base.template execute<false>(op,s.tc.tracker)); }
    else { if(tree) put<false,true>(s.c.template execute<true>(op)); else put<false,false>(s.c.template execute<false>(op)); }
    ref_reset(v);
    *size = static_cast<std::int64_t>(out.size());
    return out.data();
}
