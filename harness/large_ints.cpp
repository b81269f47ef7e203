// Fixed-width integers larger than 64 bits against an arbitrary-precision
// reference (Boost.Multiprecision cpp_int).
#include "pbt.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <poly_ops/large_ints.hpp>
#include <tuple>
using namespace pbt;
namespace li = poly_ops::large_ints;
using big = boost::multiprecision::cpp_int;
using namespace li;

#ifdef SMALL_TYPES
using Types = std::tuple<std::int8_t,std::uint8_t,std::int16_t,std::int32_t,std::uint32_t,std::int64_t,std::uint64_t,compound_int<1>,compound_int<2>,compound_uint<2>>;
#else
using Types = std::tuple<std::int32_t,std::int64_t,std::uint64_t,compound_int<1>,compound_int<2>,compound_int<3>,compound_int<4>,compound_uint<1>,compound_uint<2>,compound_uint<3>>;
#endif
constexpr int NT = std::tuple_size_v<Types>;

template<typename T> struct info {
    static constexpr bool builtin = true, sgn = std::is_signed_v<T>;
    static constexpr int bits = sizeof(T)*8;
    static T make(const i64 *w) { return static_cast<T>(w[0]); }
};
template<unsigned int N,bool S> struct info<compound_xint<N,S>> {
    static constexpr bool builtin = false, sgn = S;
    static constexpr int bits = 64*static_cast<int>(N);
    static compound_xint<N,S> make(const i64 *w) {
        compound_xint<N,S> r;
        for(unsigned int i=0; i<N; ++i) r[i] = static_cast<u64>(w[i]);
        return r;
    }
};
big pow2(int n) { return big(1) << n; }
big wrap(big v,int bits,bool sgn) {
    big m = pow2(bits);
    v %= m;
    if(v < 0) v += m;
    if(sgn && v >= pow2(bits-1)) v -= m;
    return v;
}
template<typename T> big to_big(const T &x) {
    if constexpr(info<T>::builtin) return big(x);
    else {
        big r = 0;
        for(int i=info<T>::bits/64; i-- > 0;) r = (r << 64) | big(x[static_cast<unsigned>(i)]);
        return wrap(r,info<T>::bits,info<T>::sgn);
    }
}
template<typename R> void expect_wrapped(const char *what,const big &a,const big &b,const R &got,const big &want) {
    big w = wrap(want,info<R>::bits,info<R>::sgn), g = to_big(got);
    if(g != w) fail(what," of ",a," and ",b," gave ",g,", expected ",w);
}
big babs(const big &v) { return v < 0 ? big(-v) : v; }
big floor_div(const big &a,const big &b) {
    big q = a / b, r = a % b;
    if(r != 0 && ((r < 0) != (b < 0))) q -= 1;
    return q;
}
int sign_of(std::strong_ordering o) { return o < 0 ? -1 : (o > 0 ? 1 : 0); }

enum { ADD,SUB,MUL,CMP,DIV,EDIV,UNMUL,NEGABS,SHIFT,CONV,COMPOUND_ASSIGN,NOPS };
static const char *op_names[] = {"add","sub","mul","compare","divide","floor-divide","narrow-divide","negate/abs","shift","convert","compound assignment"};

template<typename A,typename B> constexpr bool mul_supported() {
    constexpr bool s = li::detail::signed_type<A> || li::detail::signed_type<B>;
    constexpr unsigned na = li::detail::int_count<s,A>, nb = li::detail::int_count<s,B>;
    if(li::detail::small_xints<A> && li::detail::small_xints<B>) return true;
    if(s) {
        // a mix of a one-word signed and a 64-bit unsigned value is ambiguous
        return !((nb == 1 && na == 2 && !info<A>::sgn && info<A>::bits == 64) || (na == 1 && nb == 2 && !info<B>::sgn && info<B>::bits == 64));
    }
    return true;
}

template<typename A,typename B> void check_pair(const i64 *wa,const i64 *wb,i64 op,i64 extra,Ctx &ctx) {
    A a = info<A>::make(wa);
    B b = info<B>::make(wb);
    big x = to_big(a), y = to_big(b);
    constexpr bool both_builtin = info<A>::builtin && info<B>::builtin;
    constexpr bool sgn = info<A>::sgn || info<B>::sgn;
    switch(op) {
    case ADD:
        expect_wrapped("sum",x,y,li::add(a,b),x+y);
        if constexpr(!both_builtin) expect_wrapped("operator+",x,y,a+b,x+y);
        break;
    case SUB:
        expect_wrapped("difference",x,y,li::sub(a,b),x-y);
        if constexpr(!both_builtin) expect_wrapped("operator-",x,y,a-b,x-y);
        break;
    case MUL:
        if constexpr(mul_supported<A,B>()) {
            auto r = li::mul(a,b);
            if(to_big(r) != x*y) fail("product of ",x," and ",y," gave ",to_big(r));
            if constexpr(!both_builtin) if(to_big(a*b) != x*y) fail("operator* of ",x," and ",y," gave ",to_big(a*b));
        } else ctx.bump("unsupported-mul");
        break;
    case CMP: {
        int want = x < y ? -1 : (x > y ? 1 : 0);
        int got = sign_of(li::cmp(a,b));
        if(got != want) fail("comparison of ",x," and ",y," gave ",got);
        if(li::eq(a,b) != (want == 0)) fail("equality of ",x," and ",y," is wrong");
        if constexpr(!both_builtin) {
            if((a < b) != (want < 0) || (a > b) != (want > 0) || (a <= b) != (want <= 0) || (a >= b) != (want >= 0) || (a == b) != (want == 0) || (a != b) != (want != 0))
                fail("comparison operators disagree with the values ",x," and ",y);
        }
        if(want == 0) ctx.bump("equal-operands");
        break; }
    case DIV: {
        if(y == 0) throw Discard{};
        if(sgn && y == -1 && x == -pow2(std::max(info<A>::bits,64)-1)) throw Discard{};
        auto r = li::divmod(a,b);
        if(to_big(r.quot) != wrap(x / y,info<decltype(r.quot)>::bits,sgn)) fail("quotient of ",x," and ",y," gave ",to_big(r.quot));
        if(to_big(r.rem) != x % y) fail("remainder of ",x," and ",y," gave ",to_big(r.rem)," expected ",big(x%y));
        if constexpr(!both_builtin) if(to_big(a/b) != to_big(r.quot)) fail("operator/ of ",x," and ",y);
        if(x / y != 0 && x % y != 0) ctx.bump("division-with-remainder");
        break; }
    case EDIV: {
        if(y == 0) throw Discard{};
        if(sgn && y == -1 && x == -pow2(std::max(info<A>::bits,64)-1)) throw Discard{};
        auto r = li::divmod(a,b,li::modulo_t::euclid);
        big q = floor_div(x,y), f = (x - q*y) * (y < 0 ? -1 : 1);
        if(to_big(r.quot) != wrap(q,info<decltype(r.quot)>::bits,sgn) || to_big(r.rem) != f)
            fail("floored division of ",x," and ",y," gave ",to_big(r.quot)," and ",to_big(r.rem)," expected ",q," and ",f);
        break; }
    case UNMUL: {
        // the quotient is known to fit in one word
        if(y == 0) throw Discard{};
        big q = x / y, fq = floor_div(x,y);
        big lo = sgn ? big(-pow2(63)) : big(0), hi = sgn ? pow2(63) : pow2(64);
        if(q < lo || q >= hi || fq < lo || fq >= hi) throw Discard{};
        auto r = li::unmul<1>(a,b);
        if(to_big(r.quot) != q || to_big(r.rem) != x % y) fail("narrow division of ",x," and ",y," gave ",to_big(r.quot)," and ",to_big(r.rem)," expected ",q," and ",big(x%y));
        auto e = li::unmul<1>(a,b,li::modulo_t::euclid);
        big f = (x - fq*y) * (y < 0 ? -1 : 1);
        if(to_big(e.quot) != fq || to_big(e.rem) != f) fail("narrow floored division of ",x," and ",y," gave ",to_big(e.quot)," and ",to_big(e.rem)," expected ",fq," and ",f);
        if(babs(q) > 1) ctx.bump("narrow-division-large-quotient");
        break; }
    case NEGABS:
        if constexpr(!info<A>::builtin && info<A>::sgn) {
            expect_wrapped("negation",x,x,-a,-x);
            if(x != -pow2(info<A>::bits-1)) expect_wrapped("absolute value",x,x,li::abs(a),babs(x));
            if(li::negative(a) != (x < 0)) fail("sign test of ",x);
            if(static_cast<bool>(a) != (x != 0)) fail("truth value of ",x);
        }
        break;
    case SHIFT:
        if constexpr(!info<A>::builtin) {
            int n = static_cast<int>(((extra % info<A>::bits) + info<A>::bits) % info<A>::bits);
            big m = pow2(n);
            expect_wrapped("left shift",x,n,a << static_cast<unsigned char>(n),x * m);
            expect_wrapped("right shift",x,n,a >> static_cast<unsigned char>(n),floor_div(x,m));
            A c = a;
            c <<= static_cast<unsigned char>(n);
            expect_wrapped("in-place left shift",x,n,c,x * m);
            c = a;
            c >>= static_cast<unsigned char>(n);
            expect_wrapped("in-place right shift",x,n,c,floor_div(x,m));
            if(x != 0) {
                big u = wrap(x,info<A>::bits,false);
                int lz = info<A>::bits - 1 - static_cast<int>(boost::multiprecision::msb(u));
                if(li::countl_zero(a) != lz) fail("leading zeros of ",x," counted as ",li::countl_zero(a)," instead of ",lz);
            }
        }
        break;
    case CONV:
        if constexpr(!info<A>::builtin) {
            expect_wrapped("conversion to int64",x,x,static_cast<i64>(a),x);
            expect_wrapped("conversion to uint64",x,x,static_cast<u64>(a),x);
            expect_wrapped("conversion to int32",x,x,static_cast<std::int32_t>(a),x);
            expect_wrapped("conversion to a larger value",x,x,compound_int<6>(a),x);
            if constexpr(info<B>::bits < 256) expect_wrapped("conversion between widths",x,x,B(a),x);
#if defined(__SIZEOF_INT128__) && !defined(POLY_OPS_NO_COMPILER_EXTENSIONS)
            i128 v = static_cast<i128>(a);
            big vb = (big(static_cast<i64>(v >> 64)) << 64) + big(static_cast<u64>(v));
            big want = wrap(x,128,true);
            if(vb != want) fail("conversion of ",x," to a 128-bit integer gave ",vb);
#endif
            for(int k=0; k<2; ++k) {
                long double d = k ? static_cast<long double>(static_cast<double>(a)) : static_cast<long double>(a);
                long double w = x.convert_to<long double>();
                long double err = std::fabs(d - w), lim = std::fabs(w) * (k ? 0x1p-51L : 0x1p-61L);
                if(err > lim) fail("conversion of ",x," to floating-point gave ",d);
            }
        }
        break;
    case COMPOUND_ASSIGN:
        if constexpr(!info<A>::builtin && li::safe_comp_or_single_i<B,info<A>::bits/64,info<A>::sgn>) {
            A c = a;
            c += b;
            expect_wrapped("operator+=",x,y,c,x+y);
            c = a;
            c -= b;
            expect_wrapped("operator-=",x,y,c,x-y);
        }
        break;
    }
}
using Fn = void(*)(const i64*,const i64*,i64,i64,Ctx&);
template<std::size_t... I> std::array<Fn,sizeof...(I)> table(std::index_sequence<I...>) {
    return {{ &check_pair<std::tuple_element_t<I/NT,Types>,std::tuple_element_t<I%NT,Types>>... }};
}
static const auto fns = table(std::make_index_sequence<NT*NT>{});

i64 gen_word(Rng &r) {
    switch(r.in(0,9)) {
    case 0: return 0;
    case 1: return -1;
    case 2: return INT64_MIN;
    case 3: return INT64_MAX;
    case 4: return 1;
    case 5: return r.in(-3,3);
    case 6: {
        // around the powers of two, in particular the widths of the built-in types
        static const int bits[] = {7,8,15,16,31,32,63};
        u64 v = 1ull << (r.chance(1,2) ? bits[r.in(0,6)] : static_cast<int>(r.in(0,63)));
        if(r.chance(1,2)) v = 0 - v;
        return static_cast<i64>(v + static_cast<u64>(r.in(-1,1))); }
    default: return static_cast<i64>(r.next() >> r.in(0,63));
    }
}
std::vector<i64> gen_value(Rng &r) {
    std::vector<i64> w;
    for(int i=0; i<4; ++i) w.push_back(gen_word(r));
    int used = static_cast<int>(r.in(0,4));
    i64 ext = r.chance(1,2) ? 0 : -1;
    for(int i=used; i<4; ++i) w[static_cast<std::size_t>(i)] = ext;
    return w;
}
Case gen_case(Rng &r) {
    Case c;
    std::vector<i64> a = gen_value(r), b = gen_value(r);
    i64 op = r.in(0,NOPS-1), ta = r.in(0,NT-1), tb = r.in(0,NT-1);
    if(r.chance(1,8)) { b = a; if(r.chance(1,2)) b[0] = static_cast<i64>(static_cast<u64>(b[0]) + static_cast<u64>(r.in(-1,1))); }
    if((op == EDIV || op == DIV || op == UNMUL) && r.chance(1,2)) {
        // exact and nearly exact multiples
        big y = 0, k = r.in(-1000000,1000000);
        i64 d = r.in(1,4) == 1 ? r.in(-40,40) : static_cast<i64>(r.next()) >> r.in(0,62);
        if(d == 0) d = 13;
        y = big(d);
        if(r.chance(1,2)) k = big(static_cast<i64>(r.next()) >> r.in(0,62));
        big x = y*k + r.in(-1,1);
        big m = wrap(x,256,false);
        for(int i=0; i<4; ++i) { a[static_cast<std::size_t>(i)] = static_cast<i64>(static_cast<u64>((m >> (64*i)) & big(~0ull))); }
        for(int i=0; i<4; ++i) b[static_cast<std::size_t>(i)] = i ? (d < 0 ? -1 : 0) : d;
    }
    c.words = {{op,ta,tb,r.in(0,255)},a,b};
    return c;
}
void check(const Case &c,Ctx &ctx) {
    if(c.words.size() < 3 || c.words[0].size() < 4) throw Discard{};
    auto w = c.words;
    w[1].resize(4,0);
    w[2].resize(4,0);
    i64 op = w[0][0], ta = w[0][1], tb = w[0][2];
    if(op < 0 || op >= NOPS || ta < 0 || ta >= NT || tb < 0 || tb >= NT) throw Discard{};
    fns[static_cast<std::size_t>(ta*NT+tb)](w[1].data(),w[2].data(),op,w[0][3],ctx);
    ctx.bump(op_names[op]);
    ctx.nontrivial(w[1] != std::vector<i64>(4,0) && w[2] != std::vector<i64>(4,0));
}
Register reg("ints",gen_case,check);
int main(int argc,char **argv) { return pbt_main(argc,argv); }
