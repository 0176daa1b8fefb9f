// Bit-vector expressions: hash-consed, simplified on construction, evaluated under a model, translated to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

typedef uint32_t ER; // expression number, 0 is none
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE,
                    ITE, ZEXT, SEXT, EXTRACT, CONCAT };
struct Expr { Op op; uint8_t w; ER a, b, c; uint64_t k; };
struct V { uint64_t c; ER e; }; // e == 0: the concrete value c

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t) v : (int64_t) (v << (64 - w)) >> (64 - w); }

struct ExprKey { uint64_t h; };
static std::vector<Expr> X(1);
static std::unordered_map<uint64_t, std::vector<ER>> XT;

static ER mk(Op op, unsigned w, ER a = 0, ER b = 0, ER c = 0, uint64_t k = 0)
{
    uint64_t h = op * 0x9E3779B97F4A7C15ull ^ w * 0xC2B2AE3D27D4EB4Full;
    h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ c) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ k) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 32;
    auto& l = XT[h];
    for (ER r : l) {
        const Expr& x = X[r];
        if (x.op == op && x.w == w && x.a == a && x.b == b && x.c == c && x.k == k) return r;
    }
    X.push_back(Expr{op, (uint8_t) w, a, b, c, k});
    l.push_back((ER) X.size() - 1);
    return (ER) X.size() - 1;
}
static ER mkc(unsigned w, uint64_t v) { return mk(CONST, w, 0, 0, 0, v & mask(w)); }
static inline bool isc(ER e) { return X[e].op == CONST; }
static inline ER toE(V v, unsigned w) { return v.e ? v.e : mkc(w, v.c); }
static inline V fromE(ER e) { return X[e].op == CONST ? V{X[e].k, 0} : V{0, e}; }
static inline V C(uint64_t v) { return V{v, 0}; }

static uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b)
{
    uint64_t m = mask(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t) (0 - (uint64_t) x) & m; return (uint64_t) (x / y) & m; }
    case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t) (x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (uint64_t) (sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w);
    case SLE: return sx(a, w) <= sx(b, w);
    default: abort();
    }
}

static V extract(V v, unsigned from, unsigned lo, unsigned w);
static V zext(V v, unsigned from, unsigned w);
static V sext(V v, unsigned from, unsigned w);
static V concat(V hi, unsigned wh, V lo, unsigned wl);
static V ite(V c, V a, V b, unsigned w);
static V bin(Op op, unsigned w, V a, V b); // comparisons: w is the operand width

static V notb(V v) { return bin(XOR, 1, v, C(1)); }

static V zext(V v, unsigned from, unsigned w)
{
    if (!v.e || from == w) return v;
    const Expr x = X[v.e];
    if (x.op == ZEXT) return zext(V{0, x.a}, X[x.a].w, w);
    return V{0, mk(ZEXT, w, v.e)};
}
static V sext(V v, unsigned from, unsigned w)
{
    if (!v.e) return C((uint64_t) sx(v.c, from) & mask(w));
    if (from == w) return v;
    const Expr x = X[v.e];
    if (x.op == ZEXT) return zext(V{0, x.a}, X[x.a].w, w);
    if (x.op == ITE && isc(x.b) && isc(x.c)) return ite(V{0, x.a}, sext(fromE(x.b), from, w), sext(fromE(x.c), from, w), w);
    return V{0, mk(SEXT, w, v.e)};
}
static V extract(V v, unsigned from, unsigned lo, unsigned w)
{
    if (!v.e) return C((v.c >> lo) & mask(w));
    if (lo == 0 && w == from) return v;
    const Expr x = X[v.e];
    switch (x.op) {
    case EXTRACT: return extract(V{0, x.a}, X[x.a].w, lo + (unsigned) x.k, w);
    case CONCAT: {
        unsigned wl = X[x.b].w;
        if (lo >= wl) return extract(fromE(x.a), X[x.a].w, lo - wl, w);
        if (lo + w <= wl) return extract(fromE(x.b), wl, lo, w);
        break;
    }
    case ZEXT: {
        unsigned wi = X[x.a].w;
        if (lo >= wi) return C(0);
        if (lo + w <= wi) return extract(V{0, x.a}, wi, lo, w);
        return zext(extract(V{0, x.a}, wi, lo, wi - lo), wi - lo, w);
    }
    case SEXT: {
        unsigned wi = X[x.a].w;
        if (lo + w <= wi) return extract(V{0, x.a}, wi, lo, w);
        break;
    }
    case ITE:
        if (isc(x.b) && isc(x.c)) return ite(V{0, x.a}, extract(fromE(x.b), from, lo, w), extract(fromE(x.c), from, lo, w), w);
        break;
    case AND: case OR: case XOR:
        return bin(x.op, w, extract(fromE(x.a), from, lo, w), extract(fromE(x.b), from, lo, w));
    default: break;
    }
    return V{0, mk(EXTRACT, w, v.e, 0, 0, lo)};
}
static V concat(V hi, unsigned wh, V lo, unsigned wl)
{
    unsigned w = wh + wl;
    if (!hi.e && !lo.e) return C((hi.c << wl) | lo.c);
    if (!hi.e && hi.c == 0) return zext(lo, wl, w);
    if (hi.e && lo.e) {
        const Expr h = X[hi.e], l = X[lo.e];
        ER hr = hi.e, lr = lo.e;
        unsigned hlo = 0, llo = 0;
        if (h.op == EXTRACT) { hr = h.a; hlo = (unsigned) h.k; }
        if (l.op == EXTRACT) { lr = l.a; llo = (unsigned) l.k; }
        if (hr == lr && hlo == llo + wl) return extract(V{0, hr}, X[hr].w, llo, w);
        if (l.op == CONCAT) { // hi . (m . rest): join hi and m where they belong together
            V j = concat(hi, wh, fromE(l.a), X[l.a].w);
            if (!j.e || X[j.e].op != CONCAT) return concat(j, wh + X[l.a].w, fromE(l.b), X[l.b].w);
        }
    }
    return V{0, mk(CONCAT, w, toE(hi, wh), toE(lo, wl))};
}
static V ite(V c, V a, V b, unsigned w)
{
    if (!c.e) return c.c ? a : b;
    if (a.e == b.e && a.c == b.c) return a;
    if (w == 1) {
        if (!a.e && !b.e) return a.c ? c : notb(c);
        if (!a.e) return a.c ? bin(OR, 1, c, b) : bin(AND, 1, notb(c), b);
        if (!b.e) return b.c ? bin(OR, 1, notb(c), a) : bin(AND, 1, c, a);
    }
    return V{0, mk(ITE, w, c.e, toE(a, w), toE(b, w))};
}
static V bin(Op op, unsigned w, V a, V b)
{
    bool cmp = op >= EQ && op <= SLE;
    if (!a.e && !b.e) return C(fold(op, w, a.c, b.c));
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && !a.e) std::swap(a, b);       // constants to the right
    if (comm && a.e && b.e && a.e > b.e) std::swap(a, b);
    uint64_t m = mask(w);
    if (a.e && a.e == b.e) switch (op) {
        case SUB: case XOR: return C(0);
        case AND: case OR: return a;
        case EQ: case ULE: case SLE: return C(1);
        case ULT: case SLT: return C(0);
        default: break;
    }
    if (!b.e) {
        uint64_t k = b.c;
        const Expr x = X[a.e];
        switch (op) {
        case ADD: if (!k) return a; if (x.op == ADD && isc(x.b)) return bin(ADD, w, fromE(x.a), C((X[x.b].k + k) & m)); break;
        case SUB: if (!k) return a; return bin(ADD, w, a, C((0 - k) & m));
        case OR: if (!k) return a; if (k == m) return C(m); break;
        case XOR: if (!k) return a; if (w == 1 && x.op == XOR && isc(x.b)) return bin(XOR, 1, fromE(x.a), C(X[x.b].k ^ k)); break;
        case SHL: if (!k) return a; if (k >= w) return C(0); return concat(extract(a, w, 0, w - k), w - k, C(0), k);
        case LSHR: if (!k) return a; if (k >= w) return C(0); return zext(extract(a, w, k, w - k), w - k, w);
        case ASHR: if (!k) return a; break;
        case AND:
            if (!k) return C(0);
            if (k == m) return a;
            if ((k & (k + 1)) == 0) { unsigned n = __builtin_popcountll(k); return zext(extract(a, w, 0, n), n, w); }
            break;
        case MUL:
            if (!k) return C(0);
            if (k == 1) return a;
            if ((k & (k - 1)) == 0) return bin(SHL, w, a, C(__builtin_ctzll(k)));
            break;
        case UDIV: if (k == 1) return a; if (k && (k & (k - 1)) == 0) return bin(LSHR, w, a, C(__builtin_ctzll(k))); break;
        case UREM: if (k == 1) return C(0); if (k && (k & (k - 1)) == 0) return bin(AND, w, a, C(k - 1)); break;
        case EQ:
            if (w == 1) return k ? a : notb(a);
            if (x.op == ZEXT) { unsigned wi = X[x.a].w; if (k > mask(wi)) return C(0); return bin(EQ, wi, fromE(x.a), C(k)); }
            if (x.op == ITE && isc(x.b) && isc(x.c)) {
                bool p = X[x.b].k == k, q = X[x.c].k == k;
                return p ? (q ? C(1) : fromE(x.a)) : (q ? notb(fromE(x.a)) : C(0));
            }
            if (x.op == ADD && isc(x.b)) return bin(EQ, w, fromE(x.a), C((k - X[x.b].k) & m));
            if (x.op == CONCAT && (isc(x.a) || isc(x.b))) {
                unsigned wl = X[x.b].w, wh = X[x.a].w;
                return bin(AND, 1, bin(EQ, wh, fromE(x.a), C(k >> wl)), bin(EQ, wl, fromE(x.b), C(k & mask(wl))));
            }
            break;
        case ULT: if (!k) return C(0); if (x.op == ZEXT) { unsigned wi = X[x.a].w; if (k > mask(wi)) return C(1); return bin(ULT, wi, fromE(x.a), C(k)); } break;
        case ULE: if (k == m) return C(1); if (x.op == ZEXT) { unsigned wi = X[x.a].w; if (k >= mask(wi)) return C(1); return bin(ULE, wi, fromE(x.a), C(k)); } break;
        case SLT: if (x.op == ZEXT && sx(k, w) >= 0) return bin(ULT, w, a, b); break;
        case SLE: if (x.op == ZEXT && sx(k, w) >= 0) return bin(ULE, w, a, b); break;
        default: break;
        }
    } else if (!a.e) {
        const Expr x = X[b.e];
        switch (op) {
        case ULE: if (!a.c) return C(1); if (x.op == ZEXT) { unsigned wi = X[x.a].w; if (a.c > mask(wi)) return C(0); return bin(ULE, wi, a, fromE(x.a)); } break;
        case ULT: if (a.c == m) return C(0); if (x.op == ZEXT) { unsigned wi = X[x.a].w; if (a.c >= mask(wi)) return C(0); return bin(ULT, wi, a, fromE(x.a)); } break;
        case SLT: if (x.op == ZEXT && sx(a.c, w) >= 0) return bin(ULT, w, a, b); break;
        case SLE: if (x.op == ZEXT && sx(a.c, w) >= 0) return bin(ULE, w, a, b); break;
        case SHL: case LSHR: case ASHR: case UDIV: case UREM: if (!a.c) return C(0); break;
        default: break;
        }
    } else {
        const Expr x = X[a.e], y = X[b.e];
        if ((op == ULT || op == ULE || op == EQ) && x.op == ZEXT && y.op == ZEXT && X[x.a].w == X[y.a].w)
            return bin(op, X[x.a].w, fromE(x.a), fromE(y.a));
    }
    return V{0, mk(op, cmp ? 1 : w, toE(a, w), toE(b, w))};
}

// ---- evaluation ----
static std::vector<uint32_t> evEp;
static std::vector<uint64_t> evV;
static uint32_t evEpoch = 0;
typedef std::vector<uint64_t> Model;
static uint64_t evalR(ER e, const Model& m)
{
    if (e >= evEp.size()) { evEp.resize(X.size() + 1024, 0); evV.resize(X.size() + 1024, 0); }
    if (evEp[e] == evEpoch) return evV[e];
    const Expr x = X[e];
    uint64_t r;
    switch (x.op) {
    case CONST: r = x.k; break;
    case VAR: r = x.k < m.size() ? m[x.k] & mask(x.w) : 0; break;
    case ITE: r = evalR(x.a, m) ? evalR(x.b, m) : evalR(x.c, m); break;
    case ZEXT: r = evalR(x.a, m); break;
    case SEXT: r = (uint64_t) sx(evalR(x.a, m), X[x.a].w) & mask(x.w); break;
    case EXTRACT: r = (evalR(x.a, m) >> x.k) & mask(x.w); break;
    case CONCAT: r = (evalR(x.a, m) << X[x.b].w) | evalR(x.b, m); break;
    default: r = fold(x.op, X[x.a].w, evalR(x.a, m), evalR(x.b, m));
    }
    evEp[e] = evEpoch; evV[e] = r;
    return r;
}
static uint64_t eval(ER e, const Model& m) { ++evEpoch; return evalR(e, m); }

// ---- variables an expression depends on ----
static std::unordered_map<ER, std::vector<uint32_t>> VS;
static const std::vector<uint32_t>& vars(ER e)
{
    auto it = VS.find(e);
    if (it != VS.end()) return it->second;
    const Expr x = X[e];
    std::vector<uint32_t> r;
    if (x.op == VAR) r.push_back((uint32_t) x.k);
    for (ER s : {x.a, x.b, x.c})
        if (s) {
            const std::vector<uint32_t> v = vars(s);
            std::vector<uint32_t> u;
            std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(u));
            r.swap(u);
        }
    return VS[e] = r;
}

// ---- Z3 ----
static Z3_context Z;
static std::vector<Z3_ast> ZA;
static Z3_ast zvar(uint32_t k, unsigned w)
{
    char n[32];
    snprintf(n, sizeof n, "v%u_%u", k, w);
    return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), Z3_mk_bv_sort(Z, w));
}
static Z3_ast zx(ER e)
{
    if (ZA.size() <= e) ZA.resize(X.size() + 1024, nullptr);
    if (ZA[e]) return ZA[e];
    const Expr x = X[e];
    Z3_ast r = nullptr, a = x.a ? zx(x.a) : nullptr, b = x.b ? zx(x.b) : nullptr, c = x.c ? zx(x.c) : nullptr;
    Z3_ast ab[2] = {a, b};
    unsigned aw = x.a ? X[x.a].w : 0, bw = x.b ? X[x.b].w : 0;
    auto bv = [&](Z3_ast t, unsigned w) { // a condition as a bit
        return w == 1 ? Z3_mk_ite(Z, t, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))) : t;
    };
    auto bo = [&](Z3_ast t) { return Z3_mk_eq(Z, t, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))); };
    switch (x.op) {
    case CONST: r = x.w == 1 ? (x.k ? Z3_mk_true(Z) : Z3_mk_false(Z)) : Z3_mk_unsigned_int64(Z, x.k, Z3_mk_bv_sort(Z, x.w)); break;
    case VAR: r = zvar((uint32_t) x.k, x.w); if (x.w == 1) r = bo(r); break;
    case ADD: if (x.w == 1) r = Z3_mk_xor(Z, a, b); else r = Z3_mk_bvadd(Z, a, b); break;
    case SUB: r = x.w == 1 ? Z3_mk_xor(Z, a, b) : Z3_mk_bvsub(Z, a, b); break;
    case MUL: r = x.w == 1 ? Z3_mk_and(Z, 2, ab) : Z3_mk_bvmul(Z, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
    case UREM: r = Z3_mk_bvurem(Z, a, b); break;
    case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case AND: r = x.w == 1 ? Z3_mk_and(Z, 2, ab) : Z3_mk_bvand(Z, a, b); break;
    case OR: r = x.w == 1 ? Z3_mk_or(Z, 2, ab) : Z3_mk_bvor(Z, a, b); break;
    case XOR: r = x.w == 1 ? Z3_mk_xor(Z, a, b) : Z3_mk_bvxor(Z, a, b); break;
    case SHL: r = Z3_mk_bvshl(Z, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
    case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
    case EQ: r = Z3_mk_eq(Z, a, b); break;
    case ULT: r = Z3_mk_bvult(Z, bv(a, aw), bv(b, bw)); break;
    case ULE: r = Z3_mk_bvule(Z, bv(a, aw), bv(b, bw)); break;
    case SLT: r = Z3_mk_bvslt(Z, bv(a, aw), bv(b, bw)); break;
    case SLE: r = Z3_mk_bvsle(Z, bv(a, aw), bv(b, bw)); break;
    case ITE: r = Z3_mk_ite(Z, a, b, c); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, x.w - aw, bv(a, aw)); break;
    case SEXT: r = Z3_mk_sign_ext(Z, x.w - aw, bv(a, aw)); break;
    case EXTRACT: r = Z3_mk_extract(Z, (unsigned) x.k + x.w - 1, (unsigned) x.k, a); if (x.w == 1) r = bo(r); break;
    case CONCAT: r = Z3_mk_concat(Z, bv(a, aw), bv(b, bw)); break;
    }
    if (ZA.size() <= e) ZA.resize(X.size() + 1024, nullptr);
    ZA[e] = r;
    return r;
}
