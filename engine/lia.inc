// Solver back ends.  Path conditions are QF_BV terms.  They are decided either by Z3's bit-blasting QF_BV solver or, when
// every term has an exact integer reading (wrap-around made explicit), by Z3's linear integer solver.  Included by kse.cpp.
typedef __int128 i128;
static inline int64_t sxw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline uint64_t mskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static inline i128 p2(unsigned k) { return (i128)1 << k; }

// ---------------------------------------------------------------- models and evaluation
struct ModelRef {
    std::unordered_map<Z3_ast, uint64_t> v; // variables; absent means 0
    Z3_model m = nullptr;
    bool bad = false;
    std::unordered_map<Z3_ast, uint64_t> memo;
    ~ModelRef() { if (m) Z3_model_dec_ref(Z, m); }
};
static bool isVar(Z3_ast e) {
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return false;
    Z3_app a = Z3_to_app(Z, e);
    return Z3_get_app_num_args(Z, a) == 0 && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a)) == Z3_OP_UNINTERPRETED;
}
static unsigned bvW(Z3_ast e) { Z3_sort s = Z3_get_sort(Z, e); return Z3_get_sort_kind(Z, s) == Z3_BV_SORT ? Z3_get_bv_sort_size(Z, s) : 1; }
static bool evalRec(ModelRef &m, Z3_ast e, uint64_t &out);
static std::set<string> noEval;
static bool evalSlow(ModelRef &m, Z3_ast e, uint64_t &out) {
    if (!m.m) {
        if (opt.verbose && noEval.size() < 20) { string s = Z3_ast_to_string(Z, e); if (s.size() > 200) s = s.substr(0, 200); if (noEval.insert(s).second) fprintf(stderr, "kse: no evaluation for %s\n", s.c_str()); }
        m.bad = true;
        return false;
    }
    Z3_ast r;
    if (!Z3_model_eval(Z, m.m, e, true, &r)) return false;
    r = Z3_simplify(Z, r);
    Z3_lbool b = Z3_get_bool_value(Z, r);
    if (b != Z3_L_UNDEF) { out = b == Z3_L_TRUE; return true; }
    if (Z3_get_ast_kind(Z, r) != Z3_NUMERAL_AST) return false;
    return Z3_get_numeral_uint64(Z, r, &out);
}
static bool evalRec(ModelRef &m, Z3_ast e, uint64_t &out) {
    Z3_ast_kind k = Z3_get_ast_kind(Z, e);
    if (k == Z3_NUMERAL_AST) return Z3_get_numeral_uint64(Z, e, &out);
    if (k != Z3_APP_AST) return false;
    auto it = m.memo.find(e);
    if (it != m.memo.end()) { out = it->second; return true; }
    if (m.bad) return false;
    Z3_app a = Z3_to_app(Z, e);
    unsigned n = Z3_get_app_num_args(Z, a);
    Z3_func_decl d = Z3_get_app_decl(Z, a);
    Z3_decl_kind dk = Z3_get_decl_kind(Z, d);
    if (n == 0 && dk == Z3_OP_UNINTERPRETED) { auto f = m.v.find(e); out = f == m.v.end() ? 0 : f->second; return true; }
    unsigned w = bvW(e);
    if (w > 64) { // only concatenations of wide values occur under an extract; give up otherwise
        return evalSlow(m, e, out);
    }
    auto A = [&](unsigned i, uint64_t &x) { return evalRec(m, Z3_get_app_arg(Z, a, i), x); };
    uint64_t x = 0, y = 0, r = 0;
    switch (dk) {
    case Z3_OP_TRUE: r = 1; break;
    case Z3_OP_FALSE: r = 0; break;
    case Z3_OP_NOT: if (!A(0, x)) return false; r = !x; break;
    case Z3_OP_AND: r = 1; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; if (!x) { r = 0; break; } } break;
    case Z3_OP_OR: r = 0; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; if (x) { r = 1; break; } } break;
    case Z3_OP_XOR: r = 0; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; r ^= x; } break;
    case Z3_OP_IMPLIES: if (!A(0, x) || !A(1, y)) return false; r = !x || y; break;
    case Z3_OP_ITE: if (!A(0, x)) return false; if (!A(x ? 1 : 2, r)) return false; break;
    case Z3_OP_EQ: case Z3_OP_IFF: {
        if (bvW(Z3_get_app_arg(Z, a, 0)) > 64) return evalSlow(m, e, out);
        if (!A(0, x) || !A(1, y)) return false; r = x == y; break; }
    case Z3_OP_DISTINCT: if (n != 2 || !A(0, x) || !A(1, y)) return false; r = x != y; break;
    case Z3_OP_BADD: r = 0; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; r += x; } break;
    case Z3_OP_BMUL: r = 1; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; r *= x; } break;
    case Z3_OP_BSUB: if (!A(0, r)) return false; for (unsigned i = 1; i < n; i++) { if (!A(i, x)) return false; r -= x; } break;
    case Z3_OP_BNEG: if (!A(0, x)) return false; r = 0 - x; break;
    case Z3_OP_BNOT: if (!A(0, x)) return false; r = ~x; break;
    case Z3_OP_BAND: r = ~0ULL; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; r &= x; } break;
    case Z3_OP_BOR: r = 0; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; r |= x; } break;
    case Z3_OP_BXOR: r = 0; for (unsigned i = 0; i < n; i++) { if (!A(i, x)) return false; r ^= x; } break;
    case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: if (!A(0, x) || !A(1, y)) return false; r = y ? x / y : ~0ULL; break;
    case Z3_OP_BUREM: case Z3_OP_BUREM_I: if (!A(0, x) || !A(1, y)) return false; r = y ? x % y : x; break;
    case Z3_OP_BSDIV: case Z3_OP_BSDIV_I: { if (!A(0, x) || !A(1, y)) return false; int64_t p = sxw(x, w), q = sxw(y, w); r = q == 0 ? (p >= 0 ? ~0ULL : 1) : q == -1 ? 0 - x : (uint64_t)(p / q); break; }
    case Z3_OP_BSREM: case Z3_OP_BSREM_I: { if (!A(0, x) || !A(1, y)) return false; int64_t p = sxw(x, w), q = sxw(y, w); r = q == 0 ? x : q == -1 ? 0 : (uint64_t)(p % q); break; }
    case Z3_OP_BSHL: if (!A(0, x) || !A(1, y)) return false; r = y >= w ? 0 : x << y; break;
    case Z3_OP_BLSHR: if (!A(0, x) || !A(1, y)) return false; r = y >= w ? 0 : x >> y; break;
    case Z3_OP_BASHR: { if (!A(0, x) || !A(1, y)) return false; int64_t p = sxw(x, w); r = (uint64_t)(y >= w ? (p < 0 ? -1 : 0) : p >> y); break; }
    case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT: {
        if (bvW(Z3_get_app_arg(Z, a, 0)) > 64) return evalSlow(m, e, out);
        if (!A(0, x) || !A(1, y)) return false; r = dk == Z3_OP_ULEQ ? x <= y : dk == Z3_OP_ULT ? x < y : dk == Z3_OP_UGEQ ? x >= y : x > y; break; }
    case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: {
        unsigned aw = bvW(Z3_get_app_arg(Z, a, 0));
        if (aw > 64) return evalSlow(m, e, out);
        if (!A(0, x) || !A(1, y)) return false; int64_t p = sxw(x, aw), q = sxw(y, aw); r = dk == Z3_OP_SLEQ ? p <= q : dk == Z3_OP_SLT ? p < q : dk == Z3_OP_SGEQ ? p >= q : p > q; break; }
    case Z3_OP_CONCAT: { r = 0; for (unsigned i = 0; i < n; i++) { Z3_ast c = Z3_get_app_arg(Z, a, i); if (!A(i, x)) return false; unsigned cw = bvW(c); r = cw >= 64 ? x : (r << cw) | x; } break; }
    case Z3_OP_ZERO_EXT: if (!A(0, r)) return false; break;
    case Z3_OP_SIGN_EXT: { if (!A(0, x)) return false; r = (uint64_t)sxw(x, bvW(Z3_get_app_arg(Z, a, 0))); break; }
    case Z3_OP_EXTRACT: {
        Z3_ast in = Z3_get_app_arg(Z, a, 0);
        if (bvW(in) > 64) return evalSlow(m, e, out);
        if (!A(0, x)) return false; unsigned lo = Z3_get_decl_int_parameter(Z, d, 1); r = x >> lo; break; }
    default: return evalSlow(m, e, out);
    }
    r = mskw(r, w);
    m.memo[e] = r;
    out = r;
    return true;
}
static bool evalModel(ModelRef &m, const Val &v, uint64_t &out) {
    if (v.conc()) { out = v.c; return true; }
    m.bad = false;
    return evalRec(m, v.e, out);
}

// ---------------------------------------------------------------- exact integer reading of bit-vector terms
struct Rng { i128 lo, hi; };
struct Bounds { std::unordered_map<Z3_ast, Rng> r; };
static Z3_sort intSort() { static Z3_sort s = Z3_mk_int_sort(Z); return s; }
static Z3_ast intNum(i128 v) {
    if (v >= INT64_MIN && v <= INT64_MAX) return Z3_mk_int64(Z, (int64_t)v, intSort());
    bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; string s;
    while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; }
    return Z3_mk_numeral(Z, ((neg ? "-" : "") + s).c_str(), intSort());
}
static std::unordered_map<Z3_ast, Z3_ast> intVarOf;
static std::vector<std::pair<Z3_ast, Z3_ast>> intVars; // bv var, int var
static Z3_ast intVar(Z3_ast v) {
    auto it = intVarOf.find(v);
    if (it != intVarOf.end()) return it->second;
    string n = string(Z3_ast_to_string(Z, v)) + "!int";
    Z3_ast r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), intSort());
    intVarOf[v] = r; intVars.push_back({v, r});
    return r;
}
struct NoInt {};
struct Lia {
    const Bounds *B;
    std::unordered_map<Z3_ast, Z3_ast> bmemo;
    std::set<Z3_ast> vars;
    int budget = 4000;
    struct Mono { Z3_ast a; i128 c; Rng r; };
    // an integer term, its range, and (when known) its value as a linear combination of atoms
    struct T { Z3_ast first; Rng second; bool has = false; std::vector<Mono> lin; i128 k = 0; };
    static T num(i128 v) { T t{intNum(v), {v, v}}; t.has = true; t.k = v; return t; }
    static void addLin(T &r, const T &t, i128 c) {
        if (!t.has) { r.lin.push_back({t.first, c, t.second}); return; }
        r.k += t.k * c;
        for (auto &m : t.lin) r.lin.push_back({m.a, m.c * c, m.r});
    }
    static void norm(T &r) {
        r.has = true;
        std::sort(r.lin.begin(), r.lin.end(), [](const Mono &x, const Mono &y) { return x.a < y.a; });
        std::vector<Mono> o;
        for (auto &m : r.lin) { if (!o.empty() && o.back().a == m.a) o.back().c += m.c; else o.push_back(m); if (o.back().c == 0) o.pop_back(); }
        r.lin = o;
    }
    // range of x - y from the linear forms
    static Rng diffRange(const T &x, const T &y) {
        T d{nullptr, {0, 0}};
        addLin(d, x, 1); addLin(d, y, -1); norm(d);
        Rng r{d.k, d.k};
        for (auto &m : d.lin) { i128 a = m.r.lo * m.c, b = m.r.hi * m.c; r.lo += std::min(a, b); r.hi += std::max(a, b); }
        return r;
    }
    T wrap(T t, unsigned w) {
        i128 mn = -p2(w - 1), mx = p2(w - 1) - 1, M = p2(w);
        if (t.second.lo >= mn && t.second.hi <= mx) return t;
        Z3_ast x = t.first;
        if (t.second.lo >= mn - M && t.second.hi <= mx + M) {
            Z3_ast s2[2] = {x, intNum(M)};
            Z3_ast r = x;
            if (t.second.hi > mx) r = Z3_mk_ite(Z, Z3_mk_gt(Z, x, intNum(mx)), Z3_mk_sub(Z, 2, s2), r);
            if (t.second.lo < mn) r = Z3_mk_ite(Z, Z3_mk_lt(Z, x, intNum(mn)), Z3_mk_add(Z, 2, s2), r);
            return {r, {mn, mx}};
        }
        Z3_ast m = Z3_mk_mod(Z, x, intNum(M));
        Z3_ast s2[2] = {m, intNum(M)};
        return {Z3_mk_ite(Z, Z3_mk_gt(Z, m, intNum(mx)), Z3_mk_sub(Z, 2, s2), m), {mn, mx}};
    }
    T uns(T t, unsigned w) { // unsigned reading of a signed reading
        if (t.second.lo >= 0) return t;
        i128 M = p2(w);
        Z3_ast s2[2] = {t.first, intNum(M)};
        if (t.second.hi < 0) return {Z3_mk_add(Z, 2, s2), {t.second.lo + M, t.second.hi + M}};
        return {Z3_mk_ite(Z, Z3_mk_lt(Z, t.first, intNum(0)), Z3_mk_add(Z, 2, s2), t.first), {0, M - 1}};
    }
    static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
    T divp(T t, i128 d) { // floor division by a positive constant
        if (d == 1) return t;
        Rng r{fdiv(t.second.lo, d), fdiv(t.second.hi, d)};
        if (r.lo == r.hi) return num(r.lo);
        return {Z3_mk_div(Z, t.first, intNum(d)), r};
    }
    T modp(T t, i128 d) {
        if (t.second.lo >= 0 && t.second.hi < d) return t;
        return {Z3_mk_mod(Z, t.first, intNum(d)), {0, d - 1}};
    }
    T mulc(T t, i128 k) {
        if (k == 1) return t;
        Z3_ast s[2] = {intNum(k), t.first};
        i128 a = t.second.lo * k, b = t.second.hi * k;
        T r{Z3_mk_mul(Z, 2, s), {std::min(a, b), std::max(a, b)}};
        addLin(r, t, k); norm(r);
        return r;
    }
    std::unordered_map<Z3_ast, T> memo;
    static bool isNum(Z3_ast e, uint64_t &v) { return Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, e, &v); }
    T term(Z3_ast e) {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        if (--budget < 0) throw NoInt{};
        T r = term0(e);
        memo[e] = r;
        return r;
    }
    T term0(Z3_ast e) {
        unsigned w = bvW(e);
        if (w > 64) throw NoInt{};
        uint64_t k;
        if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) { if (!isNum(e, k)) throw NoInt{}; return num(sxw(k, w)); }
        if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) throw NoInt{};
        if (isVar(e)) {
            vars.insert(e);
            auto b = B->r.find(e);
            Rng r = b == B->r.end() ? Rng{-p2(w - 1), p2(w - 1) - 1} : b->second;
            if (r.lo == r.hi) return num(r.lo);
            return {intVar(e), r};
        }
        Z3_app a = Z3_to_app(Z, e);
        unsigned n = Z3_get_app_num_args(Z, a);
        Z3_func_decl d = Z3_get_app_decl(Z, a);
        auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, a, i); };
        switch (Z3_get_decl_kind(Z, d)) {
        case Z3_OP_BADD: {
            std::vector<Z3_ast> s; Rng r{0, 0};
            T o{nullptr, {0, 0}};
            for (unsigned i = 0; i < n; i++) { T t = term(arg(i)); s.push_back(t.first); r.lo += t.second.lo; r.hi += t.second.hi; addLin(o, t, 1); }
            norm(o);
            o.first = Z3_mk_add(Z, n, s.data()); o.second = r;
            return wrap(o, w);
        }
        case Z3_OP_BSUB: {
            T x = term(arg(0)), y = term(arg(1));
            if (n != 2) throw NoInt{};
            Z3_ast s[2] = {x.first, y.first};
            T o{Z3_mk_sub(Z, 2, s), diffRange(x, y)};
            addLin(o, x, 1); addLin(o, y, -1); norm(o);
            return wrap(o, w);
        }
        case Z3_OP_BNEG: { T x = term(arg(0)); return wrap(mulc(x, -1), w); }
        case Z3_OP_BNOT: { T x = mulc(term(arg(0)), -1); Z3_ast s[2] = {x.first, intNum(1)}; return {Z3_mk_sub(Z, 2, s), {x.second.lo - 1, x.second.hi - 1}}; }
        case Z3_OP_BMUL: {
            if (n != 2) throw NoInt{};
            Z3_ast x = arg(0), y = arg(1);
            if (isNum(y, k)) std::swap(x, y);
            if (!isNum(x, k)) throw NoInt{};
            return wrap(mulc(term(y), sxw(k, w)), w);
        }
        case Z3_OP_BSHL: { if (!isNum(arg(1), k)) throw NoInt{}; if (k >= w) return num(0); if (k > 60) throw NoInt{}; return wrap(mulc(term(arg(0)), p2(k)), w); }
        case Z3_OP_BLSHR: { if (!isNum(arg(1), k)) throw NoInt{}; if (k >= w) return num(0); T u = uns(term(arg(0)), w); return wrap(divp(u, p2(k)), w); }
        case Z3_OP_BASHR: {
            if (!isNum(arg(1), k)) throw NoInt{};
            if (k >= w) k = w - 1;
            Z3_ast in = arg(0);
            if (Z3_get_ast_kind(Z, in) == Z3_APP_AST) {
                Z3_app ia = Z3_to_app(Z, in);
                if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ia)) == Z3_OP_CONCAT && Z3_get_app_num_args(Z, ia) == 2 && bvW(Z3_get_app_arg(Z, ia, 1)) <= k)
                    return divp(term(Z3_get_app_arg(Z, ia, 0)), p2(k - bvW(Z3_get_app_arg(Z, ia, 1))));
            }
            return divp(term(in), p2(k));
        }
        case Z3_OP_BAND: {
            if (n != 2) throw NoInt{};
            Z3_ast x = arg(0), y = arg(1);
            if (isNum(x, k)) std::swap(x, y);
            if (!isNum(y, k)) throw NoInt{};
            if ((k & (k + 1)) == 0) { // low mask
                unsigned kb = __builtin_popcountll(k);
                if (kb >= w) return term(x);
                return modp(term(x), p2(kb));
            }
            uint64_t inv = mskw(~k, w);
            if ((inv & (inv + 1)) == 0) { // clears the low bits
                unsigned kb = __builtin_popcountll(inv);
                return mulc(divp(term(x), p2(kb)), p2(kb));
            }
            throw NoInt{};
        }
        case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: { if (!isNum(arg(1), k) || !k || k >> 62) throw NoInt{}; return wrap(divp(uns(term(arg(0)), w), k), w); }
        case Z3_OP_BUREM: case Z3_OP_BUREM_I: { if (!isNum(arg(1), k) || !k || k >> 62) throw NoInt{}; return wrap(modp(uns(term(arg(0)), w), k), w); }
        case Z3_OP_ITE: {
            Z3_ast c = boolean(arg(0));
            Z3_lbool cv = Z3_get_bool_value(Z, c);
            if (cv != Z3_L_UNDEF) return term(arg(cv == Z3_L_TRUE ? 1 : 2));
            T x = term(arg(1)), y = term(arg(2));
            return {Z3_mk_ite(Z, c, x.first, y.first), {std::min(x.second.lo, y.second.lo), std::max(x.second.hi, y.second.hi)}};
        }
        case Z3_OP_SIGN_EXT: return term(arg(0));
        case Z3_OP_ZERO_EXT: return uns(term(arg(0)), bvW(arg(0)));
        case Z3_OP_CONCAT: {
            T r = term(arg(0));
            if (r.second.lo == 0 && r.second.hi == 0 && n == 2) { T l = uns(term(arg(1)), bvW(arg(1))); return wrap(l, w); }
            for (unsigned i = 1; i < n; i++) {
                unsigned lw = bvW(arg(i));
                if (lw > 62) throw NoInt{};
                T l = uns(term(arg(i)), lw), h = mulc(r, p2(lw));
                if (l.second.lo == 0 && l.second.hi == 0) { r = h; continue; }
                Z3_ast s[2] = {h.first, l.first};
                r = {Z3_mk_add(Z, 2, s), {h.second.lo + l.second.lo, h.second.hi + l.second.hi}};
            }
            return r;
        }
        case Z3_OP_EXTRACT: {
            unsigned lo = Z3_get_decl_int_parameter(Z, d, 1);
            T x = term(arg(0));
            if (lo) x = divp(x, p2(lo));
            return wrap(x, w);
        }
        default: throw NoInt{};
        }
    }
    Z3_ast boolean(Z3_ast e) {
        auto it = bmemo.find(e);
        if (it != bmemo.end()) return it->second;
        if (--budget < 0) throw NoInt{};
        Z3_ast r = bool0(e);
        bmemo[e] = r;
        return r;
    }
    Z3_ast bool0(Z3_ast e) {
        if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) throw NoInt{};
        if (isVar(e)) { vars.insert(e); return e; }
        Z3_app a = Z3_to_app(Z, e);
        unsigned n = Z3_get_app_num_args(Z, a);
        auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, a, i); };
        Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a));
        auto many = [&]() { std::vector<Z3_ast> v; for (unsigned i = 0; i < n; i++) v.push_back(boolean(arg(i))); return v; };
        switch (dk) {
        case Z3_OP_TRUE: case Z3_OP_FALSE: return e;
        case Z3_OP_NOT: { Z3_ast b = boolean(arg(0)); Z3_lbool v = Z3_get_bool_value(Z, b); return v == Z3_L_TRUE ? Z3_mk_false(Z) : v == Z3_L_FALSE ? Z3_mk_true(Z) : Z3_mk_not(Z, b); }
        case Z3_OP_AND: { auto v = many(); return Z3_mk_and(Z, n, v.data()); }
        case Z3_OP_OR: { auto v = many(); return Z3_mk_or(Z, n, v.data()); }
        case Z3_OP_IMPLIES: return Z3_mk_implies(Z, boolean(arg(0)), boolean(arg(1)));
        case Z3_OP_ITE: return Z3_mk_ite(Z, boolean(arg(0)), boolean(arg(1)), boolean(arg(2)));
        case Z3_OP_EQ: case Z3_OP_IFF: {
            if (Z3_get_sort_kind(Z, Z3_get_sort(Z, arg(0))) == Z3_BOOL_SORT) return Z3_mk_iff(Z, boolean(arg(0)), boolean(arg(1)));
            T x = term(arg(0)), y = term(arg(1));
            Rng d = diffRange(x, y);
            if (d.lo > 0 || d.hi < 0) return Z3_mk_false(Z);
            if (d.lo == 0 && d.hi == 0) return Z3_mk_true(Z);
            return Z3_mk_eq(Z, x.first, y.first);
        }
        case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT: case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: {
            T x = term(arg(0)), y = term(arg(1));
            unsigned w = bvW(arg(0));
            bool u = dk == Z3_OP_ULEQ || dk == Z3_OP_ULT || dk == Z3_OP_UGEQ || dk == Z3_OP_UGT;
            if (u && !(x.second.hi < 0 && y.second.hi < 0)) { x = uns(x, w); y = uns(y, w); }
            bool lt = dk == Z3_OP_ULT || dk == Z3_OP_SLT || dk == Z3_OP_UGT || dk == Z3_OP_SGT;
            if (dk == Z3_OP_UGEQ || dk == Z3_OP_UGT || dk == Z3_OP_SGEQ || dk == Z3_OP_SGT) std::swap(x, y);
            Rng d = diffRange(x, y);
            if (lt ? d.hi < 0 : d.hi <= 0) return Z3_mk_true(Z);
            if (lt ? d.lo >= 0 : d.lo > 0) return Z3_mk_false(Z);
            return lt ? Z3_mk_lt(Z, x.first, y.first) : Z3_mk_le(Z, x.first, y.first);
        }
        default: throw NoInt{};
        }
    }
    // range facts of the variables used
    Z3_ast ranged(Z3_ast b) {
        std::vector<Z3_ast> v{b};
        for (Z3_ast x : vars) {
            if (Z3_get_sort_kind(Z, Z3_get_sort(Z, x)) != Z3_BV_SORT) continue;
            unsigned w = bvW(x);
            v.push_back(Z3_mk_ge(Z, intVar(x), intNum(-p2(w - 1))));
            v.push_back(Z3_mk_le(Z, intVar(x), intNum(p2(w - 1) - 1)));
        }
        return v.size() == 1 ? b : Z3_mk_and(Z, v.size(), v.data());
    }
};
// tighten variable ranges from a condition that holds; facts are appended as integer constraints implied by the path anyway
static void refine(Bounds &b, Z3_ast e, bool pos, int depth = 0) {
    if (depth > 6 || Z3_get_ast_kind(Z, e) != Z3_APP_AST || isVar(e)) return;
    Z3_app a = Z3_to_app(Z, e);
    unsigned n = Z3_get_app_num_args(Z, a);
    Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a));
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, a, i); };
    if (dk == Z3_OP_NOT) return refine(b, arg(0), !pos, depth + 1);
    if (dk == Z3_OP_AND && pos) { for (unsigned i = 0; i < n; i++) refine(b, arg(i), true, depth + 1); return; }
    if (dk == Z3_OP_OR && !pos) { for (unsigned i = 0; i < n; i++) refine(b, arg(i), false, depth + 1); return; }
    if (n != 2) return;
    Z3_ast x = arg(0), y = arg(1);
    if (Z3_get_sort_kind(Z, Z3_get_sort(Z, x)) != Z3_BV_SORT || bvW(x) > 64) return;
    unsigned w = bvW(x);
    bool strict, uns = false;
    switch (dk) {
    case Z3_OP_EQ: {
        if (!pos) return;
        Lia L; L.B = &b;
        try {
            for (int k = 0; k < 2; k++) { Z3_ast v = k ? y : x, o = k ? x : y; if (!isVar(v)) continue; Rng r = L.term(o).second, c = L.term(v).second; b.r[v] = {std::max(c.lo, r.lo), std::min(c.hi, r.hi)}; }
        } catch (NoInt &) {}
        return; }
    case Z3_OP_SLEQ: strict = false; break;
    case Z3_OP_SLT: strict = true; break;
    case Z3_OP_SGEQ: strict = false; std::swap(x, y); break;
    case Z3_OP_SGT: strict = true; std::swap(x, y); break;
    case Z3_OP_ULEQ: strict = false; uns = true; break;
    case Z3_OP_ULT: strict = true; uns = true; break;
    case Z3_OP_UGEQ: strict = false; uns = true; std::swap(x, y); break;
    case Z3_OP_UGT: strict = true; uns = true; std::swap(x, y); break;
    default: return;
    }
    if (!pos) { std::swap(x, y); strict = !strict; }
    // now x < y or x <= y
    Lia L; L.B = &b;
    try {
        Rng rx = L.term(x).second, ry = L.term(y).second;
        if (uns) {
            // x <=u y with y non-negative as a signed value implies 0 <= x <= y
            if (ry.lo < 0) {
                return;
            }
            if (isVar(x)) { rx.lo = std::max(rx.lo, (i128)0); rx.hi = std::min(rx.hi, ry.hi - strict); b.r[x] = rx; }
            return;
        }
        (void)w;
        Rng nx{rx.lo, std::min(rx.hi, ry.hi - strict)}, ny{std::max(ry.lo, rx.lo + strict), ry.hi};
        if (isVar(x) && nx.lo <= nx.hi) b.r[x] = nx;
        if (isVar(y) && ny.lo <= ny.hi) b.r[y] = ny;
    } catch (NoInt &) {}
}

// ---------------------------------------------------------------- solvers
static void checkTime();
static Z3_solver bvSolver, liaSolver;
static std::vector<PC> bvAsserted, liaAsserted;
static std::map<uint64_t, std::shared_ptr<ModelRef>> models; // by state id
static uint64_t crossChecked = 0;
static Z3_solver mkSolver(int kind) { // 0 QF_BV, 1 general, 2 integers
    Z3_solver s = kind ? Z3_mk_simple_solver(Z) : Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), (unsigned)(opt.queryTimeout * 1000));
    Z3_solver_set_params(Z, s, p);
    return s;
}
static bool usesFP = false;
static void needFP() {
    if (usesFP) return;
    usesFP = true;
    bvSolver = mkSolver(1);
    bvAsserted.clear();
}
static void pathOf(const PC &pc, std::vector<PC> &path) {
    path.clear();
    for (PC p = pc; p; p = p->parent) path.push_back(p);
    std::reverse(path.begin(), path.end());
}
static void sync(Z3_solver s, std::vector<PC> &asserted, const std::vector<PC> &path, bool ints) {
    size_t i = 0;
    while (i < path.size() && i < asserted.size() && path[i] == asserted[i]) i++;
    if (asserted.size() > i) { Z3_solver_pop(Z, s, asserted.size() - i); asserted.resize(i); }
    for (; i < path.size(); i++) {
        Z3_solver_push(Z, s);
        Z3_solver_assert(Z, s, ints ? path[i]->ic : path[i]->c);
        asserted.push_back(path[i]);
    }
}
static std::shared_ptr<Bounds> noBounds = std::make_shared<Bounds>();
static bool hasWide(Z3_ast e, int depth = 0) {
    if (depth > 12) return true;
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return false;
    if (isVar(e)) return bvW(e) > 8;
    Z3_app a = Z3_to_app(Z, e);
    for (unsigned i = 0, n = Z3_get_app_num_args(Z, a); i < n; i++) if (hasWide(Z3_get_app_arg(Z, a, i), depth + 1)) return true;
    return false;
}
static void decorate(PCNode *n) { // integer reading and ranges of a new path condition
    PCNode *p = n->parent.get();
    std::shared_ptr<Bounds> pb = p ? p->bounds : noBounds;
    n->lin = p ? p->lin : true;
    n->wide = (p && p->wide) || hasWide(n->c);
    n->bounds = pb;
    if (!n->lin) return;
    try {
        Lia L; L.B = pb.get();
        Z3_ast b = L.boolean(n->c);
        if (Z3_get_bool_value(Z, b) == Z3_L_TRUE) { n->implied = true; return; }
        n->ic = L.ranged(b);
        auto nb = std::make_shared<Bounds>(*pb);
        refine(*nb, n->c, true);
        n->bounds = nb;
    } catch (NoInt &) { n->lin = false; }
}
static string dumpQ(Z3_solver like, const std::vector<PC> &asserted, Z3_ast extra, bool ints) {
    Z3_solver t = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, t);
    for (auto &a : asserted) Z3_solver_assert(Z, t, ints ? a->ic : a->c);
    if (extra) Z3_solver_assert(Z, t, extra);
    string s = Z3_solver_to_string(Z, t);
    Z3_solver_dec_ref(Z, t);
    (void)like;
    return s;
}
struct VecHash { size_t operator()(const std::vector<Z3_ast> &v) const { size_t h = 14695981039346656037ULL; for (auto a : v) h = (h ^ (size_t)a) * 1099511628211ULL; return h; } };
struct Cached { int res; std::shared_ptr<ModelRef> m; };
static std::unordered_map<std::vector<Z3_ast>, Cached, VecHash> qcache; // terms are hash-consed and never freed
// returns 1 sat, 0 unsat, -1 unknown
static int query(State &S, const Val &extra, std::shared_ptr<ModelRef> *mout = nullptr) {
    if (extra.conc() && !extra.c) return 0;
    double q0 = now();
    std::vector<PC> path;
    pathOf(S.pc, path);
    stt.queries++;
    bool lin = opt.lia && !usesFP && (!S.pc || S.pc->lin), wide = S.pc && S.pc->wide;
    Z3_ast ie = nullptr;
    if (lin && !wide && !extra.conc()) wide = hasWide(extra.e);
    if (lin && wide && !extra.conc()) {
        try { Lia L; L.B = S.pc ? S.pc->bounds.get() : noBounds.get(); Z3_ast b = L.boolean(extra.e);
            if (Z3_get_bool_value(Z, b) == Z3_L_FALSE && !(opt.cross && stt.liaQueries % opt.cross == 0)) { stt.liaQueries++; stt.foldq++; stt.unsatq++; stt.solver += now() - q0; checkTime(); return 0; }
            ie = L.ranged(b); } catch (NoInt &) { lin = false; }
    }
    int res = -1;
    bool usedLia = false;
    std::shared_ptr<ModelRef> m;
    std::vector<Z3_ast> key;
    for (auto &p : path) key.push_back(p->c);
    if (!extra.conc()) key.push_back(extra.e);
    {
        auto it = qcache.find(key);
        if (it != qcache.end()) {
            if (it->second.res == 1) { stt.satq++; if (mout) *mout = it->second.m; } else stt.unsatq++;
            stt.cacheq++; stt.solver += now() - q0; checkTime();
            return it->second.res;
        }
    }
    if (lin && wide) {
        usedLia = true;
        stt.liaQueries++;
        sync(liaSolver, liaAsserted, path, true);
        Z3_solver_push(Z, liaSolver);
        if (ie) Z3_solver_assert(Z, liaSolver, ie);
        Z3_lbool r = Z3_solver_check(Z, liaSolver);
        res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1) {
            m = std::make_shared<ModelRef>();
            Z3_model zm = Z3_solver_get_model(Z, liaSolver);
            Z3_model_inc_ref(Z, zm);
            unsigned nc = Z3_model_get_num_consts(Z, zm);
            std::unordered_map<Z3_ast, Z3_ast> asg;
            for (unsigned i = 0; i < nc; i++) { Z3_func_decl d = Z3_model_get_const_decl(Z, zm, i); Z3_ast iv = Z3_model_get_const_interp(Z, zm, d); if (iv) asg[Z3_mk_app(Z, d, 0, nullptr)] = iv; }
            for (auto &p : intVars) { auto it = asg.find(p.second); if (it != asg.end()) { int64_t x = 0; Z3_get_numeral_int64(Z, it->second, &x); m->v[p.first] = mskw((uint64_t)x, bvW(p.first)); } }
            // variables folded to a constant by their range do not occur in the solver
            if (S.pc) for (auto &b : S.pc->bounds->r) if (b.second.lo == b.second.hi && Z3_get_sort_kind(Z, Z3_get_sort(Z, b.first)) == Z3_BV_SORT) m->v[b.first] = mskw((uint64_t)(int64_t)b.second.lo, bvW(b.first));
            for (auto &p : asg) if (Z3_get_sort_kind(Z, Z3_get_sort(Z, p.first)) == Z3_BOOL_SORT) m->v[p.first] = Z3_get_bool_value(Z, p.second) == Z3_L_TRUE;
            Z3_model_dec_ref(Z, zm);
            // the model must satisfy the bit-vector formulation as well
            uint64_t ok = 1, v;
            for (auto &p : path) if (!evalRec(*m, p->c, v) || !v) { ok = 0; break; }
            if (ok && !extra.conc() && (!evalRec(*m, extra.e, v) || !v)) ok = 0;
            if (!ok) { stt.liaBad++; res = -1; m.reset(); }
        }
        Z3_solver_pop(Z, liaSolver, 1);
    }
    if (res == -1) {
        usedLia = false;
        sync(bvSolver, bvAsserted, path, false);
        Z3_solver_push(Z, bvSolver);
        if (!extra.conc()) Z3_solver_assert(Z, bvSolver, extra.e);
        Z3_lbool r = Z3_solver_check(Z, bvSolver);
        res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1) {
            m = std::make_shared<ModelRef>();
            m->m = Z3_solver_get_model(Z, bvSolver);
            Z3_model_inc_ref(Z, m->m);
            unsigned nc = Z3_model_get_num_consts(Z, m->m);
            for (unsigned i = 0; i < nc; i++) {
                Z3_func_decl d = Z3_model_get_const_decl(Z, m->m, i);
                Z3_ast iv = Z3_model_get_const_interp(Z, m->m, d), c = Z3_mk_app(Z, d, 0, nullptr);
                if (!iv) continue;
                Z3_lbool b = Z3_get_bool_value(Z, iv);
                uint64_t x = 0;
                if (b != Z3_L_UNDEF) m->v[c] = b == Z3_L_TRUE;
                else if (Z3_get_ast_kind(Z, iv) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, iv, &x)) m->v[c] = x;
            }
        }
        Z3_solver_pop(Z, bvSolver, 1);
    }
    if (usedLia && opt.cross && stt.liaQueries % opt.cross == 0) {
        sync(bvSolver, bvAsserted, path, false);
        Z3_solver_push(Z, bvSolver);
        if (!extra.conc()) Z3_solver_assert(Z, bvSolver, extra.e);
        Z3_lbool r = Z3_solver_check(Z, bvSolver);
        Z3_solver_pop(Z, bvSolver, 1);
        crossChecked++;
        if (r != Z3_L_UNDEF && (r == Z3_L_TRUE) != (res == 1)) { std::ofstream f("/tmp/kse_mismatch.smt2"); f << dumpQ(bvSolver, path, extra.conc() ? nullptr : extra.e, false) << "; int\n" << dumpQ(liaSolver, path, ie, true); f.close(); fatal("the integer and the bit-vector solver disagree"); }
    }
    if (res >= 0) { if (qcache.size() > 400000) qcache.clear(); qcache[key] = {res, m}; }
    if (res == 1) { stt.satq++; if (mout) *mout = m; }
    else if (res == 0) stt.unsatq++;
    else { stt.unknown++; incomplete = true; truncReasons["solver unknown"]++; }
    double d = now() - q0;
    stt.solver += d;
    if (d > stt.maxq) stt.maxq = d;
    checkTime();
    if (!opt.dump.empty() && d > opt.dumpOver) {
        std::ofstream f(opt.dump + "/q" + std::to_string(stt.queries) + ".smt2");
        f << "; " << d << (usedLia ? " lia" : " bv") << "\n" << dumpQ(nullptr, path, usedLia ? ie : extra.conc() ? nullptr : extra.e, usedLia) << "(check-sat)\n";
    }
    return res;
}
