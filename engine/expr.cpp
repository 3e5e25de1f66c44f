#include "kse.h"
using namespace llvm;
Z3_context Z;
static Z3_sort bvSortCache[1025];
static Z3_sort bvs(unsigned w) { if (w <= 1024) { if (!bvSortCache[w]) bvSortCache[w] = Z3_mk_bv_sort(Z, w); return bvSortCache[w]; } return Z3_mk_bv_sort(Z, w); }
static void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "kse: z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(3);
}
void exprInit() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    Z = Z3_mk_context(cfg); // not reference counted: expressions live as long as the run
    Z3_set_error_handler(Z, onErr);
}
bool isBoolTrue(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_TRUE; }
bool isBoolFalse(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_FALSE; }
Val fromAst(Z3_ast a, unsigned w) {
    if (w == 1) {
        Z3_lbool b = Z3_get_bool_value(Z, a);
        if (b == Z3_L_TRUE) return Val(1, 1ULL);
        if (b == Z3_L_FALSE) return Val(1, 0ULL);
        return Val(1, a);
    }
    if (w <= 64 && Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) {
        uint64_t v = 0;
        if (Z3_get_numeral_uint64(Z, a, &v)) return Val(w, v);
    }
    return Val(w, a);
}
Z3_ast toAst(const Val &v) {
    if (v.e) return v.e;
    if (v.agg) { fprintf(stderr, "kse: aggregate used as scalar\n"); _exit(3); }
    if (v.w == 1) return v.c ? Z3_mk_true(Z) : Z3_mk_false(Z);
    return Z3_mk_unsigned_int64(Z, v.c, bvs(v.w));
}
Z3_ast bvAst(const Val &v) {
    if (v.w == 1) {
        if (v.conc()) return Z3_mk_unsigned_int64(Z, v.c, bvs(1));
        return Z3_mk_ite(Z, v.e, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
    }
    return toAst(v);
}
Val simp(const Val &v) {
    if (!v.e) return v;
    return fromAst(Z3_simplify(Z, v.e), v.w);
}
Val mkFresh(const std::string &name, unsigned w) {
    Z3_symbol s = Z3_mk_string_symbol(Z, name.c_str());
    if (w == 1) return Val(1, Z3_mk_const(Z, s, Z3_mk_bool_sort(Z)));
    return Val(w, Z3_mk_const(Z, s, bvs(w)));
}
static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
Val mkNot(const Val &a) {
    if (a.conc()) return Val(1, (uint64_t)!a.c);
    if (Z3_get_ast_kind(Z, a.e) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(Z, a.e);
        if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_NOT) return Val(1, Z3_get_app_arg(Z, ap, 0));
    }
    return Val(1, Z3_mk_not(Z, a.e));
}
Val mkAnd(const Val &a, const Val &b) {
    if (a.conc()) return a.c ? b : a;
    if (b.conc()) return b.c ? a : b;
    if (a.e == b.e) return a;
    Z3_ast x[2] = {a.e, b.e};
    return Val(1, Z3_mk_and(Z, 2, x));
}
Val mkOr(const Val &a, const Val &b) {
    if (a.conc()) return a.c ? a : b;
    if (b.conc()) return b.c ? b : a;
    if (a.e == b.e) return a;
    Z3_ast x[2] = {a.e, b.e};
    return Val(1, Z3_mk_or(Z, 2, x));
}
Val mkEq(const Val &a, const Val &b) { return mkCmp(CmpInst::ICMP_EQ, a, b); }
Val mkIte(const Val &c, const Val &a, const Val &b) {
    if (c.conc()) return c.c ? a : b;
    if (a.agg) {
        Val r; r.agg = std::make_shared<Agg>();
        for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(mkIte(c, (*a.agg)[i], (*b.agg)[i]));
        return r;
    }
    if (a.conc() && b.conc() && a.c == b.c) return a;
    if (a.e && a.e == b.e) return a;
    if (a.w == 1) {
        if (a.conc() && b.conc()) return a.c ? c : mkNot(c);
        if (a.conc()) return a.c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b.conc()) return b.c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    return Val(a.w, Z3_mk_ite(Z, c.e, toAst(a), toAst(b)));
}
Val mkZext(const Val &a, unsigned w) {
    if (a.w == w) return a;
    if (a.conc() && w <= 64) return Val(w, a.c);
    if (a.w == 1 && a.e) {
        if (w <= 64) return Val(w, Z3_mk_ite(Z, a.e, toAst(Val(w, 1ULL)), toAst(Val(w, 0ULL))));
    }
    return Val(w, Z3_mk_zero_ext(Z, w - a.w, bvAst(a)));
}
Val mkSext(const Val &a, unsigned w) {
    if (a.w == w) return a;
    if (a.conc() && w <= 64) return Val(w, (uint64_t)sx(a.c, a.w));
    return Val(w, Z3_mk_sign_ext(Z, w - a.w, bvAst(a)));
}
static Z3_ast appArg(Z3_ast e, unsigned i) { return Z3_get_app_arg(Z, Z3_to_app(Z, e), i); }
static Z3_decl_kind dkind(Z3_ast e) {
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
    return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e)));
}
Val mkExtract(const Val &a, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    if (w == a.w) return a;
    if (a.conc()) return Val(w, a.c >> lo);
    Z3_ast e = a.w == 1 ? bvAst(a) : a.e;
    Z3_ast r;
    // look through ite-with-constants and concat cheaply
    if (dkind(e) == Z3_OP_CONCAT && Z3_get_app_num_args(Z, Z3_to_app(Z, e)) == 2) {
        Z3_ast h = appArg(e, 0), l = appArg(e, 1);
        unsigned lw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, l));
        if (hi < lw) return mkExtract(fromAst(l, lw), hi, lo).w == 1 && lw == 1 ? fromAst(l, lw) : mkExtract(fromAst(l, lw), hi, lo);
        if (lo >= lw) return mkExtract(fromAst(h, a.w - lw), hi - lw, lo - lw);
    }
    if (lo == 0 && w <= 12) { // low bits of sums, products and shifts depend on low bits only
        Z3_decl_kind dk = dkind(e);
        if (dk == Z3_OP_BADD || dk == Z3_OP_BMUL || dk == Z3_OP_BSUB) {
            unsigned n = Z3_get_app_num_args(Z, Z3_to_app(Z, e));
            if (n <= 4 && w > 1) {
                Val acc = mkExtract(fromAst(appArg(e, 0), a.w), hi, 0);
                for (unsigned i = 1; i < n; i++) acc = mkBin(dk == Z3_OP_BADD ? Instruction::Add : dk == Z3_OP_BMUL ? Instruction::Mul : Instruction::Sub, acc, mkExtract(fromAst(appArg(e, i), a.w), hi, 0));
                return acc;
            }
        }
        if (dk == Z3_OP_BSHL && Z3_get_ast_kind(Z, appArg(e, 1)) == Z3_NUMERAL_AST) {
            Val k = fromAst(appArg(e, 1), a.w);
            if (k.conc() && k.c >= w) return Val(w, 0ULL);
        }
        if (dk == Z3_OP_SIGN_EXT || dk == Z3_OP_ZERO_EXT) {
            unsigned iw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, appArg(e, 0)));
            if (iw >= w && w > 1) return mkExtract(fromAst(appArg(e, 0), iw), hi, 0);
        }
        if (dk == Z3_OP_EXTRACT && w > 1) {
            unsigned l0 = Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e)), 1);
            Z3_ast in = appArg(e, 0);
            return mkExtract(fromAst(in, Z3_get_bv_sort_size(Z, Z3_get_sort(Z, in))), l0 + hi, l0);
        }
    }
    r = Z3_mk_extract(Z, hi, lo, e);
    if (w == 1) return Val(1, Z3_mk_eq(Z, r, Z3_mk_unsigned_int64(Z, 1, bvs(1))));
    return Val(w, r);
}
Val mkTrunc(const Val &a, unsigned w) {
    if (a.w == w) return a;
    if (a.conc()) return Val(w, a.c);
    if (dkind(a.e) == Z3_OP_ZERO_EXT) {
        Z3_ast in = appArg(a.e, 0);
        unsigned iw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, in));
        if (iw == w && w > 1) return fromAst(in, w);
    }
    if (dkind(a.e) == Z3_OP_ITE) {
        Z3_ast t = appArg(a.e, 1), f = appArg(a.e, 2);
        if (Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(Z, f) == Z3_NUMERAL_AST && a.w <= 64)
            return mkIte(Val(1, appArg(a.e, 0)), mkTrunc(fromAst(t, a.w), w), mkTrunc(fromAst(f, a.w), w));
    }
    return mkExtract(a, w - 1, 0);
}
Val mkConcat(const Val &hi, const Val &lo) {
    unsigned w = hi.w + lo.w;
    if (hi.conc() && lo.conc() && w <= 64) return Val(w, (hi.c << lo.w) | lo.c);
    return Val(w, Z3_mk_concat(Z, bvAst(hi), bvAst(lo)));
}
static bool sameV(const Val &a, const Val &b) { return (a.conc() && b.conc()) ? a.c == b.c : (a.e && a.e == b.e); }
Val mkCmp(unsigned p, const Val &a, const Val &b) {
    unsigned w = a.w;
    if (a.conc() && b.conc()) {
        int64_t x = sx(a.c, w), y = sx(b.c, w);
        bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = a.c == b.c; break;
        case CmpInst::ICMP_NE: r = a.c != b.c; break;
        case CmpInst::ICMP_UGT: r = a.c > b.c; break;
        case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
        case CmpInst::ICMP_ULT: r = a.c < b.c; break;
        case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
        case CmpInst::ICMP_SGT: r = x > y; break;
        case CmpInst::ICMP_SGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = x < y; break;
        case CmpInst::ICMP_SLE: r = x <= y; break;
        }
        return Val(1, (uint64_t)r);
    }
    if (sameV(a, b)) {
        switch (p) {
        case CmpInst::ICMP_EQ: case CmpInst::ICMP_UGE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_SLE: return Val(1, 1ULL);
        default: return Val(1, 0ULL);
        }
    }
    if (p == CmpInst::ICMP_NE) return mkNot(mkCmp(CmpInst::ICMP_EQ, a, b));
    if (w == 1 && p == CmpInst::ICMP_EQ) {
        if (a.conc()) return a.c ? b : mkNot(b);
        if (b.conc()) return b.c ? a : mkNot(a);
        return Val(1, Z3_mk_iff(Z, a.e, b.e));
    }
    // (zext bool) == const
    if (p == CmpInst::ICMP_EQ && (a.conc() != b.conc())) {
        const Val &s = a.conc() ? b : a; const Val &k = a.conc() ? a : b;
        if (dkind(s.e) == Z3_OP_ITE) {
            Z3_ast t = appArg(s.e, 1), f = appArg(s.e, 2);
            if (Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(Z, f) == Z3_NUMERAL_AST && w <= 64) {
                uint64_t tv = 0, fv = 0; Z3_get_numeral_uint64(Z, t, &tv); Z3_get_numeral_uint64(Z, f, &fv);
                Val c(1, appArg(s.e, 0));
                if (tv == k.c && fv == k.c) return Val(1, 1ULL);
                if (tv == k.c) return c;
                if (fv == k.c) return mkNot(c);
                return Val(1, 0ULL);
            }
        }
    }
    Z3_ast x = bvAst(a), y = bvAst(b), r = nullptr;
    switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    default: fprintf(stderr, "kse: bad icmp\n"); _exit(3);
    }
    return Val(1, r);
}
Val mkBin(unsigned op, const Val &a, const Val &b) {
    unsigned w = a.w;
    if (w == 1) {
        switch (op) {
        case Instruction::And: case Instruction::Mul: return mkAnd(a, b);
        case Instruction::Or: return mkOr(a, b);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkNot(mkCmp(CmpInst::ICMP_EQ, a, b));
        default: return a;
        }
    }
    if (a.conc() && b.conc()) {
        uint64_t x = a.c, y = b.c; int64_t sxx = sx(x, w), sy = sx(y, w);
        switch (op) {
        case Instruction::Add: return Val(w, x + y);
        case Instruction::Sub: return Val(w, x - y);
        case Instruction::Mul: return Val(w, x * y);
        case Instruction::UDiv: if (y) return Val(w, x / y); break;
        case Instruction::URem: if (y) return Val(w, x % y); break;
        case Instruction::SDiv: if (sy) return Val(w, sy == -1 ? (uint64_t)0 - (uint64_t)sxx : (uint64_t)(sxx / sy)); break;
        case Instruction::SRem: if (sy) return Val(w, sy == -1 ? 0 : (uint64_t)(sxx % sy)); break;
        case Instruction::And: return Val(w, x & y);
        case Instruction::Or: return Val(w, x | y);
        case Instruction::Xor: return Val(w, x ^ y);
        case Instruction::Shl: return Val(w, y >= w ? 0 : x << y);
        case Instruction::LShr: return Val(w, y >= w ? 0 : x >> y);
        case Instruction::AShr: return Val(w, (uint64_t)(y >= w ? (sxx < 0 ? -1 : 0) : sxx >> y));
        }
        return Val(w, 0ULL);
    }
    if (b.conc() && b.c == 0) {
        switch (op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return a;
        case Instruction::And: case Instruction::Mul: return b;
        }
    }
    if (a.conc() && a.c == 0) {
        switch (op) {
        case Instruction::Add: case Instruction::Or: case Instruction::Xor: return b;
        case Instruction::And: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return a;
        }
    }
    if (sameV(a, b)) {
        switch (op) {
        case Instruction::Sub: case Instruction::Xor: return w > 64 ? Val(w, Z3_mk_unsigned_int64(Z, 0, bvs(w))) : Val(w, (uint64_t)0);
        case Instruction::And: case Instruction::Or: return a;
        }
    }
    // power-of-two shortcuts keep bit-blasting cheap
    if (b.conc() && b.c && !(b.c & (b.c - 1)) && w <= 64) {
        unsigned k = __builtin_ctzll(b.c);
        if (op == Instruction::UDiv) return k == 0 ? a : mkBin(Instruction::LShr, a, Val(w, (uint64_t)k));
        if (op == Instruction::URem) return mkBin(Instruction::And, a, Val(w, b.c - 1));
        if (op == Instruction::Mul) return k == 0 ? a : mkBin(Instruction::Shl, a, Val(w, (uint64_t)k));
    }
    if ((op == Instruction::AShr || op == Instruction::LShr) && b.conc() && b.c < w && a.e && dkind(a.e) == Z3_OP_BSHL && Z3_get_ast_kind(Z, appArg(a.e, 1)) == Z3_NUMERAL_AST && w <= 64) {
        Val k = fromAst(appArg(a.e, 1), w);
        if (k.conc() && k.c == b.c) { Val t = mkTrunc(fromAst(appArg(a.e, 0), w), w - k.c); return op == Instruction::AShr ? mkSext(t, w) : mkZext(t, w); }
    }
    if (op == Instruction::And && b.conc() && a.e && w <= 64 && w > 1 && b.c && (b.c & (b.c + 1)) == 0) {
        unsigned k = __builtin_popcountll(b.c);
        if (k == w) return a;
        if (k > 1 && k <= 12) return mkZext(mkExtract(a, k - 1, 0), w);
    }
    // (x + c1) + c2
    if (op == Instruction::Add && b.conc() && a.e && dkind(a.e) == Z3_OP_BADD && Z3_get_app_num_args(Z, Z3_to_app(Z, a.e)) == 2) {
        Z3_ast l = appArg(a.e, 0), r = appArg(a.e, 1);
        if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST && w <= 64) {
            Val rv = fromAst(r, w); return mkBin(Instruction::Add, fromAst(l, w), Val(w, rv.c + b.c));
        }
    }
    if (op == Instruction::Add && a.conc() && b.e) return mkBin(op, b, a);
    if (op == Instruction::Sub && b.conc() && w <= 64) return mkBin(Instruction::Add, a, Val(w, 0 - b.c));
    // (x + c) - x
    if (op == Instruction::Sub && a.e && b.e && dkind(a.e) == Z3_OP_BADD && Z3_get_app_num_args(Z, Z3_to_app(Z, a.e)) == 2 && appArg(a.e, 0) == b.e)
        return fromAst(appArg(a.e, 1), w);
    Z3_ast x = bvAst(a), y = bvAst(b), r = nullptr;
    switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    default: fprintf(stderr, "kse: bad binop %u\n", op); _exit(3);
    }
    return Val(w, r);
}
