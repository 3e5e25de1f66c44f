// kse: symbolic executor for the LLVM IR of the code under test. See DESIGN.md, section "Engine".
#include "kse.h"
#include <chrono>
#include <cmath>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "llvm/IR/CFG.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/ADT/APFloat.h"
using namespace llvm;
using std::string;
typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options and statistics
static struct {
    string file, entry, out, prop;
    double timeLimit = 300, queryTimeout = 60;
    int pb = -1;                 // preemption bound, -1: all interleavings with sleep sets
    int db = -1;                 // bound on deviations from running the threads in turn
    bool fair = false; unsigned timeouts = 0, spurious = 0;
    unsigned maxSteps = 3000000;
    unsigned maxSched = 400;
    bool races = true, verbose = false, trace = false, overlapFloat = false;
    bool cont = true;
    uint64_t seed = 1;
    string dump; double dumpOver = 0.1; bool lia = true; int cross = 0;
    int maxViol = 12; double afterViol = 20;
} opt;
static struct {
    uint64_t paths = 0, killed = 0, truncated = 0, instrs = 0, forks = 0, queries = 0, satq = 0, unsatq = 0, unknown = 0, assertsChecked = 0, assertsConst = 0, schedPoints = 0, states = 1, pruned = 0, memQueries = 0, assumeKilled = 0, liaQueries = 0, liaBad = 0, foldq = 0, cacheq = 0;
    double solver = 0, maxq = 0;
} stt;
static double t0;
static std::map<string, uint64_t> reachCount, assertCount, truncReasons, unsupported;
static bool incomplete = false;

struct Violation { string label, kind, where; std::vector<std::pair<string, std::pair<unsigned, uint64_t>>> inputs; std::vector<int> sched; std::vector<string> log; std::vector<string> stack; };
static std::vector<Violation> viols;
static std::set<string> violKeys;

struct Kill { int why; }; // 0 finished, 1 violation ends path, 2 infeasible/assume, 3 truncated, 4 unsupported
struct Resched {};

// ------------------------------------------------------------------ globals
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<uint64_t, Function *> fnAt;
static std::map<const Function *, uint64_t> fnAddr;
static std::map<const GlobalVariable *, uint64_t> gvAddr;
static std::map<uint64_t, ObjP> roMem; // constant globals shared by all states
static DenseMap<const Constant *, Val> constCache;
static std::map<Function *, std::unique_ptr<FnInfo>> fnInfos;
static std::vector<State *> work;
static DenseSet<const BasicBlock *> execBB;
static uint64_t stateIds = 1;

[[noreturn]] static void fatal(const string &m) { fprintf(stderr, "kse: fatal: %s\n", m.c_str()); exit(3); }

static FnInfo *info(Function *F) {
    auto &p = fnInfos[F];
    if (!p) {
        p = std::make_unique<FnInfo>();
        p->F = F;
        for (auto &a : F->args()) p->slot[&a] = p->nslots++;
        for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->nslots++;
    }
    return p.get();
}
static unsigned tbits(Type *t) {
    if (t->isPointerTy()) return 64;
    return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
}

// ------------------------------------------------------------------ solver
#include "lia.inc"
static std::shared_ptr<ModelRef> &modelOf(State &S) { return models[S.id]; }
static bool ensureModel(State &S) {
    auto &m = modelOf(S);
    if (m) return true;
    std::shared_ptr<ModelRef> nm;
    if (query(S, Val(1, (uint64_t)1), &nm) != 1) return false;
    models[S.id] = nm;
    return true;
}
static void addPC(State &S, const Val &c) { // c known satisfiable with pc
    if (c.conc()) return;
    auto n = std::make_shared<PCNode>();
    n->parent = S.pc; n->c = c.e; n->depth = S.pc ? S.pc->depth + 1 : 1;
    decorate(n.get());
    if (n->implied) return; // already follows from the ranges on the path
    S.pc = n;
    auto &m = modelOf(S);
    if (m) { uint64_t v; if (!evalModel(*m, c, v) || !v) m.reset(); }
}
// may the condition be true in S?  (keeps the model cache useful)
static bool mayBeTrue(State &S, const Val &c) {
    if (c.conc()) return c.c;
    auto &m = modelOf(S);
    uint64_t v;
    if (m && evalModel(*m, c, v) && v) return true;
    std::shared_ptr<ModelRef> nm;
    int r = query(S, c, &nm);
    if (r == 1) return true;
    return r == -1;
}
static State *forkState(State &S) {
    State *n = new State(S);
    n->id = ++stateIds;
    auto it = models.find(S.id);
    if (it != models.end()) models[n->id] = it->second;
    stt.forks++; stt.states++;
    return n;
}
static void enqueue(State *s) { work.push_back(s); }

// ------------------------------------------------------------------ reporting
static string whereOf(const Instruction *I) {
    if (!I) return "?";
    string s = demangle(I->getFunction()->getName().str());
    if (s.size() > 160) s = s.substr(0, 157) + "...";
    if (const DILocation *l = I->getDebugLoc()) {
        const DILocation *x = l;
        string chain;
        while (x) { chain += (chain.empty() ? "" : " <- ") + string(x->getFilename()) + ":" + std::to_string(x->getLine()); x = x->getInlinedAt(); }
        s += " @ " + chain;
    }
    return s;
}
static const Instruction *curInst(State &S) {
    if (S.cur < (int)S.th.size() && !S.th[S.cur].st.empty()) { Frame &f = S.th[S.cur].st.back(); if (f.it != f.bb->end()) return &*f.it; }
    return nullptr;
}
// the site used to identify a failure: the innermost source line under /repo if any
static string siteOf(State &S) {
    auto &st = S.th[S.cur].st;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
        const Instruction *I = nullptr;
        if (i == (int)st.size() - 1) { if (st[i].it != st[i].bb->end()) I = &*st[i].it; }
        else I = st[i + 1].site;
        if (!I) continue;
        for (const DILocation *l = I->getDebugLoc(); l; l = l->getInlinedAt()) {
            string f = l->getFilename().str();
            string d = l->getDirectory().str();
            string full = f.size() && f[0] == '/' ? f : d + "/" + f;
            if (full.find("/repo/") == 0) {
                string fn;
                if (auto *sp = l->getScope()->getSubprogram()) fn = sp->getName().str();
                size_t k = full.rfind('/');
                return full.substr(k + 1) + ":" + fn;
            }
        }
    }
    return "";
}
static std::vector<string> stackOf(State &S) {
    std::vector<string> r;
    auto &st = S.th[S.cur].st;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
        const Instruction *I = i == (int)st.size() - 1 ? (st[i].it != st[i].bb->end() ? &*st[i].it : nullptr) : st[i + 1].site;
        r.push_back(whereOf(I));
    }
    return r;
}
static void report(State &S, const string &kind, const string &label, std::shared_ptr<ModelRef> m) {
    if (opt.trace) for (auto &l : S.schedLog) fprintf(stderr, "  sched %s\n", l.c_str());
    string site = siteOf(S);
    string key = kind + "|" + label + "|" + (kind == "assert" ? "" : site);
    if (!violKeys.insert(key).second) return;
    Violation v;
    v.kind = kind; v.label = label; v.where = site;
    if (!m) { if (ensureModel(S)) m = modelOf(S); }
    for (auto &i : S.inputs) {
        uint64_t x = 0;
        if (m) evalModel(*m, i.v, x);
        v.inputs.push_back({i.name, {i.w, x}});
    }
    v.sched = S.sched; v.log = S.log;
    v.stack = stackOf(S);
    viols.push_back(v);
    if (viols.size() == 1) opt.timeLimit = std::min(opt.timeLimit, now() - t0 + opt.afterViol);   // a few more, not the whole space
    fprintf(stderr, "kse: violation %s: %s (%s)\n", kind.c_str(), label.c_str(), site.c_str());
    if (opt.verbose) for (auto &f : v.stack) fprintf(stderr, "    %s\n", f.c_str());
}
// cond must hold on every model of the path; report if not. Path continues where it holds.
static void mustHold(State &S, const Val &c0, const string &kind, const string &label) {
    Val c = simp(c0);
    if (c.conc()) {
        if (kind == "assert") stt.assertsConst++;
        if (c.c) return;
        report(S, kind, label, nullptr);
        throw Kill{1};
    }
    if (kind == "assert") stt.assertsChecked++;
    std::shared_ptr<ModelRef> nm;
    int r = query(S, mkNot(c), &nm);
    if (r == 1) {
        report(S, kind, label, nm);
        if (!mayBeTrue(S, c)) throw Kill{1};
    } else if (r == -1) { /* counted as unknown */ }
    addPC(S, c);
}
[[noreturn]] static void violate(State &S, const string &kind, const string &label) {
    report(S, kind, label, nullptr);
    throw Kill{1};
}
[[noreturn]] static void truncatePath(const string &why) { truncReasons[why]++; incomplete = true; stt.truncated++; throw Kill{3}; }
[[noreturn]] static void unsup(State &S, const string &why) {
    unsupported[why + " in " + whereOf(curInst(S))]++;
    throw Kill{4};
}

// ------------------------------------------------------------------ memory
static const uint64_t FN_BASE = 0x10000, GV_BASE = 0x1000000, HEAP_BASE = 0x40000000;
static uint64_t gvNext = GV_BASE;
static ObjP mkObj(uint64_t base, uint64_t size, ObjKind k, const string &name, bool zero) {
    auto o = std::make_shared<Obj>();
    o->base = base; o->size = size; o->kind = k; o->name = name;
    o->data.assign(size, 0); o->tag.assign(size, zero ? T_CONC : T_UNDEF);
    return o;
}
static uint64_t allocate(State &S, uint64_t size, ObjKind k, const string &name, unsigned align = 16, bool zero = false) {
    if (size > (1ULL << 26)) truncatePath("allocation larger than 64 MiB");
    if (align < 16) align = 16;
    uint64_t a = (S.nextAddr + align - 1) / align * align;
    S.nextAddr = a + size + 32; // guard gap
    S.mem[a] = mkObj(a, size, k, name, zero);
    S.mem[a]->owner = S.cur;
    return a;
}
static ObjP *findObj(State &S, uint64_t addr) {
    auto it = S.mem.upper_bound(addr);
    if (it != S.mem.begin()) {
        --it;
        if (addr >= it->first && (addr < it->first + it->second->size || (it->second->size == 0 && addr == it->first))) return &it->second;
    }
    auto jt = roMem.upper_bound(addr);
    if (jt != roMem.begin()) {
        --jt;
        if (addr >= jt->first && (addr < jt->first + jt->second->size)) return &jt->second;
    }
    return nullptr;
}
static Obj &writable(ObjP &p) {
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static Val objLoad(State &S, ObjP &op, uint64_t off, unsigned bytes) {
    Obj *o = op.get();
    bool allConc = true, anyUndef = false;
    for (unsigned i = 0; i < bytes; i++) { if (o->tag[off + i] != T_CONC) allConc = false; if (o->tag[off + i] == T_UNDEF) anyUndef = true; }
    if (allConc && bytes <= 8) {
        uint64_t v = 0;
        memcpy(&v, &o->data[off], bytes);
        return Val(bytes * 8, v);
    }
    if (anyUndef) { // materialise uninitialised bytes as unconstrained values
        o = &writable(op);
        for (unsigned i = 0; i < bytes;) {
            if (o->tag[off + i] != T_UNDEF) { i++; continue; }
            unsigned j = i;
            while (j < bytes && o->tag[off + j] == T_UNDEF) j++;
            Val f = mkFresh("undef_" + std::to_string(S.freshCounter++), (j - i) * 8);
            for (unsigned k = i; k < j; k++) { o->tag[off + k] = T_SYM; o->sym[off + k] = SymByte{f.e, f.w, k - i}; }
            i = j;
        }
    }
    // group runs
    Val acc; bool first = true;
    for (unsigned i = 0; i < bytes;) {
        Val part; unsigned j = i + 1;
        if (o->tag[off + i] == T_CONC) {
            uint64_t v = o->data[off + i];
            while (j < bytes && o->tag[off + j] == T_CONC && j - i < 8) { v |= (uint64_t)o->data[off + j] << (8 * (j - i)); j++; }
            part = Val((j - i) * 8, v);
        } else {
            SymByte b = o->sym[off + i];
            while (j < bytes && o->tag[off + j] == T_SYM) {
                SymByte c = o->sym[off + j];
                if (c.e != b.e || c.idx != b.idx + (j - i)) break;
                j++;
            }
            part = mkExtract(Val(b.w, b.e), b.idx * 8 + (j - i) * 8 - 1, b.idx * 8);
        }
        if (first) { acc = part; first = false; } else acc = mkConcat(part, acc);
        i = j;
    }
    return acc;
}
static void objStore(Obj &o, uint64_t off, const Val &v0) {
    Val v = v0;
    unsigned bytes = (v.w + 7) / 8;
    if (v.w % 8) v = mkZext(v, bytes * 8);
    if (v.conc()) {
        for (unsigned i = 0; i < bytes; i++) {
            if (o.tag[off + i] == T_SYM) o.sym.erase(off + i);
            o.data[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; o.tag[off + i] = T_CONC;
        }
    } else {
        Val s = v;
        for (unsigned i = 0; i < bytes; i++) { o.tag[off + i] = T_SYM; o.sym[off + i] = SymByte{s.e, s.w, i}; }
    }
}
// re-executing concretisation: returns a concrete value for v in S, forking the other values off
static uint64_t concretize(State &S, const Val &v, const char *what) {
    if (v.conc()) return v.c;
    Val s = simp(v);
    if (s.conc()) return s.c;
    if (!ensureModel(S)) throw Kill{2};
    uint64_t x;
    if (!evalModel(*modelOf(S), s, x)) unsup(S, "cannot evaluate model");
    Val eq = mkEq(s, Val(s.w, x));
    eq = simp(eq);
    if (mayBeTrue(S, mkNot(eq))) {
        State *n = forkState(S);
        addPC(*n, mkNot(eq));
        enqueue(n);
    }
    addPC(S, eq);
    // replace in the current frame
    for (auto &f : S.th[S.cur].st) for (auto &r : f.regs) if (r.e && r.e == v.e) r = Val(r.w, x);
    return x;
}
static bool multi(State &S) { return S.th.size() > 1; }
static void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void raceCheck(State &S, uint64_t addr, unsigned bytes, bool write, bool atomic) {
    if (!multi(S) || !opt.races || !S.racesOn) return;
    Thread &t = S.th[S.cur];
    const Instruction *I = curInst(S);
    if (t.vc.size() < S.th.size()) t.vc.resize(S.th.size(), 0);
    for (uint64_t g = addr & ~7ULL; g < addr + bytes; g += 8) {
        uint8_t mask = 0;
        for (unsigned i = 0; i < 8; i++) if (g + i >= addr && g + i < addr + bytes) mask |= 1 << i;
        Shadow &s = S.shadow[g];
        auto bad = [&](const Shadow::Acc &x) {
            if (x.tid == t.id || !(mask & x.mask) || (atomic && x.atomic)) return;
            uint32_t seen = x.tid < (int)t.vc.size() ? t.vc[x.tid] : 0;
            if (x.clk > seen) report(S, "race", string("data race: ") + (write ? "write" : "read") + " vs earlier access at " + (x.I && x.I->getDebugLoc() ? x.I->getDebugLoc()->getFilename().str() + ":" + std::to_string(x.I->getDebugLoc().getLine()) : "?"), nullptr);
        };
        auto drop = [&](std::vector<Shadow::Acc> &v, bool own) {
            for (size_t i = 0; i < v.size();) {
                if (!own || (v[i].tid == t.id && v[i].atomic == atomic)) v[i].mask &= ~mask;
                if (!v[i].mask) { v[i] = v.back(); v.pop_back(); } else i++;
            }
        };
        auto add = [&](std::vector<Shadow::Acc> &v) {
            for (auto &x : v) if (x.tid == t.id && x.atomic == atomic && x.clk == t.vc[t.id]) { x.mask |= mask; x.I = I; return; }
            v.push_back(Shadow::Acc{t.id, t.vc[t.id], atomic, mask, I});
        };
        for (size_t i = 0; i < s.writes.size(); i++) bad(s.writes[i]);
        if (write) {
            for (size_t i = 0; i < s.reads.size(); i++) bad(s.reads[i]);
            drop(s.writes, false); drop(s.reads, false); add(s.writes);
        } else { drop(s.reads, true); add(s.reads); }
    }
}
static string memLabel(const char *what) { return string(what); }
// resolve an address for an access of n bytes. On return *obj is the object and off the (maybe symbolic) offset.
static void resolve(State &S, const Val &addr, unsigned n, bool write, ObjP *&obj, Val &off) {
    Val a = simp(addr);
    if (a.conc()) {
        obj = findObj(S, a.c);
        if (!obj || a.c + n > (*obj)->base + (*obj)->size) violate(S, "memory", a.c < 4096 ? "null pointer access" : obj ? "out-of-bounds access" : "access to invalid, freed or out-of-bounds memory");
        if (write && (*obj)->ro) violate(S, "memory", "write to constant memory");
        off = Val(64, a.c - (*obj)->base);
        if ((*obj)->owner != S.cur) (*obj)->shared = true;
        return;
    }
    stt.memQueries++;
    if (!ensureModel(S)) throw Kill{2};
    uint64_t x;
    if (!evalModel(*modelOf(S), a, x)) unsup(S, "cannot evaluate address");
    obj = findObj(S, x);
    if (!obj || x + n > (*obj)->base + (*obj)->size) {
        // invalid under the current model: report, then continue on valid addresses if there are any
        report(S, "memory", x < 4096 ? "null pointer access" : "out-of-bounds access", modelOf(S));
        // try to find a valid one: exclude this address
        Val ne = mkNot(mkEq(a, Val(64, x)));
        throw Kill{1};
    }
    uint64_t base = (*obj)->base, size = (*obj)->size;
    Val in = mkCmp(CmpInst::ICMP_ULE, mkBin(Instruction::Sub, a, Val(64, base)), Val(64, size - n));
    in = simp(in);
    if (mayBeTrue(S, mkNot(in))) {
        State *o = forkState(S);
        addPC(*o, mkNot(in));
        enqueue(o); // re-executes this instruction with the remaining addresses
    }
    addPC(S, in);
    if (write && (*obj)->ro) violate(S, "memory", "write to constant memory");
    off = simp(mkBin(Instruction::Sub, a, Val(64, base)));
}
static std::vector<uint64_t> candidates(State &S, const Val &off, uint64_t size, unsigned n, unsigned align) {
    std::vector<uint64_t> c;
    if (align == 0) align = 1;
    uint64_t cnt = (size - n) / align + 1;
    // enumerate feasible offsets with the solver, up to a limit
    Val excl(1, (uint64_t)1);
    unsigned lim = cnt <= 4 ? 0 : 24;
    for (unsigned i = 0; i < lim; i++) {
        std::shared_ptr<ModelRef> m;
        int r = query(S, excl, &m);
        if (r == 0) return c;
        if (r < 0) break;
        uint64_t x; if (!evalModel(*m, off, x)) break;
        c.push_back(x);
        excl = mkAnd(excl, mkNot(mkEq(off, Val(64, x))));
    }
    c.clear();
    for (uint64_t k = 0; k + n <= size; k += align) c.push_back(k);
    return c;
}
static Val memLoad(State &S, const Val &addr, unsigned bytes, unsigned align = 1, bool atomic = false) {
    ObjP *op; Val off;
    resolve(S, addr, bytes, false, op, off);
    if (off.conc()) {
        if (!(*op)->ro) raceCheck(S, (*op)->base + off.c, bytes, false, atomic);
        return objLoad(S, *op, off.c, bytes);
    }
    if (multi(S) && opt.races && !(*op)->ro) { uint64_t k = concretize(S, off, "address"); return memLoad(S, Val(64, (*op)->base + k), bytes, align, atomic); }
    unsigned a2 = 1; (void)align;
    auto cs = candidates(S, off, (*op)->size, bytes, align > 1 && (*op)->base % align == 0 ? align : a2);
    Val r; bool first = true;
    for (uint64_t k : cs) {
        Val v = objLoad(S, *op, k, bytes);
        if (first) { r = v; first = false; } else r = mkIte(mkEq(off, Val(64, k)), v, r);
    }
    if (first) throw Kill{2};
    return r;
}
// the bytes as one value when they hold exactly one stored value, otherwise nothing
static Val objLoadQuiet(const Obj &o, uint64_t off, unsigned bytes) {
    if (bytes > 8) return Val();
    if (o.tag[off] == T_SYM) {
        auto it = o.sym.find(off);
        if (it == o.sym.end() || it->second.idx != 0 || it->second.w != bytes * 8) return Val();
        for (unsigned i = 1; i < bytes; i++) { auto j = o.sym.find(off + i); if (o.tag[off + i] != T_SYM || j == o.sym.end() || j->second.e != it->second.e || j->second.idx != i) return Val(); }
        return Val(bytes * 8, it->second.e);
    }
    uint64_t r = 0;
    for (unsigned i = 0; i < bytes; i++) { if (o.tag[off + i] != T_CONC) return Val(); r |= (uint64_t)o.data[off + i] << (8 * i); }
    return Val(bytes * 8, r);
}
static bool isVtableStore(const Instruction *I) {
    MDNode *n = isa<StoreInst>(I) ? I->getMetadata(LLVMContext::MD_tbaa) : nullptr;
    if (!n || n->getNumOperands() < 2) return false;
    MDNode *ty = dyn_cast<MDNode>(n->getOperand(1));
    MDString *nm = ty && ty->getNumOperands() ? dyn_cast<MDString>(ty->getOperand(0)) : nullptr;
    return nm && nm->getString() == "vtable pointer";
}
static void memStore(State &S, const Val &addr, const Val &v, unsigned align = 1, bool atomic = false) {
    ObjP *op; Val off;
    unsigned bytes = (v.w + 7) / 8;
    resolve(S, addr, bytes, true, op, off);
    if (off.conc()) {
        bool sameVptr = false; // a constructor or destructor stores the pointer to the function table that is there already
        if (multi(S) && v.conc() && !v.agg && bytes == 8) { const Instruction *I = curInst(S); if (I && isVtableStore(I)) { Val old = objLoadQuiet(**op, off.c, 8); sameVptr = old.w == 64 && old.conc() && old.c == v.c; } }
        if (!sameVptr) raceCheck(S, (*op)->base + off.c, bytes, true, atomic);
        if (multi(S) && (atomic || (*op)->kind != OK_STACK || (*op)->shared)) {
            Val old = v.agg ? Val() : objLoadQuiet(**op, off.c, bytes);
            if (!(old.w && v.w == old.w && old.conc() == v.conc() && (v.conc() ? old.c == v.c : old.e == v.e))) S.version++;
        }
        objStore(writable(*op), off.c, v);
        return;
    }
    if (multi(S) && opt.races) { uint64_t k = concretize(S, off, "address"); memStore(S, Val(64, (*op)->base + k), v, align, atomic); return; }
    auto cs = candidates(S, off, (*op)->size, bytes, align > 1 && (*op)->base % align == 0 ? align : 1);
    if (multi(S) && (atomic || (*op)->kind != OK_STACK || (*op)->shared)) S.version++;
    Val vv = v.w % 8 ? mkZext(v, bytes * 8) : v;
    std::vector<Val> nv;
    bool dis = true; // candidate ranges are disjoint?
    { auto s = cs; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) if (s[i] - s[i - 1] < bytes) dis = false; }
    if (!dis) { uint64_t k = concretize(S, off, "address"); memStore(S, Val(64, (*op)->base + k), v, align, atomic); return; }
    for (uint64_t k : cs) nv.push_back(mkIte(mkEq(off, Val(64, k)), vv, objLoad(S, *op, k, bytes)));
    Obj &o = writable(*op);
    for (size_t i = 0; i < cs.size(); i++) objStore(o, cs[i], nv[i]);
}
static void memCopy(State &S, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    ObjP *s = findObj(S, src);
    if (!s || src + n > (*s)->base + (*s)->size) violate(S, "memory", s ? "out-of-bounds read in memcpy" : "memcpy from invalid or freed memory");
    ObjP *d = findObj(S, dst);
    if (!d || dst + n > (*d)->base + (*d)->size) violate(S, "memory", d ? "out-of-bounds write in memcpy" : "memcpy to invalid or freed memory");
    if ((*d)->ro) violate(S, "memory", "write to constant memory");
    if (!(*s)->ro) raceCheck(S, src, n, false, false);
    raceCheck(S, dst, n, true, false);
    if (multi(S) && ((*d)->kind != OK_STACK || (*d)->shared)) S.version++;
    ObjP sk = *s; // keep source alive / unmodified
    Obj &o = writable(*d);
    uint64_t so = src - sk->base, dof = dst - o.base;
    std::vector<uint8_t> data(sk->data.begin() + so, sk->data.begin() + so + n), tag(sk->tag.begin() + so, sk->tag.begin() + so + n);
    std::vector<std::pair<uint32_t, SymByte>> sy;
    for (auto it = sk->sym.lower_bound(so); it != sk->sym.end() && it->first < so + n; ++it) if (sk->tag[it->first] == T_SYM) sy.push_back({(uint32_t)(it->first - so), it->second});
    o.sym.erase(o.sym.lower_bound(dof), o.sym.lower_bound(dof + n));
    memcpy(&o.data[dof], data.data(), n); memcpy(&o.tag[dof], tag.data(), n);
    for (auto &x : sy) o.sym[dof + x.first] = x.second;
}
static string readCStr(State &S, const Val &p, unsigned lim = 200) {
    if (!p.conc()) return "<sym>";
    string r;
    ObjP *o = findObj(S, p.c);
    if (!o) return "<bad>";
    for (uint64_t k = p.c - (*o)->base; k < (*o)->size && r.size() < lim; k++) {
        if ((*o)->tag[k] != T_CONC) { r += '?'; continue; }
        if (!(*o)->data[k]) break;
        r += (char)(*o)->data[k];
    }
    return r;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant *C);
static Val vecToInt(const Val &v) { // aggregate of scalars -> one bit vector, element 0 lowest
    if (!v.agg) return v;
    Val r = vecToInt((*v.agg)[0]);
    for (size_t i = 1; i < v.agg->size(); i++) r = mkConcat(vecToInt((*v.agg)[i]), r);
    return r;
}
static Val zeroOf(Type *t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val r; r.agg = std::make_shared<Agg>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
        return r;
    }
    unsigned w = tbits(t);
    if (w > 64) return Val(w, Z3_mk_zero_ext(Z, w - 64, toAst(Val(64, (uint64_t)0))));
    return Val(w, (uint64_t)0);
}
static Val wideConst(const APInt &ap) {
    unsigned w = ap.getBitWidth();
    if (w <= 64) return Val(w, ap.getZExtValue());
    Val r(64, ap.extractBitsAsZExtValue(64, 0));
    for (unsigned k = 64; k < w; k += 64) { unsigned n = std::min(64u, w - k); r = mkConcat(Val(n, ap.extractBitsAsZExtValue(n, k)), r); }
    return r;
}
static Val doCast(unsigned op, const Val &a, Type *from, Type *to);
static Val gepConst(const GEPOperator *G, std::function<Val(const Value *)> ev) {
    Val base = ev(G->getPointerOperand());
    Val off(64, (uint64_t)0);
    for (auto gt = gep_type_begin(G), ge = gep_type_end(G); gt != ge; ++gt) {
        Value *ix = gt.getOperand();
        if (StructType *st = gt.getStructTypeOrNull()) {
            uint64_t i = cast<ConstantInt>(ix)->getZExtValue();
            off = mkBin(Instruction::Add, off, Val(64, DL->getStructLayout(st)->getElementOffset(i).getFixedValue()));
        } else {
            uint64_t es = DL->getTypeAllocSize(gt.getIndexedType()).getFixedValue();
            Val i = ev(ix);
            if (i.w < 64) i = mkSext(i, 64); else if (i.w > 64) i = mkTrunc(i, 64);
            off = mkBin(Instruction::Add, off, mkBin(Instruction::Mul, i, Val(64, es)));
        }
    }
    return mkBin(Instruction::Add, base, off);
}
static Val constVal(const Constant *C) {
    auto it = constCache.find(C);
    if (it != constCache.end()) return it->second;
    Val r;
    if (auto *ci = dyn_cast<ConstantInt>(C)) r = wideConst(ci->getValue());
    else if (auto *cf = dyn_cast<ConstantFP>(C)) r = wideConst(cf->getValueAPF().bitcastToAPInt());
    else if (isa<ConstantPointerNull>(C)) r = Val(64, (uint64_t)0);
    else if (isa<UndefValue>(C)) r = zeroOf(C->getType());
    else if (isa<ConstantAggregateZero>(C)) r = zeroOf(C->getType());
    else if (auto *f = dyn_cast<Function>(C)) {
        auto fi = fnAddr.find(f);
        if (fi == fnAddr.end()) { uint64_t a = FN_BASE + 16 * (fnAddr.size() + 1); fnAddr[f] = a; fnAt[a] = const_cast<Function *>(f); r = Val(64, a); }
        else r = Val(64, fi->second);
    } else if (auto *g = dyn_cast<GlobalVariable>(C)) {
        auto gi = gvAddr.find(g);
        if (gi == gvAddr.end()) fatal("unallocated global " + g->getName().str());
        r = Val(64, gi->second);
    } else if (auto *ga = dyn_cast<GlobalAlias>(C)) r = constVal(ga->getAliasee());
    else if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
        r.agg = std::make_shared<Agg>();
        for (unsigned i = 0; i < cds->getNumElements(); i++) r.agg->push_back(constVal(cds->getElementAsConstant(i)));
    } else if (auto *ca = dyn_cast<ConstantAggregate>(C)) {
        r.agg = std::make_shared<Agg>();
        for (unsigned i = 0; i < ca->getNumOperands(); i++) r.agg->push_back(constVal(ca->getOperand(i)));
    } else if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        auto ev = [](const Value *v) { return constVal(cast<Constant>(v)); };
        if (auto *G = dyn_cast<GEPOperator>(ce)) r = gepConst(G, ev);
        else if (ce->isCast()) r = doCast(ce->getOpcode(), ev(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
        else if (ce->getOpcode() == Instruction::ICmp) r = mkCmp(ce->getPredicate(), ev(ce->getOperand(0)), ev(ce->getOperand(1)));
        else if (Instruction::isBinaryOp(ce->getOpcode())) r = mkBin(ce->getOpcode(), ev(ce->getOperand(0)), ev(ce->getOperand(1)));
        else fatal(string("constant expression ") + ce->getOpcodeName());
    } else if (isa<BlockAddress>(C)) r = Val(64, (uint64_t)0xdead);
    else if (auto *dso = dyn_cast<DSOLocalEquivalent>(C)) r = constVal(dso->getGlobalValue());
    else if (auto *nc = dyn_cast<NoCFIValue>(C)) r = constVal(nc->getGlobalValue());
    else fatal("unknown constant kind");
    constCache[C] = r;
    return r;
}
static void storeTyped(Obj &o, uint64_t off, const Val &v, Type *t) {
    if (v.agg) {
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < v.agg->size(); i++) storeTyped(o, off + sl->getElementOffset(i).getFixedValue(), (*v.agg)[i], st->getElementType(i));
        } else {
            Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t es = t->isArrayTy() ? DL->getTypeAllocSize(et).getFixedValue() : (tbits(et) + 7) / 8;
            for (unsigned i = 0; i < v.agg->size(); i++) storeTyped(o, off + i * es, (*v.agg)[i], et);
        }
        return;
    }
    objStore(o, off, v);
}

// ------------------------------------------------------------------ floating point (concrete fast path, symbolic through the FP theory)
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : w == 64 ? Z3_mk_fpa_sort_64(Z) : nullptr; }
static Z3_ast toFP(const Val &v) { needFP(); return Z3_mk_fpa_to_fp_bv(Z, toAst(v), fpSort(v.w)); }
static Val fromFP(Z3_ast f, unsigned w) { return Val(w, Z3_mk_fpa_to_ieee_bv(Z, f)); }
static double asD(const Val &v) { if (v.w == 32) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val(32, (uint64_t)u); } uint64_t u; memcpy(&u, &d, 8); return Val(64, u); }
static Val fpBin(unsigned op, const Val &a, const Val &b) {
    if (a.conc() && b.conc()) {
        double x = asD(a), y = asD(b), r = 0;
        if (a.w == 32) { float fx = (float)x, fy = (float)y, fr = 0; switch (op) { case Instruction::FAdd: fr = fx + fy; break; case Instruction::FSub: fr = fx - fy; break; case Instruction::FMul: fr = fx * fy; break; case Instruction::FDiv: fr = fx / fy; break; case Instruction::FRem: fr = fmodf(fx, fy); break; } return fromD(fr, 32); }
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
        return fromD(r, 64);
    }
    Z3_ast rm = (needFP(), Z3_mk_fpa_rne(Z)), x = toFP(a), y = toFP(b), r;
    switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(Z, rm, x, y); break;
    case Instruction::FSub: r = Z3_mk_fpa_sub(Z, rm, x, y); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(Z, rm, x, y); break;
    case Instruction::FDiv: r = Z3_mk_fpa_div(Z, rm, x, y); break;
    default: r = Z3_mk_fpa_rem(Z, x, y); break;
    }
    return fromFP(r, a.w);
}
static Val fpCmp(unsigned p, const Val &a, const Val &b) {
    if (a.conc() && b.conc()) {
        double x = asD(a), y = asD(b); bool un = x != x || y != y, r = false;
        switch (p) {
        case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        }
        return Val(1, (uint64_t)r);
    }
    Z3_ast x = toFP(a), y = toFP(b);
    Z3_ast un2[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)};
    Val un(1, Z3_mk_or(Z, 2, un2)), r;
    switch (p) {
    case CmpInst::FCMP_FALSE: return Val(1, (uint64_t)0);
    case CmpInst::FCMP_TRUE: return Val(1, (uint64_t)1);
    case CmpInst::FCMP_ORD: return mkNot(un);
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Val(1, Z3_mk_fpa_eq(Z, x, y)); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Val(1, Z3_mk_fpa_gt(Z, x, y)); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Val(1, Z3_mk_fpa_geq(Z, x, y)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Val(1, Z3_mk_fpa_lt(Z, x, y)); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Val(1, Z3_mk_fpa_leq(Z, x, y)); break;
    default: r = mkNot(Val(1, Z3_mk_fpa_eq(Z, x, y))); if (p == CmpInst::FCMP_ONE) r = mkAnd(r, mkNot(un)); return r;
    }
    bool unordered = p >= CmpInst::FCMP_UEQ && p <= CmpInst::FCMP_UNE;
    return unordered ? mkOr(un, r) : mkAnd(mkNot(un), r);
}
static Val splitVec(const Val &v, Type *to);
static Val doCast(unsigned op, const Val &a, Type *from, Type *to) {
    if (a.agg && to->isVectorTy() && op != Instruction::BitCast) {
        Val r; r.agg = std::make_shared<Agg>();
        for (auto &x : *a.agg) r.agg->push_back(doCast(op, x, from->getScalarType(), to->getScalarType()));
        return r;
    }
    unsigned w = to->isVectorTy() || to->isStructTy() ? 0 : tbits(to);
    switch (op) {
    case Instruction::Trunc: return mkTrunc(a, w);
    case Instruction::ZExt: return mkZext(a, w);
    case Instruction::SExt: return mkSext(a, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a.w > w ? mkTrunc(a, w) : mkZext(a, w);
    case Instruction::AddrSpaceCast: return a;
    case Instruction::BitCast: if (to->isVectorTy()) return splitVec(a, to); return vecToInt(a);
    case Instruction::SIToFP: { if (a.conc()) { int64_t s = a.w >= 64 ? (int64_t)a.c : ((int64_t)(a.c << (64 - a.w)) >> (64 - a.w)); return w == 32 ? fromD((float)s, 32) : fromD((double)s, 64); } needFP(); return fromFP(Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), bvAst(a), fpSort(w)), w); }
    case Instruction::UIToFP: { if (a.conc()) return w == 32 ? fromD((float)a.c, 32) : fromD((double)a.c, 64); needFP(); return fromFP(Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), bvAst(a), fpSort(w)), w); }
    case Instruction::FPToSI: if (a.conc()) return Val(w, (uint64_t)(int64_t)asD(a)); return Val(w, Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), toFP(a), w));
    case Instruction::FPToUI: if (a.conc()) { double d = asD(a); return Val(w, d >= 9223372036854775808.0 ? (uint64_t)d : (uint64_t)(int64_t)d); } return Val(w, Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), toFP(a), w));
    case Instruction::FPExt: case Instruction::FPTrunc: if (from->isX86_FP80Ty() || to->isX86_FP80Ty()) return a.w == w ? a : (a.w > w ? mkTrunc(a, w) : mkZext(a, w)); if (a.conc()) return fromD(asD(a), w); return fromFP(Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), toFP(a), fpSort(w)), w);
    }
    fatal("cast");
}
static Val splitVec(const Val &v, Type *to) {
    if (!to->isVectorTy()) return v;
    Val s = vecToInt(v);
    auto *vt = cast<FixedVectorType>(to);
    unsigned ew = tbits(vt->getElementType());
    Val r; r.agg = std::make_shared<Agg>();
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(simp(mkExtract(s, (i + 1) * ew - 1, i * ew)));
    return r;
}
#include "atomics.h"
#include "interp.inc"
