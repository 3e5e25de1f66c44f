// ------------------------------------------------------------------ helpers on frames
static Val eval(State &S, Frame &f, const Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) return constVal(C);
    auto it = f.fi->slot.find(v);
    if (it == f.fi->slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Val(); fatal("unknown value"); }
    return f.regs[it->second];
}
static void setReg(Frame &f, const Value *v, const Val &x) {
    if (v->getType()->isVoidTy()) return;
    f.regs[f.fi->slot.lookup(v)] = x;
}
static void enterBlock(State &S, Frame &f, BasicBlock *to) {
    f.prev = f.bb; f.bb = to;
    execBB.insert(to);
    auto it = to->begin();
    std::vector<std::pair<const PHINode *, Val>> nv;
    for (; auto *p = dyn_cast<PHINode>(&*it); ++it) nv.push_back({p, eval(S, f, p->getIncomingValueForBlock(f.prev))});
    for (auto &x : nv) setReg(f, x.first, x.second);
    f.it = it;
}
static void pushFrame(State &S, Thread &t, Function *F, const std::vector<Val> &args, CallBase *site, int onReturn) {
    if (t.st.size() > 400) violate(S, "memory", "stack overflow: unbounded recursion");
    t.st.emplace_back();
    Frame &f = t.st.back();
    f.fi = info(F);
    f.regs.resize(f.fi->nslots);
    f.bb = &F->getEntryBlock();
    execBB.insert(f.bb);
    f.it = f.bb->begin();
    f.site = site; f.onReturn = onReturn;
    unsigned n = 0;
    for (auto &a : F->args()) { 
        Val v = n < args.size() ? args[n] : zeroOf(a.getType());
        if (a.hasByValAttr()) { // callee owns a copy
            uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
            uint64_t p = allocate(S, sz, OK_STACK, "byval", 16);
            memCopy(S, p, v.c, sz);
            f.allocas.push_back(p);
            v = Val(64, p);
        }
        f.regs[f.fi->slot[&a]] = v; n++; }
    for (; n < args.size(); n++) f.varargs.push_back(args[n]);
}
static void freeObj(State &S, uint64_t a) {
    auto it = S.mem.find(a);
    if (it == S.mem.end()) return;
    if (!S.shadow.empty()) S.shadow.erase(S.shadow.lower_bound(a & ~7ULL), S.shadow.lower_bound(a + it->second->size));
    if (!S.atomVC.empty()) S.atomVC.erase(S.atomVC.lower_bound(a), S.atomVC.lower_bound(a + it->second->size));
    S.mem.erase(it);
}
static void popFrame(State &S, Thread &t) {
    for (uint64_t a : t.st.back().allocas) freeObj(S, a);
    t.st.pop_back();
}
static void advance(State &S, Thread &t, const Val &r) { // complete the call instruction at the top frame
    Frame &f = t.st.back();
    Instruction *I = &*f.it;
    if (!I->getType()->isVoidTy() && (r.w || r.agg)) setReg(f, I, r);
    if (auto *inv = dyn_cast<InvokeInst>(I)) enterBlock(S, f, inv->getNormalDest());
    else ++f.it;
}

// ------------------------------------------------------------------ exceptions
static std::map<uint64_t, int> typeIds;
static int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[ti] = n; return n; }
static uint64_t tvSI = 0, tvVMI = 0;
static uint64_t rd64(State &S, uint64_t a) { ObjP *o = findObj(S, a); if (!o || a + 8 > (*o)->base + (*o)->size) return 0; return concretize(S, objLoad(S, *o, a - (*o)->base, 8), "value read by the runtime"); }
static uint64_t rd32(State &S, uint64_t a) { ObjP *o = findObj(S, a); if (!o || a + 4 > (*o)->base + (*o)->size) return 0; return concretize(S, objLoad(S, *o, a - (*o)->base, 4), "value read by the runtime"); }
static bool typeMatch(State &S, uint64_t thrown, uint64_t want, int64_t &adj) {
    if (thrown == want) return true;
    if (!thrown) return false;
    uint64_t vt = rd64(S, thrown);
    if (tvSI && vt == tvSI + 16) return typeMatch(S, rd64(S, thrown + 16), want, adj);
    if (tvVMI && vt == tvVMI + 16) {
        uint64_t n = rd32(S, thrown + 20);
        for (uint64_t i = 0; i < n; i++) {
            uint64_t b = rd64(S, thrown + 24 + 16 * i); int64_t of = (int64_t)rd64(S, thrown + 32 + 16 * i) >> 8;
            int64_t a2 = adj + of;
            if (typeMatch(S, b, want, a2)) { adj = a2; return true; }
        }
    }
    return false;
}
static string typeName(State &S, uint64_t ti) {
    for (auto &g : gvAddr) if (g.second == ti) { string n = demangle(g.first->getName().str()); if (n.find("typeinfo for ") == 0) n = n.substr(13); return n; }
    return "?";
}
// does the landing pad of this invoke handle the exception? sel: selector value
static int padMatch(State &S, LandingPadInst *lp, uint64_t ti, int &sel, int64_t &adj) { // 2 handler, 1 cleanup, 0 no
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
            Val c = constVal(lp->getClause(i));
            adj = 0;
            if (c.c == 0) { sel = typeId(0); return 2; }
            if (typeMatch(S, ti, c.c, adj)) { sel = typeId(c.c); return 2; }
        } else {
            Val c = constVal(lp->getClause(i));
            bool in = false;
            if (c.agg) for (auto &x : *c.agg) { adj = 0; if (x.c == 0 || typeMatch(S, ti, x.c, adj)) in = true; }
            if (!in) { sel = -1; return 2; }
        }
    }
    sel = 0;
    return lp->isCleanup() ? 1 : 0;
}
[[noreturn]] static void uncaught(State &S) {
    Thread &t = S.th[S.cur];
    auto &e = S.exc[t.inflight];
    string what;
    ObjP *o = findObj(S, t.inflight);
    if (o && (*o)->size >= 16) { uint64_t p = rd64(S, t.inflight + 8); if (p && findObj(S, p)) what = " (" + readCStr(S, Val(64, p)) + ")"; }
    violate(S, "exception", "uncaught exception " + typeName(S, e.ti) + what);
}
static void unwind(State &S, bool popFirst) {
    Thread &t = S.th[S.cur];
    uint64_t ti = S.exc[t.inflight].ti;
    { // phase 1
        bool found = false;
        for (int i = (int)t.st.size() - 1 - (popFirst ? 1 : 0); i >= 0 && !found; i--) {
            Frame &f = t.st[i];
            if (f.it == f.bb->end()) continue;
            if (auto *inv = dyn_cast<InvokeInst>(&*f.it)) {
                int sel; int64_t adj = 0;
                auto *lp = inv->getLandingPadInst();
                if (padMatch(S, lp, ti, sel, adj) == 2) found = true;
            }
            if (f.onReturn == 1) break;
        }
        if (!found) uncaught(S);
    }
    if (popFirst) popFrame(S, t);
    while (!t.st.empty()) {
        Frame &f = t.st.back();
        if (auto *inv = dyn_cast<InvokeInst>(&*f.it)) {
            int sel; int64_t adj = 0;
            auto *lp = inv->getLandingPadInst();
            if (padMatch(S, lp, ti, sel, adj)) {
                S.exc[t.inflight].adj = adj;
                enterBlock(S, f, inv->getUnwindDest());
                Val r; r.agg = std::make_shared<Agg>();
                r.agg->push_back(Val(64, t.inflight)); r.agg->push_back(Val(32, (uint64_t)(uint32_t)sel));
                setReg(f, lp, r);
                // skip over the landingpad instruction itself
                while (&*f.it != lp) ++f.it;
                ++f.it;
                return;
            }
        }
        popFrame(S, t);
    }
    uncaught(S);
}

// ------------------------------------------------------------------ threads
static bool mutexFree(State &S, uint64_t m, int tid) { auto it = S.mutexOwner.find(m); return it == S.mutexOwner.end() || it->second < 0; }
static int live(State &S) { int n = 0; for (auto &t : S.th) if (t.status != TS_DONE) n++; return n; }
static bool regsSame(const std::vector<Val> &a, const std::vector<Val> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].w != b[i].w || a[i].c != b[i].c || a[i].e != b[i].e) return false;
        if (a[i].agg || b[i].agg) { if (a[i].agg == b[i].agg) continue; if (!a[i].agg || !b[i].agg || !regsSame(*a[i].agg, *b[i].agg)) return false; }
    }
    return true;
}
static bool enabled(State &S, Thread &t) {
    switch (t.status) {
    case TS_RUN: return true;
    case TS_MUTEX: case TS_CONDLOCK: return mutexFree(S, t.waitMutex, t.id);
    case TS_COND: return (t.timed && S.timeoutsLeft > 0) || S.spuriousLeft > 0;
    case TS_JOIN: return S.th[t.waitThread].status == TS_DONE;
    case TS_SPIN: return S.version != t.waitVersion;
    default: return false;
    }
}
static void acquire(State &S, Thread &t, uint64_t m) {
    S.mutexOwner[m] = t.id; S.mutexDepth[m] = 1;
    auto it = S.mutexVC.find(m);
    if (it != S.mutexVC.end()) vcJoin(t.vc, it->second);
}
static void release(State &S, Thread &t, uint64_t m) {
    S.mutexOwner[m] = -1; S.mutexDepth[m] = 0;
    S.mutexVC[m] = t.vc;
    if (t.vc.size() <= (size_t)t.id) t.vc.resize(t.id + 1, 0);
    t.vc[t.id]++;
}
static const std::set<string> visibleCalls = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_join", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "kse_yield", "kse_visible"};
static Function *calleeOf(State &S, Frame &f, CallBase *cb) {
    if (Function *F = cb->getCalledFunction()) return F;
    Value *v = cb->getCalledOperand()->stripPointerCastsAndAliases();
    if (auto *F = dyn_cast<Function>(v)) return F;
    return nullptr;
}
static bool visible(State &S, Thread &t, State::Pend *p) {
    if (t.st.empty()) return false;
    Frame &f = t.st.back();
    if (f.it == f.bb->end()) return false;
    Instruction *I = &*f.it;
    Value *ptr = nullptr; bool wr = true;
    if (auto *l = dyn_cast<LoadInst>(I)) { if (!l->isAtomic()) return false; ptr = l->getPointerOperand(); wr = false; }
    else if (auto *s = dyn_cast<StoreInst>(I)) { if (!s->isAtomic()) return false; ptr = s->getPointerOperand(); }
    else if (auto *r = dyn_cast<AtomicRMWInst>(I)) ptr = r->getPointerOperand();
    else if (auto *x = dyn_cast<AtomicCmpXchgInst>(I)) ptr = x->getPointerOperand();
    else if (auto *cb = dyn_cast<CallBase>(I)) {
        Function *F = calleeOf(S, f, cb);
        if (!F || !F->isDeclaration() || !visibleCalls.count(F->getName().str())) return false;
        if (p) {
            string n = F->getName().str();
            *p = {0, true, true};
            if (n == "pthread_mutex_lock" || n == "pthread_mutex_trylock") { Val a = eval(S, f, cb->getArgOperand(0)); if (a.conc()) *p = {a.c, true, false}; }
        }
        return true;
    } else return false;
    if (p) { Val a = eval(S, f, ptr); if (a.conc()) *p = {a.c, wr, false}; else *p = {0, true, true}; }
    return true;
}
static State::Pend pendOf(State &S, Thread &t) {
    State::Pend p{0, true, true};
    if (t.status == TS_RUN || t.status == TS_MUTEX || t.status == TS_SPIN) { if (!visible(S, t, &p)) p = {0, true, true}; }
    else if (t.status == TS_CONDLOCK) p = {t.waitMutex, true, false};
    return p;
}
static bool dependent(const State::Pend &a, const State::Pend &b) { if (a.any || b.any) return true; return a.addr == b.addr && (a.write || b.write); }
static void acquireAfterCond(State &S, Thread &t) {
    acquire(S, t, t.waitMutex);
    S.mutexDepth[t.waitMutex] = t.savedDepth;
    t.status = TS_RUN;
    bool to = t.timedOut;
    t.timedOut = t.timed = t.notified = false;
    advance(S, t, Val(32, (uint64_t)(to ? 110 : 0)));
}
// choice encoding: tid, or tid + 1000 for a spurious wake-up
static void choose(State &S, int choice, bool fallback) {
    int tid = choice % 1000; bool spur = choice >= 1000;
    Thread &t = S.th[tid];
    bool curRunnable = S.cur != tid && S.th[S.cur].status == TS_RUN;
    if (curRunnable) S.preempts++;
    State::Pend p = pendOf(S, t);
    for (auto it = S.sleep.begin(); it != S.sleep.end();) if (it->first == tid || dependent(it->second, p)) it = S.sleep.erase(it); else ++it;
    for (auto &o : S.th) if (o.id != tid && o.status == TS_YIELD) { o.yieldFor &= ~(1ULL << tid); if (!opt.fair || !o.yieldFor) o.status = TS_RUN; }
    S.cur = tid;
    S.sched.push_back(choice);
    if (opt.trace) S.schedLog.push_back(std::to_string(choice) + " status " + std::to_string(t.status) + " at " + whereOf(t.st.empty() ? nullptr : &*t.st.back().it));
    switch (t.status) {
    case TS_MUTEX: case TS_JOIN: case TS_SPIN: case TS_YIELD: t.status = TS_RUN; t.schedDone = true; break;
    case TS_RUN: t.schedDone = true; break;
    case TS_CONDLOCK: acquireAfterCond(S, t); t.schedDone = false; break;
    case TS_COND:
        if (!spur) {
            t.timedOut = true; if (S.timeoutsLeft > 0) S.timeoutsLeft--;
            S.clock = std::max(S.clock, t.deadline) + 1;
        } else S.spuriousLeft--;
        t.schedDone = false; if (mutexFree(S, t.waitMutex, tid)) acquireAfterCond(S, t); else t.status = TS_CONDLOCK;
        break;
    default: fatal("choose");
    }
}
static void schedule(State &S) {
    for (;;) {
        stt.schedPoints++;
        if (S.sched.size() > opt.maxSched) truncatePath("schedule longer than the bound of " + std::to_string(opt.maxSched));
        std::vector<int> c;
        if (opt.fair) for (auto &y : S.th) if (y.status == TS_YIELD && y.yieldFor) { // threads that cannot go on do not hold a yielding one back
            for (auto &o : S.th) if ((y.yieldFor >> o.id & 1) && (o.status == TS_YIELD || o.status == TS_COND || !enabled(S, o))) y.yieldFor &= ~(1ULL << o.id);
            if (!y.yieldFor) y.status = TS_RUN;
        }
        bool curOk = S.th[S.cur].status == TS_RUN;
        if (curOk) c.push_back(S.cur);
        for (auto &t : S.th) {
            if (t.id == S.cur && curOk) continue;
            if (t.status == TS_COND) {
                if (t.timed && S.timeoutsLeft > 0) c.push_back(t.id);
                if (S.spuriousLeft > 0) c.push_back(t.id + 1000);
            } else if (enabled(S, t)) c.push_back(t.id);
        }
        bool fallback = false;
        if (c.empty()) {
            fallback = true;
            for (auto &t : S.th) if (t.status == TS_YIELD) c.push_back(t.id);
            if (c.empty()) for (auto &t : S.th) if (t.status == TS_SPIN && t.spinProgress) { c.push_back(t.id); }
            if (c.empty()) {
                bool timedW = false;
                for (auto &t : S.th) if (t.status == TS_COND && t.timed) { c.push_back(t.id); timedW = true; }
                if (timedW) {
                    if (++S.idleTimeouts > 6) violate(S, "deadlock", "no progress: only timed waits remain and they keep expiring");
                }
            }
            if (c.empty()) {
                string who;
                for (auto &t : S.th) if (t.status != TS_DONE) {
                    const char *n[] = {"running", "waiting for a mutex", "waiting on a condition", "joining", "done", "spinning on unchanged memory", "yielding", "re-acquiring a mutex"};
                    who += (who.empty() ? "" : "; ") + string("thread ") + std::to_string(t.id) + " " + n[t.status];
                }
                // attribute the site to the first blocked non-main thread
                violate(S, "deadlock", "hang: " + who);
            }
        }
        bool usePB = opt.pb >= 0 || opt.db >= 0;
        if (!usePB && !fallback) {
            std::vector<int> d;
            for (int x : c) if (x >= 1000 || !S.sleep.count(x)) d.push_back(x);
            if (d.empty()) { stt.pruned++; throw Kill{5}; }
            c = d;
        }
        if (opt.pb >= 0 && curOk && S.preempts >= opt.pb && c.size() > 1) c.resize(1);
        if (opt.db >= 0 && c.size() > 1) { // the running thread goes on, else the next one in turn; anything else is a deviation
            int n = (int)S.th.size(), first = S.cur + (curOk ? 0 : 1);
            auto key = [&](int x) { return (x % 1000 - first + n) % n + (x >= 1000 ? n : 0) + (S.th[x % 1000].status == TS_COND && !fallback ? 2 * n : 0); };
            std::stable_sort(c.begin(), c.end(), [&](int a, int b) { return key(a) < key(b); });
            if (S.delays >= opt.db) c.resize(1);
        }
        for (size_t i = 1; i < c.size(); i++) {
            State *n = forkState(S);
            if (!usePB && !fallback) for (size_t j = 0; j < i; j++) if (c[j] < 1000) n->sleep[c[j]] = pendOf(S, S.th[c[j]]);
            n->delays++;
            choose(*n, c[i], fallback);
            enqueue(n);
        }
        choose(S, c[0], fallback);
        if (S.th[S.cur].status == TS_RUN) return;
    }
}
[[noreturn]] static void block(State &S, TStatus st) { S.th[S.cur].status = st; S.th[S.cur].schedDone = false; throw Resched{}; }
// called before a visible operation of the current thread; true when the thread may execute it now
static void schedPoint(State &S) {
    Thread &t = S.th[S.cur];
    if (t.schedDone || S.atomicDepth > 0) return;
    if (live(S) <= 1) return;
    // spin detection
    Frame &f = t.st.back();
    Instruction *I = &*f.it;
    if (isa<LoadInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || (isa<CallBase>(I))) {
        auto &v = t.visits[I];
        if (v.first == S.version) {
            bool same = regsSame(v.second, f.regs);
            if (same || ++t.spinCount >= 2) {
                t.spinProgress = !same;
                t.spinCount = 0;
                t.waitVersion = S.version;
                t.status = TS_SPIN;
                if (opt.trace) fprintf(stderr, "   %d spins (same=%d)\n", t.id, same);
                v.second = f.regs;
                throw Resched{};
            }
            v.second = f.regs;
        } else { v.first = S.version; v.second = f.regs; t.spinCount = 0; }
    }
    schedule(S);
    throw Resched{}; // restart the loop with the chosen thread
}
static void atomicSync(State &S, uint64_t addr, bool rd, bool wr, bool rmw, AtomicOrdering o) {
    if (!multi(S)) return;
    Thread &t = S.th[S.cur];
    if (t.vc.size() < S.th.size()) t.vc.resize(S.th.size(), 0);
    bool acq = isAcquireOrStronger(o), rel = isReleaseOrStronger(o);
    auto it = S.atomVC.find(addr);
    if (rd && it != S.atomVC.end()) { if (acq) vcJoin(t.vc, it->second); else vcJoin(t.acqPending, it->second); }
    if (wr) {
        VC base;
        if (rel) base = t.vc; else base = t.relFence;
        if (rmw && it != S.atomVC.end()) vcJoin(base, it->second);
        S.atomVC[addr] = base;
        t.vc[t.id]++;
    }
}

// ------------------------------------------------------------------ externals
typedef std::function<bool(State &, CallBase *, std::vector<Val> &, Val &)> Ext; // returns true when the call completed with the value
static std::unordered_map<string, Ext> ext;
static uint64_t heapAlloc(State &S, State &, uint64_t n, int fn, uint64_t align) {
    uint64_t a = allocate(S, n, OK_HEAP, "heap", (unsigned)std::max<uint64_t>(align, 16));
    S.mem[a]->allocFn = fn;
    S.liveHeap++;
    return a;
}
static void heapFree(State &S, const Val &p, int fn) {
    uint64_t a = concretize(S, p, "free");
    if (!a) return;
    auto it = S.mem.find(a);
    if (it == S.mem.end() || it->second->kind != OK_HEAP) violate(S, "memory", "double free or free of an invalid pointer");
    if (it->second->allocFn != fn) violate(S, "memory", "mismatched new/delete/free");
    raceCheck(S, a, (unsigned)it->second->size, true, false);
    if (multi(S)) S.version++;
    S.liveHeap--;
    freeObj(S, a);
}
static unsigned mutexKind(State &S, uint64_t m) { ObjP *o = findObj(S, m); if (!o || m + 20 > (*o)->base + (*o)->size) violate(S, "memory", "mutex in invalid or freed memory"); if ((*o)->tag[m - (*o)->base + 16] != T_CONC) return 0; return (*o)->data[m - (*o)->base + 16] & 3; }
static Val makeSym(State &S, const string &name, unsigned bits) {
    string n = name;
    int k = S.counters[name]++;
    if (k) n += "#" + std::to_string(k);
    Val v = mkFresh(n, bits);
    S.inputs.push_back(Input{n, bits, v});
    return v;
}
static int pickChoice(State &S, unsigned n, const string &name) {
    int k = S.counters[name]++;
    string nm = name + (k ? "#" + std::to_string(k) : "");
    for (unsigned i = n; i-- > 1;) {
        State *f = forkState(S);
        f->inputs.push_back(Input{nm, 64, Val(64, (uint64_t)i)});
        Thread &t = f->th[f->cur];
        advance(*f, t, Val(64, (uint64_t)i));
        enqueue(f);
    }
    S.inputs.push_back(Input{nm, 64, Val(64, (uint64_t)0)});
    return 0;
}
// a choice is a fresh symbolic value below n: the solver decides which branches on it are feasible
static Val symbolicChoice(State &S, unsigned n, const string &name) {
    int k = S.counters[name]++;
    string nm = name + (k ? "#" + std::to_string(k) : "");
    if (n <= 1) { S.inputs.push_back(Input{nm, 64, Val(64, (uint64_t)0)}); return Val(64, (uint64_t)0); }
    unsigned w = n > 256 ? 32 : n > 16 ? 8 : n > 4 ? 4 : n > 2 ? 2 : 1;
    Val v = mkFresh("choose:" + nm, w);
    S.inputs.push_back(Input{nm, w, v});
    if (n < (1ULL << w)) addPC(S, mkCmp(llvm::CmpInst::ICMP_ULT, v, Val(w, (uint64_t)n)));
    return mkZext(v, 64);
}
static uint64_t tsRead(State &S, uint64_t p) { return rd64(S, p) * 1000000000ULL + rd64(S, p + 8); }
static bool condWait(State &S, std::vector<Val> &a, bool timed, uint64_t deadline) {
    Thread &t = S.th[S.cur];
    uint64_t c = a[0].c, m = a[1].c;
    auto it = S.mutexOwner.find(m);
    if (it == S.mutexOwner.end() || it->second != t.id) violate(S, "memory", "condition wait without holding the mutex");
    mutexKind(S, m);
    t.waitCond = c; t.waitMutex = m; t.timed = timed; t.deadline = deadline; t.timedOut = false;
    t.savedDepth = S.mutexDepth[m];
    release(S, t, m);
    S.version++;
    if (live(S) <= 1) {
        if (!timed) violate(S, "deadlock", "hang: wait on a condition nobody can signal");
        t.timedOut = true; S.clock = std::max(S.clock, deadline) + 1;
        if (++S.idleTimeouts > 40) violate(S, "deadlock", "no progress: only timed waits remain and they keep expiring");
        acquireAfterCond(S, t);
        return false;
    }
    block(S, TS_COND);
}
static Val satInt(unsigned w, uint64_t v) { return Val(w, v); }
static void doThrow(State &S, uint64_t obj) {
    Thread &t = S.th[S.cur];
    t.inflight = obj;
    unwind(S, false);
    throw Resched{}; // state is consistent: continue at the landing pad
}
struct Continue {};
static void initExt() {
    auto U = [](unsigned w, uint64_t v) { return Val(w, v); };
    ext["kse_sym"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        unsigned bits = (unsigned)a[1].c;
        r = mkZext(makeSym(S, readCStr(S, a[0]), bits), 64); return true; };
    ext["kse_make_symbolic"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        string n = readCStr(S, a[2]); uint64_t sz = concretize(S, a[1], "size"), p = concretize(S, a[0], "ptr");
        for (uint64_t i = 0; i < sz; i++) memStore(S, Val(64, p + i), makeSym(S, n, 8));
        return true; };
    ext["kse_assume"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) {
        Val c = simp(mkNot(mkEq(a[0], Val(a[0].w, (uint64_t)0))));
        if (c.conc()) { if (!c.c) { stt.assumeKilled++; throw Kill{2}; } return true; }
        if (!mayBeTrue(S, c)) { stt.assumeKilled++; throw Kill{2}; }
        addPC(S, c); return true; };
    ext["kse_assert"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) {
        string l = readCStr(S, a[1]); assertCount[l]++;
        mustHold(S, mkNot(mkEq(a[0], Val(a[0].w, (uint64_t)0))), "assert", l); return true; };
    ext["kse_reach"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { reachCount[readCStr(S, a[0])]++; return true; };
    ext["kse_choose"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { unsigned n = (unsigned)a[0].c; string nm = readCStr(S, a[1]); r = Val(64, (uint64_t)pickChoice(S, n, nm)); return true; };
    ext["kse_pick"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = symbolicChoice(S, (unsigned)a[0].c, readCStr(S, a[1])); return true; };
    ext["kse_concretize"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(64, concretize(S, a[0], "kse_concretize")); return true; };
    ext["kse_log"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { string s = readCStr(S, a[0]); if (a.size() > 1 && a[1].conc()) s += " " + std::to_string((int64_t)a[1].c); S.log.push_back(s); if (opt.verbose) fprintf(stderr, "log[%d]: %s\n", S.cur, s.c_str()); return true; };
    ext["kse_live_allocs"] = [](State &S, CallBase *, std::vector<Val> &, Val &r) { r = Val(64, S.liveHeap); return true; };
    ext["kse_symbolic"] = [](State &S, CallBase *, std::vector<Val> &, Val &r) { r = Val(32, (uint64_t)1); return true; };
    ext["kse_atomic_begin"] = [](State &S, CallBase *, std::vector<Val> &, Val &) { S.atomicDepth++; return true; };
    ext["kse_atomic_end"] = [](State &S, CallBase *, std::vector<Val> &, Val &) { S.atomicDepth--; return true; };
    ext["kse_races"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { S.racesOn = a[0].c; return true; };
    ext["kse_set_clock"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { if (a[0].conc()) { S.clock = a[0].c; S.clockOff = Val(64, 0); } else { S.clock = 0; S.clockOff = a[0]; } return true; };
    ext["kse_clock"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { S.clockReads++; r = mkBin(Instruction::Add, S.clockOff, Val(64, S.clock++)); return true; };
    ext["kse_valid"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { uint64_t p = concretize(S, a[0], "p"); ObjP *o = findObj(S, p); r = Val(32, (uint64_t)(o && p + a[1].c <= (*o)->base + (*o)->size)); return true; };
    ext["kse_fail"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { violate(S, "assert", readCStr(S, a[0])); return true; };
    ext["kse_stop"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { stt.paths++; throw Kill{0}; return true; };
    ext["kse_visible"] = [](State &S, CallBase *, std::vector<Val> &a, Val &) { return true; };

    auto mal = [](int fn, bool zero, int argn) { return [fn, zero, argn](State &S, CallBase *cb, std::vector<Val> &a, Val &r) {
        uint64_t n = concretize(S, a[0], "allocation size");
        if (argn == 2) n *= concretize(S, a[1], "allocation size");
        uint64_t p = heapAlloc(S, S, n, fn, 16);
        if (zero) { Obj &o = writable(S.mem[p]); std::fill(o.tag.begin(), o.tag.end(), (uint8_t)T_CONC); }
        r = Val(64, p); return true; }; };
    ext["malloc"] = mal(0, false, 1); ext["calloc"] = mal(0, true, 2);
    ext["_Znwm"] = mal(1, false, 1); ext["_Znam"] = mal(2, false, 1);
    ext["_ZnwmRKSt9nothrow_t"] = mal(1, false, 1); ext["_ZnamRKSt9nothrow_t"] = mal(2, false, 1);
    auto malA = [](int fn) { return [fn](State &S, CallBase *, std::vector<Val> &a, Val &r) { uint64_t n = concretize(S, a[0], "size"); r = Val(64, heapAlloc(S, S, n, fn, a[1].c)); return true; }; };
    ext["_ZnwmSt11align_val_t"] = malA(1); ext["_ZnamSt11align_val_t"] = malA(2);
    ext["_ZnwmSt11align_val_tRKSt9nothrow_t"] = malA(1); ext["_ZnamSt11align_val_tRKSt9nothrow_t"] = malA(2);
    ext["aligned_alloc"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { uint64_t n = concretize(S, a[1], "size"); r = Val(64, heapAlloc(S, S, n, 0, a[0].c)); return true; };
    ext["posix_memalign"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { uint64_t n = concretize(S, a[2], "size"); memStore(S, a[0], Val(64, heapAlloc(S, S, n, 0, a[1].c))); r = Val(32, (uint64_t)0); return true; };
    auto fre = [](int fn) { return [fn](State &S, CallBase *, std::vector<Val> &a, Val &) { heapFree(S, a[0], fn); return true; }; };
    ext["free"] = fre(0);
    ext["realloc"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t o = concretize(S, a[0], "p"), n = concretize(S, a[1], "allocation size"), q = heapAlloc(S, S, n, 0, 16);
        if (o) { ObjP *x = findObj(S, o); if (x && (*x)->base == o) memCopy(S, q, o, std::min(n, (uint64_t)(*x)->size)); heapFree(S, Val(64, o), 0); }
        r = Val(64, q); return true; };
    for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) ext[n] = fre(1);
    for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) ext[n] = fre(2);
    ext["memcpy"] = ext["memmove"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { uint64_t d = concretize(S, a[0], "p"), s = concretize(S, a[1], "p"), n = concretize(S, a[2], "n"); memCopy(S, d, s, n); r = Val(64, d); return true; };
    ext["memset"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t d = concretize(S, a[0], "p"), n = concretize(S, a[2], "n"); r = Val(64, d);
        if (!n) return true;
        ObjP *o = findObj(S, d); if (!o || d + n > (*o)->base + (*o)->size) violate(S, "memory", "out-of-bounds memset");
        raceCheck(S, d, (unsigned)n, true, false); if (multi(S)) S.version++;
        Obj &w = writable(*o); Val b = mkTrunc(a[1], 8);
        for (uint64_t i = 0; i < n; i++) objStore(w, d - w.base + i, b);
        return true; };
    ext["memcmp"] = ext["bcmp"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t x = concretize(S, a[0], "p"), y = concretize(S, a[1], "p"), n = concretize(S, a[2], "n");
        Val res(32, (uint64_t)0);
        for (uint64_t i = n; i-- > 0;) {
            Val p = memLoad(S, Val(64, x + i), 1), q = memLoad(S, Val(64, y + i), 1);
            Val lt(32, (uint64_t)0xffffffffu), gt(32, (uint64_t)1);
            res = mkIte(mkEq(p, q), res, mkIte(mkCmp(CmpInst::ICMP_ULT, p, q), lt, gt));
        }
        r = res; return true; };
    // exceptions
    ext["__cxa_allocate_exception"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(64, allocate(S, a[0].c, OK_OTHER, "exception")); return true; };
    ext["__cxa_free_exception"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { freeObj(S, a[0].c); return true; };
    ext["__cxa_throw"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { ExcRec e; e.ti = a[1].c; e.dtor = a[2].c; S.exc[a[0].c] = e; doThrow(S, a[0].c); return true; };
    ext["__cxa_init_primary_exception"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { ExcRec e; e.ti = a[1].c; e.dtor = a[2].c; e.refs = 0; S.exc[a[0].c] = e; r = a[0]; return true; };
    ext["__cxa_begin_catch"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        Thread &t = S.th[S.cur]; auto &e = S.exc[a[0].c]; e.handlers++; e.rethrown = false; t.caught.push_back(Caught{a[0].c}); r = Val(64, a[0].c + e.adj); return true; };
    ext["__cxa_get_exception_ptr"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(64, a[0].c + S.exc[a[0].c].adj); return true; };
    ext["__cxa_end_catch"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        Thread &t = S.th[S.cur];
        if (t.caught.empty()) return true;
        uint64_t x = t.caught.back().exc; auto &e = S.exc[x];
        t.caught.pop_back();
        if (--e.handlers <= 0 && !e.rethrown && --e.refs <= 0 && e.dtor) {
            Function *D = fnAt.count(e.dtor) ? fnAt[e.dtor] : nullptr;
            advance(S, t, Val());
            if (D && !D->isDeclaration()) pushFrame(S, t, D, {Val(64, x)}, nullptr, 1);
            return false;
        }
        return true; };
    ext["__cxa_rethrow"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        Thread &t = S.th[S.cur];
        if (t.caught.empty()) violate(S, "exception", "rethrow without an active exception: std::terminate");
        uint64_t x = t.caught.back().exc; S.exc[x].rethrown = true; S.exc[x].refs = std::max(1, S.exc[x].refs); doThrow(S, x); return true; };
    ext["__cxa_current_exception_type"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { Thread &t = S.th[S.cur]; r = Val(64, t.caught.empty() ? (uint64_t)0 : S.exc[t.caught.back().exc].ti); return true; };
    ext["kse_current_exception"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { Thread &t = S.th[S.cur]; uint64_t x = t.caught.empty() ? 0 : t.caught.back().exc; if (x) S.exc[x].refs++; r = Val(64, x); return true; };
    ext["kse_exception_addref"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { if (a[0].c) S.exc[a[0].c].refs++; return true; };
    ext["kse_exception_release"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { if (a[0].c) S.exc[a[0].c].refs--; return true; };
    ext["kse_rethrow_exception"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { S.exc[a[0].c].refs++; S.exc[a[0].c].rethrown = true; doThrow(S, a[0].c); return true; };
    ext["_ZSt18uncaught_exceptionv"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(1, (uint64_t)0); return true; };
    ext["_ZSt19uncaught_exceptionsv"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(32, (uint64_t)0); return true; };
    ext["_Unwind_Resume"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { Thread &t = S.th[S.cur]; t.inflight = a[0].c; unwind(S, true); throw Resched{}; return true; };
    auto term = [](const char *why) { return [why](State &S, CallBase *, std::vector<Val> &, Val &) -> bool { Thread &t = S.th[S.cur]; string w = why; if (t.inflight && S.exc.count(t.inflight)) w += " (last exception " + typeName(S, S.exc[t.inflight].ti) + ")"; violate(S, "exception", w); }; };
    ext["_ZSt9terminatev"] = term("std::terminate called"); ext["__clang_call_terminate"] = term("exception escapes a noexcept function: std::terminate");
    ext["abort"] = term("abort called"); ext["__assert_fail"] = term("assertion of the code failed"); ext["__cxa_pure_virtual"] = term("pure virtual call"); ext["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = term("libstdc++ assertion failed"); ext["__stack_chk_fail"] = term("stack smashing");
    ext["__cxa_bad_cast"] = term("bad_cast"); ext["__cxa_bad_typeid"] = term("bad_typeid"); ext["__cxa_deleted_virtual"] = term("deleted virtual");
    ext["exit"] = ext["_exit"] = ext["quick_exit"] = term("exit called");
    ext["__dynamic_cast"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t p = concretize(S, a[0], "p");
        uint64_t vt = rd64(S, p);
        if (!vt) violate(S, "memory", "dynamic_cast of an invalid object");
        int64_t top = (int64_t)rd64(S, vt - 16); uint64_t ti = rd64(S, vt - 8);
        int64_t adj = 0;
        r = Val(64, typeMatch(S, ti, a[2].c, adj) ? p + top + adj : (uint64_t)0); return true; };
    ext["__cxa_guard_acquire"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { Val g = objLoad(S, *findObj(S, a[0].c), a[0].c - (*findObj(S, a[0].c))->base, 1); r = Val(32, (uint64_t)(g.conc() && g.c ? 0 : 1)); return true; };
    ext["__cxa_guard_release"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { ObjP *o = findObj(S, a[0].c); objStore(writable(*o), a[0].c - (*o)->base, Val(8, (uint64_t)1)); return true; };
    ext["__cxa_guard_abort"] = [](State &, CallBase *, std::vector<Val> &, Val &) { return true; };
    ext["__cxa_atexit"] = ext["atexit"] = ext["__cxa_thread_atexit"] = [](State &, CallBase *, std::vector<Val> &, Val &r) { r = Val(32, (uint64_t)0); return true; };
    // threads
    ext["pthread_create"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        Function *F = fnAt.count(a[2].c) ? fnAt[a[2].c] : nullptr; if (!F) unsup(S, "thread function");
        Thread n; n.id = (int)S.th.size(); n.fn = a[2].c; n.arg = a[3].c;
        memStore(S, a[0], Val(64, (uint64_t)n.id + 100));
        S.th.push_back(n);
        Thread &p = S.th[S.cur]; Thread &c = S.th.back();
        for (auto &t : S.th) t.vc.resize(S.th.size(), 0);
        c.vc = p.vc; c.vc[c.id] = 1; if (!p.vc[p.id]) p.vc[p.id] = 1; p.vc[p.id]++;
        pushFrame(S, c, F, {a[3]}, nullptr, 2);
        S.version++;
        r = Val(32, (uint64_t)0); return true; };
    ext["pthread_join"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        int id = (int)a[0].c - 100; if (id < 0 || id >= (int)S.th.size()) violate(S, "memory", "join of an invalid thread");
        Thread &t = S.th[S.cur];
        if (id == S.cur) { r = Val(32, (uint64_t)35); return true; }
        if (S.th[id].status != TS_DONE) { t.waitThread = id; block(S, TS_JOIN); }
        vcJoin(t.vc, S.th[id].vc);
        r = Val(32, (uint64_t)0); return true; };
    ext["pthread_detach"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { int id = (int)a[0].c - 100; if (id >= 0 && id < (int)S.th.size()) S.th[id].detached = true; r = Val(32, (uint64_t)0); return true; };
    ext["pthread_self"] = [](State &S, CallBase *, std::vector<Val> &, Val &r) { r = Val(64, (uint64_t)S.cur + 100); return true; };
    ext["pthread_equal"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(32, (uint64_t)(a[0].c == a[1].c)); return true; };
    ext["pthread_mutex_lock"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t m = concretize(S, a[0], "mutex"); unsigned k = mutexKind(S, m); Thread &t = S.th[S.cur];
        auto it = S.mutexOwner.find(m);
        if (it != S.mutexOwner.end() && it->second == t.id) {
            if (k == 1) { S.mutexDepth[m]++; r = Val(32, (uint64_t)0); return true; }
            if (k == 2) { r = Val(32, (uint64_t)35); return true; }
            violate(S, "deadlock", "hang: mutex locked again by the thread that holds it");
        }
        if (!mutexFree(S, m, t.id)) { t.waitMutex = m; block(S, TS_MUTEX); }
        acquire(S, t, m); r = Val(32, (uint64_t)0); return true; };
    ext["pthread_mutex_trylock"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t m = concretize(S, a[0], "mutex"); unsigned k = mutexKind(S, m); Thread &t = S.th[S.cur];
        auto it = S.mutexOwner.find(m);
        if (it != S.mutexOwner.end() && it->second == t.id && k == 1) { S.mutexDepth[m]++; r = Val(32, (uint64_t)0); return true; }
        if (!mutexFree(S, m, t.id)) { r = Val(32, (uint64_t)16); return true; }
        acquire(S, t, m); r = Val(32, (uint64_t)0); return true; };
    ext["pthread_mutex_unlock"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t m = concretize(S, a[0], "mutex"); mutexKind(S, m); Thread &t = S.th[S.cur];
        auto it = S.mutexOwner.find(m);
        if (it == S.mutexOwner.end() || it->second != t.id) violate(S, "memory", "unlock of a mutex not held by the thread");
        if (--S.mutexDepth[m] <= 0) release(S, t, m);
        S.version++;
        r = Val(32, (uint64_t)0); return true; };
    ext["pthread_mutex_init"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        uint64_t m = a[0].c; unsigned kind = 0; if (a[1].conc() && a[1].c) { Val k = memLoad(S, a[1], 4); if (k.conc()) kind = (unsigned)k.c & 3; }
        memStore(S, Val(64, m + 16), Val(32, (uint64_t)kind)); S.mutexOwner.erase(m); r = Val(32, (uint64_t)0); return true; };
    ext["pthread_mutexattr_init"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { memStore(S, a[0], Val(32, (uint64_t)0)); r = Val(32, (uint64_t)0); return true; };
    ext["pthread_mutexattr_settype"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { memStore(S, a[0], mkTrunc(a[1], 32)); r = Val(32, (uint64_t)0); return true; };
    auto ret0 = [](State &S, CallBase *, std::vector<Val> &, Val &r) { r = Val(32, (uint64_t)0); return true; };
    ext["pthread_mutexattr_destroy"] = ret0;
    ext["pthread_mutex_destroy"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { auto it = S.mutexOwner.find(a[0].c); if (it != S.mutexOwner.end() && it->second >= 0) violate(S, "memory", "destruction of a locked mutex"); S.mutexOwner.erase(a[0].c); r = Val(32, (uint64_t)0); return true; };
    ext["pthread_cond_init"] = ret0; ext["pthread_condattr_init"] = ret0; ext["pthread_condattr_setclock"] = ret0; ext["pthread_condattr_destroy"] = ret0;
    ext["pthread_cond_destroy"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { r = Val(32, (uint64_t)0); for (auto &t : S.th) if (t.status == TS_COND && t.waitCond == a[0].c) violate(S, "memory", "destruction of a condition variable with waiters"); return true; };
    ext["pthread_cond_wait"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { return condWait(S, a, false, 0); };
    ext["pthread_cond_timedwait"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { return condWait(S, a, true, tsRead(S, a[2].c)); };
    ext["pthread_cond_clockwait"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { return condWait(S, a, true, tsRead(S, a[3].c)); };
    ext["pthread_cond_signal"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) {
        std::vector<int> w; for (auto &t : S.th) if (t.status == TS_COND && t.waitCond == a[0].c) w.push_back(t.id);
        r = Val(32, (uint64_t)0); S.idleTimeouts = 0;
        S.version++;
        if (w.empty()) return true;
        int pick = 0;
        if (w.size() > 1) { // any waiter may be the one woken
            for (size_t i = 1; i < w.size(); i++) { State *n = forkState(S); n->th[w[i]].status = TS_CONDLOCK; n->sched.push_back(2000 + w[i]); advance(*n, n->th[n->cur], r); enqueue(n); }
            S.sched.push_back(2000 + w[0]);
        }
        S.th[w[pick]].status = TS_CONDLOCK; return true; };
    ext["pthread_cond_broadcast"] = [](State &S, CallBase *, std::vector<Val> &a, Val &r) { for (auto &t : S.th) if (t.status == TS_COND && t.waitCond == a[0].c) t.status = TS_CONDLOCK; r = Val(32, (uint64_t)0); S.version++; S.idleTimeouts = 0; return true; };
    auto yield = [](State &S, uint64_t ns) { S.clock += ns ? ns : 1; Thread &t = S.th[S.cur]; advance(S, t, Val(32, (uint64_t)0)); if (live(S) > 1) { t.yieldFor = 0; if (opt.fair) for (auto &o : S.th) if (o.id != t.id && o.id < 64 && o.status != TS_YIELD && o.status != TS_COND && enabled(S, o)) t.yieldFor |= 1ULL << o.id; t.status = TS_YIELD; t.schedDone = false; throw Resched{}; } return false; };
    ext["sched_yield"] = ext["kse_yield"] = ext["thrd_yield"] = [yield](State &S, CallBase *, std::vector<Val> &a, Val &r) { return yield(S, 0); };
    ext["nanosleep"] = [yield](State &S, CallBase *, std::vector<Val> &a, Val &r) { return yield(S, tsRead(S, a[0].c)); };
    ext["clock_nanosleep"] = [yield](State &S, CallBase *, std::vector<Val> &a, Val &r) { return yield(S, tsRead(S, a[2].c)); };
    ext["usleep"] = [yield](State &S, CallBase *, std::vector<Val> &a, Val &r) { return yield(S, a[0].conc() ? a[0].c * 1000 : 1000); };
    ext["sleep"] = [yield](State &S, CallBase *, std::vector<Val> &a, Val &r) { return yield(S, a[0].conc() ? a[0].c * 1000000000ULL : 1000); };
    ext["pthread_setname_np"] = ret0; ext["pthread_setaffinity_np"] = ret0; ext["pthread_setschedparam"] = ret0; ext["sched_setaffinity"] = ret0;
    ext["pthread_getaffinity_np"] = ret0;
    ext["printf"] = ext["puts"] = ext["putchar"] = ext["fprintf"] = ext["fputs"] = ext["fwrite"] = ext["fflush"] = ext["perror"] = ret0;
}

// ------------------------------------------------------------------ calls
static void doCall(State &S, Frame &f, CallBase *cb);
static Val loadTyped(State &S, const Val &p, Type *t, unsigned align, bool atomic);
static std::map<uint64_t, ObjP> tlsInit; // thread-local variables: their initial contents
static bool intrinsic(State &S, Frame &f, CallBase *cb, Intrinsic::ID id, Val &r) {
    auto A = [&](unsigned i) { return eval(S, f, cb->getArgOperand(i)); };
    auto mapv = [&](std::function<Val(const Val &, const Val &)> fn) {
        Val a = A(0), b = A(1);
        if (a.agg) { Val o; o.agg = std::make_shared<Agg>(); for (size_t i = 0; i < a.agg->size(); i++) o.agg->push_back(fn((*a.agg)[i], (*b.agg)[i])); return o; }
        return fn(a, b); };
    auto pair = [&](const Val &x, const Val &y) { Val o; o.agg = std::make_shared<Agg>(); o.agg->push_back(x); o.agg->push_back(y); return o; };
    unsigned w = cb->getType()->isVoidTy() || cb->getType()->isStructTy() || cb->getType()->isVectorTy() ? 0 : tbits(cb->getType());
    if (id == Intrinsic::threadlocal_address) {
        Val g = A(0); r = g;
        auto t = tlsInit.find(g.c);
        if (S.cur != 0 && g.conc() && t != tlsInit.end()) { // every thread but the first has its own copy
            uint64_t &own = S.tls[{S.cur, g.c}];
            if (!own) { own = allocate(S, t->second->size, OK_GLOBAL, t->second->name); uint64_t base = own; auto o = std::make_shared<Obj>(*t->second); o->base = base; S.mem[base] = o; }
            r = Val(64, own);
        }
        return true;
    }
    switch (id) {
    case Intrinsic::lifetime_start: {
        return true; }
    case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::pseudoprobe:
    case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_end: return true;
    case Intrinsic::invariant_start: r = Val(64, (uint64_t)0); return true;
    case Intrinsic::stacksave: r = Val(64, (uint64_t)0); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { std::vector<Val> a{A(0), A(1), A(2)}; Val d; ext["memcpy"](S, cb, a, d); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { std::vector<Val> a{A(0), A(1), A(2)}; Val d; ext["memset"](S, cb, a, d); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = A(0); return true;
    case Intrinsic::is_constant: r = Val(1, (uint64_t)0); return true;
    case Intrinsic::objectsize: r = Val(w, ~0ULL); return true;
    case Intrinsic::load_relative: { Val b = A(0); r = mkBin(Instruction::Add, b, mkSext(loadTyped(S, mkBin(Instruction::Add, b, mkSext(A(1), 64)), Type::getInt32Ty(cb->getContext()), 4, false), 64)); return true; } // clang's tables of relative addresses
    case Intrinsic::umin: r = mapv([](const Val &a, const Val &b) { return mkIte(mkCmp(CmpInst::ICMP_ULT, a, b), a, b); }); return true;
    case Intrinsic::umax: r = mapv([](const Val &a, const Val &b) { return mkIte(mkCmp(CmpInst::ICMP_UGT, a, b), a, b); }); return true;
    case Intrinsic::smin: r = mapv([](const Val &a, const Val &b) { return mkIte(mkCmp(CmpInst::ICMP_SLT, a, b), a, b); }); return true;
    case Intrinsic::smax: r = mapv([](const Val &a, const Val &b) { return mkIte(mkCmp(CmpInst::ICMP_SGT, a, b), a, b); }); return true;
    case Intrinsic::abs: { Val a = A(0); if (a.agg) return false; r = mkIte(mkCmp(CmpInst::ICMP_SLT, a, Val(w, (uint64_t)0)), mkBin(Instruction::Sub, Val(w, (uint64_t)0), a), a); return true; }
    case Intrinsic::uadd_sat: r = mapv([](const Val &a, const Val &b) { Val s = mkBin(Instruction::Add, a, b); return mkIte(mkCmp(CmpInst::ICMP_ULT, s, a), Val(a.w, ~0ULL), s); }); return true;
    case Intrinsic::usub_sat: r = mapv([](const Val &a, const Val &b) { return mkIte(mkCmp(CmpInst::ICMP_ULT, a, b), Val(a.w, (uint64_t)0), mkBin(Instruction::Sub, a, b)); }); return true;
    case Intrinsic::uadd_with_overflow: { Val a = A(0), b = A(1), s = mkBin(Instruction::Add, a, b); r = pair(s, mkCmp(CmpInst::ICMP_ULT, s, a)); return true; }
    case Intrinsic::usub_with_overflow: { Val a = A(0), b = A(1); r = pair(mkBin(Instruction::Sub, a, b), mkCmp(CmpInst::ICMP_ULT, a, b)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        Val a = A(0), b = A(1); unsigned w0 = a.w, w2 = w0 * 2;
        unsigned op = id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
        bool sg = id != Intrinsic::umul_with_overflow;
        Val s = mkBin(op, a, b);
        if (a.conc() && b.conc() && w0 == 64) {
            bool o; if (sg) { long long z; o = op == Instruction::Add ? __builtin_saddll_overflow((long long)a.c, (long long)b.c, &z) : op == Instruction::Sub ? __builtin_ssubll_overflow((long long)a.c, (long long)b.c, &z) : __builtin_smulll_overflow((long long)a.c, (long long)b.c, &z); } else { unsigned long long z; o = __builtin_umulll_overflow(a.c, b.c, &z); }
            r = pair(s, Val(1, (uint64_t)o)); return true;
        }
        Val x = sg ? mkSext(a, w2) : mkZext(a, w2), y = sg ? mkSext(b, w2) : mkZext(b, w2), full = mkBin(op, x, y);
        r = pair(s, mkNot(mkEq(full, sg ? mkSext(s, w2) : mkZext(s, w2)))); return true; }
    case Intrinsic::ctpop: { Val a = A(0); Val s(w, (uint64_t)0); for (unsigned i = 0; i < a.w; i++) s = mkBin(Instruction::Add, s, mkZext(mkExtract(a, i, i), w)); r = s; return true; }
    case Intrinsic::ctlz: { Val a = A(0); Val s(w, (uint64_t)a.w); for (unsigned i = 0; i < a.w; i++) s = mkIte(mkExtract(a, i, i), Val(w, (uint64_t)(a.w - 1 - i)), s); r = s; return true; }
    case Intrinsic::cttz: { Val a = A(0); Val s(w, (uint64_t)a.w); for (unsigned i = a.w; i-- > 0;) s = mkIte(mkExtract(a, i, i), Val(w, (uint64_t)i), s); r = s; return true; }
    case Intrinsic::bswap: { Val a = A(0); Val s = mkExtract(a, 7, 0); for (unsigned i = 8; i < a.w; i += 8) s = mkConcat(s, mkExtract(a, i + 7, i)); r = s; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Val a = A(0), b = A(1), c = A(2); unsigned w0 = a.w;
        Val k = mkBin(Instruction::URem, c, Val(w0, (uint64_t)w0)), z = mkEq(k, Val(w0, (uint64_t)0)), inv = mkBin(Instruction::Sub, Val(w0, (uint64_t)w0), k);
        if (id == Intrinsic::fshl) r = mkIte(z, a, mkBin(Instruction::Or, mkBin(Instruction::Shl, a, k), mkBin(Instruction::LShr, b, inv)));
        else r = mkIte(z, b, mkBin(Instruction::Or, mkBin(Instruction::Shl, a, inv), mkBin(Instruction::LShr, b, k)));
        return true; }
    case Intrinsic::eh_typeid_for: r = Val(32, (uint64_t)typeId(A(0).c)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate(S, "exception", "trap");
    case Intrinsic::fabs: { Val a = A(0); r = mkBin(Instruction::And, a, Val(w, w == 32 ? 0x7fffffffULL : 0x7fffffffffffffffULL)); return true; }
    case Intrinsic::fmuladd: { r = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, A(0), A(1)), A(2)); return true; }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::sqrt: {
        Val a = A(0); if (!a.conc()) return false; double x = asD(a);
        x = id == Intrinsic::ceil ? ceil(x) : id == Intrinsic::floor ? floor(x) : id == Intrinsic::trunc ? trunc(x) : id == Intrinsic::rint ? rint(x) : id == Intrinsic::round ? round(x) : sqrt(x);
        r = fromD(x, w); return true; }
    case Intrinsic::ptrmask: r = mkBin(Instruction::And, A(0), A(1)); return true;
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
        Val a = A(0), s = (*a.agg)[0]; unsigned op = id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_add ? Instruction::Add : Instruction::Xor;
        for (size_t i = 1; i < a.agg->size(); i++) s = mkBin(op, s, (*a.agg)[i]);
        r = s; return true; }
    case Intrinsic::vastart: { // SysV va_list: point everything at an overflow area holding the variadic arguments
        Val p = A(0); uint64_t n = f.varargs.size();
        uint64_t area = allocate(S, 8 * (n + 1), OK_STACK, "varargs", 16, true);
        f.allocas.push_back(area);
        for (uint64_t i = 0; i < n; i++) objStore(*S.mem[area], 8 * i, f.varargs[i].w < 64 ? mkZext(f.varargs[i], 64) : f.varargs[i]);
        memStore(S, p, Val(32, (uint64_t)48)); memStore(S, Val(64, p.c + 4), Val(32, (uint64_t)304)); memStore(S, Val(64, p.c + 8), Val(64, area)); memStore(S, Val(64, p.c + 16), Val(64, (uint64_t)0));
        return true; }
    default: return false;
    }
}
static Val aggToType(const Val &v, Type *t) { return v; }
static void doCall(State &S, Frame &f, CallBase *cb) {
    Thread &t = S.th[S.cur];
    if (cb->isInlineAsm()) { // pause / compiler barriers only
        auto *ia = cast<InlineAsm>(cb->getCalledOperand());
        StringRef s = ia->getAsmString();
        if (cb->getType()->isVoidTy() && (s.empty() || s.contains("pause") || s.contains("nop") || s.contains("mfence"))) { advance(S, t, Val()); return; }
        unsup(S, "inline assembly");
    }
    Function *F = calleeOf(S, f, cb);
    if (!F) {
        Val p = eval(S, f, cb->getCalledOperand());
        uint64_t a = concretize(S, p, "call target");
        auto it = fnAt.find(a);
        if (it == fnAt.end()) violate(S, "memory", a == 0 ? "call through a null pointer" : "call through an invalid function pointer");
        F = it->second;
    }
    if (F->isIntrinsic()) {
        Val r;
        if (!intrinsic(S, f, cb, F->getIntrinsicID(), r)) unsup(S, "intrinsic " + F->getName().str());
        Thread &t2 = S.th[S.cur];
        if (r.agg || r.w) setReg(t2.st.back(), cb, r);
        if (auto *inv = dyn_cast<InvokeInst>(cb)) enterBlock(S, t2.st.back(), inv->getNormalDest()); else ++t2.st.back().it;
        return;
    }
    std::vector<Val> args;
    for (auto &a : cb->args()) args.push_back(eval(S, f, a.get()));
    if (F->isDeclaration() || F->getName() == "__clang_call_terminate") {
        auto it = ext.find(F->getName().str());
        if (it == ext.end()) unsup(S, "external function " + F->getName().str());
        StringRef en = F->getName();
        static const std::set<string> symArgs = {"kse_assert", "kse_assume", "kse_concretize", "kse_set_clock", "kse_log", "memcpy", "memmove", "memset", "memcmp", "bcmp", "printf", "fprintf", "puts", "putchar", "fputs", "fwrite", "perror", "exit", "_exit", "quick_exit"};
        if (!symArgs.count(string(en))) for (auto &v : args) if (!v.conc() && !v.agg) v = Val(v.w, concretize(S, v, "argument"));
        bool vis = visibleCalls.count(F->getName().str());
        if (live(S) > 1 && vis) schedPoint(S);
        Val r;
        if (it->second(S, cb, args, r)) {
            Thread &t2 = S.th[S.cur];
            if (!cb->getType()->isVoidTy() && !r.agg) { unsigned w = tbits(cb->getType()); if (!r.w) r = Val(w, (uint64_t)0); else if (r.w < w) r = mkZext(r, w); else if (r.w > w) r = mkTrunc(r, w); }
            if (vis) t2.schedDone = false;
            advance(S, t2, r);
        }
        return;
    }
    if (F->arg_size() > args.size()) unsup(S, "call with too few arguments");
    pushFrame(S, t, F, args, cb, 0);
}

// ------------------------------------------------------------------ one instruction
static Val loadTyped(State &S, const Val &p, Type *t, unsigned align, bool atomic) {
    if (auto *st = dyn_cast<StructType>(t)) {
        Val r; r.agg = std::make_shared<Agg>(); auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadTyped(S, mkBin(Instruction::Add, p, Val(64, sl->getElementOffset(i).getFixedValue())), st->getElementType(i), 1, atomic));
        return r;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        Val r; r.agg = std::make_shared<Agg>(); uint64_t es = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
        for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadTyped(S, mkBin(Instruction::Add, p, Val(64, i * es)), at->getElementType(), 1, atomic));
        return r;
    }
    unsigned bits = (unsigned)DL->getTypeSizeInBits(t).getFixedValue(), bytes = (bits + 7) / 8;
    Val v = memLoad(S, p, bytes, align, atomic);
    if (v.w != bits) v = mkTrunc(v, bits);
    if (t->isVectorTy()) return splitVec(v, t);
    return v;
}
static void storeTypedSym(State &S, const Val &p, const Val &v, Type *t, unsigned align, bool atomic) {
    if (v.agg) {
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < v.agg->size(); i++) storeTypedSym(S, mkBin(Instruction::Add, p, Val(64, sl->getElementOffset(i).getFixedValue())), (*v.agg)[i], st->getElementType(i), 1, atomic);
        } else if (t->isArrayTy()) {
            uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue();
            for (unsigned i = 0; i < v.agg->size(); i++) storeTypedSym(S, mkBin(Instruction::Add, p, Val(64, i * es)), (*v.agg)[i], t->getArrayElementType(), 1, atomic);
        } else memStore(S, p, vecToInt(v), align, atomic);
        return;
    }
    memStore(S, p, v, align, atomic);
}
static Val vecMap(const Val &a, const Val &b, std::function<Val(const Val &, const Val &)> fn) {
    if (!a.agg) return fn(a, b);
    Val r; r.agg = std::make_shared<Agg>();
    for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(vecMap((*a.agg)[i], (*b.agg)[i], fn));
    return r;
}
static void threadDone(State &S) {
    Thread &t = S.th[S.cur];
    t.status = TS_DONE;
    S.version++;
    if (t.vc.size() > (size_t)t.id) t.vc[t.id]++;
    throw Resched{};
}
static bool alone(State &S) { // no other thread can go on before this one changes something; a repetition during which one could is only an unfair schedule
    for (auto &t : S.th) if (t.id != S.cur && t.status != TS_DONE && (t.status == TS_COND || t.status == TS_YIELD || t.status == TS_SPIN || enabled(S, t))) return false;
    return true;
}
// Once only one thread can go on: a state that comes back exactly, with nothing asked for in between, repeats forever.
static void hangCheck(State &S) {
    Snap *p = S.snap.get();
    if (!p || S.steps - p->at > 60000) {
        auto n = std::make_shared<Snap>();
        n->at = S.steps; n->cur = S.cur; n->mem = S.mem; n->pc = S.pc; n->inputs = S.inputs.size(); n->fresh = S.freshCounter; n->clock = S.clockReads; n->schedDone = S.th[S.cur].schedDone; n->owner = S.mutexOwner; n->depth = S.mutexDepth;
        for (auto &t : S.th) { n->st.push_back(t.st); n->status.push_back(t.status); }
        S.snap = n;
        return;
    }
    if (p->cur != S.cur || p->schedDone != S.th[S.cur].schedDone || p->st.size() != S.th.size() || p->inputs != S.inputs.size() || p->fresh != S.freshCounter || p->clock != S.clockReads || p->pc != S.pc) return;
    auto &a = p->st[S.cur], &b = S.th[S.cur].st;
    if (a.size() != b.size() || &*a.back().it != &*b.back().it) return;
    for (size_t i = a.size(); i-- > 0;) {
        if (a[i].fi != b[i].fi || a[i].bb != b[i].bb || &*a[i].it != &*b[i].it || (i + 1 == a.size() && a[i].prev != b[i].prev)) return;
        if (a[i].allocas != b[i].allocas || !regsSame(a[i].regs, b[i].regs)) return;
    }
    for (size_t i = 0; i < S.th.size(); i++) if (p->status[i] != S.th[i].status) return;
    if (p->mem.size() != S.mem.size() || p->owner != S.mutexOwner || p->depth != S.mutexDepth) return;
    for (auto x = p->mem.begin(), y = S.mem.begin(); x != p->mem.end(); ++x, ++y) {
        if (x->first != y->first) return;
        if (x->second == y->second) continue;
        Obj &o = *x->second, &q = *y->second;
        if (o.size != q.size || o.data != q.data || o.tag != q.tag || o.sym.size() != q.sym.size()) return;
        for (auto k = o.sym.begin(), l = q.sym.begin(); k != o.sym.end(); ++k, ++l) if (k->first != l->first || k->second.e != l->second.e || k->second.w != l->second.w || k->second.idx != l->second.idx) return;
    }
    S.snap.reset();
    string who;
    static const char *const nm[] = {"running", "waiting for a mutex", "waiting on a condition", "joining", "done", "spinning on unchanged memory", "yielding", "re-acquiring a mutex"};
    for (auto &t : S.th) if (t.status != TS_DONE) who += "; thread " + std::to_string(t.id) + " " + nm[t.status];
    violate(S, "deadlock", "hang: the same state comes back over and over" + who);
}
static void step(State &S) {
    Thread &t = S.th[S.cur];
    Frame &f = t.st.back();
    Instruction *I = &*f.it;
    stt.instrs++;
    if (S.steps > 30000 || S.sched.size() > opt.maxSched / 2) { if (alone(S)) hangCheck(S); else S.snap.reset(); }
    if (++S.steps > opt.maxSteps) truncatePath("more than " + std::to_string(opt.maxSteps) + " instructions on a path");
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(I);
        uint64_t n = DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
        if (A->isArrayAllocation()) n *= concretize(S, eval(S, f, A->getArraySize()), "alloca size");
        uint64_t a = allocate(S, n, OK_STACK, A->getName().str(), (unsigned)A->getAlign().value());
        f.allocas.push_back(a);
        setReg(f, I, Val(64, a)); ++f.it; return; }
    case Instruction::Load: {
        auto *L = cast<LoadInst>(I);
        Val p = eval(S, f, L->getPointerOperand());
        if (L->isAtomic() && multi(S)) { p = Val(64, concretize(S, p, "atomic address")); schedPoint(S); }
        Val v = loadTyped(S, p, L->getType(), (unsigned)L->getAlign().value(), L->isAtomic());
        if (L->isAtomic() && p.conc()) atomicSync(S, p.c, true, false, false, L->getOrdering());
        setReg(f, I, v); ++f.it; if (L->isAtomic()) t.schedDone = false; return; }
    case Instruction::Store: {
        auto *L = cast<StoreInst>(I);
        Val p = eval(S, f, L->getPointerOperand());
        if (L->isAtomic() && multi(S)) { p = Val(64, concretize(S, p, "atomic address")); schedPoint(S); }
        storeTypedSym(S, p, eval(S, f, L->getValueOperand()), L->getValueOperand()->getType(), (unsigned)L->getAlign().value(), L->isAtomic());
        if (L->isAtomic() && p.conc()) atomicSync(S, p.c, false, true, false, L->getOrdering());
        ++f.it; if (L->isAtomic()) t.schedDone = false; return; }
    case Instruction::AtomicRMW: {
        auto *R = cast<AtomicRMWInst>(I);
        uint64_t pa = concretize(S, eval(S, f, R->getPointerOperand()), "atomic address");
        if (multi(S)) schedPoint(S);
        Val p(64, pa), x = eval(S, f, R->getValOperand());
        unsigned w = x.w;
        Val old = memLoad(S, p, (w + 7) / 8, 1, true);
        if (old.w != w) old = mkTrunc(old, w);
        Val nv;
        switch (R->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = mkBin(Instruction::Add, old, x); break;
        case AtomicRMWInst::Sub: nv = mkBin(Instruction::Sub, old, x); break;
        case AtomicRMWInst::And: nv = mkBin(Instruction::And, old, x); break;
        case AtomicRMWInst::Or: nv = mkBin(Instruction::Or, old, x); break;
        case AtomicRMWInst::Xor: nv = mkBin(Instruction::Xor, old, x); break;
        case AtomicRMWInst::Max: nv = mkIte(mkCmp(CmpInst::ICMP_SGT, old, x), old, x); break;
        case AtomicRMWInst::Min: nv = mkIte(mkCmp(CmpInst::ICMP_SLT, old, x), old, x); break;
        case AtomicRMWInst::UMax: nv = mkIte(mkCmp(CmpInst::ICMP_UGT, old, x), old, x); break;
        case AtomicRMWInst::UMin: nv = mkIte(mkCmp(CmpInst::ICMP_ULT, old, x), old, x); break;
        default: unsup(S, "atomicrmw operation");
        }
        memStore(S, p, nv, 1, true);
        atomicSync(S, pa, true, true, true, R->getOrdering());
        setReg(f, I, old); ++f.it; t.schedDone = false; return; }
    case Instruction::AtomicCmpXchg: {
        auto *R = cast<AtomicCmpXchgInst>(I);
        uint64_t pa = concretize(S, eval(S, f, R->getPointerOperand()), "atomic address");
        if (multi(S)) schedPoint(S);
        Val p(64, pa), e = eval(S, f, R->getCompareOperand()), n = eval(S, f, R->getNewValOperand());
        unsigned w = e.w;
        Val old = memLoad(S, p, (w + 7) / 8, 1, true);
        if (old.w != w) old = mkTrunc(old, w);
        Val eq = simp(mkEq(old, e));
        if (multi(S) && !eq.conc()) { uint64_t c = concretize(S, eq, "cas"); eq = Val(1, c); }
        if (!(eq.conc() && !eq.c)) memStore(S, p, mkIte(eq, n, old), 1, true);
        bool won = !(eq.conc() && !eq.c);
        atomicSync(S, pa, true, won, won, won ? R->getSuccessOrdering() : R->getFailureOrdering());
        Val r; r.agg = std::make_shared<Agg>(); r.agg->push_back(old); r.agg->push_back(eq);
        setReg(f, I, r); ++f.it; t.schedDone = false; return; }
    case Instruction::Fence: {
        auto o = cast<FenceInst>(I)->getOrdering();
        if (multi(S) && cast<FenceInst>(I)->getSyncScopeID() != SyncScope::SingleThread) {
            if (t.vc.size() < S.th.size()) t.vc.resize(S.th.size(), 0);
            if (isAcquireOrStronger(o)) vcJoin(t.vc, t.acqPending);
            if (isReleaseOrStronger(o)) { t.relFence = t.vc; t.vc[t.id]++; }
        }
        ++f.it; return; }
    case Instruction::GetElementPtr: {
        auto *G = cast<GEPOperator>(I);
        if (I->getType()->isVectorTy()) unsup(S, "vector of pointers");
        setReg(f, I, gepConst(G, [&](const Value *v) { return eval(S, f, v); })); ++f.it; return; }
    case Instruction::ICmp: {
        auto *C = cast<ICmpInst>(I); unsigned p = C->getPredicate();
        setReg(f, I, vecMap(eval(S, f, I->getOperand(0)), eval(S, f, I->getOperand(1)), [p](const Val &a, const Val &b) { return mkCmp(p, a, b); })); ++f.it; return; }
    case Instruction::FCmp: {
        unsigned p = cast<FCmpInst>(I)->getPredicate();
        setReg(f, I, vecMap(eval(S, f, I->getOperand(0)), eval(S, f, I->getOperand(1)), [p](const Val &a, const Val &b) { return fpCmp(p, a, b); })); ++f.it; return; }
    case Instruction::FNeg: { Val a = eval(S, f, I->getOperand(0)); setReg(f, I, vecMap(a, a, [](const Val &x, const Val &) { return mkBin(Instruction::Xor, x, Val(x.w, 1ULL << (x.w - 1))); })); ++f.it; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        unsigned op = I->getOpcode();
        setReg(f, I, vecMap(eval(S, f, I->getOperand(0)), eval(S, f, I->getOperand(1)), [op](const Val &a, const Val &b) { return fpBin(op, a, b); })); ++f.it; return; }
    case Instruction::Select: {
        Val c = eval(S, f, I->getOperand(0)), a = eval(S, f, I->getOperand(1)), b = eval(S, f, I->getOperand(2));
        if (c.agg) { Val r; r.agg = std::make_shared<Agg>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(mkIte((*c.agg)[i], (*a.agg)[i], (*b.agg)[i])); setReg(f, I, r); ++f.it; return; }
        if (I->getType()->isPointerTy() && !c.conc()) { // keep pointers concrete: one path per choice
            uint64_t x = concretize(S, c, "select"); c = Val(1, x);
        }
        setReg(f, I, mkIte(c, a, b)); ++f.it; return; }
    case Instruction::PHI: fatal("phi");
    case Instruction::Freeze: setReg(f, I, eval(S, f, I->getOperand(0))); ++f.it; return;
    case Instruction::ExtractValue: {
        Val a = eval(S, f, I->getOperand(0));
        for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val n = (*a.agg)[i]; a = n; }
        setReg(f, I, a); ++f.it; return; }
    case Instruction::InsertValue: {
        Val a = eval(S, f, I->getOperand(0)), x = eval(S, f, I->getOperand(1));
        auto *IV = cast<InsertValueInst>(I);
        std::function<Val(Val, unsigned)> ins = [&](Val v, unsigned d) { if (d == IV->getNumIndices()) return x; Val r; r.agg = std::make_shared<Agg>(*v.agg); unsigned ix = IV->getIndices()[d]; (*r.agg)[ix] = ins((*v.agg)[ix], d + 1); return r; };
        setReg(f, I, ins(a, 0)); ++f.it; return; }
    case Instruction::ExtractElement: { Val a = eval(S, f, I->getOperand(0)); uint64_t ix = concretize(S, eval(S, f, I->getOperand(1)), "index"); setReg(f, I, (*a.agg)[ix]); ++f.it; return; }
    case Instruction::InsertElement: { Val a = eval(S, f, I->getOperand(0)), x = eval(S, f, I->getOperand(1)); uint64_t ix = concretize(S, eval(S, f, I->getOperand(2)), "index"); Val r; r.agg = std::make_shared<Agg>(*a.agg); (*r.agg)[ix] = x; setReg(f, I, r); ++f.it; return; }
    case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); Val a = eval(S, f, I->getOperand(0)), b = eval(S, f, I->getOperand(1)); Val r; r.agg = std::make_shared<Agg>(); size_t n = a.agg->size();
        for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : (size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
        setReg(f, I, r); ++f.it; return; }
    case Instruction::Br: {
        auto *B = cast<BranchInst>(I);
        if (B->isUnconditional()) { enterBlock(S, f, B->getSuccessor(0)); return; }
        Val c = eval(S, f, B->getCondition());
        if (!c.conc()) c = simp(c);
        if (c.conc()) { enterBlock(S, f, B->getSuccessor(c.c ? 0 : 1)); return; }
        bool mt = mayBeTrue(S, c), mf = mayBeTrue(S, mkNot(c));
        if (mt && mf) {
            State *n = forkState(S);
            addPC(*n, mkNot(c));
            enterBlock(*n, n->th[n->cur].st.back(), B->getSuccessor(1));
            enqueue(n);
            addPC(S, c);
            enterBlock(S, f, B->getSuccessor(0));
        } else if (mt) { addPC(S, c); enterBlock(S, f, B->getSuccessor(0)); }
        else if (mf) { addPC(S, mkNot(c)); enterBlock(S, f, B->getSuccessor(1)); }
        else throw Kill{2};
        return; }
    case Instruction::Switch: {
        auto *W = cast<SwitchInst>(I);
        Val c = simp(eval(S, f, W->getCondition()));
        if (!c.conc()) { // one path per destination value group
            std::map<BasicBlock *, Val> by; Val none(1, (uint64_t)1);
            std::vector<BasicBlock *> order;
            for (auto &k : W->cases()) { Val e = mkEq(c, constVal(k.getCaseValue())); auto *d = k.getCaseSuccessor(); if (!by.count(d)) { by[d] = e; order.push_back(d); } else by[d] = mkOr(by[d], e); none = mkAnd(none, mkNot(e)); }
            auto *dd = W->getDefaultDest();
            if (!by.count(dd)) { by[dd] = none; order.push_back(dd); } else by[dd] = mkOr(by[dd], none);
            std::vector<BasicBlock *> feas;
            for (auto *d : order) if (mayBeTrue(S, by[d])) feas.push_back(d);
            if (feas.empty()) throw Kill{2};
            for (size_t i = 1; i < feas.size(); i++) { State *n = forkState(S); addPC(*n, by[feas[i]]); enterBlock(*n, n->th[n->cur].st.back(), feas[i]); enqueue(n); }
            addPC(S, by[feas[0]]);
            enterBlock(S, f, feas[0]);
            return;
        }
        BasicBlock *d = W->getDefaultDest();
        for (auto &k : W->cases()) { Val kv = constVal(k.getCaseValue()); if (kv.conc() && kv.c == c.c) { d = k.getCaseSuccessor(); break; } }
        enterBlock(S, f, d); return; }
    case Instruction::Ret: {
        Val r; if (I->getNumOperands()) r = eval(S, f, I->getOperand(0));
        int on = f.onReturn;
        popFrame(S, t);
        if (on == 2) { threadDone(S); }
        if (t.st.empty()) { if (S.cur != 0) threadDone(S); stt.paths++; throw Kill{0}; }
        if (on == 1) return;
        advance(S, t, r);
        return; }
    case Instruction::Call: case Instruction::Invoke: doCall(S, f, cast<CallBase>(I)); return;
    case Instruction::Resume: { Val a = eval(S, f, I->getOperand(0)); t.inflight = (*a.agg)[0].c; unwind(S, true); return; }
    case Instruction::Unreachable: violate(S, "exception", "unreachable code reached");
    default:
        if (I->isBinaryOp()) {
            unsigned op = I->getOpcode();
            Val a = eval(S, f, I->getOperand(0)), b = eval(S, f, I->getOperand(1));
            if ((op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) && !b.agg)
                mustHold(S, mkNot(mkEq(b, Val(b.w, (uint64_t)0))), "memory", "division by zero");
            setReg(f, I, vecMap(a, b, [op](const Val &x, const Val &y) { return mkBin(op, x, y); })); ++f.it; return;
        }
        if (I->isCast()) { setReg(f, I, doCast(I->getOpcode(), eval(S, f, I->getOperand(0)), I->getOperand(0)->getType(), I->getType())); ++f.it; return; }
        unsup(S, string("instruction ") + I->getOpcodeName());
    }
}
static bool timeUp = false;
static void checkTime() { if (!timeUp && now() - t0 > opt.timeLimit) { timeUp = true; truncatePath("time limit"); } }
static void runState(State *Sp) {
    State &S = *Sp;
    static uint64_t n = 0;
    try {
        for (;;) {
            try {
                for (;;) {
                    if ((++n & 1023) == 0 && now() - t0 > opt.timeLimit) { timeUp = true; truncatePath("time limit"); }
                    step(S);
                }
            } catch (Resched &) {
                Thread &t = S.th[S.cur];
                if (t.status != TS_RUN) {
                    if (live(S) == 0) { stt.paths++; throw Kill{0}; }
                    schedule(S);
                }
            }
        }
    } catch (Kill &k) {
        if (k.why == 4) incomplete = true;
        stt.killed++;
    }
    models.erase(S.id);
    delete Sp;
}

// ------------------------------------------------------------------ module set-up and main
static void setupGlobals(State &S) {
    for (auto &F : *M) constVal(&F);
    for (auto &G : M->globals()) {
        uint64_t size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
        if (G.isDeclaration()) size = std::max<uint64_t>(size, 64);
        uint64_t al = std::max<uint64_t>(G.getAlign() ? G.getAlign()->value() : 16, 16);
        gvNext = (gvNext + al - 1) / al * al;
        gvAddr[&G] = gvNext;
        gvNext += size + 32;
        if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") tvSI = gvAddr[&G];
        if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tvVMI = gvAddr[&G];
    }
    for (auto &G : M->globals()) {
        uint64_t size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
        if (G.isDeclaration()) size = std::max<uint64_t>(size, 64);
        auto o = mkObj(gvAddr[&G], size, OK_GLOBAL, G.getName().str(), true);
        if (G.hasInitializer()) storeTyped(*o, 0, constVal(G.getInitializer()), G.getValueType());
        else if (G.getName().starts_with("_ZTI")) { // type information of the library: its name is its mangled name
            string nm = G.getName().substr(4).str();
            auto ns = mkObj(gvNext + 16, nm.size() + 1, OK_GLOBAL, "type name", true);
            for (size_t i = 0; i <= nm.size(); i++) objStore(*ns, i, Val(8, (uint64_t)(unsigned char)nm.c_str()[i]));
            ns->ro = true; roMem[ns->base] = ns;
            gvNext = (ns->base + nm.size() + 1 + 32 + 15) / 16 * 16;
            objStore(*o, 8, Val(64, ns->base));
        }
        if (G.isThreadLocal()) tlsInit[o->base] = std::make_shared<Obj>(*o);
        if (G.isConstant()) { o->ro = true; roMem[o->base] = o; } else S.mem[o->base] = o;
    }
}
static string jstr(const string &s) {
    string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
static void writeOut(bool ok) {
    std::map<string, std::set<unsigned>> lines; std::set<string> fns;
    for (auto *b : execBB) for (auto &i : *b) {
        for (const DILocation *l = i.getDebugLoc(); l; l = l->getInlinedAt()) {
            string f = l->getFilename().str(); if (f.empty() || f[0] != '/') f = l->getDirectory().str() + "/" + f;
            if (f.find("/repo/") != 0) continue;
            lines[f].insert(l->getLine());
            if (auto *sp = l->getScope()->getSubprogram()) { string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); fns.insert(n); }
        }
    }
    FILE *o = fopen(opt.out.c_str(), "w");
    if (!o) fatal("cannot write " + opt.out);
    fprintf(o, "{\n \"entry\": %s,\n \"complete\": %s,\n", jstr(opt.entry).c_str(), (ok && !incomplete && work.empty()) ? "true" : "false");
    fprintf(o, " \"paths\": %llu, \"states\": %llu, \"forks\": %llu, \"instructions\": %llu, \"truncated\": %llu, \"assume_killed\": %llu,\n", (unsigned long long)stt.paths, (unsigned long long)stt.states, (unsigned long long)stt.forks, (unsigned long long)stt.instrs, (unsigned long long)stt.truncated, (unsigned long long)stt.assumeKilled);
    fprintf(o, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f,\n", (unsigned long long)stt.queries, (unsigned long long)stt.satq, (unsigned long long)stt.unsatq, (unsigned long long)stt.unknown, stt.solver, stt.maxq, now() - t0);
    fprintf(o, " \"lia_queries\": %llu, \"lia_rejected\": %llu, \"cached_queries\": %llu, \"folded_queries\": %llu, \"cross_checked\": %llu, \"asserts_symbolic\": %llu, \"asserts_constant\": %llu, \"sched_points\": %llu, \"pruned\": %llu, \"unexplored\": %zu,\n", (unsigned long long)stt.liaQueries, (unsigned long long)stt.liaBad, (unsigned long long)stt.cacheq, (unsigned long long)stt.foldq, (unsigned long long)crossChecked, (unsigned long long)stt.assertsChecked, (unsigned long long)stt.assertsConst, (unsigned long long)stt.schedPoints, (unsigned long long)stt.pruned, work.size());
    auto mp = [&](const char *n, std::map<string, uint64_t> &m) { fprintf(o, " \"%s\": {", n); bool f1 = true; for (auto &x : m) { fprintf(o, "%s%s: %llu", f1 ? "" : ", ", jstr(x.first).c_str(), (unsigned long long)x.second); f1 = false; } fprintf(o, "},\n"); };
    mp("reach", reachCount); mp("asserts", assertCount); mp("truncation", truncReasons); mp("unsupported", unsupported);
    fprintf(o, " \"functions\": ["); { bool f1 = true; for (auto &x : fns) { fprintf(o, "%s%s", f1 ? "" : ", ", jstr(x).c_str()); f1 = false; } } fprintf(o, "],\n");
    fprintf(o, " \"lines\": {"); { bool f1 = true; for (auto &x : lines) { fprintf(o, "%s%s: %zu", f1 ? "" : ", ", jstr(x.first).c_str(), x.second.size()); f1 = false; } } fprintf(o, "},\n");
    fprintf(o, " \"violations\": [");
    bool f1 = true;
    for (auto &v : viols) {
        fprintf(o, "%s\n  {\"kind\": %s, \"label\": %s, \"where\": %s,\n   \"inputs\": [", f1 ? "" : ",", jstr(v.kind).c_str(), jstr(v.label).c_str(), jstr(v.where).c_str()); f1 = false;
        bool g = true; for (auto &i : v.inputs) { fprintf(o, "%s[%s, %u, %llu]", g ? "" : ", ", jstr(i.first).c_str(), i.second.first, (unsigned long long)i.second.second); g = false; }
        fprintf(o, "],\n   \"sched\": ["); g = true; for (int x : v.sched) { fprintf(o, "%s%d", g ? "" : ", ", x); g = false; }
        fprintf(o, "],\n   \"log\": ["); g = true; for (auto &x : v.log) { fprintf(o, "%s%s", g ? "" : ", ", jstr(x).c_str()); g = false; }
        fprintf(o, "],\n   \"stack\": ["); g = true; for (auto &x : v.stack) { fprintf(o, "%s%s", g ? "" : ", ", jstr(x).c_str()); g = false; }
        fprintf(o, "]}");
    }
    fprintf(o, "]\n}\n");
    fclose(o);
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto eq = a.find('='); string k = a.substr(0, eq), v = eq == string::npos ? "" : a.substr(eq + 1);
        if (k == "--entry") opt.entry = v; else if (k == "--out") opt.out = v; else if (k == "--time") opt.timeLimit = atof(v.c_str()); else if (k == "--dump") opt.dump = v; else if (k == "--dump-over") opt.dumpOver = atof(v.c_str()); else if (k == "--lia") opt.lia = atoi(v.c_str()); else if (k == "--cross") opt.cross = atoi(v.c_str()); else if (k == "--qtime") opt.queryTimeout = atof(v.c_str());
        else if (k == "--pb") opt.pb = atoi(v.c_str()); else if (k == "--db") opt.db = atoi(v.c_str()); else if (k == "--fair") opt.fair = atoi(v.c_str()); else if (k == "--timeouts") opt.timeouts = atoi(v.c_str()); else if (k == "--spurious") opt.spurious = atoi(v.c_str());
        else if (k == "--races") opt.races = atoi(v.c_str()); else if (k == "--maxsteps") opt.maxSteps = atoi(v.c_str()); else if (k == "--maxsched") opt.maxSched = atoi(v.c_str()); else if (k == "--verbose") opt.verbose = true; else if (k == "--maxviol") opt.maxViol = atoi(v.c_str());
        else if (k == "--trace") opt.trace = true;
        else opt.file = a;
    }
    t0 = now();
    exprInit();
    bvSolver = mkSolver(0); liaSolver = mkSolver(2);
    SMDiagnostic err;
    M = parseIRFile(opt.file, err, Ctx);
    if (!M) { err.print("kse", errs()); return 3; }
    lowerAtomicLibcalls(*M);
    DL = &M->getDataLayout();
    { std::vector<Function *> fs; for (auto &F : *M) fs.push_back(&F);
      for (auto *F : fs) if (F->getName().starts_with("__wrap_")) if (Function *D = M->getFunction(F->getName().substr(7))) if (D->isDeclaration()) D->replaceAllUsesWith(F); }
    initExt();
    State *S = new State();
    S->id = ++stateIds;
    S->nextAddr = HEAP_BASE;
    S->timeoutsLeft = opt.timeouts; S->spuriousLeft = opt.spurious;
    setupGlobals(*S);
    S->th.push_back(Thread());
    Function *E = M->getFunction(opt.entry);
    if (!E || E->isDeclaration()) fatal("no entry " + opt.entry);
    // static constructors run first, then the entry
    std::vector<Function *> ctors;
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &op : ca->operands()) if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1))) ctors.push_back(F);
    pushFrame(*S, S->th[0], E, {}, nullptr, 0);
    for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushFrame(*S, S->th[0], *it, {}, nullptr, 1);
    work.push_back(S);
    while (!work.empty() && !timeUp && (int)viols.size() < opt.maxViol) {
        State *s = work.back(); work.pop_back();
        runState(s);
    }
    if (!work.empty()) incomplete = true;
    writeOut(true);
    fprintf(stderr, "kse: %s: paths=%llu states=%llu instrs=%llu queries=%llu solver=%.1fs wall=%.1fs viol=%zu%s\n", opt.entry.c_str(), (unsigned long long)stt.paths, (unsigned long long)stt.states, (unsigned long long)stt.instrs, (unsigned long long)stt.queries, stt.solver, now() - t0, viols.size(), incomplete ? " INCOMPLETE" : "");
    fflush(nullptr);
    _exit(viols.empty() ? 0 : 1);
}
