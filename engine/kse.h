// kse: a small symbolic executor for LLVM IR (clang-18), deciding with Z3.
// Data structures shared by the interpreter (kse.cpp), and the expression layer (expr.cpp).
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>
#include <unistd.h>
#include <type_traits>

#include "llvm/IR/BasicBlock.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"

// ------------------------------------------------------------------ values
struct Val;
typedef std::vector<Val> Agg;
struct Val {
    uint32_t w = 0;       // width in bits; 0: void or aggregate
    uint64_t c = 0;       // value when concrete (w <= 64)
    Z3_ast e = nullptr;   // expression when symbolic. w == 1: Bool sort, otherwise BitVec w
    std::shared_ptr<Agg> agg;
    Val() {}
    template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
    Val(uint32_t w_, T c_) : w(w_), c(w_ >= 64 ? (uint64_t)c_ : ((uint64_t)c_ & ((1ULL << w_) - 1))) {}
    Val(uint32_t w_, Z3_ast e_) : w(w_), e(e_) {}
    bool conc() const { return !e && !agg; }
};

extern Z3_context Z;
void exprInit();
Val mkBin(unsigned llvmOpcode, const Val &a, const Val &b);
Val mkCmp(unsigned pred, const Val &a, const Val &b);
Val mkIte(const Val &c, const Val &a, const Val &b);
Val mkNot(const Val &a);          // width-1
Val mkAnd(const Val &a, const Val &b);
Val mkOr(const Val &a, const Val &b);
Val mkEq(const Val &a, const Val &b);
Val mkZext(const Val &a, unsigned w);
Val mkSext(const Val &a, unsigned w);
Val mkTrunc(const Val &a, unsigned w);
Val mkExtract(const Val &a, unsigned hi, unsigned lo);
Val mkConcat(const Val &hi, const Val &lo);
Val mkFresh(const std::string &name, unsigned w);
Val fromAst(Z3_ast a, unsigned w); // simplify to a constant when it is one
Z3_ast toAst(const Val &v);        // Bool for w==1
Z3_ast bvAst(const Val &v);        // BitVec also for w==1
Val simp(const Val &v);
bool isBoolTrue(Z3_ast a);
bool isBoolFalse(Z3_ast a);

// ------------------------------------------------------------------ memory
enum { T_CONC = 0, T_SYM = 1, T_UNDEF = 2 };
struct SymByte { Z3_ast e; uint32_t w; uint32_t idx; };
enum ObjKind { OK_GLOBAL, OK_HEAP, OK_STACK, OK_OTHER };
struct Obj {
    uint64_t base = 0, size = 0;
    std::vector<uint8_t> data, tag;
    std::map<uint32_t, SymByte> sym;
    ObjKind kind = OK_OTHER;
    bool ro = false;
    int allocFn = 0;     // 0 malloc, 1 new, 2 new[]
    std::string name;
    uint32_t undefCount = 0;
    int owner = 0; mutable bool shared = false; // thread that created it; touched by another one
};
typedef std::shared_ptr<Obj> ObjP;

struct Bounds;
struct PCNode {
    std::shared_ptr<PCNode> parent;
    Z3_ast c;
    unsigned depth;
    Z3_ast ic = nullptr; bool lin = true, wide = false, implied = false; // integer reading, see lia.inc
    std::shared_ptr<Bounds> bounds;
};
typedef std::shared_ptr<PCNode> PC;

struct FnInfo {
    llvm::Function *F;
    unsigned nslots = 0;
    llvm::DenseMap<const llvm::Value *, unsigned> slot;
};

struct Frame {
    FnInfo *fi = nullptr;
    llvm::BasicBlock *bb = nullptr, *prev = nullptr;
    llvm::BasicBlock::iterator it;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
    llvm::CallBase *site = nullptr;   // call in the caller frame
    int onReturn = 0;                 // 0 normal, 1 discard result (engine-pushed frame), 2 thread entry
};

typedef std::vector<uint32_t> VC;

struct Caught { uint64_t exc; };
enum TStatus { TS_RUN, TS_MUTEX, TS_COND, TS_JOIN, TS_DONE, TS_SPIN, TS_YIELD, TS_CONDLOCK };
struct Thread {
    int id = 0;
    std::vector<Frame> st;
    TStatus status = TS_RUN;
    uint64_t waitMutex = 0, waitCond = 0;
    int waitThread = 0;
    bool timed = false;          // timed condition wait
    bool timedOut = false;
    bool notified = false;
    bool schedDone = false;      // scheduling decision for the next visible op was taken
    uint64_t waitVersion = 0;
    uint64_t yieldFor = 0;       // with --fair: threads that go first after a yield
    uint64_t fn = 0, arg = 0;
    bool detached = false;
    std::vector<Caught> caught;
    uint64_t inflight = 0;       // exception being propagated
    uint64_t inflightAdj = 0;
    VC vc, acqPending, relFence;
    int timeouts = 0;
    uint64_t deadline = 0;
    uint64_t savedDepth = 1;
    uint64_t inflightTI = 0;
    const llvm::Instruction *spinAt = nullptr;
    bool spinProgress = false;
    int spinCount = 0;
    // spin detection: instruction -> (memory version, register snapshot)
    std::map<const llvm::Instruction *, std::pair<uint64_t, std::vector<Val>>> visits;
};

struct ExcRec { uint64_t ti, dtor; int handlers = 0; bool rethrown = false; int refs = 1; uint64_t adj = 0; bool destroyed = false; };

struct Input { std::string name; uint32_t w; Val v; };

struct Shadow { // happens-before race detection, per 8-byte granule
    struct Acc { int tid; uint32_t clk; bool atomic; uint8_t mask; const llvm::Instruction *I; };
    std::vector<Acc> writes, reads; // the last ones of every byte, and for reads of every thread and kind
};

struct Snap { // a whole state, to see whether a path comes back to it
    unsigned at = 0; int cur = 0; bool schedDone = false;
    std::map<uint64_t, ObjP> mem;
    std::vector<std::vector<Frame>> st;
    std::vector<TStatus> status;
    PC pc;
    std::map<uint64_t, int> owner, depth;
    size_t inputs = 0; uint64_t fresh = 0, clock = 0;
};
struct State {
    std::shared_ptr<Snap> snap;
    uint64_t id = 0;
    std::map<uint64_t, ObjP> mem;
    std::vector<Thread> th;
    int cur = 0;
    PC pc;
    std::vector<Input> inputs;
    std::map<std::string, uint64_t> model; // cached model: symbol name -> value (valid if modelOk)
    Z3_model zmodel = nullptr; bool modelOk = false;
    std::vector<std::string> schedLog;
    std::vector<int> sched;      // thread chosen at each scheduling point
    std::vector<std::string> log;
    std::map<uint64_t, ExcRec> exc;
    std::map<uint64_t, int> mutexOwner;        // addr -> tid
    std::map<uint64_t, int> mutexDepth;
    std::map<uint64_t, VC> mutexVC, atomVC;
    std::map<uint64_t, Shadow> shadow;
    std::set<uint64_t> freedMutex;
    uint64_t nextAddr = 0;
    uint64_t version = 1;        // bumped by every write while several threads are live
    int preempts = 0, delays = 0;
    unsigned steps = 0;
    unsigned timeoutsLeft = 0, spuriousLeft = 0;
    // sleep set: thread id -> (addr, isWrite) of its pending op
    struct Pend { uint64_t addr; bool write; bool any; };
    std::map<int, Pend> sleep;
    std::map<std::string, int> counters;
    std::vector<std::pair<uint64_t, Val>> flags;
    uint64_t freshCounter = 0;
    bool racesOn = true;
    uint64_t clock = 1000000000ULL, clockReads = 0;
    Val clockOff{64, (uint64_t)0};
    int atomicDepth = 0;
    int idleTimeouts = 0; uint64_t idleVersion = 0;
    uint64_t liveHeap = 0;
    std::map<std::string,uint64_t> kv;
    std::map<std::pair<int, uint64_t>, uint64_t> tls; // (thread, variable) -> its copy
    State() {}
};
