// The generic __atomic_* library calls clang emits for atomics of types with weak alignment become the
// instructions they stand for (the objects are std::atomic<T>, which aligns itself to its size).
#pragma once
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
static llvm::AtomicOrdering kseOrder(llvm::Value *v, bool load, bool store) {
    using namespace llvm;
    auto *c = dyn_cast<ConstantInt>(v);
    switch (c ? c->getZExtValue() : 5) {
    case 0: return AtomicOrdering::Monotonic;
    case 1: case 2: return store ? AtomicOrdering::Monotonic : AtomicOrdering::Acquire;
    case 3: return load ? AtomicOrdering::Monotonic : AtomicOrdering::Release;
    case 4: return load ? AtomicOrdering::Acquire : store ? AtomicOrdering::Release : AtomicOrdering::AcquireRelease;
    default: return AtomicOrdering::SequentiallyConsistent;
    }
}
static void lowerAtomicLibcalls(llvm::Module &M) {
    using namespace llvm;
    std::vector<CallBase *> cs;
    for (auto &F : M) for (auto &B : F) for (auto &I : B)
        if (auto *c = dyn_cast<CallInst>(&I)) if (auto *f = c->getCalledFunction()) {
            StringRef n = f->getName();
            if ((n == "__atomic_compare_exchange" || n == "__atomic_load" || n == "__atomic_store" || n == "__atomic_exchange") && isa<ConstantInt>(c->getArgOperand(0))) {
                uint64_t s = cast<ConstantInt>(c->getArgOperand(0))->getZExtValue();
                if (s == 1 || s == 2 || s == 4 || s == 8) cs.push_back(c);
            }
        }
    for (auto *c : cs) {
        IRBuilder<> b(c); b.SetCurrentDebugLocation(c->getDebugLoc());
        StringRef n = c->getCalledFunction()->getName();
        uint64_t s = cast<ConstantInt>(c->getArgOperand(0))->getZExtValue();
        Type *T = b.getIntNTy(8 * s); Align al(s), one(1);
        if (n == "__atomic_load") {
            auto *l = b.CreateAlignedLoad(T, c->getArgOperand(1), al); l->setAtomic(kseOrder(c->getArgOperand(3), true, false));
            b.CreateAlignedStore(l, c->getArgOperand(2), one);
        } else if (n == "__atomic_store") {
            auto *v = b.CreateAlignedLoad(T, c->getArgOperand(2), one);
            auto *st = b.CreateAlignedStore(v, c->getArgOperand(1), al); st->setAtomic(kseOrder(c->getArgOperand(3), false, true));
        } else if (n == "__atomic_exchange") {
            auto *v = b.CreateAlignedLoad(T, c->getArgOperand(2), one);
            auto *x = b.CreateAtomicRMW(AtomicRMWInst::Xchg, c->getArgOperand(1), v, al, kseOrder(c->getArgOperand(4), false, false));
            b.CreateAlignedStore(x, c->getArgOperand(3), one);
        } else {
            auto *e = b.CreateAlignedLoad(T, c->getArgOperand(2), one), *d = b.CreateAlignedLoad(T, c->getArgOperand(3), one);
            auto *x = b.CreateAtomicCmpXchg(c->getArgOperand(1), e, d, al, kseOrder(c->getArgOperand(4), false, false), kseOrder(c->getArgOperand(5), true, false));
            auto *won = b.CreateExtractValue(x, 1), *was = b.CreateExtractValue(x, 0);
            b.CreateAlignedStore(b.CreateSelect(won, e, was), c->getArgOperand(2), one);
            c->replaceAllUsesWith(b.CreateZExtOrTrunc(won, c->getType()));
        }
        c->eraseFromParent();
    }
}
