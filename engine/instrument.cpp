// kse-instr: prepares the bitcode of a harness for a native replay run.
//   sched mode: pthread/time calls go to the replay runtime, and a scheduling point precedes every atomic access
//   plain mode: only the environment stand-ins (__wrap_X) are bound
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "atomics.h"
#include <set>
#include <string>
using namespace llvm;
int main(int argc, char **argv) {
    std::string in, out, mode = "sched", entry;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--mode=", 0) == 0) mode = a.substr(7); else if (a.rfind("--entry=", 0) == 0) entry = a.substr(8); else if (in.empty()) in = a; else out = a; }
    LLVMContext C; SMDiagnostic err;
    auto M = parseIRFile(in, err, C);
    if (!M) { err.print("kse-instr", errs()); return 3; }
    lowerAtomicLibcalls(*M);
    std::vector<Function *> fs; for (auto &F : *M) fs.push_back(&F);
    for (auto *F : fs) { // bind stand-ins
        if (F->getName().starts_with("__wrap_")) {
            std::string o = F->getName().substr(7).str();
            if (Function *D = M->getFunction(o)) if (D->isDeclaration()) { D->replaceAllUsesWith(F); }
        }
    }
    if (Function *F = M->getFunction("pthread_once")) if (!F->isDeclaration()) F->setName("kse_once");   // not for the libraries
    for (auto *F : fs) if (!F->isDeclaration() && (F->getName().starts_with("pthread_rwlock_") || F->getName() == "pthread_mutex_timedlock" || F->getName() == "pthread_mutex_clocklock")) F->setName("kse_" + F->getName().str());
    static const std::set<std::string> ren = {"pthread_create","pthread_join","pthread_detach","pthread_self","pthread_equal","pthread_mutex_lock","pthread_mutex_trylock","pthread_mutex_unlock","pthread_mutex_init","pthread_mutex_destroy","pthread_cond_wait","pthread_cond_timedwait","pthread_cond_clockwait","pthread_cond_signal","pthread_cond_broadcast","pthread_cond_destroy","pthread_cond_init","sched_yield","nanosleep","usleep","sleep","clock_nanosleep","clock_gettime"};
    for (auto *F : fs) { // count heap blocks of the code under test only
        StringRef n = F->getName();
        if (F->isDeclaration() && (n.starts_with("_Znw") || n.starts_with("_Zna") || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv"))) F->setName("kse_rt_" + n.str());
    }
    if (mode == "sched" || mode == "tsan") {
        for (auto *F : fs) if (F->isDeclaration() && ren.count(F->getName().str())) F->setName("kse_rt_" + F->getName().str());
        FunctionCallee pt = M->getOrInsertFunction("kse_rt_point", Type::getVoidTy(C));
        for (auto &F : *M) for (auto &B : F) {
            std::vector<Instruction *> at;
            for (auto &I : B) {
                bool a = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I);
                if (auto *l = dyn_cast<LoadInst>(&I)) a = l->isAtomic();
                if (auto *s = dyn_cast<StoreInst>(&I)) a = s->isAtomic();
                if (a) at.push_back(&I);
            }
            for (auto *I : at) { IRBuilder<> b(I); b.SetCurrentDebugLocation(I->getDebugLoc()); b.CreateCall(pt, {}); }
        }
    }
    if (mode == "tsan") { // the sanitizer ignores some accesses to locals that other threads can reach: hide that they are locals
        FunctionCallee la = M->getOrInsertFunction("kse_launder", PointerType::get(C, 0), PointerType::get(C, 0));
        for (auto &F : *M) for (auto &B : F) for (auto i = B.begin(); i != B.end();) {
            auto *A = dyn_cast<AllocaInst>(&*i++);
            if (!A) continue;
            std::vector<Use *> us;
            for (auto &u : A->uses()) { auto *I = cast<Instruction>(u.getUser()); if (!I->isLifetimeStartOrEnd()) us.push_back(&u); }
            IRBuilder<> b(A->getNextNode());
            auto *L = b.CreateCall(la, {A});
            for (auto *u : us) u->set(L);
        }
    }
    for (auto &F : *M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(mode == "tsan" ? Attribute::SanitizeThread : Attribute::SanitizeAddress); }
    // the chosen entry becomes kse_main_entry
    if (auto *E = M->getFunction(entry)) E->setName("kse_main_entry"); else { errs() << "no entry\n"; return 3; }
    std::error_code ec; raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*M, os);
    return 0;
}
