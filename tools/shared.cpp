// shared: reports every write of the library to state that its objects share.
//   shared REPO_PREFIX OUT.json a.bc b.bc ...
// Shared state = a global or function-local static object defined by the library that is neither const nor
// thread_local, and the TLS context that sockets and listeners hold through a shared_ptr. A taint analysis follows
// pointers to such state through the functions of the library (SSA values, allocas, parameters, returned pointers)
// and reports stores, mutating member functions and external calls that may write through them, unless they happen
// during the guarded initialisation of the object, through an atomic, or with a shared mutex held.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Dominators.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <cstdio>
#include <functional>
using namespace llvm;
typedef std::set<std::string> Roots;
static std::string prefix;
static std::map<const Value *, Roots> taint;          // pointers into shared objects
static std::map<const Function *, Roots> rets;
static std::map<const Function *, std::unique_ptr<DominatorTree>> dts;
static bool changed;
static std::map<std::string, std::pair<const GlobalVariable *, std::string>> shared;   // display name
static std::string srcfile(const Function *f)
{
    if(auto *sp = f->getSubprogram()) { std::string n = sp->getFilename().str(); return n[0] == '/' ? n : (sp->getDirectory() + "/" + n).str(); }
    return "";
}
static bool mine(const Function *f) { return !f->isDeclaration() && srcfile(f).compare(0, prefix.size(), prefix) == 0; }
static std::string dem(const Function *f) { return demangle(f->getName().str()); }
static bool startup(const Function *f)
{
    StringRef n = f->getName();
    return n.starts_with("__cxx_global_var_init") || n.starts_with("_GLOBAL__sub_I") || n.starts_with("__cxx_global_array_dtor") || n.contains("__tls_init") || n.starts_with("_ZTH") || n.starts_with("_ZTW");
}
static bool is_const_type(const DIType *t)
{
    while(t)
    {
        if(t->getTag() == dwarf::DW_TAG_const_type) return true;
        if(t->getTag() == dwarf::DW_TAG_array_type) { t = cast<DICompositeType>(t)->getBaseType(); continue; }
        if(t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) { t = cast<DIDerivedType>(t)->getBaseType(); continue; }
        return false;
    }
    return false;
}
static void add(Roots &r, const Roots &n) { for(auto &x : n) if(r.insert(x).second) changed = true; }
static void add(const Value *v, const Roots &n) { if(!n.empty()) add(taint[v], n); }
static Roots of(const Value *v)
{
    if(auto *g = dyn_cast<GlobalVariable>(v)) { auto i = shared.find(g->getName().str()); if(i != shared.end()) return {i->first}; return {}; }
    if(auto *c = dyn_cast<ConstantExpr>(v)) { Roots r; for(auto &o : c->operands()) { Roots q = of(o); r.insert(q.begin(), q.end()); } return r; }
    auto i = taint.find(v);
    return i == taint.end() ? Roots() : i->second;
}
static const Value *base(const Value *v)
{
    while(true)
    {
        if(auto *g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand();
        else if(auto *c = dyn_cast<BitCastOperator>(v)) v = c->getOperand(0);
        else return v;
    }
}
// the last component of a qualified name without template arguments and parameters
static std::string method(const std::string &d, std::string &cls)
{
    std::string s = d;
    // the parameter list: last '(' at template depth 0 that is not "operator()"
    int t = 0; size_t end = s.size();
    for(size_t i = 0; i < s.size(); ++i)
    {
        if(s.compare(i, 8, "operator") == 0) { i += 7; if(s.compare(i + 1, 2, "()") == 0) i += 2; else while(i + 1 < s.size() && s[i + 1] != '(') ++i; continue; }
        if(s[i] == '<') ++t; else if(s[i] == '>') --t;
        else if(s[i] == '(' && t == 0 && i && s.compare(i, 11, "(anonymous ") != 0) { end = i; break; }
    }
    s = s.substr(0, end);
    t = 0; size_t cut = 0, sp = 0;
    size_t op = s.rfind("operator");
    size_t lim = op == std::string::npos ? s.size() : op;
    for(size_t i = 0; i < lim; ++i)
    {
        if(s[i] == '<') ++t; else if(s[i] == '>') --t;
        else if(t == 0 && s[i] == ' ') sp = i + 1;
        else if(t == 0 && s.compare(i, 2, "::") == 0) cut = i + 2;
    }
    if(op != std::string::npos) cut = op;
    cls = cut > sp + 2 ? s.substr(sp, cut - sp - 2) : "";
    std::string m = s.substr(cut);
    if(op == std::string::npos) { size_t k = m.find('<'); if(k != std::string::npos) m = m.substr(0, k); size_t a = m.find('['); if(a != std::string::npos) m = m.substr(0, a); }
    return m;
}
static const std::set<std::string> READS = {"find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "count", "size", "empty", "length", "c_str", "data", "front", "back", "get", "operator->", "operator*", "operator bool",
    "lower_bound", "upper_bound", "equal_range", "contains", "capacity", "max_size", "load", "operator==", "operator!=", "operator<", "compare", "base", "operator->*", "native", "what", "has_value", "value", "use_count", "second", "first", "bucket_count", "get_allocator", "substr"};
static bool synchronised_class(const std::string &c)
{
    return c.compare(0, 11, "std::atomic") == 0 || c.compare(0, 17, "std::__atomic_bas") == 0 || c.find("mutex") != std::string::npos || c.find("once_flag") != std::string::npos || c.find("condition_variable") != std::string::npos || c.find("atomic_flag") != std::string::npos;
}
static bool elements(const std::string &c)    // operator[] of these only reads
{
    size_t lt = c.find('<');
    std::string t = c.substr(0, lt);
    return t.find("vector") != std::string::npos || t.find("basic_string") != std::string::npos || t == "std::array" || t.find("deque") != std::string::npos || t == "std::unique_ptr" || t == "std::initializer_list";
}
// external C functions that only read, or synchronise themselves, through a pointer argument
static bool c_reads(const std::string &n, unsigned arg)
{
    static const std::map<std::string, int> W = {   // bit mask of the arguments written to
        {"memcpy", 1}, {"memmove", 1}, {"memset", 1}, {"strcpy", 1}, {"strncpy", 1}, {"strcat", 1}, {"strncat", 1}, {"sprintf", 1}, {"snprintf", 1}, {"epoll_wait", 2}, {"recv", 2}, {"read", 2}, {"recvfrom", 2 | 16 | 32},
        {"accept", 6}, {"accept4", 6}, {"getpeername", 6}, {"getsockname", 6}, {"getnameinfo", 4 | 16}, {"getaddrinfo", 8}, {"select", 2 | 4 | 8 | 16}, {"poll", 1}, {"getsockopt", 8 | 16}, {"time", 1}, {"gettimeofday", 1},
        {"inet_ntop", 4}, {"inet_pton", 4}, {"clock_gettime", 2}, {"localtime_r", 2}, {"gmtime_r", 2}, {"strtok_r", 5}, {"rand_r", 1}, {"getrandom", 1},
        {"mbedtls_x509_crt_parse", 1}, {"mbedtls_x509_crt_parse_file", 1}, {"mbedtls_x509_crt_parse_path", 1}, {"mbedtls_x509_crt_parse_der", 1}, {"mbedtls_x509_crt_init", 1}, {"mbedtls_x509_crt_free", 1},
        {"mbedtls_ctr_drbg_seed", 1 | 4}, {"mbedtls_ctr_drbg_init", 1}, {"mbedtls_ctr_drbg_free", 1}, {"mbedtls_ctr_drbg_reseed", 1}, {"mbedtls_ctr_drbg_update", 1}, {"mbedtls_ctr_drbg_update_ret", 1},
        {"mbedtls_ctr_drbg_set_prediction_resistance", 1}, {"mbedtls_ctr_drbg_set_entropy_len", 1}, {"mbedtls_ctr_drbg_set_reseed_interval", 1}, {"mbedtls_ctr_drbg_random_with_add", 1},
        {"mbedtls_entropy_init", 1}, {"mbedtls_entropy_free", 1}, {"mbedtls_strerror", 2}, {"vsnprintf", 1}, {"fread", 1}, {"fgets", 1}, {"getline", 3}, {"sigaction", 4}, {"memccpy", 1}, {"stpcpy", 1}, {"explicit_bzero", 1}, {"bzero", 1},
        {"strtok", 1}, {"getcwd", 1}, {"gethostname", 1}, {"inet_aton", 2}};
    auto i = W.find(n);
    return i == W.end() || !((i->second >> arg) & 1);
}
static const std::set<std::string> UNSAFE = {"strtok", "gethostbyname", "gethostbyname2", "gethostbyaddr", "gethostent", "getservbyname", "getservbyport", "getservent", "getprotobyname", "getprotobynumber", "inet_ntoa", "localtime", "gmtime",
    "ctime", "asctime", "drand48", "lrand48", "mrand48", "srand48", "setenv", "putenv", "unsetenv", "clearenv", "readdir", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "ttyname", "tmpnam", "setlocale", "ether_ntoa", "hcreate", "hsearch",
    "ptsname", "l64a", "ecvt", "fcvt", "crypt", "getlogin", "getnetbyname", "sigprocmask", "umask", "chdir", "ether_aton", "mblen", "mbtowc", "wctomb", "alarm"};
static DominatorTree &dt(const Function *f)
{
    auto &p = dts[f];
    if(!p) p = std::make_unique<DominatorTree>(const_cast<Function &>(*f));
    return *p;
}
// inside the guarded initialisation of a function-local static
static bool initialising(const Instruction *i, const Roots &)
{
    const Function *f = i->getFunction();
    DominatorTree &d = dt(f);
    for(auto &b : *f) for(auto &x : b)
        if(auto *c = dyn_cast<CallBase>(&x))
            if(c->getCalledFunction() && c->getCalledFunction()->getName() == "__cxa_guard_acquire")
            {
                auto *br = dyn_cast<BranchInst>(b.getTerminator());
                if(!br || !br->isConditional()) continue;
                const BasicBlock *in = br->getSuccessor(0);
                if(!d.dominates(BasicBlockEdge(&b, in), i->getParent())) continue;
                bool after = false;
                for(auto &b2 : *f) for(auto &y : b2)
                    if(auto *r = dyn_cast<CallBase>(&y))
                        if(r->getCalledFunction() && r->getCalledFunction()->getName() == "__cxa_guard_release" && r->getArgOperand(0) == c->getArgOperand(0) && d.dominates(&y, i)) after = true;
                if(!after) return true;
            }
    return false;
}
static bool locked(const Instruction *i)
{
    const Function *f = i->getFunction();
    DominatorTree &d = dt(f);
    for(auto &b : *f) for(auto &x : b)
        if(auto *c = dyn_cast<CallBase>(&x))
        {
            const Function *g = c->getCalledFunction();
            if(!g || !d.dominates(&x, i)) continue;
            std::string cls, m = method(dem(g), cls);
            bool ctor = cls.find("lock_guard") != std::string::npos || cls.find("unique_lock") != std::string::npos || cls.find("scoped_lock") != std::string::npos;
            bool lk = (m == "lock" && cls.find("mutex") != std::string::npos) || g->getName() == "pthread_mutex_lock";
            if(!ctor && !lk) continue;
            for(auto &a : c->args()) if(!of(a).empty()) return true;
        }
    return false;
}
struct Site { std::string rule, root, fn, file, what; int line; };
static std::vector<Site> sites;
static std::set<std::string> fnames;
static long nfn, nuse, nwrite;
static std::set<std::string> examined;
static void at(const Instruction *i, std::string &file, int &line)
{
    const DILocation *l = i->getDebugLoc().get();
    while(l && l->getInlinedAt()) l = l->getInlinedAt();
    file = srcfile(i->getFunction()); line = l ? l->getLine() : (i->getFunction()->getSubprogram() ? i->getFunction()->getSubprogram()->getLine() : 0);
}
static bool report;
static void write(const Instruction *i, const Roots &r, const std::string &what)
{
    if(!report) return;
    for(auto &x : r)
    {
        ++nwrite;
        examined.insert(x);
        if(startup(i->getFunction())) continue;
        if(initialising(i, r) || locked(i)) continue;
        Site s; s.rule = "shared-write"; s.root = x == "TLS context" ? x : shared[x].second; s.fn = dem(i->getFunction()); s.what = what; at(i, s.file, s.line);
        sites.push_back(s);
    }
}
static bool ssl_context_source(const std::string &d)
{
    return d.find("fr::SSLContext") != std::string::npos && d.find("std::__shared_ptr") != std::string::npos && (d.find("::operator->()") != std::string::npos || d.find("::get()") != std::string::npos || d.find("::operator*()") != std::string::npos);
}
// the functions a virtual call may reach: those of the library in the same slot of a vtable and of the same type
static std::map<unsigned, std::set<const Function *>> slots;
static void vtables(const Module &m)
{
    for(auto &g : m.globals())
    {
        if(!g.getName().starts_with("_ZTV") || !g.hasInitializer()) continue;
        auto *s = dyn_cast<ConstantStruct>(g.getInitializer());
        if(!s) continue;
        for(auto &o : s->operands())
            if(auto *a = dyn_cast<ConstantArray>(&*o))
                for(unsigned k = 2; k < a->getNumOperands(); ++k)
                    if(auto *f = dyn_cast<Function>(a->getOperand(k)->stripPointerCasts())) if(mine(f)) slots[k - 2].insert(f);
    }
}
static std::vector<const Function *> targets(const CallBase *c)
{
    std::vector<const Function *> r;
    auto *l = dyn_cast<LoadInst>(c->getCalledOperand());
    if(!l) return r;
    unsigned slot = 0;
    if(auto *g = dyn_cast<GEPOperator>(l->getPointerOperand()))
    {
        APInt off(64, 0);
        if(!g->accumulateConstantOffset(c->getModule()->getDataLayout(), off)) return r;
        slot = off.getZExtValue() / 8;
    }
    for(const Function *f : slots[slot]) if(f->getFunctionType() == c->getFunctionType()) r.push_back(f);
    return r;
}
static void visit(const Function *f)
{
    if(!mine(f) && !startup(f)) return;
    if(report) { ++nfn; fnames.insert(dem(f)); }
    for(auto &b : *f) for(auto &x : b)
    {
        if(auto *l = dyn_cast<LoadInst>(&x))
        {
            // a pointer kept in shared state leads to shared state; what a local variable holds is what was stored there
            Roots r = of(l->getPointerOperand());
            if(!r.empty() && report) { nuse++; examined.insert(r.begin(), r.end()); }
            if(isa<AllocaInst>(base(l->getPointerOperand()))) r = of(base(l->getPointerOperand()));
            if(l->getType()->isPointerTy()) add(l, r);
        }
        else if(auto *s = dyn_cast<StoreInst>(&x))
        {
            const Value *p = s->getPointerOperand();
            const Value *q = base(p);
            if(isa<AllocaInst>(q)) { if(s->getValueOperand()->getType()->isPointerTy()) add(q, of(s->getValueOperand())); }
            else { Roots r = of(p); if(!r.empty() && !s->isAtomic()) write(s, r, "store"); }
        }
        else if(isa<AtomicRMWInst>(&x) || isa<AtomicCmpXchgInst>(&x)) { if(report) nuse++; }
        else if(isa<GetElementPtrInst>(&x) || isa<CastInst>(&x)) add(&x, of(x.getOperand(0)));
        else if(auto *p = dyn_cast<PHINode>(&x)) { for(auto &v : p->incoming_values()) add(p, of(v)); }
        else if(auto *s = dyn_cast<SelectInst>(&x)) { add(s, of(s->getTrueValue())); add(s, of(s->getFalseValue())); }
        else if(isa<ExtractValueInst>(&x)) add(&x, of(x.getOperand(0)));
        else if(isa<InsertValueInst>(&x)) { add(&x, of(x.getOperand(0))); add(&x, of(x.getOperand(1))); }
        else if(auto *r = dyn_cast<ReturnInst>(&x)) { if(r->getReturnValue()) add(rets[f], of(r->getReturnValue())); }
        else if(auto *c = dyn_cast<CallBase>(&x))
        {
            const Function *g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
            if(!g)
            {
                bool any = false;
                for(auto &a : c->args()) if(!of(a).empty()) any = true;
                if(any) for(const Function *t : targets(c)) for(unsigned k = 0; k < c->arg_size() && k < t->arg_size(); ++k) add(t->getArg(k), of(c->getArgOperand(k)));
                continue;
            }
            if(g->getName().starts_with("llvm.dbg") || g->getName().starts_with("llvm.lifetime")) continue;
            std::string d = dem(g), n = g->getName().str();
            if(report && UNSAFE.count(n))
            {
                Site s; s.rule = "unsafe-call"; s.root = n; s.fn = dem(f); s.what = "call of a C library function that keeps its result in storage shared by all threads"; at(c, s.file, s.line);
                if(!startup(f)) sites.push_back(s);
            }
            if(ssl_context_source(d)) { add(c, Roots{"TLS context"}); continue; }
            if(mine(g))
            {
                for(unsigned k = 0; k < c->arg_size() && k < g->arg_size(); ++k) add(g->getArg(k), of(c->getArgOperand(k)));
                if(c->getType()->isPointerTy() || c->getType()->isStructTy()) add(c, rets[g]);
                continue;
            }
            bool any = false;
            for(auto &a : c->args()) if(!of(a).empty()) any = true;
            if(!any) continue;
            if(report) nuse++;
            if(auto *mi = dyn_cast<MemIntrinsic>(c))
            {
                const Value *q = base(mi->getDest());
                if(isa<AllocaInst>(q)) { if(auto *mt = dyn_cast<MemTransferInst>(mi)) if(isa<AllocaInst>(base(mt->getSource()))) add(q, of(base(mt->getSource()))); }
                else { Roots r = of(mi->getDest()); if(!r.empty()) write(c, r, "copy into it"); }
                continue;
            }
            std::string cls, m = method(d, cls);
            bool cpp = n.compare(0, 2, "_Z") == 0;
            Roots all;
            for(unsigned k = 0; k < c->arg_size(); ++k)
            {
                Roots r = of(c->getArgOperand(k));
                if(r.empty()) continue;
                if(report) examined.insert(r.begin(), r.end());
                all.insert(r.begin(), r.end());
                if(isa<AllocaInst>(base(c->getArgOperand(k)))) continue;    // a local variable that holds such a pointer
                if(!cpp) { if(!c_reads(n, k)) write(c, r, "passed to " + n + "(), which writes to it"); continue; }
                if(synchronised_class(cls)) continue;
                // which source-level parameter is it?
                unsigned sret = c->arg_size() && c->paramHasAttr(0, Attribute::StructRet) ? 1 : 0;
                bool method_call = false;
                if(auto *sp = g->getSubprogram()) { auto *t = sp->getType(); if(t && t->getTypeArray().size() > 1) if(auto *t1 = dyn_cast_or_null<DIType>(t->getTypeArray()[1])) if(t1->isObjectPointer()) method_call = true; }
                else method_call = !cls.empty() && g->arg_size() == c->arg_size() && (d.size() < 6 || true) && cls != "std" && cls.compare(0, 5, "std::") == 0 && cls.find('<') != std::string::npos;
                if(method_call && k == sret)
                {
                    bool cst = d.size() > 6 && d.compare(d.size() - 6, 6, " const") == 0;
                    if(cst || READS.count(m) || m[0] == '~') continue;
                    if(m == "operator[]" && elements(cls)) continue;
                    write(c, r, "non-const " + (cls.size() > 60 ? cls.substr(0, cls.find('<')) : cls) + "::" + m + "()");
                    continue;
                }
                if(auto *sp = g->getSubprogram())
                {
                    auto ta = sp->getType()->getTypeArray();
                    unsigned idx = 1 + k - sret;
                    if(idx < ta.size())
                    {
                        const DIType *t = ta[idx];
                        while(t && t->getTag() == dwarf::DW_TAG_typedef) t = cast<DIDerivedType>(t)->getBaseType();
                        if(t && (t->getTag() == dwarf::DW_TAG_reference_type || t->getTag() == dwarf::DW_TAG_pointer_type))
                        {
                            const DIType *p = cast<DIDerivedType>(t)->getBaseType();
                            if(is_const_type(p)) continue;
                            if(t->getTag() == dwarf::DW_TAG_reference_type)
                            {
                                // an algorithm gets iterators by reference to a local; a mutable reference to the object itself is a write
                                if(READS.count(m)) continue;
                                write(c, r, "passed by mutable reference to " + m + "()");
                            }
                            else if(m == "copy" || m == "swap" || m == "fill" || m == "fill_n" || m == "transform" || m == "reverse" || m == "sort" || m == "copy_n" || m == "move" || m == "generate" || m == "rotate" || m == "replace") write(c, r, "passed to std::" + m + "()");
                            continue;
                        }
                        if(t && t->getTag() == dwarf::DW_TAG_rvalue_reference_type && m != "forward" && m != "move") { write(c, r, "moved from by " + m + "()"); }
                    }
                }
            }
            // what such a function returns may point into the object
            if(c->getType()->isPointerTy() || c->getType()->isStructTy() ) { if(!synchronised_class(cls)) add(c, all); }
            if(c->arg_size() && c->paramHasAttr(0, Attribute::StructRet) && isa<AllocaInst>(base(c->getArgOperand(0))) && (m == "begin" || m == "end" || m == "find" || m == "lower_bound" || m == "upper_bound")) add(base(c->getArgOperand(0)), all);
        }
    }
}
static std::string esc(const std::string &s) { std::string o; for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c < 32) o += ' '; else o += c; } return o; }
int main(int argc, char **argv)
{
    if(argc < 4) return 2;
    prefix = argv[1];
    LLVMContext ctx;
    std::unique_ptr<Module> mod;
    for(int a = 3; a < argc; ++a)
    {
        SMDiagnostic err;
        auto m = parseIRFile(argv[a], err, ctx);
        if(!m) { err.print("shared", errs()); return 2; }
        if(!mod) mod = std::move(m); else if(Linker::linkModules(*mod, std::move(m))) return 2;
    }
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
        FunctionPassManager fpm; fpm.addPass(PromotePass());
        for(auto &f : *mod) if(!f.isDeclaration()) fpm.run(f, fam);
    }
    long globals = 0, constant = 0, local = 0;
    std::vector<std::string> names;
    for(auto &g : mod->globals())
    {
        SmallVector<DIGlobalVariableExpression *, 2> di;
        g.getDebugInfo(di);
        if(di.empty()) continue;
        const DIGlobalVariable *v = di[0]->getVariable();
        std::string fn = v->getFilename().str();
        if(!fn.empty() && fn[0] != '/') fn = (v->getDirectory() + "/" + fn).str();
        if(fn.compare(0, prefix.size(), prefix) != 0) continue;
        if(v->getName().empty()) continue;            // a literal
        ++globals;
        if(g.isConstant() || is_const_type(v->getType())) { ++constant; continue; }
        if(g.isThreadLocal()) { ++local; continue; }
        shared[g.getName().str()] = {&g, demangle(g.getName().str())};
        names.push_back(demangle(g.getName().str()));
    }
    vtables(*mod);
    do
    {
        changed = false;
        for(auto &f : *mod) if(!f.isDeclaration()) visit(&f);
    } while(changed);
    report = true;
    for(auto &f : *mod) if(!f.isDeclaration()) visit(&f);
    std::string o = "{\"globals\":" + std::to_string(globals) + ",\"constant\":" + std::to_string(constant) + ",\"thread_local\":" + std::to_string(local) + ",\"shared\":[";
    for(size_t i = 0; i < names.size(); ++i) o += (i ? ",\"" : "\"") + esc(names[i]) + "\"";
    o += "],\"functions\":" + std::to_string(nfn) + ",\"uses\":" + std::to_string(nuse) + ",\"writes\":" + std::to_string(nwrite) + ",\"violations\":[";
    for(size_t i = 0; i < sites.size(); ++i)
    {
        auto &s = sites[i];
        o += std::string(i ? "," : "") + "{\"rule\":\"" + s.rule + "\",\"object\":\"" + esc(s.root) + "\",\"function\":\"" + esc(s.fn) + "\",\"file\":\"" + esc(s.file) + "\",\"line\":" + std::to_string(s.line) + ",\"what\":\"" + esc(s.what) + "\"}";
    }
    o += "],\"function_names\":[";
    bool first = true;
    for(auto &n : fnames) { o += std::string(first ? "\"" : ",\"") + esc(n) + "\""; first = false; }
    o += "]}\n";
    FILE *f = fopen(argv[2], "w");
    if(!f) return 2;
    fwrite(o.data(), 1, o.size(), f);
    fclose(f);
    return 0;
}
