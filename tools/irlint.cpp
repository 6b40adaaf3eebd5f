// irlint: queries over the LLVM IR of one translation unit.
//   irlint globals x.bc            linkage of every definition
//   irlint atomics x.bc get set    accesses to mutable globals of two wrappers
//   irlint formats x.bc            arguments of every call with a format
//   irlint counters x.bc           loops whose counter can not reach its bound
//   irlint state x.bc root         writes to objects of static storage duration
// Output is JSON on stdout.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cctype>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string where(const Instruction *I)
{
    const DebugLoc &d = I->getDebugLoc();
    std::string s = I->getFunction()->getName().str();
    if (d) s += " " + cast<DIScope>(d.getScope())->getFilename().str() + ":" + std::to_string(d.getLine());
    return s;
}
static std::string linkage(const GlobalValue &g)
{
    switch (g.getLinkage())
    {
        case GlobalValue::ExternalLinkage: return "external";
        case GlobalValue::AvailableExternallyLinkage: return "available_externally";
        case GlobalValue::LinkOnceAnyLinkage: return "linkonce";
        case GlobalValue::LinkOnceODRLinkage: return "linkonce_odr";
        case GlobalValue::WeakAnyLinkage: return "weak";
        case GlobalValue::WeakODRLinkage: return "weak_odr";
        case GlobalValue::AppendingLinkage: return "appending";
        case GlobalValue::InternalLinkage: return "internal";
        case GlobalValue::PrivateLinkage: return "private";
        case GlobalValue::ExternalWeakLinkage: return "extern_weak";
        case GlobalValue::CommonLinkage: return "common";
    }
    return "?";
}
static std::string fileOf(const Function &f)
{
    if (auto *sp = f.getSubprogram()) return (sp->getDirectory() + "/" + sp->getFilename()).str();
    return "";
}
static std::string fileOf(const GlobalVariable &g)
{
    SmallVector<DIGlobalVariableExpression *, 1> d;
    g.getDebugInfo(d);
    for (auto *e: d)
        if (auto *v = e->getVariable())
            if (auto *f = v->getFile()) return (v->getDirectory() + "/" + v->getFilename()).str() + ":" + std::to_string(v->getLine());
    return "";
}
static bool constType(const GlobalVariable &g)
{
    SmallVector<DIGlobalVariableExpression *, 1> d;
    g.getDebugInfo(d);
    for (auto *e: d)
        if (auto *v = e->getVariable())
        {
            const DIType *t = v->getType();
            while (t)
            {
                if (t->getTag() == dwarf::DW_TAG_const_type) return true;
                if (auto *x = dyn_cast<DIDerivedType>(t))
                {
                    if (x->getTag() != dwarf::DW_TAG_typedef && x->getTag() != dwarf::DW_TAG_volatile_type) return false;
                    t = x->getBaseType();
                }
                else if (auto *x = dyn_cast<DICompositeType>(t))
                {
                    if (x->getTag() != dwarf::DW_TAG_array_type) return false;
                    t = x->getBaseType();
                }
                else
                    return false;
            }
        }
    return false;
}
static int globals(Module &m, json::OStream &o)
{
    o.object([&] {
        o.attributeArray("variables", [&] {
            for (auto &g: m.globals())
            {
                if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue;
                o.object([&] {
                    o.attribute("name", g.getName().str());
                    o.attribute("linkage", linkage(g));
                    o.attribute("constant", g.isConstant());
                    o.attribute("thread_local", g.isThreadLocal());
                    o.attribute("comdat", g.hasComdat());
                    o.attribute("file", fileOf(g));
                    o.attribute("const_type", constType(g));
                    // a static that is only written while it is initialized
                    // (unnamed temporaries, strings) has no debug entry
                    bool written = false;
                    std::vector<const Value *> wl{&g};
                    std::set<const Value *> seen;
                    while (!wl.empty())
                    {
                        auto *v = wl.back();
                        wl.pop_back();
                        if (!seen.insert(v).second) continue;
                        for (auto *u: v->users())
                        {
                            if (isa<ConstantExpr>(u) || isa<GetElementPtrInst>(u) || isa<CastInst>(u))
                                wl.push_back(u);
                            else if (!isa<LoadInst>(u))
                                written = true;
                        }
                    }
                    o.attribute("only_read", !written);
                });
            }
        });
        o.attributeArray("functions", [&] {
            for (auto &f: m)
            {
                if (f.isDeclaration()) continue;
                o.object([&] {
                    o.attribute("name", f.getName().str());
                    o.attribute("linkage", linkage(f));
                    o.attribute("file", fileOf(f));
                });
            }
        });
    });
    return 0;
}

// ------------------------------------------------------------------ atomics
struct Access
{
    const Instruction *I;
    const GlobalVariable *g;
    bool read, write, rmw, seq, single;
};
// defined functions reachable from f
static void closure(const Function *f, std::set<const Function *> &s, std::set<std::string> &ext)
{
    if (!s.insert(f).second) return;
    for (auto &I: instructions(*f))
        for (auto &op: I.operands())
        {
            auto *c = dyn_cast<Function>(op->stripPointerCasts());
            if (!c) continue;
            if (c->isDeclaration())
            {
                if (!c->isIntrinsic()) ext.insert(c->getName().str());
            }
            else
                closure(c, s, ext);
        }
}
static std::set<const BasicBlock *> guarded(const Function &f);
static bool initFunction(const Function *f);
static std::vector<Access> accesses(const std::set<const Function *> &fs, std::vector<std::string> &unknown)
{
    std::vector<Access> r;
    auto add = [&](const Instruction *I, const Value *p, bool rd, bool wr, bool rmw, bool atomic, bool seq) {
        const Value *u = getUnderlyingObject(p, 0);
        if (auto *ii = dyn_cast<IntrinsicInst>(u))
            if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) u = getUnderlyingObject(ii->getArgOperand(0), 0);
        if (auto *g = dyn_cast<GlobalVariable>(u))
        {
            if (!g->isConstant()) r.push_back({I, g, rd, wr, rmw, atomic && seq, atomic});
        }
        else if (!isa<AllocaInst>(u) && atomic)
            unknown.push_back("atomic access through an unknown pointer at " + where(I));
    };
    for (auto *f: fs)
    {
        // a static variable is initialized once, before anybody else gets at it
        auto once = guarded(*f);
        if (initFunction(f)) continue;
        for (auto &I: instructions(*f))
        {
            if (once.count(I.getParent())) continue;
            auto seq = [](AtomicOrdering a) { return a == AtomicOrdering::SequentiallyConsistent; };
            if (auto *l = dyn_cast<LoadInst>(&I))
                add(&I, l->getPointerOperand(), true, false, false, l->isAtomic(), seq(l->getOrdering()) && l->getSyncScopeID() == SyncScope::System);
            else if (auto *s = dyn_cast<StoreInst>(&I))
                add(&I, s->getPointerOperand(), false, true, false, s->isAtomic(), seq(s->getOrdering()) && s->getSyncScopeID() == SyncScope::System);
            else if (auto *a = dyn_cast<AtomicRMWInst>(&I))
                add(&I, a->getPointerOperand(), true, true, true, true, seq(a->getOrdering()) && a->getSyncScopeID() == SyncScope::System);
            else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I))
                add(&I, x->getPointerOperand(), true, true, true, true, seq(x->getSuccessOrdering()) && seq(x->getFailureOrdering()) && x->getSyncScopeID() == SyncScope::System);
            else if (auto *ms = dyn_cast<MemSetInst>(&I))
                add(&I, ms->getDest(), false, true, false, false, false);
            else if (auto *mt = dyn_cast<MemTransferInst>(&I))
            {
                add(&I, mt->getDest(), false, true, false, false, false);
                add(&I, mt->getSource(), true, false, false, false, false);
            }
        }
    }
    return r;
}
static bool reaches(const Instruction *from, const Instruction *to)
{
    // can control pass from (after) from to to
    std::set<const BasicBlock *> seen;
    std::vector<const BasicBlock *> wl;
    if (from->getParent() == to->getParent())
        for (const Instruction *i = from->getNextNode(); i; i = i->getNextNode())
            if (i == to) return true;
    for (auto *s: successors(from->getParent())) wl.push_back(s);
    while (!wl.empty())
    {
        auto *b = wl.back();
        wl.pop_back();
        if (!seen.insert(b).second) continue;
        if (b == to->getParent()) return true;
        for (auto *s: successors(b)) wl.push_back(s);
    }
    return false;
}
static bool blockReaches(const BasicBlock *b, const Instruction *to) { return b == to->getParent() || reaches(b->getTerminator(), to); }
// the values a returned pointer may be
static void leaves(const Value *v, std::set<const Value *> &seen, std::set<const Value *> &out)
{
    if (!seen.insert(v).second) return;
    if (auto *p = dyn_cast<PHINode>(v))
        for (auto &x: p->incoming_values()) leaves(x, seen, out);
    else if (auto *s = dyn_cast<SelectInst>(v))
    {
        leaves(s->getTrueValue(), seen, out);
        leaves(s->getFalseValue(), seen, out);
    }
    else if (auto *c = dyn_cast<CastInst>(v))
        leaves(c->getOperand(0), seen, out);
    else if (auto *f = dyn_cast<FreezeInst>(v))
        leaves(f->getOperand(0), seen, out);
    else
        out.insert(v);
}
static void through(const Value *v, const Function &fn, std::set<const Value *> &out, std::set<const Value *> &casts)
{
    (void)fn;
    leaves(v, casts, out);
}
static int atomicsQuery(Module &m, const std::string &get, const std::string &set, json::OStream &o)
{
    auto *fg = m.getFunction(get), *fs = m.getFunction(set);
    if (!fg || !fs) return 2;
    std::vector<std::string> bad, unknown, seenAcc;
    std::set<const Function *> cg, cs;
    std::set<std::string> eg, es;
    closure(fg, cg, eg);
    closure(fs, cs, es);
    for (auto &e: eg) es.insert(e);
    for (auto &e: es)
        if (e.find("__cxa_guard") != 0 && e != "__cxa_atexit" && e != "__clang_call_terminate" && e != "_ZSt9terminatev" && e.find("__cxa_begin_catch") != 0)
            unknown.push_back("calls " + e);
    auto ag = accesses(cg, unknown), as = accesses(cs, unknown);
    // the variable: what the setter writes its argument to
    std::set<const GlobalVariable *> vars;
    for (auto &a: as)
    {
        const Value *val = nullptr;
        if (auto *s = dyn_cast<StoreInst>(a.I)) val = s->getValueOperand();
        if (auto *x = dyn_cast<AtomicRMWInst>(a.I)) val = x->getValOperand();
        if (auto *x = dyn_cast<AtomicCmpXchgInst>(a.I)) val = x->getNewValOperand();
        if (!val) continue;
        std::set<const Value *> l, sn;
        through(val, *a.I->getFunction(), l, sn);
        for (auto *x: l)
            if (isa<Argument>(x)) vars.insert(a.g);
    }
    if (vars.size() != 1)
        unknown.push_back("the setter stores its argument to " + std::to_string(vars.size()) + " variables");
    auto inspect = [&](std::vector<Access> &v, const char *which) {
        for (auto &a: v)
        {
            if (!vars.count(a.g)) continue;
            seenAcc.push_back(std::string(which) + ": " + a.I->getOpcodeName() + " of " + a.g->getName().str() + " at " + where(a.I));
            if (!a.single)
                bad.push_back(std::string(which) + " accesses " + a.g->getName().str() + " without atomicity at " + where(a.I));
            else if (!a.seq)
                bad.push_back(std::string(which) + " accesses " + a.g->getName().str() + " with a weaker order than sequential consistency at " + where(a.I));
        }
    };
    inspect(ag, "get");
    inspect(as, "set");
    for (auto *g: vars)
    {
        if (g->isThreadLocal()) bad.push_back(g->getName().str() + " is thread_local: every thread has its own");
        if (g->hasLocalLinkage()) bad.push_back(g->getName().str() + " has internal linkage: every translation unit has its own");
    }
    // get reads it exactly once and returns that
    {
        std::vector<const Instruction *> reads;
        for (auto &a: ag)
        {
            if (!vars.count(a.g)) continue;
            if (a.write) bad.push_back("get writes " + a.g->getName().str() + " at " + where(a.I));
            if (a.read) reads.push_back(a.I);
        }
        if (reads.empty()) bad.push_back("get does not read what set writes");
        for (auto &b: *fg)
            if (auto *r = dyn_cast<ReturnInst>(b.getTerminator()))
            {
                std::set<const Value *> l, sn;
                through(r->getReturnValue(), *fg, l, sn);
                for (auto *x: l)
                {
                    auto *i = dyn_cast<Instruction>(x);
                    bool ok = i && std::find(reads.begin(), reads.end(), i) != reads.end();
                    if (!ok)
                    {
                        if (cg.size() > 1)
                            unknown.push_back("what get returns is computed in a callee");
                        else
                            bad.push_back("get may return something else than the value read, at " + where(r));
                    }
                }
            }
    }
    // set: one read-modify-write, whose old value is returned
    {
        std::vector<const Access *> wr;
        for (auto &a: as)
            if (vars.count(a.g) && a.write) wr.push_back(&a);
        for (auto *w: wr)
        {
            if (!w->rmw)
                bad.push_back("set stores without reading the previous value in the same step, at " + where(w->I));
            std::set<const BasicBlock *> starts;
            if (isa<AtomicRMWInst>(w->I) || isa<StoreInst>(w->I))
            {
                for (auto *v: wr)
                    if (v->I->getFunction() == w->I->getFunction() && reaches(w->I, v->I))
                        bad.push_back("set writes more than once: " + where(w->I) + " and " + where(v->I));
            }
            else if (auto *x = dyn_cast<AtomicCmpXchgInst>(w->I))
            {
                bool understood = false;
                for (auto *u: x->users())
                {
                    auto *e = dyn_cast<ExtractValueInst>(u);
                    if (!e || e->getIndices()[0] != 1) continue;
                    for (auto *uu: e->users())
                    {
                        auto *br = dyn_cast<BranchInst>(uu);
                        if (!br || !br->isConditional()) continue;
                        understood = true;
                        for (auto *v: wr)
                            if (v->I->getFunction() == x->getFunction() && blockReaches(br->getSuccessor(0), v->I))
                                bad.push_back("set writes again after it succeeded: " + where(x));
                        // giving up after a failure loses the value
                        for (auto &b: *x->getFunction())
                            if (auto *r = dyn_cast<ReturnInst>(b.getTerminator()))
                            {
                                // is there a path failure -> return avoiding every write
                                std::set<const BasicBlock *> sn;
                                std::vector<const BasicBlock *> wl{br->getSuccessor(1)};
                                while (!wl.empty())
                                {
                                    auto *q = wl.back();
                                    wl.pop_back();
                                    if (!sn.insert(q).second) continue;
                                    bool has = false;
                                    for (auto *v: wr)
                                        if (v->I->getParent() == q) has = true;
                                    if (has) continue;
                                    if (q == r->getParent()) bad.push_back("set may return without having stored its argument, at " + where(x));
                                    for (auto *s: successors(q)) wl.push_back(s);
                                }
                            }
                    }
                }
                if (!understood && x->getNumUses() <= 1 && cs.size() == 1)
                {
                    // whether it succeeded is never looked at
                    bool looked = false;
                    for (auto *u: x->users())
                        if (auto *e = dyn_cast<ExtractValueInst>(u))
                            if (e->getIndices()[0] == 1 && !e->use_empty()) looked = true;
                    if (!looked)
                    {
                        understood = true;
                        bad.push_back("set may return without having stored its argument, at " + where(x));
                    }
                }
                if (!understood) unknown.push_back("result of compare-exchange at " + where(x));
            }
        }
        if (wr.empty()) bad.push_back("set does not write the variable");
        for (auto &b: *fs)
            if (auto *r = dyn_cast<ReturnInst>(b.getTerminator()))
            {
                std::set<const Value *> l, sn, expected;
                through(r->getReturnValue(), *fs, l, sn);
                bool ok = true;
                std::string why;
                std::set<const Value *> casts;
                for (auto *w: wr)
                    if (auto *x = dyn_cast<AtomicCmpXchgInst>(w->I))
                    {
                        std::set<const Value *> t;
                        leaves(x->getCompareOperand(), casts, t);
                        for (auto *y: t) expected.insert(y);
                    }
                for (auto *x: l)
                {
                    bool good = false;
                    for (auto *w: wr)
                    {
                        if (w->rmw && x == w->I && isa<AtomicRMWInst>(w->I)) good = true;
                        if (auto *e = dyn_cast<ExtractValueInst>(x))
                            if (e->getAggregateOperand() == w->I) good = true;
                    }
                    if (expected.count(x)) good = true;
                    if (!good) ok = false;
                }
                if (!ok)
                {
                    if (cs.size() > 1)
                        unknown.push_back("what set returns is computed in a callee");
                    else
                        bad.push_back("set may return something else than the value it replaced, at " + where(r));
                }
                // the first write is reached on every path
                bool every = true;
                std::set<const BasicBlock *> seen;
                std::vector<const BasicBlock *> wl{&fs->getEntryBlock()};
                while (!wl.empty())
                {
                    auto *q = wl.back();
                    wl.pop_back();
                    if (!seen.insert(q).second) continue;
                    bool has = false;
                    for (auto *w: wr)
                        if (w->I->getParent() == q) has = true;
                    if (has) continue;
                    if (q == r->getParent()) every = false;
                    for (auto *s: successors(q)) wl.push_back(s);
                }
                if (!every && cs.size() == 1) bad.push_back("set may return without storing its argument, at " + where(r));
            }
    }
    o.object([&] {
        o.attributeArray("accesses", [&] { for (auto &s: seenAcc) o.value(s); });
        o.attributeArray("violations", [&] { for (auto &s: bad) o.value(s); });
        o.attributeArray("unknown", [&] { for (auto &s: unknown) o.value(s); });
        o.attributeArray("functions", [&] {
            for (auto *f: cg) o.value(f->getName().str());
            for (auto *f: cs) o.value(f->getName().str());
        });
    });
    return 0;
}
// the global a wrapper returns the address of
static int returned(Module &m, const std::vector<std::string> &fns, json::OStream &o)
{
    o.array([&] {
        for (auto &n: fns)
        {
            auto *f = m.getFunction(n);
            o.object([&] {
                o.attribute("wrapper", n);
                o.attributeArray("globals", [&] {
                    if (!f) return;
                    for (auto &b: *f)
                        if (auto *r = dyn_cast<ReturnInst>(b.getTerminator()))
                        {
                            std::set<const Value *> l, sn;
                            leaves(r->getReturnValue(), sn, l);
                            for (auto *x: l)
                            {
                                auto *u = getUnderlyingObject(x, 0);
                                auto *g = dyn_cast<GlobalVariable>(u);
                                o.object([&] {
                                    o.attribute("name", g ? g->getName().str() : "?");
                                    o.attribute("linkage", g ? linkage(*g) : "?");
                                    o.attribute("thread_local", g && g->isThreadLocal());
                                });
                            }
                        }
                });
            });
        }
    });
    return 0;
}

// ------------------------------------------------------------------ formats
static bool constString(const Value *v, std::string &s)
{
    StringRef r;
    if (!getConstantStringInfo(v, r)) return false;
    s = r.str();
    return true;
}
static std::string typeName(const Type *t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    return s;
}
static void oneFormat(const Function &f, const CallBase *cb, const std::string &name, const Value *fv, unsigned fixed, json::OStream &o);
static int formats(Module &m, json::OStream &o)
{
    o.array([&] {
        for (auto &f: m)
            for (auto &I: instructions(f))
            {
                auto *cb = dyn_cast<CallBase>(&I);
                if (!cb || !cb->getFunctionType()->isVarArg()) continue;
                auto *callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                std::string name = callee ? callee->getName().str() : "?";
                unsigned fixed = cb->getFunctionType()->getNumParams();
                if (!fixed || !cb->getArgOperand(fixed - 1)->getType()->isPointerTy()) continue;
                std::set<const Value *> l, sn;
                leaves(cb->getArgOperand(fixed - 1), sn, l);
                for (auto *fv: l) oneFormat(f, cb, name, fv, fixed, o);
            }
    });
    return 0;
}
static void oneFormat(const Function &f, const CallBase *cb, const std::string &name, const Value *fv, unsigned fixed, json::OStream &o)
{
                o.object([&] {
                    o.attribute("callee", name);
                    o.attribute("where", where(cb));
                    o.attribute("inFile", fileOf(f));
                    std::string s, bad;
                    if (isa<ConstantPointerNull>(fv))
                    {
                        o.attribute("format", "");
                        o.attribute("null", true);
                        return;
                    }
                    if (!constString(fv, s))
                    {
                        o.attribute("unknown", true);
                        return;
                    }
                    o.attribute("format", s);
                    unsigned arg = fixed;
                    unsigned convs = 0;
                    auto next = [&]() -> const Value * { return arg < cb->arg_size() ? cb->getArgOperand(arg++) : nullptr; };
                    auto wantInt = [&](unsigned w, const std::string &c) {
                        auto *v = next();
                        if (!v)
                            bad += c + " has no argument; ";
                        else if (!v->getType()->isIntegerTy(w))
                            bad += c + " is given " + typeName(v->getType()) + " instead of i" + std::to_string(w) + "; ";
                    };
                    for (size_t i = 0; i < s.size(); ++i)
                    {
                        if (s[i] != '%') continue;
                        size_t b = i++;
                        if (i < s.size() && s[i] == '%') continue;
                        while (i < s.size() && strchr("-+ #0'", s[i])) ++i;
                        auto number = [&] {
                            if (i < s.size() && s[i] == '*')
                            {
                                ++i;
                                wantInt(32, "*");
                            }
                            else
                                while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
                        };
                        number();
                        if (i < s.size() && s[i] == '.')
                        {
                            ++i;
                            number();
                        }
                        std::string len;
                        while (i < s.size() && strchr("hlLqjzt", s[i])) len += s[i++];
                        if (i >= s.size())
                        {
                            bad += "truncated conversion; ";
                            break;
                        }
                        char c = s[i];
                        std::string conv = s.substr(b, i - b + 1);
                        ++convs;
                        if (strchr("diouxXc", c))
                            wantInt(len == "l" || len == "ll" || len == "q" || len == "j" || len == "z" || len == "t" ? 64 : 32, conv);
                        else if (strchr("spn", c))
                        {
                            auto *v = next();
                            if (!v)
                                bad += conv + " has no argument; ";
                            else if (!v->getType()->isPointerTy())
                                bad += conv + " is given " + typeName(v->getType()) + " instead of a pointer; ";
                            else if (c == 'n')
                                bad += "%n writes; ";
                            else if (c == 's')
                            {
                                // a constant must be a string
                                auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts());
                                std::string t;
                                if (g && g->isConstant() && !constString(v, t)) bad += conv + " is not given a string; ";
                                if (isa<ConstantPointerNull>(v)) bad += conv + " is given null; ";
                            }
                        }
                        else if (strchr("fFeEgGaA", c))
                        {
                            auto *v = next();
                            if (!v)
                                bad += conv + " has no argument; ";
                            else if (len == "L" ? !v->getType()->isX86_FP80Ty() : !v->getType()->isDoubleTy())
                                bad += conv + " is given " + typeName(v->getType()) + "; ";
                        }
                        else
                            bad += conv + " is no conversion; ";
                    }
                    // what is left over may only be the empty strings that
                    // UTILS_ABORT_IF appends
                    for (unsigned i = arg; i < cb->arg_size(); ++i)
                    {
                        std::string t;
                        auto *v = cb->getArgOperand(i);
                        bool empty = constString(v, t) && t.empty();
                        if (!empty) bad += "argument " + std::to_string(i - fixed + 1) + " has no conversion; ";
                    }
                    o.attribute("conversions", (int64_t)convs);
                    o.attribute("bad", bad);
                });
}
// -------------------------------------------------------------------- state
// Who writes to objects of static storage duration, outside initializing
// them, and which const member functions write to their object. Pointers to an
// object are followed through casts, GEPs, phis, calls and returns.
struct StateObj
{
    std::string name;
    const GlobalVariable *g = nullptr;        // static object
    const Function *method = nullptr;         // or *this of a const member function
    std::set<const Function *> dispatch;      // what indirect calls with it may reach
    std::set<const Function *> excusedIn;     // functions whose atomic accesses are the documented ones
    bool isDefault = false;
};
struct Finding { std::string obj, what, fn, file, kind; bool sure; };
static std::string realFile(const Function &f)
{
    auto s = fileOf(f);
    return s;
}
static const DIType *stripType(const DIType *t, bool &isConst)
{
    while (t)
    {
        if (t->getTag() == dwarf::DW_TAG_const_type) isConst = true;
        auto *d = dyn_cast<DIDerivedType>(t);
        if (!d) return t;
        auto g = d->getTag();
        if (g != dwarf::DW_TAG_const_type && g != dwarf::DW_TAG_volatile_type && g != dwarf::DW_TAG_typedef && g != dwarf::DW_TAG_member) return t;
        t = d->getBaseType();
    }
    return t;
}
static void classesOf(const DIType *t, std::set<const DIType *> &out)
{
    bool c;
    t = stripType(t, c);
    auto *ct = dyn_cast_or_null<DICompositeType>(t);
    if (!ct || !out.insert(ct).second) return;
    for (auto *e: ct->getElements())
        if (auto *d = dyn_cast<DIDerivedType>(e))
            if (d->getTag() == dwarf::DW_TAG_inheritance) classesOf(d->getBaseType(), out);
}
static const DISubprogram *declOf(const Function &f)
{
    auto *sp = f.getSubprogram();
    if (!sp) return nullptr;
    return sp->getDeclaration() ? sp->getDeclaration() : sp;
}
// the class a member function belongs to (types are compared by identifier:
// there may be a declaration and a definition of the same class)
static std::string scopeId(const DIScope *s)
{
    auto *c = dyn_cast_or_null<DICompositeType>(s);
    if (!c) return "";
    return c->getIdentifier().empty() ? (c->getName() + std::to_string((uintptr_t)c)).str() : c->getIdentifier().str();
}
static bool special(const DISubprogram *d)
{
    auto *c = dyn_cast_or_null<DICompositeType>(d->getScope());
    auto n = d->getName();
    if (n.starts_with("~") || n.starts_with("operator=")) return n.starts_with("~") || !n.starts_with("operator==");
    return c && n == c->getName().split('<').first;
}
static bool isPublic(const DISubprogram *d)
{
    if (d->getFlags() & DINode::FlagAccessibility) return (d->getFlags() & DINode::FlagAccessibility) == DINode::FlagPublic;
    auto *c = dyn_cast_or_null<DICompositeType>(d->getScope());
    return c && c->getTag() != dwarf::DW_TAG_class_type;
}
static bool constMethod(const DISubprogram *d, bool &member)
{
    member = false;
    auto *st = d->getType();
    if (!st || st->getTypeArray().size() < 2) return false;
    auto *t = dyn_cast_or_null<DIDerivedType>(st->getTypeArray()[1]);
    if (!t || t->getTag() != dwarf::DW_TAG_pointer_type || !(t->getFlags() & DINode::FlagArtificial)) return false;
    member = true;
    bool c = false;
    stripType(t->getBaseType(), c);
    return c;
}
static bool guardName(StringRef n) { return n.starts_with("_ZGV") || n == "__tls_guard"; }
static bool initFunction(const Function *f)
{
    auto n = f->getName();
    return n.starts_with("__cxx_global_var_init") || n.starts_with("_GLOBAL__") || n.starts_with("__cxx_global_array_dtor") || n == "__tls_init";
}
static bool dominatesBlock(const BasicBlock *a, const BasicBlock *b)
{
    // every path from the entry to b goes through a
    if (a == b) return true;
    std::set<const BasicBlock *> seen{a};
    std::vector<const BasicBlock *> wl{&b->getParent()->getEntryBlock()};
    if (wl[0] == a) return true;
    while (!wl.empty())
    {
        auto *q = wl.back();
        wl.pop_back();
        if (!seen.insert(q).second) continue;
        if (q == b) return false;
        for (auto *s: successors(q)) wl.push_back(s);
    }
    return true;
}
// blocks that run once, under the guard of a static variable
static std::set<const BasicBlock *> guarded(const Function &f)
{
    std::set<const BasicBlock *> r;
    auto guardLoad = [](const Value *v) {
        std::vector<const Value *> wl{v};
        std::set<const Value *> seen;
        while (!wl.empty())
        {
            auto *x = wl.back();
            wl.pop_back();
            if (!seen.insert(x).second) continue;
            if (auto *l = dyn_cast<LoadInst>(x))
            {
                auto *u = getUnderlyingObject(l->getPointerOperand(), 0);
                if (auto *ii = dyn_cast<IntrinsicInst>(u))
                    if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) u = getUnderlyingObject(ii->getArgOperand(0), 0);
                if (auto *g = dyn_cast<GlobalVariable>(u)) return guardName(g->getName());
            }
            else if (auto *cb = dyn_cast<CallBase>(x))
            {
                auto *c = cb->getCalledFunction();
                if (c && c->getName() == "__cxa_guard_acquire") return true;
            }
            else if (auto *i = dyn_cast<Instruction>(x))
                if (isa<ICmpInst>(i) || isa<CastInst>(i) || isa<BinaryOperator>(i))
                    for (auto &o: i->operands()) wl.push_back(o);
        }
        return false;
    };
    for (auto &b: f)
        if (auto *br = dyn_cast<BranchInst>(b.getTerminator()))
            if (br->isConditional() && guardLoad(br->getCondition()))
                for (unsigned k = 0; k < 2; ++k)
                {
                    auto *s = br->getSuccessor(k), *other = br->getSuccessor(1 - k);
                    // the side that comes back to the other one
                    if (!blockReaches(s, other->getTerminator()) || blockReaches(other, s->getTerminator())) continue;
                    for (auto &q: f)
                        if (&q != other && blockReaches(s, q.getTerminator()) && dominatesBlock(s, &q)) r.insert(&q);
                }
    return r;
}
static int stateQuery(Module &m, const std::string &root, json::OStream &o)
{
    std::map<std::string, bool> known;
    auto inRoot = [&](StringRef f) {
        f = f.substr(0, f.find(':'));
        auto [it, fresh] = known.insert({f.str(), false});
        if (fresh)
        {
            SmallString<256> r;
            it->second = !sys::fs::real_path(f, r) && StringRef(r).starts_with(root);
        }
        return it->second;
    };
    std::map<const Function *, std::set<const BasicBlock *>> once;
    for (auto &f: m)
        if (!f.isDeclaration()) once[&f] = guarded(f);
    auto initial = [&](const Instruction *I) { return initFunction(I->getFunction()) || once[I->getFunction()].count(I->getParent()); };
    std::map<std::string, std::vector<const Function *>> methods;
    for (auto &f: m)
        if (!f.isDeclaration())
            if (auto *d = declOf(f))
                if (auto id = scopeId(d->getScope()); !id.empty()) methods[id].push_back(&f);
    // the documented exception: what the setter of the default resource reaches
    std::set<const Function *> setters;
    {
        std::set<std::string> ext;
        for (auto &f: m)
            if (auto *sp = f.getSubprogram(); sp && !f.isDeclaration() && inRoot(fileOf(f)) && (sp->getName() == "set_default_resource" || sp->getName() == "get_default_resource"))
                closure(&f, setters, ext);
    }
    std::vector<StateObj> objs;
    for (auto &g: m.globals())
    {
        if (g.isDeclaration() || g.isConstant() || g.getName().starts_with("llvm.") || guardName(g.getName())) continue;
        if (!inRoot(fileOf(g))) continue;
        StateObj s;
        s.g = &g;
        s.name = g.getName().str();
        objs.push_back(s);
    }
    for (auto &[id, fs]: methods)
        for (auto *f: fs)
        {
            bool member;
            if (f->arg_size() && inRoot(fileOf(*f)) && constMethod(declOf(*f), member) && !special(declOf(*f)))
            {
                StateObj s;
                s.method = f;
                s.name = "*this of " + f->getName().str();
                objs.push_back(s);
            }
        }
    // which argument (or -1-k: global k) a function may return
    std::map<const Function *, std::set<const Value *>> rets;
    auto derive = [&](const Value *v, auto &&push) {
        for (auto *u: v->users())
        {
            if (isa<ConstantExpr>(u) || isa<GEPOperator>(u) || isa<CastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<FreezeInst>(u))
                push(u);
            else if (auto *ii = dyn_cast<IntrinsicInst>(u))
            {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::threadlocal_address || id == Intrinsic::launder_invariant_group || id == Intrinsic::strip_invariant_group || id == Intrinsic::ptrmask) push(u);
            }
        }
    };
    // what a returned value stems from: arguments and globals, to a fixpoint
    {
        bool change = true;
        while (change)
        {
            change = false;
            for (auto &f: m)
            {
                if (f.isDeclaration()) continue;
                auto &r = rets[&f];
                for (auto &b: f)
                    if (auto *ri = dyn_cast<ReturnInst>(b.getTerminator()))
                    {
                        if (!ri->getReturnValue()) continue;
                        std::set<const Value *> seen;
                        std::vector<const Value *> wl{ri->getReturnValue()};
                        while (!wl.empty())
                        {
                            auto *v = wl.back();
                            wl.pop_back();
                            if (!seen.insert(v).second) continue;
                            if (isa<Argument>(v) || isa<GlobalVariable>(v))
                                change |= r.insert(v).second;
                            else if (auto *cb = dyn_cast<CallBase>(v))
                            {
                                if (auto *ii = dyn_cast<IntrinsicInst>(cb))
                                {
                                    if (ii->arg_size()) wl.push_back(ii->getArgOperand(0));
                                    continue;
                                }
                                auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                                if (c)
                                    for (auto *x: std::set<const Value *>(rets[c]))
                                    {
                                        if (auto *a = dyn_cast<Argument>(x))
                                        {
                                            if (a->getArgNo() < cb->arg_size()) wl.push_back(cb->getArgOperand(a->getArgNo()));
                                        }
                                        else
                                            change |= r.insert(x).second;
                                    }
                            }
                            else if (auto *u = dyn_cast<User>(v))
                                if (isa<ConstantExpr>(u) || isa<GEPOperator>(u) || isa<CastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<FreezeInst>(u) || isa<InsertValueInst>(u))
                                    for (auto &op: u->operands()) wl.push_back(op);
                        }
                    }
            }
        }
    }
    // functions a constructor or initializer hands out (member pointers, tables)
    auto handedOut = [&](const std::set<const Function *> &from, const GlobalVariable *g) {
        std::set<const Function *> r;
        std::set<const Value *> seen;
        std::vector<const Value *> wl;
        if (g && g->hasInitializer()) wl.push_back(g->getInitializer());
        for (auto *f: from)
            for (auto &I: instructions(*f))
                for (auto &op: I.operands())
                {
                    if (auto *cb = dyn_cast<CallBase>(&I); cb && cb->isCallee(&op)) continue;
                    if (isa<Constant>(op)) wl.push_back(op);
                }
        while (!wl.empty())
        {
            auto *v = wl.back();
            wl.pop_back();
            if (!seen.insert(v).second) continue;
            if (auto *f = dyn_cast<Function>(v))
            {
                if (!f->isDeclaration()) r.insert(f);
            }
            else if (auto *gv = dyn_cast<GlobalVariable>(v))
            {
                if (gv->isConstant() && gv->hasInitializer()) wl.push_back(gv->getInitializer());
            }
            else if (auto *c = dyn_cast<Constant>(v))
                for (auto &op: c->operands()) wl.push_back(op);
        }
        return r;
    };
    static const std::set<std::string> harmless{"__cxa_atexit", "__cxa_thread_atexit", "memcmp", "strlen", "strcmp", "fprintf", "printf", "vfprintf", "fputs", "puts", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "bcmp"};
    std::vector<Finding> found;
    uint64_t inspected = 0, values = 0;
    std::set<const Function *> looked;
    for (auto &s: objs)
    {
        // a tainted value, and whether its atomic accesses are the documented ones
        std::set<std::pair<const Value *, bool>> taint;
        std::vector<std::pair<const Value *, bool>> wl;
        auto push = [&](const Value *v, bool ex) {
            if (taint.insert({v, ex}).second) wl.push_back({v, ex});
        };
        std::set<std::string> classIds;
        if (s.g)
        {
            // initialization
            std::set<const Function *> inits;
            std::set<std::string> ext;
            std::vector<const Value *> us{s.g};
            std::set<const Value *> seen;
            while (!us.empty())
            {
                auto *v = us.back();
                us.pop_back();
                if (!seen.insert(v).second) continue;
                derive(v, [&](const Value *u) { us.push_back(u); });
                for (auto *u: v->users())
                    if (auto *cb = dyn_cast<CallBase>(u))
                        if (initial(cb))
                            if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); c && !c->isDeclaration()) closure(c, inits, ext);
            }
            s.dispatch = handedOut(inits, s.g);
            SmallVector<DIGlobalVariableExpression *, 1> d;
            s.g->getDebugInfo(d);
            std::set<const DIType *> cls;
            for (auto *e: d)
                if (auto *v = e->getVariable()) classesOf(v->getType(), cls);
            for (auto *c: cls)
                if (auto id = scopeId(c); !id.empty())
                {
                    classIds.insert(id);
                    for (auto *f: methods[id])
                    {
                        auto *dd = declOf(*f);
                        bool member;
                        constMethod(dd, member);
                        if (member && f->arg_size() && !special(dd) && ((isPublic(dd) && dd->getTemplateParams().empty()) || s.dispatch.count(f)) && inRoot(fileOf(*f)))
                            push(f->getArg(0)->hasStructRetAttr() && f->arg_size() > 1 ? f->getArg(1) : f->getArg(0), false);
                    }
                }
            push(s.g, false);
        }
        else
        {
            auto *a = s.method->getArg(0);
            if (a->hasStructRetAttr() && s.method->arg_size() > 1) a = s.method->getArg(1);
            push(a, false);
        }
        auto report = [&](const Instruction *I, const std::string &what, bool sure, const char *kind) {
            // under a lock it may well be right
            for (auto &J: instructions(*I->getFunction()))
                if (auto *cb = dyn_cast<CallBase>(&J))
                    if (auto *c = cb->getCalledFunction(); c && (c->getName().contains("mutex") || c->getName().contains("lock_guard") || c->getName().contains("call_once"))) sure = false;
            found.push_back({s.name, what + " at " + where(I), I->getFunction()->getName().str(), fileOf(*I->getFunction()), kind, sure});
        };
        while (!wl.empty())
        {
            auto [v, ex] = wl.back();
            wl.pop_back();
            ++values;
            auto exf = ex;
            derive(v, [&](const Value *u) {
                push(u, exf);
            });
            for (auto *u: v->users())
            {
                auto *I = dyn_cast<Instruction>(u);
                if (!I) continue;
                if (initial(I)) continue;
                looked.insert(I->getFunction());
                ++inspected;
                bool excused = ex || (s.g && setters.count(I->getFunction()));
                if (auto *st = dyn_cast<StoreInst>(I))
                {
                    if (st->getPointerOperand() == v)
                    {
                        if (st->isAtomic() ? !(excused) : true) report(I, st->isAtomic() ? "atomic store" : "store", true, "write");
                    }
                    else if (!isa<AllocaInst>(getUnderlyingObject(st->getPointerOperand(), 0)) && s.g && classIds.empty())
                        report(I, "its address is stored", false, "escape");
                }
                else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I))
                {
                    if (I->getOperand(0) == v && !excused) report(I, "atomic read-modify-write", true, "write");
                }
                else if (auto *mi = dyn_cast<MemIntrinsic>(I))
                {
                    if (mi->getRawDest() == v) report(I, "block write", true, "write");
                }
                else if (isa<IntrinsicInst>(I))
                    ;
                else if (auto *cb = dyn_cast<CallBase>(I))
                {
                    auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    std::set<const Function *> targets;
                    if (c && !c->isDeclaration())
                        targets.insert(c);
                    else if (c)
                    {
                        auto n = c->getName().str();
                        if (!harmless.count(n)) report(I, "its address goes to " + n, false, "escape");
                    }
                    else if (cb->getCalledOperand() != v)
                    {
                        for (auto *f: s.dispatch)
                            if (f->getFunctionType() == cb->getFunctionType() && !special(declOf(*f) ? declOf(*f) : f->getSubprogram())) targets.insert(f);
                    }
                    for (auto *t: targets)
                        for (unsigned k = 0; k < cb->arg_size() && k < t->arg_size(); ++k)
                            if (cb->getArgOperand(k) == v)
                            {
                                // a constructor or destructor called on it later is a write as well
                                push(t->getArg(k), excused && s.g);
                            }
                    if (c)
                        for (auto *x: rets[c])
                            if (auto *a = dyn_cast<Argument>(x); a && a->getArgNo() < cb->arg_size() && cb->getArgOperand(a->getArgNo()) == v) push(cb, excused && s.g);
                }
            }
            // what functions return it
            if (s.g && v == s.g)
                for (auto &f: m)
                    for (auto &J: instructions(f))
                        if (auto *cb = dyn_cast<CallBase>(&J))
                            if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); c && rets.count(c) && rets[c].count(s.g) && !initial(cb))
                                push(cb, setters.count(&f));
        }
    }
    // what the first caller passes must not stay
    for (auto &[f, blocks]: once)
    {
        if (!inRoot(fileOf(*f))) continue;
        bool member = false;
        if (auto *d = declOf(*f)) constMethod(d, member);
        for (auto *b: blocks)
            for (auto &I: *b)
            {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                bool calls = isa<CallBase>(I) && !isa<IntrinsicInst>(I);
                if (!calls && !isa<StoreInst>(I)) continue;
                std::set<const Value *> seen;
                std::vector<const Value *> wl(I.op_begin(), I.op_end());
                while (!wl.empty())
                {
                    auto *v = wl.back();
                    wl.pop_back();
                    if (!seen.insert(v).second) continue;
                    if (auto *a = dyn_cast<Argument>(v))
                    {
                        if (!a->hasStructRetAttr()) found.push_back({"a static variable of " + f->getName().str(), "initialized from argument " + std::to_string(a->getArgNo()) + " of the first call at " + where(&I), f->getName().str(), fileOf(*f), "init", true});
                    }
                    else if (auto *u = dyn_cast<Instruction>(v))
                        for (auto &op: u->operands()) wl.push_back(op);
                }
            }
    }
    // functions whose result or effect depends on hidden state of the C library
    static const std::set<std::string> nonReentrant{"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "strerror", "setenv", "putenv", "unsetenv", "tmpnam", "mktemp", "tempnam", "signal", "mallopt", "fesetround", "fesetenv", "feholdexcept", "umask", "chdir", "mbrtowc", "wcrtomb", "mblen", "mbtowc", "wctomb", "getpwnam", "getpwuid", "gethostbyname", "inet_ntoa", "basename", "dirname", "strsignal", "ttyname", "getlogin", "readdir", "crypt", "ptsname", "setvbuf", "freopen"};
    std::vector<std::pair<std::string, std::string>> calls;
    uint64_t ncalls = 0;
    for (auto &f: m)
    {
        if (f.isDeclaration() || !inRoot(fileOf(f))) continue;
        for (auto &I: instructions(f))
            if (auto *cb = dyn_cast<CallBase>(&I))
                if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); c && c->isDeclaration() && !c->isIntrinsic())
                {
                    ++ncalls;
                    if (nonReentrant.count(c->getName().str())) calls.push_back({c->getName().str(), where(&I)});
                }
    }
    // writes straight to globals that library code does not own (or that have no debug entry)
    uint64_t nglobals = 0, nconst = 0;
    for (auto &s: objs) ++(s.g ? nglobals : nconst);
    o.object([&] {
        o.attribute("static_objects", (int64_t)nglobals);
        o.attribute("const_methods", (int64_t)nconst);
        o.attribute("uses", (int64_t)inspected);
        o.attribute("external_calls", (int64_t)ncalls);
        o.attributeArray("objects", [&] { for (auto &s: objs) if (s.g) o.value(s.name); });
        o.attributeArray("functions", [&] { for (auto *f: looked) o.value(f->getName().str()); });
        o.attributeArray("found", [&] {
            for (auto &x: found)
                o.object([&] {
                    o.attribute("object", x.obj);
                    o.attribute("what", x.what);
                    o.attribute("function", x.fn);
                    o.attribute("file", x.file);
                    o.attribute("kind", x.kind);
                    o.attribute("sure", x.sure);
                });
        });
        o.attributeArray("non_reentrant", [&] {
            for (auto &[n, w]: calls)
                o.object([&] {
                    o.attribute("name", n);
                    o.attribute("where", w);
                });
        });
    });
    return 0;
}
// the phi of the loop's header that v is a constant distance from
static const PHINode *counterOf(const Value *v, const Loop &l)
{
    for (int i = 0; i < 16; ++i)
    {
        if (auto *p = dyn_cast<PHINode>(v)) return p->getParent() == l.getHeader() ? p : nullptr;
        auto *b = dyn_cast<Instruction>(v);
        if (!b) return nullptr;
        if ((b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) && isa<ConstantInt>(b->getOperand(1)))
            v = b->getOperand(0);
        else if (isa<CastInst>(b))
            v = b->getOperand(0);
        else
            return nullptr;
    }
    return nullptr;
}
// counts: what comes round again is the counter itself at a constant distance
static bool counts(const PHINode *p, const Loop &l)
{
    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
        if (l.contains(p->getIncomingBlock(i)) && (p->getIncomingValue(i) == p || counterOf(p->getIncomingValue(i), l) != p)) return false;
    return true;
}
static bool invariant(const Value *v, const Loop &l, int depth = 0)
{
    auto *i = dyn_cast<Instruction>(v);
    if (!i || !l.contains(i)) return true;
    if (depth > 8 || isa<PHINode>(i) || i->mayReadOrWriteMemory()) return false;
    for (auto &u: i->operands())
        if (!invariant(u, l, depth + 1)) return false;
    return true;
}
static int counters(Module &m, json::OStream &o)
{
    const DataLayout &dl = m.getDataLayout();
    o.arrayBegin();
    for (Function &f: m)
    {
        if (f.isDeclaration()) continue;
        DominatorTree dt(f);
        LoopInfo li(dt);
        for (const Loop *l: li.getLoopsInPreorder())
        {
            SmallVector<BasicBlock *, 8> out;
            l->getExitingBlocks(out);
            bool other = false;  // an exit that looks at the counter and can be reached
            std::string bad;
            const Instruction *at = nullptr;
            unsigned tests = 0;
            for (auto *b: out)
            {
                auto *br = dyn_cast<BranchInst>(b->getTerminator());
                auto *c = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
                if (!c) continue;
                for (unsigned k = 0; k < 2; ++k)
                {
                    const Value *x = c->getOperand(k), *bound = c->getOperand(1 - k);
                    const PHINode *p = counterOf(x, *l);
                    if (!p || !counts(p, *l) || !p->getType()->isIntegerTy()) continue;
                    ++tests;
                    unsigned have = p->getType()->getIntegerBitWidth(), wide = bound->getType()->getIntegerBitWidth();
                    KnownBits kb = computeKnownBits(bound, dl);
                    unsigned need = kb.countMaxActiveBits();
                    if (!invariant(bound, *l) || wide <= have || need <= have)
                        other = true;
                    else
                    {
                        at = c;
                        bad = "a counter of " + std::to_string(have) + " bits is compared with a bound of up to " + std::to_string(need) + " bits";
                    }
                }
            }
            o.objectBegin();
            o.attribute("inFile", realFile(f));
            o.attribute("tests", (int64_t)tests);
            if (at && !other)
            {
                o.attribute("where", where(at));
                o.attribute("bad", bad);
            }
            o.objectEnd();
        }
    }
    o.arrayEnd();
    return 0;
}

int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    LLVMContext ctx;
    SMDiagnostic e;
    auto m = parseIRFile(argv[2], e, ctx);
    if (!m)
    {
        e.print("irlint", errs());
        return 2;
    }
    std::string q = argv[1];
    json::OStream o(outs(), 1);
    int r = 2;
    if (q == "globals") r = globals(*m, o);
    if (q == "atomics" && argc > 4) r = atomicsQuery(*m, argv[3], argv[4], o);
    if (q == "returned") r = returned(*m, std::vector<std::string>(argv + 3, argv + argc), o);
    if (q == "counters") r = counters(*m, o);
    if (q == "formats") r = formats(*m, o);
    if (q == "state" && argc > 3) r = stateQuery(*m, argv[3], o);
    outs() << "\n";
    return r;
}
