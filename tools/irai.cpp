// irai: an abstract interpreter over LLVM IR.
//
// It computes, for a harness function, an over-approximation of every
// execution by a reduced product of three value domains
//   bits      each bit is 0, 1, a (negated) bit of an input, or unknown
//   intervals unsigned ranges
//   affine    a*s+k for one input s (modulo 2^w)
// over a finite partition of the input space.  A cell of the partition (Box)
// constrains inputs by ranges, known bits and (in)equalities between single
// bits.  Whenever the abstract value of a branch condition, check, index or
// shift amount is not definite in a cell, the cell is split at the input
// constraint the value is blamed on, and the cell's two halves are analysed
// again from the last cut point.  __v_cut() ends a segment: the abstract
// machine state there is compared with all states met before, so a harness
// with a loop "cut; one arbitrary operation" computes the set of reachable
// abstract states of an object under a most general client (a fixpoint).
//
// No solver is involved and nothing of the analysed program is executed.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/TargetParser/Triple.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef int32_t Bit;
static const Bit UNDEFB = INT32_MIN;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline bool isC(Bit b) { return b == 0 || b == 1; }
static inline bool isLit(Bit b) { return b >= 2; }
static inline bool isTop(Bit b) { return b < 0 && b != UNDEFB; }
static inline int litOf(Bit b) { return (b - 2) >> 1; }
static inline Bit mkLit(int l, bool neg) { return 2 + 2 * l + (neg ? 1 : 0); }

// ---------------------------------------------------------------- blame atoms
struct Atom
{
    int kind;  // 0: literal a constant, 1: literal a == literal b, 2: sym a at t
    int a, b;
    u64 t;  // kind 2: halves are a < t and a >= t
    bool operator<(const Atom &o) const
    {
        return std::tie(kind, a, b, t) < std::tie(o.kind, o.a, o.b, o.t);
    }
};
static std::map<Atom, int> atomIds;
static std::vector<Atom> atoms;
static Bit topOf(const Atom &a)
{
    auto it = atomIds.find(a);
    int id;
    if (it == atomIds.end())
    {
        id = (int)atoms.size();
        atoms.push_back(a);
        atomIds[a] = id;
    }
    else
        id = it->second;
    return -(id + 1);
}
static const Atom &atomOf(Bit b) { return atoms[-b - 1]; }

// ------------------------------------------------------------------- symbols
// inputs: ids 0..DER-1 in order of creation on the path; derived: ids >= DER,
// hash-consed over the structure of the term.
static const int DER = 1 << 20;
struct SymInfo
{
    unsigned w = 64;
    u64 lo = 0, hi = ~0ull;
    u64 kmask = 0, kval = 0;
    std::string name;
};

// ----------------------------------------------------------------------- box
struct Box
{
    struct R
    {
        u64 lo, hi, kmask, kval;
    };
    std::map<int, R> sym;                      // sym -> constraint
    std::map<int, std::pair<int, bool>> eq;    // lit -> (rep lit, neg)
    bool derived = false;                      // constrains a derived symbol
};

// --------------------------------------------------------------------- terms
struct TermKey
{
    int op;
    unsigned w;
    u64 a, b, c;
    bool operator==(const TermKey &o) const
    {
        return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c;
    }
};
struct TermHash
{
    size_t operator()(const TermKey &k) const
    {
        u64 h = 1469598103934665603ull;
        for (u64 x: {(u64)k.op, (u64)k.w, k.a, k.b, k.c})
        {
            h ^= x;
            h *= 1099511628211ull;
            h ^= h >> 29;
        }
        return h;
    }
};
static std::unordered_map<TermKey, int, TermHash> termIds;
static std::vector<TermKey> terms;
static int mkTerm(int op, unsigned w, u64 a, u64 b = 0, u64 c = 0)
{
    TermKey k{op, w, a, b, c};
    auto it = termIds.find(k);
    if (it != termIds.end()) return it->second;
    int id = (int)terms.size();
    terms.push_back(k);
    termIds[k] = id;
    return id;
}
enum TOp
{
    T_CONST = 1,
    T_SYM,
    T_ZEXT,
    T_SEXT,
    T_TRUNC,
    T_BYTE,
    T_JOIN,
    T_BIN = 100
};

// -------------------------------------------------------------------- values
struct Val
{
    enum K : uint8_t
    {
        NONE,
        INT,
        PTR,
        AGG
    };
    K kind = NONE;
    uint16_t w = 0;
    bool c = false;      // integer part constant
    u64 cv = 0;
    int obj = -1;        // PTR: object; INT: provenance
    int term = -1;
    std::shared_ptr<std::vector<Bit>> b;  // integer part (PTR: offset) if !c
    u64 lo = 0, hi = 0;
    int lsym = -1;
    u64 la = 0, lk = 0;
    std::shared_ptr<std::vector<Val>> agg;
    std::shared_ptr<const struct Parts> parts;  // what an integer was composed of in memory
};
typedef std::shared_ptr<const Val> VP;

static Val cint(unsigned w, u64 v)
{
    Val r;
    r.kind = Val::INT;
    r.w = w;
    r.c = true;
    r.cv = v & mask(w);
    r.lo = r.hi = r.cv;
    return r;
}

struct Cell
{
    VP v;
    int idx = 0;
};
struct Parts
{
    std::vector<Cell> bytes;
};
struct Object
{
    u64 size = 0;
    bool symBase = false;
    int baseSym = -1;
    u64 base = 0;
    bool live = true, ro = false, opaque = false, heap = false;
    bool huge = false;  // only the first cells.size() bytes are kept
    const char *what = "";
    u64 secLo = 0, secHi = 0;  // bytes that must be zero when the object dies
    std::string name;
    const Function *fn = nullptr;
    std::vector<Cell> cells;
};

struct FnInfo
{
    std::unordered_map<const Value *, int> slot;
    int n = 0;
};
struct Frame
{
    const Function *f = nullptr;
    const FnInfo *fi = nullptr;
    std::vector<Val> regs;
    const BasicBlock *bb = nullptr, *prev = nullptr;
    BasicBlock::const_iterator ip;
    std::vector<int> allocas;
    std::vector<Val> varargs;
};

struct PathEnd
{
    std::string why;
};
struct SplitReq
{
    Atom a;
};
struct Violation
{
    std::string label, detail;
};
struct EngineErr
{
    std::string msg;
};
struct CutReached
{
};
struct ForkReq
{
    const CallBase *cb;
    u64 n;
    std::string name;
};

static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo> fnInfos;

static const FnInfo &fnInfo(const Function *f)
{
    auto it = fnInfos.find(f);
    if (it != fnInfos.end()) return it->second;
    FnInfo &fi = fnInfos[f];
    for (auto &a: f->args()) fi.slot[&a] = fi.n++;
    for (auto &bb: *f)
        for (auto &i: bb)
            if (!i.getType()->isVoidTy()) fi.slot[&i] = fi.n++;
    return fi;
}

struct Stats
{
    u64 steps = 0, runs = 0, leaves = 0, cuts = 0, states = 0, splits = 0,
        infeasible = 0, maxdepth = 0;
    std::map<std::string, u64> checks;
    std::set<const Function *> fns;
    std::map<std::string, u64> notes;
};
static Stats ST;
static bool gMemoryOnly = false; // report only accesses to memory that is not the analysed code's
static u64 gMaxRuns = 2000000, gMaxStep = 20000000;
static double gTime = 600;
static unsigned gSeed = 1;
static std::chrono::steady_clock::time_point gStart;

struct Machine
{
    std::vector<std::shared_ptr<Object>> objs;
    std::map<const GlobalValue *, int> globals;
    std::vector<Frame> stack;
    Box box;
    int nInputs = 0;
    std::vector<std::pair<int, SymInfo>> dummy;
    std::map<int, SymInfo> syms;
    std::map<std::pair<u64, u64>, u64> numHi, remHi;  // largest magnitude of a numerator and remainder, by division
    u64 nextAddr = 0x100000;
    bool abortOk = false;
    bool memHook = false;
    int throwing = 0;
    int exception = 0;                            // 1 the user's, 2 one the library threw
    std::map<const Value *, int> exceptionIs;     // types decided about it
    int caught = 0;
    std::vector<std::string> trace;
    // concretisation policy (-1: none)
    int policy = -1;
    u64 steps = 0;
    std::string last;

    // ---------------------------------------------------------------- helpers
    std::string where() const
    {
        for (auto it = stack.rbegin(); it != stack.rend(); ++it)
        {
            if (it->ip == it->bb->end()) continue;
            const Instruction *I = &*it->ip;
            if (auto &dl = I->getDebugLoc())
            {
                std::string f = dl->getFilename().str();
                return f + ":" + std::to_string(dl.getLine());
            }
        }
        return "?";
    }
    std::string backtrace() const
    {
        std::string r;
        int n = 0;
        for (auto it = stack.rbegin(); it != stack.rend() && n < 12; ++it, ++n)
        {
            if (it->ip == it->bb->end()) continue;
            const Instruction *I = &*it->ip;
            std::string f = "?", fn = it->f->getName().str();
            if (auto *sp = it->f->getSubprogram()) fn = sp->getName().str();
            if (auto &dl = I->getDebugLoc())
                f = dl->getFilename().str() + ":" + std::to_string(dl.getLine());
            if (!r.empty()) r += " <- ";
            r += fn + "@" + f;
        }
        return r;
    }
    [[noreturn]] void err(const std::string &m)
    {
        throw EngineErr{m + " at " + backtrace()};
    }
    [[noreturn]] void viol(const std::string &l, const std::string &d = "")
    {
        // only accesses to memory are judged
        if (gMemoryOnly && l.find("bounds") == std::string::npos && l.find("pointer access") == std::string::npos && l.find("lifetime") == std::string::npos &&
            l.find("managed memory") == std::string::npos && l.find("dereference") == std::string::npos && l.find("constant object") == std::string::npos)
            err("not judged: " + l + " " + d);
        throw Violation{l, d + (d.empty() ? "" : " ") + "at " + backtrace()};
    }

    // the memory a resource manages: what may be done to it is a property of its own
    [[noreturn]] void touched(const char *how)
    {
        if (gMemoryOnly) viol(std::string(how) + " the managed memory");
        err(std::string(how) + " the managed memory, whose contents are not modelled");
    }
    // ------------------------------------------------------------------- bits
    Bit norm(Bit b) const
    {
        if (!isLit(b)) return b;
        int l = litOf(b);
        bool neg = (b - 2) & 1;
        for (;;)
        {
            auto it = box.eq.find(l);
            if (it == box.eq.end()) break;
            l = it->second.first;
            neg ^= it->second.second;
        }
        auto it = box.sym.find(l >> 6);
        if (it != box.sym.end() && (it->second.kmask >> (l & 63) & 1))
            return (Bit)((it->second.kval >> (l & 63) & 1) ^ (neg ? 1 : 0));
        return mkLit(l, neg);
    }
    static Bit notB(Bit b)
    {
        if (isC(b)) return 1 - b;
        if (isLit(b)) return ((b - 2) ^ 1) + 2;
        return b;
    }
    static bool compl_(Bit a, Bit b) { return isLit(a) && isLit(b) && a != b && litOf(a) == litOf(b); }
    static Bit blame1(Bit a)
    {
        if (isLit(a)) return topOf({0, litOf(a), 0, 0});
        return a;
    }
    static Bit pickTop(Bit a, Bit b)
    {
        if (a == UNDEFB || b == UNDEFB) return UNDEFB;
        if (isTop(a)) return a;
        if (isTop(b)) return b;
        if (isLit(a)) return blame1(a);
        return blame1(b);
    }
    static Bit andB(Bit a, Bit b)
    {
        if (a == 0 || b == 0) return 0;
        if (a == 1) return b;
        if (b == 1) return a;
        if (a == b && isLit(a)) return a;
        if (compl_(a, b)) return 0;
        return pickTop(a, b);
    }
    static Bit orB(Bit a, Bit b) { return notB(andB(notB(a), notB(b))); }
    static Bit xorB(Bit a, Bit b)
    {
        if (isC(a)) return a ? notB(b) : b;
        if (isC(b)) return b ? notB(a) : a;
        if (isLit(a) && isLit(b))
        {
            if (a == b) return 0;
            if (compl_(a, b)) return 1;
            int x = litOf(a), y = litOf(b);
            if (x > y) std::swap(x, y);
            return topOf({1, x, y, 0});
        }
        return pickTop(a, b);
    }
    static void fullAdd(Bit a, Bit b, Bit c, Bit &s, Bit &co)
    {
        if (a == b && !isTop(a) && a != UNDEFB)
        {
            s = c;
            co = a;
            return;
        }
        if (a == c && !isTop(a) && a != UNDEFB)
        {
            s = b;
            co = a;
            return;
        }
        if (b == c && !isTop(b) && b != UNDEFB)
        {
            s = a;
            co = b;
            return;
        }
        if (compl_(a, b) || (isC(a) && isC(b)))
        {
            s = notB(c);
            co = c;
            return;
        }
        if (compl_(a, c) || (isC(a) && isC(c)))
        {
            s = notB(b);
            co = b;
            return;
        }
        if (compl_(b, c) || (isC(b) && isC(c)))
        {
            s = notB(a);
            co = a;
            return;
        }
        if (a == UNDEFB || b == UNDEFB || c == UNDEFB)
        {
            s = co = UNDEFB;
            return;
        }
        // one constant, others unknown
        Bit t = isTop(c) ? c : isTop(a) ? a : isTop(b) ? b : isLit(c) ? blame1(c) : isLit(a) ? blame1(a) : blame1(b);
        if (isC(a) && isLit(b) && isLit(c))
            s = a ? notB(xorB(b, c)) : xorB(b, c);
        else
            s = t;
        s = t;
        co = t;
    }
    Bit bitOf(const Val &v, unsigned i) const
    {
        if (v.c) return (v.cv >> i) & 1;
        return norm((*v.b)[i]);
    }
    std::vector<Bit> bitsOf(const Val &v) const
    {
        std::vector<Bit> r(v.w);
        for (unsigned i = 0; i < v.w; ++i) r[i] = bitOf(v, i);
        return r;
    }

    // ----------------------------------------------------------------- ranges
    SymInfo symInfo(int s) const
    {
        auto it = syms.find(s);
        SymInfo i;
        if (it != syms.end()) i = it->second;
        auto bt = box.sym.find(s);
        if (bt != box.sym.end())
        {
            i.lo = std::max(i.lo, bt->second.lo);
            i.hi = std::min(i.hi, bt->second.hi);
            i.kmask |= bt->second.kmask;
            i.kval |= bt->second.kval;
        }
        return i;
    }
    // tighten an interval against known bits; false if empty
    static bool tighten(unsigned w, u64 &lo, u64 &hi, u64 km, u64 kv)
    {
        if (lo > hi) return false;
        km &= mask(w);
        kv &= km;
        if (!km) return true;
        // smallest value >= lo matching
        auto up = [&](u64 x, u64 &out) -> bool
        {
            for (int pass = 0; pass < 2; ++pass)
            {
                // candidate keeps the top bits of x down to position p, then
                // a larger bit at p, then minimal fill
                if (((x ^ kv) & km) == 0)
                {
                    out = x;
                    return true;
                }
                bool found = false;
                u64 best = 0;
                for (int p = 0; p < (int)w; ++p)
                {
                    u64 highmask = p == 63 ? 0 : ~((2ull << p) - 1) & mask(w);
                    if (((x ^ kv) & km & highmask) != 0) continue;
                    if (x >> p & 1) continue;
                    if ((km >> p & 1) && !(kv >> p & 1)) continue;
                    u64 cand = (x & highmask) | (1ull << p) | (kv & ((1ull << p) - 1));
                    found = true;
                    best = cand;
                    break;
                }
                if (!found) return false;
                out = best;
                return true;
            }
            return false;
        };
        u64 l2;
        if (!up(lo, l2) || l2 > hi) return false;
        // largest value <= hi matching: mirror
        u64 nh = ~hi & mask(w);
        u64 kv2 = (~kv) & km;
        std::swap(kv, kv2);
        u64 h2;
        bool ok = up(nh, h2);
        std::swap(kv, kv2);
        if (!ok) return false;
        h2 = ~h2 & mask(w);
        if (h2 < l2) return false;
        lo = l2;
        hi = h2;
        return true;
    }
    // propagate interval -> known prefix bits for symbol s; false: empty cell
    bool reduceSym(int s)
    {
        SymInfo i = symInfo(s);
        for (int it = 0; it < 3; ++it)
        {
            if (!tighten(i.w, i.lo, i.hi, i.kmask, i.kval)) return false;
            u64 d = i.lo ^ i.hi;
            u64 pm = mask(i.w);
            while (d)
            {
                pm &= ~(d | (d - 1) | 1);
                int top = 63 - __builtin_clzll(d);
                pm &= top == 63 ? 0 : ~((2ull << top) - 1);
                d = 0;
            }
            u64 nk = (i.kmask | pm) & mask(i.w);
            u64 nv = (i.kval & i.kmask) | (i.lo & pm);
            if (nk == i.kmask) break;
            i.kmask = nk;
            i.kval = nv;
        }
        box.sym[s] = {i.lo, i.hi, i.kmask, i.kval};
        return true;
    }
    void linRange(const Val &v, u64 &lo, u64 &hi) const
    {
        if (v.lsym < 0) return;
        SymInfo i = symInfo(v.lsym);
        u128 span = (u128)v.la * (i.hi - i.lo);
        if (span > mask(v.w)) return;
        u64 start = (v.la * i.lo + v.lk) & mask(v.w);
        u128 end = (u128)start + span;
        if (end > mask(v.w)) return;
        lo = std::max(lo, start);
        hi = std::min(hi, (u64)end);
    }
    void range(const Val &v, u64 &lo, u64 &hi) const
    {
        if (v.c)
        {
            lo = hi = v.cv;
            return;
        }
        lo = v.lo;
        hi = v.hi;
        u64 mn = 0, mx = 0;
        for (unsigned i = 0; i < v.w; ++i)
        {
            Bit b = norm((*v.b)[i]);
            if (b == 1) mn |= 1ull << i;
            if (b != 0) mx |= 1ull << i;
        }
        lo = std::max(lo, mn);
        hi = std::min(hi, mx);
        linRange(v, lo, hi);
    }
    // build from bits; collapses to constants
    Val fromBits(unsigned w, std::vector<Bit> &&bits, int term)
    {
        bool allc = true;
        u64 cv = 0;
        for (unsigned i = 0; i < w; ++i)
        {
            if (!isC(bits[i]))
            {
                allc = false;
                break;
            }
            cv |= (u64)bits[i] << i;
        }
        if (allc && w <= 64) return cint(w, cv);
        Val r;
        r.kind = Val::INT;
        r.w = w;
        r.b = std::make_shared<std::vector<Bit>>(std::move(bits));
        r.lo = 0;
        r.hi = mask(w);
        r.term = term;
        return r;
    }
    // reduce: interval singleton -> constant; common prefix -> bits
    void finish(Val &v)
    {
        if (v.c || v.kind != Val::INT || v.w > 64) return;
        u64 lo, hi;
        range(v, lo, hi);
        if (lo > hi) return;  // inconsistent: leave
        v.lo = lo;
        v.hi = hi;
        if (lo == hi)
        {
            bool undef = false;
            for (auto x: *v.b) undef |= x == UNDEFB;
            if (!undef)
            {
                Val r = cint(v.w, lo);
                r.obj = v.obj;
                v = r;
                return;
            }
        }
        u64 d = lo ^ hi;
        int top = d ? 63 - __builtin_clzll(d) : -1;
        bool ch = false;
        for (int i = v.w - 1; i > top; --i)
            if (!isC((*v.b)[i]))
            {
                ch = true;
                break;
            }
        if (ch)
        {
            auto nb = std::make_shared<std::vector<Bit>>(*v.b);
            for (int i = v.w - 1; i > top; --i) (*nb)[i] = (lo >> i) & 1;
            v.b = nb;
        }
    }
    int termOf(const Val &v)
    {
        if (v.kind != Val::INT) return -1;
        if (v.c) return mkTerm(T_CONST, v.w, v.cv);
        return v.term;
    }

    Val symVal(int s)
    {
        SymInfo i = symInfo(s);
        std::vector<Bit> b(i.w);
        for (unsigned k = 0; k < i.w; ++k) b[k] = norm(mkLit(s * 64 + k, false));
        Val v = fromBits(i.w, std::move(b), mkTerm(T_SYM, i.w, s));
        v.term = mkTerm(T_SYM, i.w, s);
        if (v.c) return v;
        v.lo = i.lo;
        v.hi = i.hi;
        v.lsym = s;
        v.la = 1;
        v.lk = 0;
        finish(v);
        return v;
    }
    Val newInput(unsigned w, u64 lo, u64 hi, const std::string &name, u64 km = 0, u64 kv = 0)
    {
        int s = nInputs++;
        SymInfo i;
        i.w = w;
        i.lo = lo;
        i.hi = std::min(hi, mask(w));
        i.kmask = km;
        i.kval = kv;
        i.name = name;
        syms[s] = i;
        if (!reduceSym(s)) throw PathEnd{"infeasible"};
        if (policy >= 0)
        {
            i = symInfo(s);
            std::mt19937_64 g(gSeed * 7919u + policy * 131 + s);
            u64 x = i.lo;
            switch (policy)
            {
                case 0: x = i.lo; break;
                case 1: x = i.hi; break;
                case 2: x = i.lo + (i.hi - i.lo) / 2; break;
                case 3: x = i.lo + (i.hi > i.lo ? 1 : 0); break;
                case 4: x = i.hi - (i.hi > i.lo ? 1 : 0); break;
                default:
                {
                    u64 r = g();
                    if (g() & 1) r >>= g() % 64;
                    u64 span = i.hi - i.lo;
                    x = i.lo + (span == ~0ull ? r : r % (span + 1));
                    if (g() % 4 == 0) x = i.hi - (x - i.lo);
                }
            }
            u64 l = x, h = i.hi;
            if (!tighten(i.w, l, h, i.kmask, i.kval))
            {
                l = i.lo;
                h = x;
                if (!tighten(i.w, l, h, i.kmask, i.kval)) throw PathEnd{"infeasible"};
                l = h;
            }
            box.sym[s] = {l, l, mask(i.w), l};
            if (!checkEqs()) throw PathEnd{"infeasible"};
        }
        return symVal(s);
    }
    bool checkEqs();
    Val derived(int term, unsigned w, u64 lo, u64 hi)
    {
        int s = DER + term;
        SymInfo i;
        i.w = w;
        i.lo = lo;
        i.hi = hi;
        i.name = "term" + std::to_string(term);
        syms[s] = i;
        if (!reduceSym(s)) throw PathEnd{"infeasible"};
        Val v = symVal(s);
        if (!v.c) v.term = mkTerm(T_SYM, w, s);
        return v;
    }

    // ------------------------------------------------------------- arithmetic
    static void linAdd(Val &r, const Val &a, const Val &b, bool sub)
    {
        u64 m = mask(r.w);
        if (a.lsym >= 0 && b.c)
        {
            r.lsym = a.lsym;
            r.la = a.la;
            r.lk = (sub ? a.lk - b.cv : a.lk + b.cv) & m;
        }
        else if (b.lsym >= 0 && a.c && !sub)
        {
            r.lsym = b.lsym;
            r.la = b.la;
            r.lk = (a.cv + b.lk) & m;
        }
        else if (b.lsym >= 0 && a.c && sub)
        {
            r.lsym = b.lsym;
            r.la = (0 - b.la) & m;
            r.lk = (a.cv - b.lk) & m;
        }
        else if (a.lsym >= 0 && a.lsym == b.lsym)
        {
            r.lsym = a.lsym;
            r.la = (sub ? a.la - b.la : a.la + b.la) & m;
            r.lk = (sub ? a.lk - b.lk : a.lk + b.lk) & m;
        }
    }
    Val iadd(const Val &a, const Val &b, bool sub)
    {
        if (a.c && b.c)
        {
            Val r = cint(a.w, sub ? a.cv - b.cv : a.cv + b.cv);
            provMerge(r, a, b, sub);
            return r;
        }
        if (a.w > 64) err("wide add");
        {
            Val r;
            if (sub && remainder(a, b, r)) return r;
        }
        std::vector<Bit> o(a.w);
        Bit c = sub ? 1 : 0;
        for (unsigned i = 0; i < a.w; ++i)
        {
            Bit y = bitOf(b, i);
            if (sub) y = notB(y);
            Bit s, co;
            fullAdd(bitOf(a, i), y, c, s, co);
            o[i] = s;
            c = co;
        }
        int ta = termOf(a), tb = termOf(b), t = -1;
        if (ta >= 0 && tb >= 0)
        {
            if (!sub && ta > tb) std::swap(ta, tb);
            t = mkTerm(T_BIN + (sub ? (int)Instruction::Sub : (int)Instruction::Add), a.w, ta, tb);
        }
        Val r = fromBits(a.w, std::move(o), t);
        if (!r.c)
        {
            u64 al, ah, bl, bh;
            range(a, al, ah);
            range(b, bl, bh);
            if (!sub)
            {
                u128 l = (u128)al + bl, h = (u128)ah + bh;
                if (h <= mask(a.w))
                {
                    r.lo = (u64)l;
                    r.hi = (u64)h;
                }
                else if (l > mask(a.w))
                {
                    r.lo = (u64)l & mask(a.w);
                    r.hi = (u64)h & mask(a.w);
                }
            }
            else
            {
                if (al >= bh)
                {
                    r.lo = al - bh;
                    r.hi = ah - bl;
                }
                else if (ah < bl)
                {
                    r.lo = (al - bh) & mask(a.w);
                    r.hi = (ah - bl) & mask(a.w);
                }
            }
            linAdd(r, a, b, sub);
            if (r.lsym >= 0 && r.la == 0)
            {
                Val q = cint(a.w, r.lk);
                provMerge(q, a, b, sub);
                return q;
            }
            // x + (top..) where lin says a pure symbol again: use its bits
            if (r.lsym >= 0 && r.la == 1 && r.lk == 0)
            {
                auto it = syms.find(r.lsym);
                if (it != syms.end() && it->second.w == r.w)
                {
                    Val q = symVal(r.lsym);
                    provMerge(q, a, b, sub);
                    return q;
                }
            }
            // symbol + constant, whatever the way to it: add once
            if (r.lsym >= 0 && r.la == 1 && !(a.lsym == r.lsym && a.la == 1 && a.lk == 0 && b.c && !sub))
            {
                auto it = syms.find(r.lsym);
                if (it != syms.end() && it->second.w == r.w)
                {
                    Val q = symVal(r.lsym);
                    q.obj = -1;
                    if (!q.c)
                    {
                        q = iadd(q, cint(r.w, r.lk), false);
                        if (!q.c)
                        {
                            q.lo = std::max(q.lo, r.lo);
                            q.hi = std::min(q.hi, r.hi);
                        }
                        provMerge(q, a, b, sub);
                        return q;
                    }
                }
            }
            finish(r);
        }
        provMerge(r, a, b, sub);
        return r;
    }
    static void provMerge(Val &r, const Val &a, const Val &b, bool sub)
    {
        if (a.kind == Val::PTR || b.kind == Val::PTR) return;
        if (a.obj >= 0 && b.obj < 0)
            r.obj = a.obj;
        else if (b.obj >= 0 && a.obj < 0 && !sub)
            r.obj = b.obj;
    }
    Val imulc(const Val &a, u64 k)
    {
        k &= mask(a.w);
        if (a.c) return cint(a.w, a.cv * k);
        if (k == 0) return cint(a.w, 0);
        if (k == 1) return a;
        std::vector<Bit> acc(a.w, 0);
        auto ab = bitsOf(a);
        for (unsigned s = 0; s < a.w; ++s)
        {
            if (!(k >> s & 1)) continue;
            Bit c = 0;
            for (unsigned i = s; i < a.w; ++i)
            {
                Bit x, co;
                fullAdd(acc[i], ab[i - s], c, x, co);
                acc[i] = x;
                c = co;
            }
        }
        int t = termOf(a);
        if (t >= 0) t = mkTerm(T_BIN + Instruction::Mul, a.w, t, mkTerm(T_CONST, a.w, k));
        Val r = fromBits(a.w, std::move(acc), t);
        if (r.c) return r;
        u64 lo, hi;
        range(a, lo, hi);
        if ((u128)hi * k <= mask(a.w))
        {
            r.lo = lo * k;
            r.hi = hi * k;
        }
        if (a.lsym >= 0)
        {
            r.lsym = a.lsym;
            r.la = (a.la * k) & mask(a.w);
            r.lk = (a.lk * k) & mask(a.w);
        }
        finish(r);
        return r;
    }
    u64 needConst(const Val &v, const char *what)
    {
        if (v.kind == Val::PTR || v.kind == Val::NONE) err(std::string("integer expected: ") + what);
        if (v.c) return v.cv;
        throw SplitReq{splitAtomFor(v)};
    }
    Atom splitAtomFor(const Val &v)
    {
        for (auto x: *v.b)
            if (x == UNDEFB) viol("uninitialised value used", "");
        if (v.lsym >= 0 && v.la == 1)
        {
            SymInfo i = symInfo(v.lsym);
            if (i.lo < i.hi && i.w == v.w && i.hi - i.lo <= 4096)
                return {2, v.lsym, 0, i.lo + (i.hi - i.lo) / 2 + 1};
        }
        if (v.lsym >= 0)
        {
            SymInfo i = symInfo(v.lsym);
            if (i.lo < i.hi && v.la != 1)
                return {2, v.lsym, 0, i.lo + (i.hi - i.lo) / 2 + 1};
        }
        for (int i = (int)v.w - 1; i >= 0; --i)
        {
            Bit b = bitOf(v, i);
            if (isLit(b)) return {0, litOf(b), 0, 0};
            if (isTop(b)) return atomOf(b);
        }
        err("cannot split value");
    }

    Val bin(unsigned op, const Val &a, const Val &b)
    {
        if (a.kind == Val::NONE || b.kind == Val::NONE) err("binary op on nothing");
        unsigned w = a.w;
        if (w > 64) err("integer wider than 64 bits");
        u64 m = mask(w);
        switch (op)
        {
            case Instruction::Add: return iadd(a, b, false);
            case Instruction::Sub: return iadd(a, b, true);
            default: break;
        }
        auto sx = [&](u64 x) -> int64_t { return (int64_t)(x << (64 - w)) >> (64 - w); };
        if (a.c && b.c)
        {
            u64 x = a.cv, y = b.cv, r = 0;
            switch (op)
            {
                case Instruction::Mul: r = x * y; break;
                case Instruction::And: r = x & y; break;
                case Instruction::Or: r = x | y; break;
                case Instruction::Xor: r = x ^ y; break;
                case Instruction::Shl: if (y >= w) viol("undefined behaviour", "shift amount"); r = x << y; break;
                case Instruction::LShr: if (y >= w) viol("undefined behaviour", "shift amount"); r = x >> y; break;
                case Instruction::AShr: if (y >= w) viol("undefined behaviour", "shift amount"); r = (u64)(sx(x) >> y); break;
                case Instruction::UDiv: if (!y) viol("undefined behaviour", "division by zero"); r = x / y; break;
                case Instruction::URem: if (!y) viol("undefined behaviour", "division by zero"); r = x % y; break;
                case Instruction::SDiv:
                    if (!y || (sx(y) == -1 && sx(x) == sx(1ull << (w - 1)))) viol("undefined behaviour", "division");
                    r = (u64)(sx(x) / sx(y));
                    break;
                case Instruction::SRem:
                    if (!y || (sx(y) == -1 && sx(x) == sx(1ull << (w - 1)))) viol("undefined behaviour", "division");
                    r = (u64)(sx(x) % sx(y));
                    break;
                default: err("binop");
            }
            Val v = cint(w, r);
            if (op == Instruction::And || op == Instruction::Or) provMerge(v, a, b, false);
            return v;
        }
        int ta = termOf(a), tb = termOf(b);
        int t = (ta >= 0 && tb >= 0) ? mkTerm(T_BIN + op, w, ta, tb) : -1;
        std::vector<Bit> o(w);
        Val r;
        switch (op)
        {
            case Instruction::And:
            case Instruction::Or:
            case Instruction::Xor:
            {
                for (unsigned i = 0; i < w; ++i)
                {
                    Bit x = bitOf(a, i), y = bitOf(b, i);
                    o[i] = op == Instruction::And ? andB(x, y) : op == Instruction::Or ? orB(x, y) : xorB(x, y);
                }
                r = fromBits(w, std::move(o), t);
                if (!r.c)
                {
                    u64 al, ah, bl, bh;
                    range(a, al, ah);
                    range(b, bl, bh);
                    if (op == Instruction::And) r.hi = std::min(ah, bh);
                    if (op == Instruction::Or) r.lo = std::max(al, bl);
                    // x & mask that keeps every possible bit of x
                    if (op == Instruction::And)
                    {
                        const Val *v = b.c ? &a : a.c ? &b : nullptr;
                        u64 k = b.c ? b.cv : a.cv;
                        if (v)
                        {
                            bool same = true;
                            u64 cleared = 0;
                            for (unsigned i = 0; i < w && same; ++i)
                                if (!(k >> i & 1))
                                {
                                    Bit x = bitOf(*v, i);
                                    if (x == 1)
                                        cleared |= 1ull << i;
                                    else if (x != 0)
                                        same = false;
                                }
                            if (same && v->lsym >= 0)
                            {
                                r.lsym = v->lsym;
                                r.la = v->la;
                                r.lk = (v->lk - cleared) & m;
                            }
                        }
                    }
                    // x ^ ~0 == -1 - x
                    if (op == Instruction::Xor && b.c && b.cv == m && a.lsym >= 0)
                    {
                        r.lsym = a.lsym;
                        r.la = (0 - a.la) & m;
                        r.lk = (m - a.lk) & m;
                    }
                    finish(r);
                }
                if (op != Instruction::Xor) provMerge(r, a, b, false);
                return r;
            }
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
            {
                u64 k = needConst(b, "shift amount");
                if (k >= w) viol("undefined behaviour", "shift amount");
                for (unsigned i = 0; i < w; ++i)
                {
                    if (op == Instruction::Shl)
                        o[i] = i >= k ? bitOf(a, i - k) : 0;
                    else
                        o[i] = i + k < w ? bitOf(a, i + k) : op == Instruction::LShr ? 0 : bitOf(a, w - 1);
                }
                r = fromBits(w, std::move(o), t);
                if (!r.c)
                {
                    u64 al, ah;
                    range(a, al, ah);
                    if (op == Instruction::LShr || (op == Instruction::AShr && !(ah >> (w - 1))))
                    {
                        r.lo = al >> k;
                        r.hi = ah >> k;
                    }
                    if (op == Instruction::Shl)
                    {
                        if (ah <= (m >> k))
                        {
                            r.lo = al << k;
                            r.hi = ah << k;
                        }
                        if (a.lsym >= 0)
                        {
                            r.lsym = a.lsym;
                            r.la = (a.la << k) & m;
                            r.lk = (a.lk << k) & m;
                        }
                    }
                    if (op != Instruction::Shl && k == 0)
                    {
                        r.lsym = a.lsym;
                        r.la = a.la;
                        r.lk = a.lk;
                    }
                    finish(r);
                }
                return r;
            }
            case Instruction::Mul:
            {
                Mult mu;
                if (multiple(a, b, mu)) return multipleVal(mu, w);
                if (b.c) return imulc(a, b.cv);
                if (a.c) return imulc(b, a.cv);
                if (ta > tb) std::swap(ta, tb);
                if (ta < 0) err("product of untracked values");
                u64 al, ah, bl, bh;
                range(a, al, ah);
                range(b, bl, bh);
                u64 lo = 0, hi = m;
                if ((u128)ah * bh <= m)
                {
                    lo = al * bl;
                    hi = ah * bh;
                }
                return derived(mkTerm(T_BIN + op, w, ta, tb), w, lo, hi);
            }
            case Instruction::UDiv:
            case Instruction::URem:
            case Instruction::SDiv:
            case Instruction::SRem: return divide(op, a, b);
            default: err("binop");
        }
    }
    // mathematical integer behind an extended value
    static u64 mathKey(int t, bool sgn)
    {
        for (;;)
        {
            TermKey k = terms[t];
            if (k.op == T_ZEXT)
            {
                t = (int)k.a;
                sgn = false;
                continue;
            }
            if (k.op == T_SEXT && sgn)
            {
                t = (int)k.a;
                continue;
            }
            break;
        }
        TermKey k = terms[t];
        if (k.op == T_CONST)
        {
            u64 v = k.a;
            if (sgn && k.w < 64 && (v >> (k.w - 1) & 1)) v |= ~mask(k.w);
            bool neg = sgn && (v >> 63);
            return ((u64)mkTerm(T_CONST, 64, v) << 2) | (neg ? 3 : 2);
        }
        return ((u64)t << 2) | (sgn ? 1 : 0);
    }
    // Division works on magnitudes; the sign of a signed operand is made known
    // first.  +-(|a| / |b|) and +-(|a| % |b|) are affine in a derived symbol.
    int signOf(const Val &v)
    {
        Bit s = bitOf(v, v.w - 1);
        if (isC(s)) return s ? -1 : 1;
        decide(boolVal(icmp(CmpInst::ICMP_SLT, v, cint(v.w, 0))));
        err("sign not decided");
    }
    Val magnitude(const Val &v, int sg) { return sg < 0 ? iadd(cint(v.w, 0), v, true) : v; }
    Val signedFrom(const Val &mag64, int sg, unsigned w)
    {
        Val v = w == 64 ? mag64 : trunc(mag64, w);
        return sg < 0 ? iadd(cint(w, 0), v, true) : v;
    }
    Val divide(unsigned op, const Val &a, const Val &b)
    {
        unsigned w = a.w;
        bool sgn = op == Instruction::SDiv || op == Instruction::SRem;
        bool rem = op == Instruction::URem || op == Instruction::SRem;
        u64 al, ah, bl, bh;
        range(a, al, ah);
        range(b, bl, bh);
        if (bl == 0 && bh == 0) viol("undefined behaviour", "division by zero");
        u64 sb = 1ull << (w - 1);
        bool nonneg = ah < sb && bh < sb;
        if (b.c && isPow2(b.cv) && (!sgn || nonneg))
        {
            unsigned k = __builtin_ctzll(b.cv);
            if (!rem) return bin(Instruction::LShr, a, cint(w, k));
            return bin(Instruction::And, a, cint(w, b.cv - 1));
        }
        if (b.c && b.cv == 1) return rem ? cint(w, 0) : a;
        int ta = termOf(a), tb = termOf(b);
        if (ta < 0 || tb < 0)
        {
            // no structure: force constants
            if (!a.c) throw SplitReq{splitAtomFor(a)};
            throw SplitReq{splitAtomFor(b)};
        }
        int sa = sgn ? signOf(a) : 1, sB = sgn ? signOf(b) : 1;
        u64 ka = mathKey(ta, sa < 0), kb = mathKey(tb, sB < 0);
        int dt = mkTerm(T_BIN + (rem ? 90 : 91), 64, ka, kb);
        range(magnitude(a, sa), al, ah);
        range(magnitude(b, sB), bl, bh);
        if (!bl) bl = 1;
        if (bh == 1) return rem ? cint(w, 0) : sB < 0 ? iadd(cint(w, 0), a, true) : a;
        u64 lo = 0, hi;
        if (al / bh == ah / bl)
        {
            // the quotient is known
            u64 q = al / bh;
            if (!rem) return cint(w, sa * sB < 0 ? 0 - q : q);
            Val ma = magnitude(a, sa), mb = magnitude(b, sB), r = iadd(ma, imulc(mb, q), true);
            if (!r.c)
            {
                r.hi = std::min(r.hi, std::min(ah, bh - 1));
                finish(r);
            }
            return sa < 0 ? iadd(cint(w, 0), r, true) : r;
        }
        if (!rem)
        {
            lo = al / bh;
            hi = ah / bl;
        }
        else
            hi = std::min(ah, bh - 1);
        numHi[{ka, kb}] = ah;
        remHi[{ka, kb}] = std::min(ah, bh - 1);
        return signedFrom(derived(dt, 64, lo, hi), rem ? sa : sa * sB, w);
    }
    // q = n / d, then q * d is n less the remainder
    struct Mult
    {
        u64 ka = 0, kb = 0;
        int sg = 0;  // sign of the numerator
        bool exactS = false, exactU = false;  // no overflow
    };
    bool isDerived(const Val &v, int op, TermKey &k, int &sg)
    {
        if (v.kind != Val::INT || v.c || v.lsym < DER || v.lk != 0) return false;
        k = terms[v.lsym - DER];
        if (k.op != T_BIN + op) return false;
        sg = v.la == 1 ? 1 : v.la == mask(v.w) ? -1 : 0;
        return sg && v.w > 1;
    }
    bool sameMath(const Val &v, u64 key, int &sg)
    {
        int t = termOf(v);
        if (t < 0) return false;
        Bit s = bitOf(v, v.w - 1);
        if (isC(s) && s && mathKey(t, true) == key)
        {
            sg = -1;
            return true;
        }
        sg = 1;
        return mathKey(t, false) == key;
    }
    bool multiple(const Val &x, const Val &y, Mult &m)
    {
        for (int i = 0; i < 2; ++i)
        {
            const Val &q = i ? y : x, &d = i ? x : y;
            TermKey k;
            int sq, sd;
            if (!isDerived(q, 91, k, sq) || !sameMath(d, k.b, sd)) continue;
            auto it = numHi.find({k.a, k.b});
            if (it == numHi.end()) continue;
            m.ka = k.a;
            m.kb = k.b;
            m.sg = sq * sd;
            // the magnitude of q*d is at most that of n
            u64 half = 1ull << (q.w - 1), ph = symInfo(q.lsym).hi;
            m.exactS = it->second < half + (m.sg < 0) && ph < half + (sq < 0);
            m.exactU = m.sg > 0 && sq > 0 && it->second <= mask(q.w);
            return true;
        }
        return false;
    }
    bool numeratorFits(const Val &x, bool sg)
    {
        if (x.lsym < DER) return false;
        auto it = numHi.find({terms[x.lsym - DER].a, terms[x.lsym - DER].b});
        return it != numHi.end() && it->second <= (sg ? (1ull << (x.w - 1)) - (x.la == 1) : mask(x.w));
    }
    Val multipleVal(const Mult &m, unsigned w)
    {
        return signedFrom(derived(mkTerm(T_BIN + 92, 64, m.ka, m.kb), 64, 0, numHi[{m.ka, m.kb}]), m.sg, w);
    }
    // n - (n / d) * d
    bool remainder(const Val &n, const Val &x, Val &r)
    {
        TermKey k;
        int sx, sn;
        if (!isDerived(x, 92, k, sx) || !sameMath(n, k.a, sn) || sn != sx) return false;
        u64 hi = ~0ull;
        auto it = remHi.find({k.a, k.b});
        if (it != remHi.end()) hi = it->second;
        r = signedFrom(derived(mkTerm(T_BIN + 90, 64, k.a, k.b), 64, 0, hi), sn, n.w);
        return true;
    }
    static bool isPow2(u64 x) { return x && !(x & (x - 1)); }
    Val trunc(const Val &a, unsigned w)
    {
        if (a.c)
        {
            Val v = cint(w, a.cv);
            return v;
        }
        if (w > 64) err("wide");
        std::vector<Bit> o(w);
        for (unsigned i = 0; i < w; ++i) o[i] = bitOf(a, i);
        int t = termOf(a);
        if (t >= 0)
        {
            // trunc(zext/sext x) back to x's width or below
            TermKey k = terms[t];
            if ((k.op == T_ZEXT || k.op == T_SEXT) && terms[k.a].w == w)
                t = (int)k.a;
            else if ((k.op == T_ZEXT || k.op == T_SEXT) && terms[k.a].w > w)
                t = mkTerm(T_TRUNC, w, k.a);
            else
                t = mkTerm(T_TRUNC, w, t);
        }
        Val r = fromBits(w, std::move(o), t);
        if (r.c) return r;
        u64 lo, hi;
        range(a, lo, hi);
        if (hi <= mask(w))
        {
            r.lo = lo;
            r.hi = hi;
        }
        if (a.lsym >= 0)
        {
            r.lsym = a.lsym;
            r.la = a.la & mask(w);
            r.lk = a.lk & mask(w);
            if (r.la == 0) return cint(w, r.lk);
        }
        finish(r);
        return r;
    }
    Val zext(const Val &a, unsigned w)
    {
        if (a.c) return cint(w, a.cv);
        if (w > 64) err("wide zext");
        std::vector<Bit> o(w, 0);
        for (unsigned i = 0; i < a.w; ++i) o[i] = bitOf(a, i);
        int t = termOf(a);
        if (t >= 0) t = mkTerm(T_ZEXT, w, terms[t].op == T_ZEXT ? terms[t].a : (u64)t);
        Val r = fromBits(w, std::move(o), t);
        range(a, r.lo, r.hi);
        if (a.lsym >= 0)
        {
            // exact only when a*s+k does not wrap at the narrow width
            SymInfo i = symInfo(a.lsym);
            u64 start = (a.la * i.lo + a.lk) & mask(a.w);
            u128 end = (u128)start + (u128)a.la * (i.hi - i.lo);
            if (end <= mask(a.w))
            {
                r.lsym = a.lsym;
                r.la = a.la;
                r.lk = (start - a.la * i.lo) & mask(w);
            }
        }
        finish(r);
        return r;
    }
    Val sext(const Val &a, unsigned w)
    {
        Bit s = bitOf(a, a.w - 1);
        if (a.c)
        {
            u64 v = a.cv;
            if (s == 1) v |= ~mask(a.w);
            return cint(w, v);
        }
        if (s == 0)
        {
            Val r = zext(a, w);
            return r;
        }
        if (w > 64) err("wide sext");
        std::vector<Bit> o(w, s);
        for (unsigned i = 0; i < a.w; ++i) o[i] = bitOf(a, i);
        int t = termOf(a);
        if (t >= 0) t = mkTerm(T_SEXT, w, terms[t].op == T_SEXT ? terms[t].a : (u64)t);
        Val r = fromBits(w, std::move(o), t);
        if (r.c) return r;
        if (s == 1)
        {
            u64 lo, hi;
            range(a, lo, hi);
            r.lo = lo | (mask(w) & ~mask(a.w));
            r.hi = hi | (mask(w) & ~mask(a.w));
        }
        if (a.lsym >= 0)
        {
            // exact only when la*s+lk stays inside the signed range of a
            SymInfo i = symInfo(a.lsym);
            __int128 half = (__int128)1 << (a.w - 1);
            auto sg = [&](u64 v) { return (__int128)(v & mask(a.w)) - ((v >> (a.w - 1) & 1) ? 2 * half : 0); };
            __int128 la = sg(a.la), start = sg(a.la * i.lo + a.lk);
            u64 span = i.hi - i.lo;
            bool small = span <= (1ull << 62) && (la < 0 ? -la : la) <= ((__int128)1 << 62);
            __int128 end = small ? start + la * (__int128)span : 0;
            if (small && end >= -half && end < half)
            {
                r.lsym = a.lsym;
                r.la = (u64)la & mask(w);
                r.lk = ((u64)start - (u64)la * i.lo) & mask(w);
            }
        }
        finish(r);
        return r;
    }

    // -------------------------------------------------------------- comparison
    Bit boundary(const Val &v, u64 c, bool isEq, bool isLe)
    {
        // v affine in one symbol, compared with constant c: find the split
        SymInfo i = symInfo(v.lsym);
        u64 m = mask(v.w);
        auto inside = [&](u64 t) { return t > i.lo && t <= i.hi; };
        if (v.la == 1 && i.w == v.w)
        {
            u64 w0 = (0 - v.lk) & m;           // v == 0 here
            u64 t1 = (c - v.lk) & m;           // v == c here
            u64 t2 = (c + 1 - v.lk) & m;       // v == c+1
            if (isEq)
            {
                if (inside(t1)) return topOf({2, v.lsym, 0, t1});
                if (inside(t2)) return topOf({2, v.lsym, 0, t2});
            }
            else
            {
                u64 t = isLe ? t2 : t1;
                if (inside(t)) return topOf({2, v.lsym, 0, t});
                if (inside(w0)) return topOf({2, v.lsym, 0, w0});
            }
            return 0;
        }
        if (v.la != 0 && v.la != 1 && i.w == v.w)
        {
            u64 start = (v.la * i.lo + v.lk) & m;
            // negative coefficient: treat as falling
            u64 na = (0 - v.la) & m;
            if (na < v.la)
            {
                // v = start - na*(s-lo)
                u128 span = (u128)na * (i.hi - i.lo);
                if (span <= start)
                {
                    // decreasing without wrap: v <= c  <=> s-lo >= ceil((start-c)/na)
                    u64 cc = isEq || isLe ? c : (c ? c - 1 : 0);
                    if (start > cc)
                    {
                        u64 t = i.lo + (start - cc + na - 1) / na;
                        if (inside(t)) return topOf({2, v.lsym, 0, t});
                    }
                    if (isEq && start >= c)
                    {
                        u64 t = i.lo + (start - c) / na + 1;
                        if (inside(t)) return topOf({2, v.lsym, 0, t});
                    }
                }
                else
                {
                    u64 t = i.lo + start / na + 1;
                    if (inside(t)) return topOf({2, v.lsym, 0, t});
                }
            }
            else
            {
                u128 span = (u128)v.la * (i.hi - i.lo);
                if ((u128)start + span <= m)
                {
                    // increasing: first s with v >= c (or > c)
                    u64 cc = isLe ? c + 1 : c;
                    if (cc > start && (isLe ? c != m : true))
                    {
                        u64 t = i.lo + (cc - start + v.la - 1) / v.la;
                        if (inside(t)) return topOf({2, v.lsym, 0, t});
                    }
                    if (isEq && c >= start)
                    {
                        u64 t = i.lo + (c - start) / v.la + 1;
                        if (inside(t)) return topOf({2, v.lsym, 0, t});
                    }
                }
                else
                {
                    u64 t = i.lo + (m - start) / v.la + 1;
                    if (inside(t)) return topOf({2, v.lsym, 0, t});
                }
            }
            if (i.lo < i.hi) return topOf({2, v.lsym, 0, i.lo + (i.hi - i.lo) / 2 + 1});
        }
        return 0;
    }
    Bit cmpEq(const Val &a, const Val &b)
    {
        if (a.c && b.c) return a.cv == b.cv;
        u64 al, ah, bl, bh;
        range(a, al, ah);
        range(b, bl, bh);
        if (ah < bl || bh < al) return 0;
        if (a.lsym >= 0 && a.lsym == b.lsym && a.la == b.la) return a.lk == b.lk;
        if (a.term >= 0 && a.term == b.term) return 1;
        Bit res = 1, und = 0;
        int n = 0;
        for (int i = (int)a.w - 1; i >= 0; --i)
        {
            Bit x = bitOf(a, i), y = bitOf(b, i);
            if (x == UNDEFB || y == UNDEFB)
            {
                und = UNDEFB;
                continue;
            }
            Bit d = xorB(x, y);
            if (d == 1) return 0;
            if (d == 0 && !isTop(x)) continue;
            if (isTop(x) || isTop(y))
            {
                // equal tops are not known equal
                Bit t = isTop(x) ? x : y;
                if (n == 0) res = t;
                ++n;
                continue;
            }
            if (n == 0) res = d;
            ++n;
        }
        if (und == UNDEFB) return UNDEFB;
        if (n == 0) return 1;
        if (n == 1 && isLit(res)) return notB(res);
        // prefer exact affine boundaries
        if (a.lsym >= 0 && b.c)
        {
            Bit t = boundary(a, b.cv, true, false);
            if (t) return t;
        }
        if (b.lsym >= 0 && a.c)
        {
            Bit t = boundary(b, a.cv, true, false);
            if (t) return t;
        }
        return blame1(res);
    }
    // a < b (or a <= b) unsigned
    Bit cmpLt(const Val &a, const Val &b, bool orEq)
    {
        if (a.c && b.c) return orEq ? a.cv <= b.cv : a.cv < b.cv;
        u64 al, ah, bl, bh;
        range(a, al, ah);
        range(b, bl, bh);
        if (orEq)
        {
            if (ah <= bl) return 1;
            if (al > bh) return 0;
        }
        else
        {
            if (ah < bl) return 1;
            if (al >= bh) return 0;
        }
        if (a.lsym >= 0 && a.lsym == b.lsym && a.la == b.la && a.lk == b.lk) return orEq;
        if (a.term >= 0 && a.term == b.term) return orEq;
        if (a.lsym >= 0 && b.c)
        {
            Bit t = boundary(a, b.cv, false, orEq);
            if (t) return t;
        }
        if (b.lsym >= 0 && a.c)
        {
            // c < v  <=> !(v <= c)
            Bit t = boundary(b, a.cv, false, !orEq);
            if (t) return t;
        }
        // same symbol, different offsets: a = s+k1, b = s+k2; truth changes where
        // either wraps
        if (a.lsym >= 0 && a.lsym == b.lsym && a.la == 1 && b.la == 1)
        {
            SymInfo i = symInfo(a.lsym);
            if (i.w == a.w)
            {
                u64 m = mask(a.w);
                u64 t1 = (0 - a.lk) & m, t2 = (0 - b.lk) & m;
                auto inside = [&](u64 t) { return t > i.lo && t <= i.hi; };
                if (inside(t1)) return topOf({2, a.lsym, 0, t1});
                if (inside(t2)) return topOf({2, a.lsym, 0, t2});
                // no wrap boundary inside: order of start points decides
                u64 x = (i.lo + a.lk) & m, y = (i.lo + b.lk) & m;
                return orEq ? x <= y : x < y;
            }
        }
        for (int i = (int)a.w - 1; i >= 0; --i)
        {
            Bit x = bitOf(a, i), y = bitOf(b, i);
            if (x == UNDEFB || y == UNDEFB) return UNDEFB;
            Bit d = xorB(x, y);
            if (d == 0 && !isTop(x)) continue;
            if (d == 1 && isC(x)) return x == 0;
            if (i == 0 && isLit(x) && isC(y)) return orEq ? (y ? 1 : notB(x)) : (y ? notB(x) : 0);
            if (i == 0 && isLit(y) && isC(x)) return orEq ? (x ? y : 1) : (x ? 0 : y);
            if (isTop(x)) return x;
            if (isTop(y)) return y;
            if (isLit(x)) return blame1(x);
            return blame1(y);
        }
        return orEq;
    }
    Val flipSign(const Val &a) { return bin(Instruction::Add, a, cint(a.w, 1ull << (a.w - 1))); }
    Bit icmp(CmpInst::Predicate p, Val a, Val b)
    {
        if (a.kind == Val::PTR || b.kind == Val::PTR)
        {
            toPtr(a);
            toPtr(b);
            return pcmp(p, a, b);
        }
        switch (p)
        {
            case CmpInst::ICMP_EQ: return cmpEq(a, b);
            case CmpInst::ICMP_NE: return notB(cmpEq(a, b));
            case CmpInst::ICMP_ULT: return cmpLt(a, b, false);
            case CmpInst::ICMP_ULE: return cmpLt(a, b, true);
            case CmpInst::ICMP_UGT: return cmpLt(b, a, false);
            case CmpInst::ICMP_UGE: return cmpLt(b, a, true);
            default: break;
        }
        Val x = flipSign(a), y = flipSign(b);
        switch (p)
        {
            case CmpInst::ICMP_SLT: return cmpLt(x, y, false);
            case CmpInst::ICMP_SLE: return cmpLt(x, y, true);
            case CmpInst::ICMP_SGT: return cmpLt(y, x, false);
            case CmpInst::ICMP_SGE: return cmpLt(y, x, true);
            default: err("predicate");
        }
    }
    // ---------------------------------------------------------------- pointers
    static Val mkPtr(int obj, const Val &off)
    {
        Val v = off;
        v.kind = Val::PTR;
        v.obj = obj;
        return v;
    }
    static Val nullPtr() { return mkPtr(-1, cint(64, 0)); }
    Val offOf(const Val &p)
    {
        Val v = p;
        v.kind = Val::INT;
        v.obj = -1;
        return v;
    }
    Val baseOf(int o)
    {
        if (!objs[o]) viol("use after lifetime end", "");
        Object &ob = *objs[o];
        if (!ob.symBase) return cint(64, ob.base);
        return symVal(ob.baseSym);
    }
    Val ptrToInt(const Val &p)
    {
        Val off = offOf(p);
        if (p.obj < 0) return off;
        Val r = iadd(baseOf(p.obj), off, false);
        r.obj = p.obj;
        return r;
    }
    Val intToPtr(const Val &v)
    {
        Val i = v;
        i.kind = Val::INT;
        if (v.obj >= 0)
        {
            Val plain = i;
            plain.obj = -1;
            Val off = iadd(plain, baseOf(v.obj), true);
            off.obj = -1;
            return mkPtr(v.obj, off);
        }
        i.obj = -1;
        if (i.c)
        {
            for (size_t k = 0; k < objs.size(); ++k)
                if (objs[k] && !objs[k]->symBase && i.cv >= objs[k]->base && i.cv <= objs[k]->base + objs[k]->size && objs[k]->base)
                    return mkPtr((int)k, cint(64, i.cv - objs[k]->base));
        }
        return mkPtr(-1, i);
    }
    void toPtr(Val &v)
    {
        if (v.kind == Val::INT) v = intToPtr(v);
    }
    Bit pcmp(CmpInst::Predicate p, const Val &a, const Val &b)
    {
        if (a.obj == b.obj)
        {
            Val x = offOf(a), y = offOf(b);
            if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) return icmp(p, x, y);
            if (a.obj < 0) return icmp(p, x, y);
            u64 al, ah, bl, bh;
            range(x, al, ah);
            range(y, bl, bh);
            if (ah < (1ull << 46) && bh < (1ull << 46)) return icmp(p, x, y);
        }
        else if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
        {
            // different objects, both in bounds (or null): different
            auto in = [&](const Val &v)
            {
                if (v.obj < 0) return v.c && v.cv < 4096;
                u64 l, h;
                range(offOf(v), l, h);
                return objs[v.obj] && h <= objs[v.obj]->size;
            };
            if (in(a) && in(b)) return p == CmpInst::ICMP_NE;
        }
        return icmp(p, dropProv(ptrToInt(a)), dropProv(ptrToInt(b)));
    }
    static Val dropProv(Val v)
    {
        v.obj = -1;
        return v;
    }

    // ------------------------------------------------------------------ memory
    int newObj(u64 size, u64 align, const std::string &name)
    {
        auto o = std::make_shared<Object>();
        o->size = size;
        if (align < 16) align = 16;
        nextAddr = (nextAddr + align - 1) & ~(align - 1);
        o->base = nextAddr;
        nextAddr += size + 64;
        o->name = name;
        o->cells.resize(size);
        objs.push_back(o);
        return (int)objs.size() - 1;
    }
    Object &wobj(int i)
    {
        if (objs[i].use_count() > 1) objs[i] = std::make_shared<Object>(*objs[i]);
        return *objs[i];
    }
    // resolves and bounds-checks; returns constant offset
    u64 access(const Val &p, u64 n, bool write, int &o)
    {
        if (p.kind != Val::PTR) err("not a pointer");
        o = p.obj;
        if (o < 0)
        {
            if (p.c && p.cv < 4096) viol("null dereference", "");
            if (!p.c) (void)0;
            viol("wild pointer access", "");
        }
        if (!objs[o]) viol("use after lifetime end", "");
        Object &ob = *objs[o];
        if (!ob.live) viol("use after lifetime end", ob.name);
        if (ob.fn) viol("access to a function as data", "");
        if (write && ob.ro) viol("write to constant object", ob.name);
        Val off = offOf(p);
        if (off.c)
        {
            if (off.cv > ob.size || ob.size - off.cv < n)
                viol(write ? "out of bounds write" : "out of bounds read",
                     ob.name + " offset " + std::to_string((int64_t)off.cv) + " size " + std::to_string(n) + " of " + std::to_string(ob.size));
            return off.cv;
        }
        u64 lo, hi;
        range(off, lo, hi);
        if (lo > ob.size || ob.size - lo < n)
            viol(write ? "out of bounds write" : "out of bounds read", ob.name + " offset >= " + std::to_string(lo));
        // decide bounds first, then concretise
        if (hi + n > ob.size || hi + n < hi)
        {
            Bit t = cmpLt(off, cint(64, ob.size - n), true);
            if (isTop(t)) throw SplitReq{atomOf(t)};
            if (isLit(t)) throw SplitReq{{0, litOf(t), 0, 0}};
        }
        throw SplitReq{splitAtomFor(off)};
    }
    // the bytes of a huge object that are kept end here, and so does the path
    void inWindow(const Object &ob, u64 off, u64 n)
    {
        if (ob.huge && (off > ob.cells.size() || ob.cells.size() - off < n)) throw PathEnd{"past the window"};
    }
    // how many of n bytes from off are kept
    static u64 kept(const Object &ob, u64 off, u64 n)
    {
        if (!ob.huge) return n;
        if (off >= ob.cells.size()) throw PathEnd{"past the window"};
        return std::min<u64>(n, ob.cells.size() - off);
    }
    // where the i-th byte by significance of an n byte integer is
    static u64 at(u64 off, u64 n, u64 i) { return off + (DL->isBigEndian() ? n - 1 - i : i); }
    void storeVal(const Val &p, const Val &v, u64 n)
    {
        if (v.kind == Val::AGG)
        {
            err("aggregate store");
        }
        int o;
        u64 off = access(p, n, true, o);
        if (objs[o]->opaque) touched("writes into");
        inWindow(*objs[o], off, n);
        Object &ob = wobj(o);
        if (v.parts && v.kind == Val::INT && !v.c && v.parts->bytes.size() == n && v.w == 8 * n)
        {
            for (u64 i = 0; i < n; ++i) ob.cells[at(off, n, i)] = v.parts->bytes[i];
            return;
        }
        auto vp = std::make_shared<Val>(v);
        vp->parts.reset();
        for (u64 i = 0; i < n; ++i) ob.cells[at(off, n, i)] = {vp, (int)i};
    }
    void byteBits(const Cell &c, Bit *out)
    {
        if (!c.v)
        {
            for (int i = 0; i < 8; ++i) out[i] = UNDEFB;
            return;
        }
        Val iv = c.v->kind == Val::PTR ? dropProv(ptrToInt(*c.v)) : *c.v;
        for (int i = 0; i < 8; ++i)
        {
            unsigned k = c.idx * 8 + i;
            out[i] = k < iv.w ? bitOf(iv, k) : 0;
        }
    }
    Val loadVal(const Val &p, Type *ty)
    {
        u64 n = DL->getTypeStoreSize(ty);
        int o;
        u64 off = access(p, n, false, o);
        Object &ob = *objs[o];
        if (ob.opaque) touched("reads from");
        inWindow(ob, off, n);
        const Cell &c0 = ob.cells[at(off, n, 0)];
        bool isP = ty->isPointerTy();
        unsigned w = isP ? 64 : ty->isIntegerTy() ? ty->getIntegerBitWidth() : (unsigned)(n * 8);
        bool same = c0.v && c0.idx == 0;
        for (u64 i = 1; i < n && same; ++i)
            if (ob.cells[at(off, n, i)].v != c0.v || ob.cells[at(off, n, i)].idx != (int)i) same = false;
        if (same)
        {
            const Val &v = *c0.v;
            unsigned sw = v.w;
            if (sw == w || (sw < w && (sw + 7) / 8 == n && v.kind == Val::INT))
            {
                Val r = v;
                if (isP)
                    toPtr(r);
                else if (r.kind == Val::PTR)
                    r = ptrToInt(r);
                if (r.w < w) r = zext(r, w);
                renorm(r);
                return r;
            }
            if (v.kind == Val::INT && sw > w) return trunc(v, w);
        }
        // compose
        std::vector<Bit> bits(w);
        bool anyU = false, allU = true;
        int prov = -1;
        for (u64 i = 0; i < n; ++i)
        {
            Bit bb[8];
            byteBits(ob.cells[at(off, n, i)], bb);
            if (ob.cells[at(off, n, i)].v && ob.cells[at(off, n, i)].v->obj >= 0) prov = ob.cells[at(off, n, i)].v->obj;
            for (int k = 0; k < 8; ++k)
            {
                if (i * 8 + k < w) bits[i * 8 + k] = bb[k];
                if (bb[k] == UNDEFB)
                    anyU = true;
                else
                    allU = false;
            }
        }
        (void)anyU;
        (void)allU;
        int t = -1;
        {
            // structural term for the concatenation
            bool ok = n <= 8;
            int acc = 0;
            for (u64 i = 0; i < n && ok; ++i)
            {
                const Cell &c = ob.cells[at(off, n, i)];
                if (!c.v || c.v->kind != Val::INT)
                {
                    ok = false;
                    break;
                }
                int ct = termOf(*c.v);
                if (ct < 0)
                {
                    ok = false;
                    break;
                }
                int bt = terms[ct].w == 8 ? ct : mkTerm(T_BYTE, 8, ct, c.idx);
                acc = i == 0 ? bt : mkTerm(T_JOIN, (unsigned)(8 * (i + 1)), acc, bt);
            }
            if (ok) t = acc;
        }
        Val r = fromBits(w, std::move(bits), t);
        r.obj = prov;
        if (!r.c) finish(r);
        if (isP)
            toPtr(r);
        else
        {
            r.obj = -1;
            if (!r.c && w == 8 * n && n > 1)
            {
                auto ps = std::make_shared<Parts>();
                for (u64 i = 0; i < n; ++i) ps->bytes.push_back(ob.cells[at(off, n, i)]);
                r.parts = ps;
            }
        }
        return r;
    }
    void renorm(Val &v)
    {
        if (v.c || v.kind == Val::AGG || v.kind == Val::NONE) return;
        Val t = v;
        t.kind = Val::INT;
        finish(t);
        if (t.c)
        {
            t.obj = v.obj;
            t.kind = v.kind;
            v = t;
        }
    }
    void copyMem(const Val &d, const Val &s, u64 n)
    {
        if (!n) return;
        int od, os;
        u64 fd = access(d, n, true, od);
        u64 fs = access(s, n, false, os);
        if (objs[od]->opaque || objs[os]->opaque) touched(objs[od]->opaque ? "writes into" : "reads from");
        if (objs[od]->huge || objs[os]->huge)
        {
            // what is not kept on the source side is an unknown byte
            u64 w = kept(*objs[od], fd, n), r = kept(*objs[os], fs, n);
            if (r < w) throw PathEnd{"past the window"};
            n = w;
        }
        std::vector<Cell> tmp(objs[os]->cells.begin() + fs, objs[os]->cells.begin() + fs + n);
        Object &ob = wobj(od);
        std::copy(tmp.begin(), tmp.end(), ob.cells.begin() + fd);
    }
    bool overlap(const Val &d, const Val &s, u64 n)
    {
        if (d.obj != s.obj || !n) return false;
        Val x = offOf(d), y = offOf(s);
        if (!x.c || !y.c) return false;
        u64 a = x.cv, b = y.cv;
        return a != b && a < b + n && b < a + n;
    }
    void setMem(const Val &d, const Val &byte, u64 n)
    {
        if (!n) return;
        int o;
        u64 f = access(d, n, true, o);
        if (objs[o]->opaque) touched("writes into");
        VP vp = std::make_shared<Val>(byte);
        Object &ob = wobj(o);
        n = kept(ob, f, n);
        for (u64 i = 0; i < n; ++i) ob.cells[f + i] = {vp, 0};
    }

    // --------------------------------------------------------------- constants
    int globalObj(const GlobalValue *g)
    {
        auto it = globals.find(g);
        if (it != globals.end()) return it->second;
        if (auto *ga = dyn_cast<GlobalAlias>(g))
        {
            auto *t = dyn_cast<GlobalValue>(ga->getAliasee()->stripPointerCasts());
            int o = globalObj(t);
            globals[g] = o;
            return o;
        }
        if (auto *f = dyn_cast<Function>(g))
        {
            int o = newObj(16, 16, f->getName().str());
            wobj(o).fn = f;
            globals[g] = o;
            return o;
        }
        auto *gv = cast<GlobalVariable>(g);
        u64 sz = DL->getTypeAllocSize(gv->getValueType());
        int o = newObj(sz, gv->getAlign() ? gv->getAlign()->value() : 16, gv->getName().str());
        globals[g] = o;
        if (gv->hasInitializer())
        {
            initConst(o, 0, gv->getInitializer());
            if (gv->isConstant()) wobj(o).ro = true;
        }
        else
        {
            wobj(o).opaque = false;
        }
        return o;
    }
    void initConst(int o, u64 off, const Constant *c)
    {
        Type *ty = c->getType();
        if (isa<UndefValue>(c)) return;
        if (isa<ConstantAggregateZero>(c))
        {
            VP z = std::make_shared<Val>(cint(8, 0));
            Object &ob = wobj(o);
            u64 n = DL->getTypeAllocSize(ty);
            for (u64 i = 0; i < n; ++i) ob.cells[off + i] = {z, 0};
            return;
        }
        if (auto *cs = dyn_cast<ConstantStruct>(c))
        {
            auto *sl = DL->getStructLayout(cast<StructType>(ty));
            for (unsigned i = 0; i < cs->getNumOperands(); ++i)
                initConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
            return;
        }
        if (auto *ca = dyn_cast<ConstantArray>(c))
        {
            u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(o, off + i * es, ca->getOperand(i));
            return;
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c))
        {
            u64 es = cd->getElementByteSize();
            for (unsigned i = 0; i < cd->getNumElements(); ++i) initConst(o, off + i * es, cd->getElementAsConstant(i));
            return;
        }
        if (c->getType()->isFloatingPointTy()) return;
        Val v = constVal(c);
        u64 n = DL->getTypeStoreSize(ty);
        VP vp = std::make_shared<Val>(v);
        Object &ob = wobj(o);
        for (u64 i = 0; i < n; ++i) ob.cells[at(off, n, i)] = {vp, (int)i};
    }
    Val undefVal(Type *ty)
    {
        Val r;
        if (ty->isIntegerTy() && ty->getIntegerBitWidth() <= 64)
        {
            unsigned w = ty->getIntegerBitWidth();
            r = fromBits(w, std::vector<Bit>(w, UNDEFB), -1);
            return r;
        }
        if (ty->isPointerTy())
        {
            r = fromBits(64, std::vector<Bit>(64, UNDEFB), -1);
            r.kind = Val::PTR;
            return r;
        }
        if (ty->isStructTy() || ty->isArrayTy())
        {
            r.kind = Val::AGG;
            r.agg = std::make_shared<std::vector<Val>>();
            unsigned n = ty->isStructTy() ? ty->getStructNumElements() : (unsigned)ty->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i)
                r.agg->push_back(undefVal(ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType()));
            return r;
        }
        return r;
    }
    Val constVal(const Constant *c)
    {
        if (auto *ci = dyn_cast<ConstantInt>(c))
        {
            if (ci->getBitWidth() > 64) err("wide constant");
            return cint(ci->getBitWidth(), ci->getZExtValue());
        }
        if (isa<ConstantPointerNull>(c)) return nullPtr();
        if (isa<UndefValue>(c)) return undefVal(c->getType());
        if (auto *gv = dyn_cast<GlobalValue>(c)) return mkPtr(globalObj(gv), cint(64, 0));
        if (auto *ce = dyn_cast<ConstantExpr>(c))
        {
            switch (ce->getOpcode())
            {
                case Instruction::BitCast:
                case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
                case Instruction::PtrToInt:
                {
                    Val v = ptrToInt(constVal(ce->getOperand(0)));
                    unsigned w = ce->getType()->getIntegerBitWidth();
                    return w < 64 ? trunc(v, w) : v;
                }
                case Instruction::IntToPtr: return intToPtr(constVal(ce->getOperand(0)));
                case Instruction::GetElementPtr:
                {
                    APInt off(64, 0);
                    auto *g = cast<GEPOperator>(ce);
                    if (!g->accumulateConstantOffset(*DL, off)) err("const gep");
                    Val p = constVal(ce->getOperand(0));
                    return mkPtr(p.obj, iadd(offOf(p), cint(64, off.getZExtValue()), false));
                }
                case Instruction::Sub:
                case Instruction::Add:
                case Instruction::Trunc:
                {
                    if (ce->getOpcode() == Instruction::Trunc) return trunc(constVal(ce->getOperand(0)), ce->getType()->getIntegerBitWidth());
                    return bin(ce->getOpcode(), dropProv(constVal(ce->getOperand(0))), dropProv(constVal(ce->getOperand(1))));
                }
                default: err("constant expression");
            }
        }
        if (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c))
        {
            Val r;
            r.kind = Val::AGG;
            r.agg = std::make_shared<std::vector<Val>>();
            unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements()
                         : c->getType()->isArrayTy() ? (unsigned)c->getType()->getArrayNumElements()
                                                     : 0;
            for (unsigned i = 0; i < n; ++i) r.agg->push_back(constVal(c->getAggregateElement(i)));
            return r;
        }
        if (isa<ConstantFP>(c))
        {
            APInt a = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt();
            if (a.getBitWidth() <= 64) return cint(a.getBitWidth(), a.getZExtValue());
        }
        Val r;
        return r;
    }
    Val get(const Value *v)
    {
        if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
        Frame &f = stack.back();
        auto it = f.fi->slot.find(v);
        if (it == f.fi->slot.end()) err("no slot");
        return f.regs[it->second];
    }
    void set(const Value *v, const Val &x)
    {
        Frame &f = stack.back();
        f.regs[f.fi->slot.at(v)] = x;
    }
    bool decide(const Val &v)
    {
        if (v.c) return v.cv & 1;
        Bit b = bitOf(v, 0);
        if (isC(b)) return b;
        if (b == UNDEFB) viol("branch on uninitialised value", "");
        if (isLit(b)) throw SplitReq{{0, litOf(b), 0, 0}};
        throw SplitReq{atomOf(b)};
    }
    Val boolVal(Bit b)
    {
        if (isC(b)) return cint(1, b);
        return fromBits(1, {b}, -1);
    }

    // ------------------------------------------------------------------- frames
    void pushFrame(const Function *f, std::vector<Val> args)
    {
        if (stack.size() > 600) err("call depth");
        ST.fns.insert(f);
        Frame fr;
        fr.f = f;
        fr.fi = &fnInfo(f);
        fr.regs.resize(fr.fi->n);
        unsigned i = 0;
        for (auto &a: f->args())
        {
            fr.regs[fr.fi->slot.at(&a)] = args[i];
            if (a.hasByValAttr())
            {
                u64 sz = DL->getTypeAllocSize(a.getParamByValType());
                int o = newObj(sz, 16, "byval");
                Val np = mkPtr(o, cint(64, 0));
                copyMem(np, args[i], sz);
                fr.regs[fr.fi->slot.at(&a)] = np;
                fr.allocas.push_back(o);
            }
            ++i;
        }
        for (; i < args.size(); ++i) fr.varargs.push_back(args[i]);
        fr.bb = &f->getEntryBlock();
        fr.ip = fr.bb->begin();
        stack.push_back(std::move(fr));
    }
    void gone(int o)
    {
        const Object &ob = *objs[o];
        for (u64 i = ob.secLo; i < ob.secHi; ++i)
        {
            Bit b[8];
            byteBits(ob.cells[i], b);
            for (int k = 0; k < 8; ++k)
                if (b[k] != 0) viol("a secret byte is still in memory when its buffer dies", "byte " + std::to_string(i - ob.secLo) + " of " + std::to_string(ob.secHi - ob.secLo));
        }
        if (ob.secHi > ob.secLo) ++ST.checks["every secret byte is zero when its buffer dies"];
    }
    void popFrame()
    {
        for (int o: stack.back().allocas)
        {
            gone(o);
            auto n = std::make_shared<Object>();
            n->size = objs[o]->size;
            n->base = objs[o]->base;
            n->live = false;
            n->name = objs[o]->name;
            objs[o] = n;
        }
        stack.pop_back();
    }
    void jump(const BasicBlock *to)
    {
        Frame &f = stack.back();
        f.prev = f.bb;
        f.bb = to;
        f.ip = to->begin();
        // phis
        std::vector<std::pair<const Value *, Val>> ph;
        while (auto *p = dyn_cast<PHINode>(&*f.ip))
        {
            ph.push_back({p, get(p->getIncomingValueForBlock(f.prev))});
            ++f.ip;
        }
        for (auto &x: ph) set(x.first, x.second);
    }
    void ret(const Val &v)
    {
        popFrame();
        if (stack.empty()) return;
        Frame &f = stack.back();
        const Instruction *I = &*f.ip;
        if (!I->getType()->isVoidTy()) set(I, v);
        advanceCall(I);
    }
    void advanceCall(const Instruction *I)
    {
        Frame &f = stack.back();
        if (auto *inv = dyn_cast<InvokeInst>(I))
            jump(inv->getNormalDest());
        else
            ++f.ip;
    }
    // unwinding
    void unwind()
    {
        throwing = 1;
        for (;;)
        {
            if (stack.empty()) throw PathEnd{"unwound"};
            const Instruction *I = &*stack.back().ip;
            if (auto *inv = dyn_cast<InvokeInst>(I))
            {
                jump(inv->getUnwindDest());
                return;
            }
            if (stack.back().f->doesNotThrow() && isa<CallInst>(I)) viol("exception leaves a noexcept function", "");
            popFrame();
            if (stack.empty()) throw PathEnd{"unwound"};
        }
    }
    std::string cstr(const Val &p)
    {
        std::string r;
        if (p.kind != Val::PTR || p.obj < 0 || !p.c) return r;
        Object &o = *objs[p.obj];
        for (u64 i = p.cv; i < o.size; ++i)
        {
            Bit b[8];
            byteBits(o.cells[i], b);
            int ch = 0;
            for (int k = 0; k < 8; ++k)
            {
                if (!isC(b[k])) return r;
                ch |= b[k] << k;
            }
            if (!ch) break;
            r += (char)ch;
        }
        return r;
    }
    void doCheck(const Val &c, const std::string &label)
    {
        if (!decide(c)) viol(label, "");
        ++ST.checks[label];
    }
    // returns true when handled
    bool external(const CallBase *cb, const Function *f, std::vector<Val> &a, Val &r);
    void call(const CallBase *cb);
    void step();
    std::string serialize();
    void runGlobalCtors();
};

#include "irai_exec.inc"
