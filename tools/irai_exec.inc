// Instruction semantics, models of external functions, cut-point state
// comparison and the exploration of input cells.
#include <llvm/Demangle/Demangle.h>

static std::string demangled(const Function *f)
{
    return llvm::demangle(f->getName().str());
}
static u64 pow2mask(unsigned k) { return k >= 64 ? ~0ull : (1ull << k) - 1; }

static bool startsWith(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

bool Machine::external(const CallBase *cb, const Function *f, std::vector<Val> &a, Val &r)
{
    std::string n = f->getName().str();
    auto width = [&]() -> unsigned { return cb->getType()->getIntegerBitWidth(); };
    auto pint = [&](const Val &v) -> Val
    {
        if (v.kind == Val::PTR) return ptrToInt(v);
        return v;
    };
    if (f->isIntrinsic())
    {
        switch (f->getIntrinsicID())
        {
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::lifetime_start:
            case Intrinsic::assume:
            case Intrinsic::donothing:
            case Intrinsic::prefetch:
            case Intrinsic::vaend:
            case Intrinsic::invariant_start:
            case Intrinsic::experimental_noalias_scope_decl: return true;
            case Intrinsic::lifetime_end:
                if (a[1].kind == Val::PTR && a[1].obj >= 0 && objs[a[1].obj] && objs[a[1].obj]->secHi)
                {
                    gone(a[1].obj);
                    wobj(a[1].obj).secLo = wobj(a[1].obj).secHi = 0;
                }
                return true;
            case Intrinsic::threadlocal_address:  // one thread
                r = a[0];
                return true;
            case Intrinsic::vastart:
            {
                // every register slot used up, all in the overflow area, which
                // has 8 bytes for each
                auto va = stack.back().varargs;
                int o = newObj(8 * va.size() + 8, 16, "varargs");
                for (size_t i = 0; i < va.size(); ++i)
                {
                    u64 n = va[i].kind == Val::PTR ? 8 : (va[i].w + 7) / 8;
                    storeVal(mkPtr(o, cint(64, 8 * i + (DL->isBigEndian() ? 8 - n : 0))), va[i], n);
                }
                auto field = [&](u64 off, const Val &v, u64 n) { storeVal(mkPtr(a[0].obj, iadd(offOf(a[0]), cint(64, off), false)), v, n); };
                Triple tt(M->getTargetTriple());
                if (tt.isOSWindows())
                    field(0, mkPtr(o, cint(64, 0)), 8);
                else if (tt.isSystemZ())
                {
                    field(0, cint(64, 5), 8);
                    field(8, cint(64, 4), 8);
                    field(16, mkPtr(o, cint(64, 0)), 8);
                }
                else
                {
                    field(0, cint(32, 48), 4);
                    field(4, cint(32, 176), 4);
                    field(8, mkPtr(o, cint(64, 0)), 8);
                }
                return true;
            }
            case Intrinsic::expect:
            case Intrinsic::expect_with_probability:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group: r = a[0]; return true;
            case Intrinsic::eh_typeid_for:
            {
                // the user may throw anything
                auto it = exceptionIs.find(cb->getArgOperand(0)->stripPointerCasts());
                if (it == exceptionIs.end()) throw ForkReq{cb, 2, "exception of the type of this handler"};
                r = cint(32, it->second);
                return true;
            }
            case Intrinsic::is_constant: r = cint(1, 0); return true;
            case Intrinsic::objectsize: r = cint(width(), ~0ull); return true;
            case Intrinsic::trap:
            case Intrinsic::debugtrap: viol("undefined behaviour", "trap");
            case Intrinsic::ubsantrap:
                viol("undefined behaviour", "sanitizer check " + std::to_string(a[0].cv));
            case Intrinsic::memcpy:
            case Intrinsic::memmove:
            case Intrinsic::memcpy_inline:
            {
                Val len = a[2];
                u64 k = needConst(len, "length");
                if (f->getIntrinsicID() != Intrinsic::memmove && overlap(a[0], a[1], k))
                    viol("undefined behaviour", "memcpy of overlapping ranges");
                copyMem(a[0], a[1], k);
                return true;
            }
            case Intrinsic::memset:
            case Intrinsic::memset_inline: setMem(a[0], a[1], needConst(a[2], "length")); return true;
            case Intrinsic::ctlz:
            case Intrinsic::cttz:
            {
                unsigned w = a[0].w;
                bool lz = f->getIntrinsicID() == Intrinsic::ctlz;
                for (unsigned i = 0; i < w; ++i)
                {
                    Bit b = bitOf(a[0], lz ? w - 1 - i : i);
                    if (decide(boolVal(b)))
                    {
                        r = cint(w, i);
                        return true;
                    }
                }
                if (a.size() > 1 && a[1].c && a[1].cv) viol("undefined behaviour", "zero count of zero");
                r = cint(w, w);
                return true;
            }
            case Intrinsic::ctpop:
            {
                unsigned w = a[0].w;
                Val s = cint(w, 0);
                for (unsigned i = 0; i < w; ++i)
                    if (decide(boolVal(bitOf(a[0], i)))) s = cint(w, s.cv + 1);
                r = s;
                return true;
            }
            case Intrinsic::abs:
            {
                if (decide(boolVal(bitOf(a[0], a[0].w - 1))))
                    r = bin(Instruction::Sub, cint(a[0].w, 0), a[0]);
                else
                    r = a[0];
                return true;
            }
            case Intrinsic::umin: r = decide(boolVal(icmp(CmpInst::ICMP_ULT, a[0], a[1]))) ? a[0] : a[1]; return true;
            case Intrinsic::umax: r = decide(boolVal(icmp(CmpInst::ICMP_UGT, a[0], a[1]))) ? a[0] : a[1]; return true;
            case Intrinsic::smin: r = decide(boolVal(icmp(CmpInst::ICMP_SLT, a[0], a[1]))) ? a[0] : a[1]; return true;
            case Intrinsic::smax: r = decide(boolVal(icmp(CmpInst::ICMP_SGT, a[0], a[1]))) ? a[0] : a[1]; return true;
            case Intrinsic::bswap:
            {
                unsigned w = a[0].w;
                auto b = bitsOf(a[0]);
                std::vector<Bit> o(w);
                for (unsigned i = 0; i < w; ++i) o[i] = b[(w / 8 - 1 - i / 8) * 8 + i % 8];
                r = fromBits(w, std::move(o), -1);
                return true;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr:
            {
                unsigned w = a[0].w;
                unsigned k = (unsigned)(needConst(a[2], "shift") % w);
                bool l = f->getIntrinsicID() == Intrinsic::fshl;
                auto hi = bitsOf(a[0]), lo = bitsOf(a[1]);
                std::vector<Bit> cat(2 * w), o(w);
                for (unsigned i = 0; i < w; ++i) cat[i] = lo[i], cat[w + i] = hi[i];
                for (unsigned i = 0; i < w; ++i) o[i] = cat[l ? (w - k + i) : (k + i)];
                r = fromBits(w, std::move(o), -1);
                return true;
            }
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::umul_with_overflow:
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::smul_with_overflow:
            {
                unsigned w = a[0].w;
                auto id = f->getIntrinsicID();
                bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                int op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)   ? 0
                         : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? 1
                                                                                                        : 2;
                Val x = a[0], y = a[1];
                x.obj = y.obj = -1;
                Val v = bin(op == 0 ? Instruction::Add : op == 1 ? Instruction::Sub : Instruction::Mul, a[0], a[1]);
                // signed range of a value
                auto srange = [&](const Val &q, __int128 &lo, __int128 &hi)
                {
                    u64 l, h;
                    range(q, l, h);
                    u64 sb = 1ull << (w - 1);
                    if (!sg || h < sb)
                    {
                        lo = l;
                        hi = h;
                    }
                    else if (l >= sb)
                    {
                        lo = (__int128)l - ((__int128)1 << w);
                        hi = (__int128)h - ((__int128)1 << w);
                    }
                    else
                    {
                        lo = -((__int128)1 << (w - 1));
                        hi = ((__int128)1 << (w - 1)) - 1;
                    }
                };
                __int128 xl, xh, yl, yh, lo = 0, hi = 0, mn = sg ? -((__int128)1 << (w - 1)) : 0,
                                                      mx = sg ? ((__int128)1 << (w - 1)) - 1 : (((__int128)1 << w) - 1);
                srange(x, xl, xh);
                srange(y, yl, yh);
                bool wide = false;
                if (op == 0)
                {
                    lo = xl + yl;
                    hi = xh + yh;
                }
                else if (op == 1)
                {
                    lo = xl - yh;
                    hi = xh - yl;
                }
                else if (!sg && w == 64)
                {
                    wide = (u128)xh * (u128)yh > (u128)mask(64);
                    u128 l = (u128)xl * (u128)yl;
                    lo = wide ? (l > (u128)mask(64) ? mx + 1 : 0) : 0;
                    hi = wide ? mx + 1 : 0;
                }
                else
                {
                    __int128 c[4] = {xl * yl, xl * yh, xh * yl, xh * yh};
                    lo = *std::min_element(c, c + 4);
                    hi = *std::max_element(c, c + 4);
                }
                Val ov;
                Mult mu;
                Val rem;
                if (op == 2 && multiple(x, y, mu) && (sg ? mu.exactS : mu.exactU))
                    ov = cint(1, 0);
                else if (op == 1 && numeratorFits(y, sg) && remainder(x, y, rem))
                    ov = cint(1, 0);
                else if (lo >= mn && hi <= mx)
                    ov = cint(1, 0);
                else if (hi < mn || lo > mx)
                    ov = cint(1, 1);
                else
                {
                    // exact predicate against a constant bound where possible
                    Bit b = 0;
                    bool done = false;
                    auto S = [&](CmpInst::Predicate u, CmpInst::Predicate s2) { return sg ? s2 : u; };
                    if (op == 0 && (x.c || y.c))
                    {
                        const Val &k = x.c ? x : y, &q = x.c ? y : x;
                        bool neg = sg && (k.cv >> (w - 1) & 1);
                        if (neg)
                            b = icmp(CmpInst::ICMP_SLT, q, cint(w, (u64)mn - k.cv));
                        else
                            b = icmp(S(CmpInst::ICMP_UGT, CmpInst::ICMP_SGT), q, cint(w, (u64)mx - k.cv));
                        done = true;
                    }
                    else if (op == 1 && y.c)
                    {
                        bool neg = sg && (y.cv >> (w - 1) & 1);
                        if (neg)
                            b = icmp(CmpInst::ICMP_SGT, x, cint(w, (u64)mx + y.cv));
                        else
                            b = icmp(S(CmpInst::ICMP_ULT, CmpInst::ICMP_SLT), x, cint(w, (u64)mn + y.cv));
                        done = true;
                    }
                    else if (op == 2 && !sg && (x.c || y.c))
                    {
                        const Val &k = x.c ? x : y, &q = x.c ? y : x;
                        b = k.cv ? icmp(CmpInst::ICMP_UGT, q, cint(w, mask(w) / k.cv)) : 0;
                        done = true;
                    }
                    else if (op == 1 && !sg)
                    {
                        b = icmp(CmpInst::ICMP_ULT, x, y);
                        done = true;
                    }
                    else if (op == 0 && !sg)
                    {
                        Val s = v;
                        s.obj = -1;
                        b = icmp(CmpInst::ICMP_ULT, s, x);
                        done = true;
                    }
                    else if (op == 2 && !sg)
                    {
                        if (decide(boolVal(icmp(CmpInst::ICMP_EQ, y, cint(w, 0)))))
                            b = 0;
                        else
                            b = icmp(CmpInst::ICMP_UGT, x, divide(Instruction::UDiv, cint(w, mask(w)), y));
                        done = true;
                    }
                    if (!done)
                    {
                        if (!x.c) throw SplitReq{splitAtomFor(x)};
                        throw SplitReq{splitAtomFor(y)};
                    }
                    ov = boolVal(b);
                }
                r.kind = Val::AGG;
                r.agg = std::make_shared<std::vector<Val>>();
                r.agg->push_back(v);
                r.agg->push_back(ov);
                return true;
            }
            default: err("intrinsic " + n);
        }
    }
    // ---- harness interface
    if (startsWith(n, "__v_"))
    {
        auto nameArg = [&](unsigned i) { return a.size() > i ? cstr(a[i]) : std::string(); };
        if (n == "__v_u64" || n == "__v_u32" || n == "__v_u16" || n == "__v_u8")
        {
            unsigned w = n == "__v_u64" ? 64 : n == "__v_u32" ? 32 : n == "__v_u16" ? 16 : 8;
            r = newInput(w, 0, mask(w), nameArg(0));
            return true;
        }
        if (n == "__v_bool")
        {
            r = newInput(1, 0, 1, nameArg(0));
            if (width() > 1) r = zext(r, width());
            return true;
        }
        if (n == "__v_range")
        {
            u64 lo = needConst(a[0], "range"), hi = needConst(a[1], "range");
            r = newInput(64, lo, hi, nameArg(2));
            return true;
        }
        if (n == "__v_choice")
        {
            u64 k = needConst(a[0], "choice");
            if (k == 1)
            {
                r = cint(width(), 0);
                return true;
            }
            throw ForkReq{cb, k, nameArg(1)};
        }
        if (n == "__v_concrete")
        {
            r = cint(64, needConst(pint(a[0]), "concrete"));
            return true;
        }
        if (n == "__v_assume")
        {
            if (!decide(a[0])) throw PathEnd{"assume"};
            return true;
        }
        if (n == "__v_check")
        {
            doCheck(a[0], nameArg(1));
            return true;
        }
        if (n == "__v_fail") viol(nameArg(0));
        if (n == "__v_stop") throw PathEnd{"stop"};
        if (n == "__v_note")
        {
            ++ST.notes[nameArg(0)];
            return true;
        }
        if (n == "__v_buffer")
        {
            // symbolic base; size, lowbits, residue, name
            u64 sz = needConst(a[0], "size"), k = needConst(a[1], "bits"), res = needConst(a[2], "residue");
            u64 lo = 1ull << 32, hi = (1ull << 47);
            Val b = newInput(64, lo, hi, "base", pow2mask((unsigned)k), res & pow2mask((unsigned)k));
            int o;
            {
                auto ob = std::make_shared<Object>();
                ob->size = sz;
                ob->symBase = true;
                ob->baseSym = nInputs - 1;
                ob->opaque = true;
                ob->heap = true;
                ob->name = "buffer";
                objs.push_back(ob);
                o = (int)objs.size() - 1;
            }
            r = mkPtr(o, cint(64, 0));
            return true;
        }
        if (n == "__v_alloc")
        {
            // concrete heap object, alignment as asked
            u64 sz = needConst(a[0], "size"), al = needConst(a[1], "align");
            int o = newObj(sz, al, "alloc");
            wobj(o).heap = true;
            r = mkPtr(o, cint(64, 0));
            return true;
        }
        if (n == "__v_huge")
        {
            // an object of any size of which only the first bytes are kept
            u64 sz = needConst(a[0], "size"), win = needConst(a[1], "window");
            int o = newObj(std::min(sz, win), 4096, "huge");
            nextAddr += sz;
            Object &ob = wobj(o);
            ob.size = sz;
            ob.huge = win < sz;
            ob.heap = true;
            r = mkPtr(o, cint(64, 0));
            return true;
        }
        if (n == "__v_release")
        {
            if (a[0].kind != Val::PTR || a[0].obj < 0 || !objs[a[0].obj]) viol("release of a non-object");
            Object &ob = wobj(a[0].obj);
            if (!ob.live) viol("use after lifetime end", "released twice");
            gone(a[0].obj);
            ob.live = false;
            return true;
        }
        if (n == "__v_secret")
        {
            u64 k = needConst(a[1], "length");
            if (!k) return true;
            int o;
            u64 off = access(a[0], k, true, o);
            setMem(a[0], cint(8, 0xA5), k);
            wobj(o).secLo = off;
            wobj(o).secHi = off + k;
            return true;
        }
        if (n == "__v_cut") throw CutReached{};
        if (n == "__v_abort_expected")
        {
            abortOk = decide(a[0]);
            return true;
        }
        if (n == "__v_original")
        {
            r = cint(1, exception == 1);
            if (width() > 1) r = zext(r, width());
            return true;
        }
        if (n == "__v_throw")
        {
            exception = 1;
            exceptionIs.clear();
            unwind();
            r.kind = Val::NONE;
            return true;  // control already moved; caller must not advance
        }
        err("unknown harness function " + n);
    }
    // ---- C and C++ runtime
    if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "exit" || n == "_exit")
    {
        if (abortOk && n == "abort") throw PathEnd{"abort"};
        if (abortOk && n == "__assert_fail") throw PathEnd{"abort"};
        std::string d = n;
        if (n == "__assert_fail") d = "assertion " + cstr(a[0]);
        viol(n == "abort" ? "unexpected abort" : n == "__assert_fail" ? "assertion fails" : "program terminates", d);
    }
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || startsWith(n, "_ZnwmSt11align_val_t") || startsWith(n, "_ZnamSt11align_val_t") || startsWith(n, "_ZnwmRKSt9nothrow_t"))
    {
        u64 sz = needConst(a[0], "size");
        int o = newObj(sz, a.size() > 1 && a[1].kind == Val::INT ? needConst(a[1], "align") : 16, "heap");
        wobj(o).heap = true;
        r = mkPtr(o, cint(64, 0));
        return true;
    }
    if (n == "free" || startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv"))
    {
        Val p = a[0];
        if (p.kind == Val::PTR && p.obj < 0 && p.c && p.cv == 0) return true;
        if (p.obj < 0 || !objs[p.obj] || !objs[p.obj]->heap || !p.c || p.cv != 0) viol("free of a non-heap pointer");
        Object &ob = wobj(p.obj);
        if (!ob.live) viol("double free");
        gone(p.obj);
        ob.live = false;
        return true;
    }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk")
    {
        u64 k = needConst(a[2], "length");
        if (n.find("memcpy") != std::string::npos && overlap(a[0], a[1], k)) viol("undefined behaviour", "memcpy of overlapping ranges");
        copyMem(a[0], a[1], k);
        r = a[0];
        return true;
    }
    if (n == "memset" || n == "explicit_bzero" || n == "bzero" || n == "__explicit_bzero_chk")
    {
        bool z = n != "memset";
        u64 k = needConst(a[z ? 1 : 2], "length");
        setMem(a[0], z ? cint(8, 0) : trunc(a[1], 8), k);
        r = a[0];
        return true;
    }
    if (n == "memcmp" || n == "bcmp")
    {
        u64 k = needConst(a[2], "length");
        Type *i8 = Type::getInt8Ty(cb->getContext());
        for (u64 i = 0; i < k; ++i)
        {
            Val x = loadVal(mkPtr(a[0].obj, iadd(offOf(a[0]), cint(64, i), false)), i8);
            Val y = loadVal(mkPtr(a[1].obj, iadd(offOf(a[1]), cint(64, i), false)), i8);
            if (!decide(boolVal(icmp(CmpInst::ICMP_EQ, x, y))))
            {
                // the sign only matters when something looks at it
                bool zeroOnly = true;
                for (auto *u: cb->users())
                {
                    auto *ic = dyn_cast<ICmpInst>(u);
                    auto *z = ic ? dyn_cast<ConstantInt>(ic->getOperand(1)) : nullptr;
                    if (!ic || !ic->isEquality() || !z || !z->isZero()) zeroOnly = false;
                }
                r = cint(32, !zeroOnly && decide(boolVal(icmp(CmpInst::ICMP_ULT, x, y))) ? ~0u : 1u);
                return true;
            }
        }
        r = cint(32, 0);
        return true;
    }
    if (n == "strlen")
    {
        Type *i8 = Type::getInt8Ty(cb->getContext());
        for (u64 i = 0;; ++i)
        {
            Val x = loadVal(mkPtr(a[0].obj, iadd(offOf(a[0]), cint(64, i), false)), i8);
            if (decide(boolVal(icmp(CmpInst::ICMP_EQ, x, cint(8, 0)))))
            {
                r = cint(64, i);
                return true;
            }
        }
    }
    if (n == "div" || n == "ldiv" || n == "lldiv")
    {
        Val q = divide(Instruction::SDiv, a[0], a[1]), m = divide(Instruction::SRem, a[0], a[1]);
        if (n == "div")
        {
            // returned as one i64
            r = bin(Instruction::Or, zext(q, 64), bin(Instruction::Shl, zext(m, 64), cint(64, 32)));
        }
        else
        {
            r.kind = Val::AGG;
            r.agg = std::make_shared<std::vector<Val>>();
            r.agg->push_back(q);
            r.agg->push_back(m);
        }
        return true;
    }
    if (n == "vfprintf" || n == "fprintf" || n == "printf" || n == "fputs" || n == "fflush" || n == "puts" || n == "fwrite" || n == "fputc")
    {
        ++ST.notes["output"];
        if (!cb->getType()->isVoidTy()) r = cint(width(), 0);
        return true;
    }
    if (n == "__cxa_guard_acquire")
    {
        Val b = loadVal(a[0], Type::getInt8Ty(cb->getContext()));
        r = cint(32, decide(boolVal(icmp(CmpInst::ICMP_EQ, b, cint(8, 0)))) ? 1 : 0);
        return true;
    }
    if (n == "__cxa_guard_release")
    {
        storeVal(a[0], cint(8, 1), 1);
        return true;
    }
    if (n == "__cxa_guard_abort") return true;
    if (n == "__cxa_atexit" || n == "atexit")
    {
        r = cint(32, 0);
        return true;
    }
    if (n == "__cxa_begin_catch")
    {
        throwing = 0;
        r = nullPtr();
        return true;
    }
    if (n == "__cxa_end_catch") return true;
    if (n == "__cxa_allocate_exception")
    {
        r = mkPtr(newObj(needConst(a[0], "exception"), 16, "exception"), cint(64, 0));
        return true;
    }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_throw")
    {
        exception = 2;
        exceptionIs.clear();
        exceptionIs[cb->getArgOperand(1)->stripPointerCasts()] = 1;
        unwind();
        r.kind = Val::NONE;
        return true;
    }
    if (n == "__cxa_rethrow")
    {
        unwind();
        r.kind = Val::NONE;
        return true;
    }
    if (n == "__cxa_pure_virtual") viol("pure virtual call");
    err("unmodelled function " + n);
}

void Machine::call(const CallBase *cb)
{
    Frame &fr = stack.back();
    (void)fr;
    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
    const Function *f = dyn_cast<Function>(cv);
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand()))
    {
        // an empty asm statement with a memory clobber is a compiler barrier
        if (ia->getAsmString().empty() && cb->getType()->isVoidTy())
        {
            advanceCall(cb);
            return;
        }
        err("inline assembly");
    }
    if (!f)
    {
        Val p = get(cb->getCalledOperand());
        if (p.kind != Val::PTR || p.obj < 0 || !objs[p.obj] || !objs[p.obj]->fn) viol("call through an invalid pointer");
        if (!p.c || p.cv != 0) viol("call through an invalid pointer");
        f = objs[p.obj]->fn;
    }
    // debug intrinsics: no arguments
    if (f->isIntrinsic() && isa<DbgInfoIntrinsic>(cb))
    {
        ++stack.back().ip;
        return;
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < cb->arg_size(); ++i)
    {
        if (cb->getArgOperand(i)->getType()->isMetadataTy())
        {
            args.push_back(Val());
            continue;
        }
        Val v = get(cb->getArgOperand(i));
        if (v.kind == Val::INT || v.kind == Val::PTR) renorm(v);
        args.push_back(v);
    }
    if (f->isDeclaration())
    {
        Val r;
        size_t depth = stack.size();
        const Instruction *I = cb;
        external(cb, f, args, r);
        if (f->getName() == "__v_throw" || f->getName() == "__cxa_throw" || f->getName() == "__cxa_rethrow") return;
        (void)depth;
        if (!I->getType()->isVoidTy()) set(I, r);
        advanceCall(I);
        return;
    }
    pushFrame(f, std::move(args));
}

void Machine::step()
{
    Frame &fr = stack.back();
    const Instruction *I = &*fr.ip;
    ++steps;
    ++ST.steps;
    switch (I->getOpcode())
    {
        case Instruction::Alloca:
        {
            auto *a = cast<AllocaInst>(I);
            u64 n = DL->getTypeAllocSize(a->getAllocatedType());
            n *= needConst(get(a->getArraySize()), "alloca");
            int o = newObj(n, a->getAlign().value(), a->getName().str());
            fr.allocas.push_back(o);
            set(I, mkPtr(o, cint(64, 0)));
            break;
        }
        case Instruction::Load:
        {
            auto *l = cast<LoadInst>(I);
            Val p = get(l->getPointerOperand());
            toPtr(p);
            std::function<Val(const Val &, Type *)> ld = [&](const Val &q, Type *ty) -> Val
            {
                if (ty->isStructTy() || ty->isArrayTy())
                {
                    Val r;
                    r.kind = Val::AGG;
                    r.agg = std::make_shared<std::vector<Val>>();
                    unsigned n = ty->isStructTy() ? ty->getStructNumElements() : (unsigned)ty->getArrayNumElements();
                    for (unsigned i = 0; i < n; ++i)
                    {
                        u64 off;
                        Type *et;
                        if (auto *st = dyn_cast<StructType>(ty))
                        {
                            off = DL->getStructLayout(st)->getElementOffset(i);
                            et = st->getElementType(i);
                        }
                        else
                        {
                            et = ty->getArrayElementType();
                            off = i * DL->getTypeAllocSize(et);
                        }
                        r.agg->push_back(ld(mkPtr(q.obj, iadd(offOf(q), cint(64, off), false)), et));
                    }
                    return r;
                }
                return loadVal(q, ty);
            };
            set(I, ld(p, l->getType()));
            break;
        }
        case Instruction::Store:
        {
            auto *s = cast<StoreInst>(I);
            Val p = get(s->getPointerOperand());
            toPtr(p);
            Val v = get(s->getValueOperand());
            std::function<void(const Val &, const Val &, Type *)> st = [&](const Val &q, const Val &x, Type *ty)
            {
                if (x.kind == Val::AGG)
                {
                    for (unsigned i = 0; i < x.agg->size(); ++i)
                    {
                        u64 off;
                        Type *et;
                        if (auto *t = dyn_cast<StructType>(ty))
                        {
                            off = DL->getStructLayout(t)->getElementOffset(i);
                            et = t->getElementType(i);
                        }
                        else
                        {
                            et = ty->getArrayElementType();
                            off = i * DL->getTypeAllocSize(et);
                        }
                        st(mkPtr(q.obj, iadd(offOf(q), cint(64, off), false)), (*x.agg)[i], et);
                    }
                    return;
                }
                Val y = x;
                if (y.kind == Val::NONE && ty->isFloatingPointTy())
                {
                    unsigned w = (unsigned)DL->getTypeStoreSize(ty) * 8;
                    if (w > 64) err("wide float");
                    y = cint(w, 0);
                }
                renorm(y);
                storeVal(q, y, DL->getTypeStoreSize(ty));
            };
            st(p, v, s->getValueOperand()->getType());
            break;
        }
        case Instruction::GetElementPtr:
        {
            auto *g = cast<GEPOperator>(I);
            Val p = get(g->getPointerOperand());
            toPtr(p);
            Val off = offOf(p);
            for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi)
            {
                Val ix = get(gi.getOperand());
                if (StructType *st = gi.getStructTypeOrNull())
                {
                    u64 k = DL->getStructLayout(st)->getElementOffset((unsigned)ix.cv);
                    if (k) off = iadd(off, cint(64, k), false);
                }
                else
                {
                    u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                    ix.obj = -1;
                    if (ix.w < 64) ix = sext(ix, 64);
                    Val m = imulc(ix, es);
                    off = iadd(off, m, false);
                }
            }
            off.obj = -1;
            set(I, mkPtr(p.obj, off));
            break;
        }
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::Freeze: set(I, get(I->getOperand(0))); break;
        case Instruction::PtrToInt:
        {
            Val p = get(I->getOperand(0));
            toPtr(p);
            for (unsigned i = 0; !p.c && i < 64; ++i)
                if ((*p.b)[i] == UNDEFB) viol("uninitialised value used", "");
            Val v = ptrToInt(p);
            unsigned w = I->getType()->getIntegerBitWidth();
            set(I, w < 64 ? trunc(v, w) : v);
            break;
        }
        case Instruction::IntToPtr: set(I, intToPtr(get(I->getOperand(0)))); break;
        case Instruction::Trunc: set(I, trunc(get(I->getOperand(0)), I->getType()->getIntegerBitWidth())); break;
        case Instruction::ZExt: set(I, zext(get(I->getOperand(0)), I->getType()->getIntegerBitWidth())); break;
        case Instruction::SExt: set(I, sext(get(I->getOperand(0)), I->getType()->getIntegerBitWidth())); break;
        case Instruction::ICmp:
        {
            auto *c = cast<ICmpInst>(I);
            Bit t = icmp(c->getPredicate(), get(c->getOperand(0)), get(c->getOperand(1)));
            // split here: an undetermined truth value stored across a
            // checkpoint could never be refined any more
            if (isTop(t)) throw SplitReq{atomOf(t)};
            set(I, boolVal(t));
            break;
        }
        case Instruction::Select:
        {
            Val c = get(I->getOperand(0));
            renorm(c);
            set(I, decide(c) ? get(I->getOperand(1)) : get(I->getOperand(2)));
            break;
        }
        case Instruction::Br:
        {
            auto *b = cast<BranchInst>(I);
            if (b->isUnconditional())
                jump(b->getSuccessor(0));
            else
                jump(decide(get(b->getCondition())) ? b->getSuccessor(0) : b->getSuccessor(1));
            return;
        }
        case Instruction::Switch:
        {
            auto *s = cast<SwitchInst>(I);
            Val v = get(s->getCondition());
            renorm(v);
            if (v.c)
            {
                for (auto &c: s->cases())
                    if (c.getCaseValue()->getZExtValue() == v.cv)
                    {
                        jump(c.getCaseSuccessor());
                        return;
                    }
                jump(s->getDefaultDest());
                return;
            }
            for (auto &c: s->cases())
                if (decide(boolVal(cmpEq(v, cint(v.w, c.getCaseValue()->getZExtValue())))))
                {
                    jump(c.getCaseSuccessor());
                    return;
                }
            jump(s->getDefaultDest());
            return;
        }
        case Instruction::Ret:
        {
            auto *r = cast<ReturnInst>(I);
            Val v;
            if (r->getReturnValue()) v = get(r->getReturnValue());
            if (v.kind == Val::INT || v.kind == Val::PTR) renorm(v);
            ret(v);
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke: call(cast<CallBase>(I)); return;
        case Instruction::LandingPad:
        {
            Val r;
            r.kind = Val::AGG;
            r.agg = std::make_shared<std::vector<Val>>();
            r.agg->push_back(nullPtr());
            r.agg->push_back(cint(32, 1));
            set(I, r);
            break;
        }
        case Instruction::Resume:
        {
            popFrame();
            unwind();
            return;
        }
        case Instruction::ExtractValue:
        {
            auto *e = cast<ExtractValueInst>(I);
            Val v = get(e->getAggregateOperand());
            for (unsigned i: e->indices())
            {
                if (v.kind != Val::AGG) err("extractvalue");
                Val t = (*v.agg)[i];
                v = t;
            }
            set(I, v);
            break;
        }
        case Instruction::InsertValue:
        {
            auto *e = cast<InsertValueInst>(I);
            Val v = get(e->getAggregateOperand());
            if (v.kind != Val::AGG) v = undefVal(e->getType());
            Val x = get(e->getInsertedValueOperand());
            std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val w, ArrayRef<unsigned> ix) -> Val
            {
                Val n = w;
                n.agg = std::make_shared<std::vector<Val>>(*w.agg);
                if (ix.size() == 1)
                    (*n.agg)[ix[0]] = x;
                else
                    (*n.agg)[ix[0]] = ins((*w.agg)[ix[0]], ix.slice(1));
                return n;
            };
            set(I, ins(v, e->getIndices()));
            break;
        }
        case Instruction::AtomicRMW:
        {
            auto *r = cast<AtomicRMWInst>(I);
            Val p = get(r->getPointerOperand());
            toPtr(p);
            Type *ty = r->getType();
            Val old = loadVal(p, ty), v = get(r->getValOperand()), nv;
            switch (r->getOperation())
            {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = bin(Instruction::Add, old, v); break;
                case AtomicRMWInst::Sub: nv = bin(Instruction::Sub, old, v); break;
                case AtomicRMWInst::And: nv = bin(Instruction::And, old, v); break;
                case AtomicRMWInst::Or: nv = bin(Instruction::Or, old, v); break;
                default: err("atomicrmw");
            }
            storeVal(p, nv, DL->getTypeStoreSize(ty));
            set(I, old);
            break;
        }
        case Instruction::AtomicCmpXchg:
        {
            auto *r = cast<AtomicCmpXchgInst>(I);
            Val p = get(r->getPointerOperand());
            toPtr(p);
            Type *ty = r->getCompareOperand()->getType();
            Val old = loadVal(p, ty);
            bool eq = decide(boolVal(icmp(CmpInst::ICMP_EQ, old, get(r->getCompareOperand()))));
            if (eq) storeVal(p, get(r->getNewValOperand()), DL->getTypeStoreSize(ty));
            Val x;
            x.kind = Val::AGG;
            x.agg = std::make_shared<std::vector<Val>>();
            x.agg->push_back(old);
            x.agg->push_back(cint(1, eq));
            set(I, x);
            break;
        }
        case Instruction::Fence: break;
        case Instruction::Unreachable: viol("undefined behaviour", "unreachable code reached");
        default:
            if (I->isBinaryOp() && I->getType()->isIntegerTy())
            {
                Val a = get(I->getOperand(0)), b = get(I->getOperand(1));
                renorm(a);
                renorm(b);
                set(I, bin(I->getOpcode(), a, b));
                break;
            }
            err(std::string("instruction ") + I->getOpcodeName());
    }
    ++stack.back().ip;
}

// --------------------------------------------------------------- cut points
// Canonical form of everything reachable; also drops unreachable objects and
// constraints on unreachable inputs.
std::string Machine::serialize()
{
    std::string out;
    auto put = [&](u64 x) { out.append((const char *)&x, 8); };
    std::map<int, int> objId, symId;
    std::vector<int> objOrder, symOrder;
    std::map<int, int> termMemo;
    std::function<int(int)> symRef;
    auto objRef = [&](int o) -> int
    {
        if (o < 0) return -1;
        if (!objs[o] || !objs[o]->live) return -2;
        auto it = objId.find(o);
        if (it != objId.end()) return it->second;
        int id = (int)objId.size();
        objId[o] = id;
        objOrder.push_back(o);
        return id;
    };
    std::function<void(int)> putTerm = [&](int t)
    {
        TermKey k = terms[t];
        put(k.op);
        put(k.w);
        switch (k.op)
        {
            case T_CONST: put(k.a); return;
            case T_SYM: put((u64)symRef((int)k.a)); return;
            case T_ZEXT:
            case T_SEXT:
            case T_TRUNC: putTerm((int)k.a); return;
            case T_BYTE:
                putTerm((int)k.a);
                put(k.b);
                return;
            case T_JOIN:
                putTerm((int)k.a);
                putTerm((int)k.b);
                return;
            default: break;
        }
        if (k.op >= T_BIN + 90)
        {
            put(k.a & 3);
            putTerm((int)(k.a >> 2));
            put(k.b & 3);
            putTerm((int)(k.b >> 2));
        }
        else
        {
            putTerm((int)k.a);
            putTerm((int)k.b);
        }
    };
    symRef = [&](int s) -> int
    {
        auto it = symId.find(s);
        if (it != symId.end()) return it->second;
        int id = (int)symId.size();
        symId[s] = id;
        symOrder.push_back(s);
        return id;
    };
    std::set<int> lits;
    std::function<void(const Val &)> putVal = [&](const Val &v0)
    {
        Val v = v0;
        if (v.kind == Val::INT || v.kind == Val::PTR) renorm(v);
        put((u64)v.kind);
        if (v.kind == Val::NONE) return;
        if (v.kind == Val::AGG)
        {
            put(v.agg->size());
            for (auto &x: *v.agg) putVal(x);
            return;
        }
        put(v.w);
        put((u64)objRef(v.obj));
        if (v.c)
        {
            put(1);
            put(v.cv);
            return;
        }
        put(0);
        for (unsigned i = 0; i < v.w; ++i)
        {
            Bit b = bitOf(v, i);
            if (isC(b))
                put((u64)b);
            else if (b == UNDEFB)
                put(7);
            else if (isTop(b))
                put(8);
            else
            {
                int l = litOf(b);
                put(16 + (((u64)symRef(l >> 6) * 64 + (l & 63)) << 1 | ((b - 2) & 1)));
                lits.insert(l);
            }
        }
        if (v.w <= 64)
        {
            u64 lo, hi;
            range(v, lo, hi);
            put(lo);
            put(hi);
        }
        if (v.lsym >= 0)
        {
            put((u64)symRef(v.lsym));
            put(v.la);
            put(v.lk);
        }
        else
            put(~0ull);
        if (v.term >= 0)
            putTerm(v.term);
        else
            put(~1ull);
    };
    put(abortOk);
    put(throwing);
    put(exception);
    for (auto &[t, v]: exceptionIs)
    {
        put((u64)(uintptr_t)t);
        put(v);
    }
    // frames
    put(stack.size());
    for (auto &f: stack)
    {
        put((u64)(uintptr_t)f.f);
        put((u64)(uintptr_t)f.bb);
        put((u64)(uintptr_t) & *f.ip);
        for (auto &kv: f.fi->slot)
        {
            // dead temporaries do not belong to the state
            const Value *v = kv.first;
            bool live = false;
            if (auto *I = dyn_cast<Instruction>(v))
            {
                bool inBB = I->getParent() == f.bb;
                bool before = false;
                if (inBB)
                    for (auto it = f.bb->begin(); &*it != &*f.ip; ++it)
                        if (&*it == I) before = true;
                for (auto *u: I->users())
                {
                    auto *ui = cast<Instruction>(u);
                    if (isa<DbgInfoIntrinsic>(ui)) continue;
                    if (ui->getParent() != I->getParent() || isa<PHINode>(ui))
                        live = true;
                    else if (inBB && before)
                    {
                        bool after = false;
                        for (auto it = f.ip; it != f.bb->end(); ++it)
                            if (&*it == ui) after = true;
                        if (after) live = true;
                    }
                }
            }
            else
                live = !v->use_empty();
            if (!live) f.regs[kv.second] = Val();
        }
        for (auto *rs: {&f.regs, &f.varargs})
            for (auto &r: *rs)
            {
                r.parts.reset();
                if (r.kind != Val::AGG) continue;
                r.agg = std::make_shared<std::vector<Val>>(*r.agg);
                for (auto &x: *r.agg) x.parts.reset();
            }
        for (auto &r: f.regs) putVal(r);
        for (auto &r: f.varargs) putVal(r);
        for (int o: f.allocas) put((u64)objRef(o));
    }
    std::vector<std::pair<std::string, int>> gs;
    for (auto &g: globals)
    {
        if (!objs[g.second]) continue;
        if (objs[g.second]->ro || objs[g.second]->fn) continue;
        gs.push_back({g.first->getName().str(), g.second});
    }
    std::sort(gs.begin(), gs.end());
    for (auto &g: gs)
    {
        out += g.first;
        put((u64)objRef(g.second));
    }
    for (size_t i = 0; i < objOrder.size(); ++i)
    {
        Object &ob = *objs[objOrder[i]];
        put(ob.size);
        put((ob.symBase ? 1 : 0) | (ob.ro ? 2 : 0) | (ob.opaque ? 4 : 0) | (ob.heap ? 8 : 0));
        if (ob.symBase) put((u64)symRef(ob.baseSym));
        if (ob.fn || ob.ro)
        {
            out += ob.name;
            if (ob.fn) continue;
        }
        const Val *last = nullptr;
        int lastIdx = 0;
        for (auto &c: ob.cells)
        {
            if (!c.v)
            {
                put(~2ull);
                last = nullptr;
                continue;
            }
            if (c.v->kind == Val::INT && c.v->c && c.v->obj < 0 && c.v->w <= 64)
            {
                // a constant byte is that byte, whatever it is a part of
                put(~5ull);
                put(c.v->cv >> (8 * c.idx) & 255);
                last = nullptr;
                continue;
            }
            if (c.v.get() == last && c.idx == lastIdx + (DL->isBigEndian() ? -1 : 1))
            {
                put(~3ull);
                lastIdx = c.idx;
                continue;
            }
            put((u64)c.idx);
            putVal(*c.v);
            last = c.v.get();
            lastIdx = c.idx;
        }
    }
    // equalities between bits
    std::map<int, std::pair<int, bool>> neq;
    for (auto &e: box.eq)
    {
        int s1 = e.first >> 6, s2 = e.second.first >> 6;
        if (symId.count(s1) || symId.count(s2))
        {
            neq[e.first] = e.second;
            put((u64)symRef(s1) * 64 + (e.first & 63));
            put((u64)symRef(s2) * 64 + (e.second.first & 63));
            put(e.second.second);
        }
    }
    for (size_t i = 0; i < symOrder.size(); ++i)
    {
        int s = symOrder[i];
        SymInfo si = symInfo(s);
        put(si.w);
        put(si.lo);
        put(si.hi);
        put(si.kmask);
        put(si.kval & si.kmask);
        if (s >= DER) putTerm(s - DER);
    }
    // garbage
    for (size_t o = 0; o < objs.size(); ++o)
    {
        if (!objs[o]) continue;
        if (objId.count((int)o)) continue;
        if (objs[o]->fn || objs[o]->ro) continue;
        objs[o] = nullptr;
    }
    while (!objs.empty() && !objs.back()) objs.pop_back();
    nextAddr = 0x100000;
    for (auto &o: objs)
        if (o && !o->symBase) nextAddr = std::max(nextAddr, o->base + o->size + 64);
    for (auto it = globals.begin(); it != globals.end();)
    {
        if (it->second >= (int)objs.size() || !objs[it->second])
            it = globals.erase(it);
        else
            ++it;
    }
    std::map<int, Box::R> nb;
    std::map<int, SymInfo> ns;
    bool der = false;
    for (int s: symOrder)
    {
        auto it = box.sym.find(s);
        if (it != box.sym.end()) nb[s] = it->second;
        auto jt = syms.find(s);
        if (jt != syms.end()) ns[s] = jt->second;
        if (s >= DER) der = true;
    }
    box.sym = nb;
    box.eq = neq;
    (void)der;  // a cell once constrained through a derived value stays so
    syms = ns;
    return out;
}

void Machine::runGlobalCtors()
{
    auto *g = M->getGlobalVariable("llvm.global_ctors");
    if (!g || !g->hasInitializer()) return;
    auto *ca = dyn_cast<ConstantArray>(g->getInitializer());
    if (!ca) return;
    std::vector<std::pair<u64, ConstantStruct *>> order;
    for (auto &op: ca->operands())
    {
        auto *cs = cast<ConstantStruct>(op);
        order.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cs});
    }
    std::stable_sort(order.begin(), order.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &[prio, cs]: order)
    {
        auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
        if (!f || f->isDeclaration()) continue;
        pushFrame(f, {});
        while (!stack.empty()) step();
    }
}

// --------------------------------------------------------------- exploration
static std::string jsonEsc(const std::string &s)
{
    std::string r;
    for (char c: s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
            r += "\\n";
        else if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}

struct Item
{
    std::shared_ptr<Machine> cp;
    Box box;
    bool fork = false;
    u64 forkVal = 0;
};
struct Report
{
    std::string label, detail, inputs, trace;
    bool confirmed;
};

static void dumpMachine(Machine &m)
{
    fprintf(stderr, "STATE");
    for (auto &op: m.objs)
    {
        if (!op || op->ro || op->fn) continue;
        const Val *last = nullptr;
        fprintf(stderr, " %s{", op->name.c_str());
        for (auto &c: op->cells)
        {
            if (!c.v || c.v.get() == last) continue;
            last = c.v.get();
            Val v = *c.v;
            if (v.c)
                fprintf(stderr, "%s%llx,", v.obj >= 0 ? "&" : "", (unsigned long long)v.cv);
            else if (v.lsym >= 0)
                fprintf(stderr, "%s[%llu*s%d+%llx:%llx..%llx],", v.obj >= 0 ? "&" : "", (unsigned long long)v.la, v.lsym, (unsigned long long)v.lk, (unsigned long long)v.lo, (unsigned long long)v.hi);
            else
                fprintf(stderr, "?,");
        }
        fprintf(stderr, "}");
        if (op->symBase)
        {
            auto i = m.symInfo(op->baseSym);
            fprintf(stderr, "@%llx..%llx/%llx=%llx", (unsigned long long)i.lo, (unsigned long long)i.hi, (unsigned long long)i.kmask, (unsigned long long)i.kval);
        }
    }
    fprintf(stderr, "\n");
}
static std::string describe(const Machine &m)
{
    std::string r;
    for (auto &s: m.syms)
    {
        if (s.first >= DER) continue;
        SymInfo i = m.symInfo(s.first);
        char b[200];
        if (i.lo == i.hi)
            snprintf(b, sizeof b, "%s=%llu(0x%llx)", i.name.c_str(), (unsigned long long)i.lo, (unsigned long long)i.lo);
        else
            snprintf(b, sizeof b, "%s in [%llu,%llu]", i.name.c_str(), (unsigned long long)i.lo, (unsigned long long)i.hi);
        if (!r.empty()) r += ", ";
        r += b;
        if (r.size() > 3000) break;
    }
    return r;
}

// propagates bit equalities; false when the cell is empty
static bool propagate(Machine &m)
{
    for (int round = 0; round < 70; ++round)
    {
        bool ch = false;
        for (auto &e: m.box.eq)
        {
            int l = e.first, r = e.second.first;
            bool neg = e.second.second;
            auto known = [&](int lit) -> int
            {
                auto it = m.box.sym.find(lit >> 6);
                if (it == m.box.sym.end() || !(it->second.kmask >> (lit & 63) & 1)) return -1;
                return it->second.kval >> (lit & 63) & 1;
            };
            auto setk = [&](int lit, int v) -> bool
            {
                auto it = m.box.sym.find(lit >> 6);
                if (it == m.box.sym.end())
                {
                    SymInfo i = m.symInfo(lit >> 6);
                    it = m.box.sym.insert({lit >> 6, {i.lo, i.hi, i.kmask, i.kval}}).first;
                }
                it->second.kmask |= 1ull << (lit & 63);
                it->second.kval = (it->second.kval & ~(1ull << (lit & 63))) | ((u64)v << (lit & 63));
                return m.reduceSym(lit >> 6);
            };
            int a = known(l), b = known(r);
            if (a >= 0 && b >= 0)
            {
                if ((a ^ (neg ? 1 : 0)) != b) return false;
            }
            else if (a >= 0)
            {
                if (!setk(r, a ^ (neg ? 1 : 0))) return false;
                ch = true;
            }
            else if (b >= 0)
            {
                if (!setk(l, b ^ (neg ? 1 : 0))) return false;
                ch = true;
            }
        }
        if (!ch) return true;
    }
    return true;
}
bool Machine::checkEqs() { return propagate(*this); }

// one half of a split; false: empty
static bool refine(Machine &m, const Atom &a, int half)
{
    if (a.kind == 2)
    {
        SymInfo i = m.symInfo(a.a);
        if (half == 0)
            i.hi = std::min(i.hi, a.t - 1);
        else
            i.lo = std::max(i.lo, a.t);
        if (a.t == 0 && half == 0) return false;
        if (i.lo > i.hi) return false;
        m.box.sym[a.a] = {i.lo, i.hi, i.kmask, i.kval};
        if (a.a >= DER) m.box.derived = true;
        if (!m.reduceSym(a.a)) return false;
        return propagate(m);
    }
    if (a.kind == 0)
    {
        Bit b = m.norm(mkLit(a.a, false));
        if (isC(b)) return (int)b == half;
        int l = litOf(b);
        bool neg = (b - 2) & 1;
        SymInfo i = m.symInfo(l >> 6);
        u64 bit = 1ull << (l & 63);
        i.kmask |= bit;
        i.kval = (i.kval & ~bit) | (((u64)half ^ (neg ? 1 : 0)) ? bit : 0);
        m.box.sym[l >> 6] = {i.lo, i.hi, i.kmask, i.kval};
        if ((l >> 6) >= DER) m.box.derived = true;
        if (!m.reduceSym(l >> 6)) return false;
        return propagate(m);
    }
    Bit x = m.norm(mkLit(a.a, false)), y = m.norm(mkLit(a.b, false));
    if (isC(x) && isC(y)) return ((x == y) ? 0 : 1) == half;
    if (isC(x) || isC(y))
    {
        if (isC(y)) std::swap(x, y);
        // y must be x (half 0) or its complement
        int want = (int)x ^ half;
        int l = litOf(y);
        bool neg = (y - 2) & 1;
        return refine(m, {0, l, 0, 0}, want ^ (neg ? 1 : 0));
    }
    if (litOf(x) == litOf(y)) return ((x == y) ? 0 : 1) == half;
    int lx = litOf(x), ly = litOf(y);
    bool neg = (((x - 2) & 1) ^ ((y - 2) & 1)) ^ (half != 0);
    if ((lx >> 6) >= DER || (ly >> 6) >= DER) m.box.derived = true;
    if (lx < ly) std::swap(lx, ly);
    m.box.eq[lx] = {ly, neg};
    return propagate(m);
}

struct Explorer
{
    std::vector<Item> work;
    std::unordered_set<std::string> seen;
    std::vector<Report> reports;
    std::set<std::string> reported;
    std::vector<std::string> undecided;
    u64 undecidedN = 0, spurious = 0;
    std::string error;

    static std::string hashStr(const std::string &s)
    {
        u64 h1 = 1469598103934665603ull, h2 = 0x9E3779B97F4A7C15ull;
        size_t i = 0;
        for (; i + 8 <= s.size(); i += 8)
        {
            u64 x;
            memcpy(&x, s.data() + i, 8);
            h1 = (h1 ^ x) * 1099511628211ull;
            h1 ^= h1 >> 31;
            h2 = (h2 + x) * 0xff51afd7ed558ccdull;
            h2 ^= h2 >> 33;
        }
        for (; i < s.size(); ++i)
        {
            h1 = (h1 ^ (unsigned char)s[i]) * 1099511628211ull;
            h2 = (h2 + (unsigned char)s[i]) * 0xff51afd7ed558ccdull;
            h2 ^= h2 >> 33;
        }
        std::string r;
        r.append((char *)&h1, 8);
        r.append((char *)&h2, 8);
        return r;
    }

    // concretise every live input of the checkpoint under a policy
    static bool concretise(Machine &m, int p)
    {
        m.policy = p;
        std::mt19937_64 g(gSeed * 31 + p);
        std::vector<int> ids;
        for (auto &s: m.syms)
            if (s.first < DER) ids.push_back(s.first);
        for (int s: ids)
        {
            SymInfo i = m.symInfo(s);
            u64 x = i.lo;
            if (p == 1) x = i.hi;
            if (p == 2) x = i.lo + (i.hi - i.lo) / 2;
            if (p >= 3)
            {
                u64 span = i.hi - i.lo;
                x = i.lo + (span == ~0ull ? g() : g() % (span + 1));
            }
            u64 l = x, h = i.hi;
            if (!Machine::tighten(i.w, l, h, i.kmask, i.kval))
            {
                l = i.lo;
                h = x;
                if (!Machine::tighten(i.w, l, h, i.kmask, i.kval)) return false;
                l = h;
            }
            m.box.sym[s] = {l, l, mask(i.w), l & mask(i.w)};
            if (!propagate(m)) return false;
        }
        return true;
    }
    // A state that comes back without anything new read in between comes back
    // for ever. One earlier state is kept (Brent) and compared at its place.
    struct Cycle
    {
        u64 next = 200000;
        const BasicBlock *bb = nullptr, *prev = nullptr;
        size_t depth = 0;
        int inputs = 0;
        u64 addr = 0;
        std::vector<Val> regs;
        std::string state;
        u64 tries = 0;
        static bool same(const std::vector<Val> &x, const std::vector<Val> &y)
        {
            if (x.size() != y.size()) return false;
            for (size_t i = 0; i < x.size(); ++i)
                if (x[i].kind != y[i].kind || x[i].c != y[i].c || x[i].obj != y[i].obj || (x[i].c && x[i].cv != y[i].cv)) return false;
            return true;
        }
        void look(Machine &m)
        {
            if (m.steps < 200000 || m.stack.empty()) return;
            Frame &f = m.stack.back();
            // only where a block begins
            if (f.ip != f.bb->begin()) return;
            if (bb == f.bb && prev == f.prev && depth == m.stack.size() && inputs == m.nInputs && addr == m.nextAddr && tries * 10000 < m.steps && same(regs, f.regs))
            {
                ++tries;
                if (m.serialize() == state) throw Violation{"the operation does not end", "the same state returns at " + m.backtrace()};
            }
            if (m.steps >= next)
            {
                next = m.steps * 2;
                bb = f.bb;
                prev = f.prev;
                depth = m.stack.size();
                inputs = m.nInputs;
                addr = m.nextAddr;
                regs = f.regs;
                state = m.serialize();
            }
        }
    };
    // is the violating cell feasible: does the violation remain in a cell that
    // holds a single input, on the way from the last cut to it
    bool pointCell(const Item &it, int p, Report &rep)
    {
        Machine m(*it.cp);
        m.box = it.box;
        if (it.fork) applyFork(m, it.forkVal, "");
        if (!concretise(m, p)) return false;
        u64 budget = 3000000;
        Cycle cyc;
        try
        {
            while (!m.stack.empty())
            {
                if (!budget--) return false;
                m.step();
                if (!gMemoryOnly) cyc.look(m);
            }
        }
        catch (Violation &v)
        {
            rep = {v.label, v.detail, describe(m), join(m.trace), true};
            return true;
        }
        catch (ForkReq &) {}
        catch (CutReached &) {}
        catch (SplitReq &) {}
        catch (PathEnd &) {}
        catch (EngineErr &) {}
        return false;
    }
    static std::string join(const std::vector<std::string> &t)
    {
        std::string r;
        for (auto &s: t)
        {
            if (!r.empty()) r += "; ";
            r += s;
        }
        return r;
    }
    static void applyFork(Machine &m, u64 v, const std::string &name)
    {
        const CallBase *cb = cast<CallBase>(&*m.stack.back().ip);
        std::string n = name;
        if (auto *ii = dyn_cast<IntrinsicInst>(cb); ii && ii->getIntrinsicID() == Intrinsic::eh_typeid_for) m.exceptionIs[cb->getArgOperand(0)->stripPointerCasts()] = v;
        if (n.empty() && cb->arg_size() > 1) n = m.cstr(m.get(cb->getArgOperand(1)));
        m.set(cb, cint(cb->getType()->getIntegerBitWidth(), v));
        if (!n.empty()) m.trace.push_back(n + "=" + std::to_string(v));
        m.advanceCall(cb);
    }
    void report(const Report &r)
    {
        std::string key = r.label + "|" + r.detail;
        if (!reported.insert(key).second) return;
        if (reports.size() < 20) reports.push_back(r);
        // one is enough for the verdict: do not go on for long
        double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count();
        gTime = std::min(gTime, t + 10);
    }

    void run(std::shared_ptr<Machine> init, u64 maxReports)
    {
        work.push_back({init, init->box});
        while (!work.empty())
        {
            if (reports.size() >= maxReports) return;
            double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count();
            if (ST.runs >= gMaxRuns || t > gTime)
            {
                // out of budget
                undecidedN += work.size();
                undecided.push_back("budget exhausted with " + std::to_string(work.size()) + " cells left");
                return;
            }
            Item it = std::move(work.back());
            work.pop_back();
            ++ST.runs;
            Machine m(*it.cp);
            m.box = it.box;
            m.steps = 0;
            if (it.fork) applyFork(m, it.forkVal, "");
            try
            {
                Cycle cyc;
                while (!m.stack.empty())
                {
                    if (!gMemoryOnly) cyc.look(m);
                    if (m.steps > gMaxStep) throw EngineErr{"step limit at " + m.backtrace()};
                    m.step();
                }
                ++ST.leaves;
            }
            catch (SplitReq &s)
            {
                ++ST.splits;
                if (getenv("IRAI_DUMP")) fprintf(stderr, "SPLIT %d %d %d %llx %s %s\n", s.a.kind, s.a.a, s.a.b, (unsigned long long)s.a.t, m.backtrace().c_str(), join(m.trace).c_str());
                int made = 0;
                Machine cpChk(*it.cp);
                for (int h = 1; h >= 0; --h)
                {
                    Machine q(m);
                    if (refine(q, s.a, h))
                    {
                        ++made;
                        work.push_back({it.cp, q.box, it.fork, it.forkVal});
                    }
                    else
                        ++ST.infeasible;
                }
                if (made == 2 || made == 1)
                {
                    // a split must shrink the cell
                    auto sameBox = [&](const Box &x, const Box &y)
                    {
                        if (x.eq != y.eq || x.sym.size() != y.sym.size()) return false;
                        for (auto &e: x.sym)
                        {
                            auto j = y.sym.find(e.first);
                            if (j == y.sym.end()) return false;
                            if (e.second.lo != j->second.lo || e.second.hi != j->second.hi || e.second.kmask != j->second.kmask || e.second.kval != j->second.kval) return false;
                        }
                        return true;
                    };
                    for (int k = 0; k < made; ++k)
                        if (sameBox(work[work.size() - 1 - k].box, m.box))
                        {
                            for (int q = 0; q < made; ++q) work.pop_back();
                            giveUp(it, "split without progress at " + m.backtrace());
                            if (getenv("IRAI_DUMP"))
                                for (auto &e: m.box.sym) fprintf(stderr, "  sym %d [%llx,%llx]\n", e.first, (unsigned long long)e.second.lo, (unsigned long long)e.second.hi);
                            break;
                        }
                }
            }
            catch (ForkReq &f)
            {
                ++ST.cuts;
                auto cp = std::make_shared<Machine>(m);
                for (u64 v = f.n; v-- > 0;) work.push_back({cp, cp->box, true, v});
            }
            catch (CutReached &)
            {
                ++ST.cuts;
                noteInputs(m, *it.cp);
                m.advanceCall(&*m.stack.back().ip);
                std::string k = hashStr(m.serialize());
                if (seen.insert(k).second)
                {
                    ++ST.states;
                    if (getenv("IRAI_DUMP")) dumpMachine(m);
                    ST.maxdepth = std::max<u64>(ST.maxdepth, m.trace.size());
                    auto cp = std::make_shared<Machine>(m);
                    work.push_back({cp, cp->box});
                }
            }
            catch (PathEnd &e)
            {
                ++ST.leaves;
                ++ST.notes["end:" + e.why];
            }
            catch (Violation &v)
            {
                Report rep{v.label, v.detail, describe(m), join(m.trace), false};
                bool ok = false;
                for (int p = 0; p < 24 && !ok; ++p)
                {
                    Report r2;
                    Item i2 = it;
                    i2.box = m.box;
                    if (pointCell(i2, p, r2) && r2.label == rep.label) ok = true;
                }
                if (ok || (!m.box.derived && m.box.eq.empty()))
                {
                    rep.confirmed = ok;
                    report(rep);
                }
                else
                    giveUp(it, "possible '" + v.label + "' " + v.detail + " with " + rep.inputs);
            }
            catch (EngineErr &e)
            {
                giveUp(it, e.msg);
            }
        }
    }
    void noteInputs(Machine &m, Machine &cp)
    {
        std::string r;
        for (auto &s: m.syms)
        {
            if (s.first >= DER || s.first < cp.nInputs) continue;
            SymInfo i = m.symInfo(s.first);
            if (!r.empty()) r += " ";
            char b[160];
            if (i.lo == i.hi)
                snprintf(b, sizeof b, "%s=%llu", i.name.c_str(), (unsigned long long)i.lo);
            else
                snprintf(b, sizeof b, "%s in [%llu,%llu]", i.name.c_str(), (unsigned long long)i.lo, (unsigned long long)i.hi);
            r += b;
        }
        if (!r.empty()) m.trace.push_back(r);
        if (m.trace.size() > 400) m.trace.erase(m.trace.begin(), m.trace.begin() + 100);
    }
    // the analysis can not decide this cell
    void giveUp(const Item &, const std::string &why)
    {
        ++undecidedN;
        if (undecided.size() < 10) undecided.push_back(why);
    }
};

int main(int argc, char **argv)
{
    std::string file, entry = "harness", outp;
    u64 maxReports = 3;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--out") outp = argv[++i];
        else if (a == "--runs") gMaxRuns = strtoull(argv[++i], nullptr, 10);
        else if (a == "--time") gTime = strtod(argv[++i], nullptr);
        else if (a == "--memory-only") gMemoryOnly = true;
        else if (a == "--steps") gMaxStep = strtoull(argv[++i], nullptr, 10);
        else if (a == "--seed") gSeed = (unsigned)strtoul(argv[++i], nullptr, 10);
        else file = a;
    }
    gStart = std::chrono::steady_clock::now();
    LLVMContext ctx;
    SMDiagnostic diag;
    auto mod = parseIRFile(file, diag, ctx);
    if (!mod)
    {
        fprintf(stderr, "irai: can not read %s: %s\n", file.c_str(), diag.getMessage().str().c_str());
        return 2;
    }
    M = mod.get();
    DL = &M->getDataLayout();
    Function *f = M->getFunction(entry);
    if (!f)
    {
        fprintf(stderr, "irai: no function %s\n", entry.c_str());
        return 2;
    }
    auto init = std::make_shared<Machine>();
    Explorer ex;
    try
    {
        // all mutable globals are part of every state, touched or not
        for (auto &g: M->globals())
            if (!g.isDeclaration() && !g.isConstant() && !g.isThreadLocal() && !g.getName().starts_with("llvm.")) init->globalObj(&g);
        init->runGlobalCtors();
        init->pushFrame(f, {});
        ex.run(init, maxReports);
    }
    catch (EngineErr &e)
    {
        ex.error = e.msg;
    }
    catch (Violation &v)
    {
        ex.report({v.label, v.detail, "", "", true});
    }
    catch (SplitReq &)
    {
        ex.error = "split during initialisation";
    }
    double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count();
    FILE *o = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    fprintf(o, "{\"entry\":\"%s\",\"wall_s\":%.2f,\"cells\":%llu,\"leaves\":%llu,\"splits\":%llu,\"infeasible\":%llu,\"cuts\":%llu,\"states\":%llu,\"depth\":%llu,\"steps\":%llu,\"undecided\":%llu,\n",
            jsonEsc(entry).c_str(), t, (unsigned long long)ST.runs, (unsigned long long)ST.leaves, (unsigned long long)ST.splits,
            (unsigned long long)ST.infeasible, (unsigned long long)ST.cuts, (unsigned long long)ST.states, (unsigned long long)ST.maxdepth,
            (unsigned long long)ST.steps, (unsigned long long)ex.undecidedN);
    fprintf(o, "\"error\":\"%s\",\n\"checks\":{", jsonEsc(ex.error).c_str());
    bool first = true;
    for (auto &c: ST.checks)
    {
        fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(c.first).c_str(), (unsigned long long)c.second);
        first = false;
    }
    fprintf(o, "},\n\"notes\":{");
    first = true;
    for (auto &c: ST.notes)
    {
        fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(c.first).c_str(), (unsigned long long)c.second);
        first = false;
    }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    std::set<std::string> names;
    for (auto *fn: ST.fns)
    {
        auto *sp = fn->getSubprogram();
        if (!sp) continue;
        std::string file2 = sp->getFile() ? sp->getFile()->getFilename().str() : "";
        if (file2.find("/sources/include/utils/") == std::string::npos) continue;
        names.insert(file2.substr(file2.find("utils/") + 0) + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str());
    }
    for (auto &n: names)
    {
        size_t p = n.find("sources/include/");
        fprintf(o, "%s\"%s\"", first ? "" : ",", jsonEsc(p == std::string::npos ? n : n.substr(p + 16)).c_str());
        first = false;
    }
    fprintf(o, "],\n\"undecided_why\":[");
    first = true;
    for (auto &u: ex.undecided)
    {
        fprintf(o, "%s\"%s\"", first ? "" : ",", jsonEsc(u).c_str());
        first = false;
    }
    fprintf(o, "],\n\"violations\":[");
    first = true;
    for (auto &r: ex.reports)
    {
        fprintf(o, "%s{\"label\":\"%s\",\"detail\":\"%s\",\"inputs\":\"%s\",\"trace\":\"%s\",\"confirmed\":%s}", first ? "" : ",\n",
                jsonEsc(r.label).c_str(), jsonEsc(r.detail).c_str(), jsonEsc(r.inputs).c_str(), jsonEsc(r.trace).c_str(), r.confirmed ? "true" : "false");
        first = false;
    }
    fprintf(o, "]}\n");
    if (!outp.empty()) fclose(o);
    return ex.error.empty() ? (ex.reports.empty() ? 0 : 1) : 3;
}
