"""Engine models: verification intrinsics (vc_*), allocation, memory functions, C++ runtime.

Everything here that stands for code outside /repo is part of the trusted base and is listed in
the evidence (models_used)."""
import re
import z3
import irload
import memory as M
from memory import Unsupported, Content, Base
from terms import *
from terms import _add
import engine as E
from engine import State, pc_add, pc_lits, Edge, Forall, MODELS, NAME_MODELS


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def nmodel(pat):
    def d(f):
        NAME_MODELS.append((re.compile(pat), f))
        return f
    return d


def install(e):
    pass


def ok(st, v=0):
    return st, v, []


# ------------------------------------------------------------------ verification intrinsics
def nd(w):
    def f(e, st, a, I, fn):
        name = e.cstring(st, a[0]) or "nd"
        e.nfresh += 1
        if w == 1:
            t = z3.Bool("%s!%d" % (name, e.nfresh))
            e.nds.append((name, t, 1))
            return ok(st, t)
        t = z3.BitVec("%s!%d" % (name, e.nfresh), w)
        v = wrap(t, w)
        e.nds.append((name, t, w))
        return ok(st, v)
    return f


for _n, _w in (("vc_u8", 8), ("vc_u16", 16), ("vc_u32", 32), ("vc_u64", 64), ("vc_bool", 1)):
    MODELS[_n] = nd(_w)


@model("vc_range")
def vc_range(e, st, a, I, fn):
    name = e.cstring(st, a[0]) or "nd"
    e.nfresh += 1
    t = z3.BitVec("%s!%d" % (name, e.nfresh), 64)
    v = wrap(t, 64)
    e.nds.append((name, t, 64))
    c = And(icmp('ule', a[1], v, 64), icmp('ule', v, a[2], 64))
    return ok(State(pc_add(st.pc, c), st.mem, st.exc), v)


@model("vc_assume")
def vc_assume(e, st, a, I, fn):
    return ok(State(pc_add(st.pc, tobool(a[0])), st.mem, st.exc))


@model("vc_prove")
def vc_prove(e, st, a, I, fn):
    name = e.cstring(st, a[0]) or "?"
    c = tobool(a[1])
    e.prove(st, c, name)
    return ok(State(pc_add(st.pc, c), st.mem, st.exc))


@model("vc_cover")
def vc_cover(e, st, a, I, fn):
    e.cover(st, e.cstring(st, a[0]) or "?")
    return ok(st)


MAXSZ = 1 << 36


@model("vc_alloc")
def vc_alloc(e, st, a, I, fn):
    name = e.cstring(st, a[0]) or "obj"
    n, gran = a[1], a[2]
    st = State(st.pc, st.mem, st.exc)
    o = e.alloc(st, n, name, 'heap', gran=gran)
    if not isinstance(n, int):
        e.facts.append(z3.ULE(bv(n, 64), bvval(MAXSZ, 64)))
    e.allocs.append((name, o, n, st.mem[o.id].low))
    return ok(st, obj_base(o.id))


@model("vc_havoc")
def vc_havoc(e, st, a, I, fn):
    st = State(st.pc, dict(st.mem), st.exc)
    p, n = a[0], a[1]
    for g, k, off in e.resolve(st, p, "havoc"):
        fresh = Content({}, Base('arr', name="havoc"))
        new = M.copy(e.content(st, k), off, fresh, off, n)
        st.mem[k] = new if g is True else M.merge(g, new, st.mem[k])
    return ok(st)


@model("vc_hint")
def vc_hint(e, st, a, I, fn):
    e.hints.append(a[0])
    return ok(st)


@model("vc_note")
def vc_note(e, st, a, I, fn):
    return ok(st)


def _forall(arity):
    def f(e, st, a, I, fn):
        trig, stride, lo, hi, fp, ctx = a
        q = Forall()
        q.name = "forall"
        q.arity = arity
        q.lo, q.hi = lo, hi
        q.seen = {}
        k = objof(trig)
        c = e.content(st, k)
        low = c.low
        while not isinstance(low, Base):
            low = low.prev if hasattr(low, 'prev') else low.a
            if isinstance(low, Content):
                low = low.low
        q.trig = (low, _add(trig, obj_base(k), -1), stride)
        b = e.fresh_bool("q")
        q.b = b
        target = e.objs[objof(fp)].fn
        snap = State(E.ROOT, st.mem, ())

        def inst(idx):
            # evaluate the body under the snapshot; memory checks are not obligations here
            sv = (e.o['check_mem'], e.silent)
            e.o['check_mem'] = False
            e.silent = 0
            try:
                r, v, x = e.call_function(target, list(idx) + [ctx], State(E.ROOT, snap.mem, ()))
            finally:
                e.o['check_mem'], e.silent = sv
            if r is None:
                return True
            lits = pc_lits(r.pc)
            return Implies(And(*lits), tobool(v))
        q.inst = inst
        e.foralls.append(q)
        return ok(State(pc_add(st.pc, b), st.mem, st.exc))
    return f


MODELS["vc_forall"] = _forall(1)
MODELS["vc_forall2"] = _forall(2)


@model("vc_fresh_ptr")
def vc_fresh_ptr(e, st, a, I, fn):
    """an arbitrary 64-bit value usable as an opaque pointer"""
    return ok(st, e.fresh("ptr", 64))


# ------------------------------------------------------------------ allocation
def do_new(e, st, n, gran=0):
    st = State(st.pc, st.mem, st.exc)
    o = e.alloc(st, n, "new", 'heap', gran=gran)
    if not isinstance(n, int):
        # allocation succeeds: size is bounded by the address space
        st.pc = pc_add(st.pc, z3.ULE(bv(n, 64), bvval(MAXSZ << 2, 64)))
    return st, obj_base(o.id)


@model("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t")
def op_new(e, st, a, I, fn):
    excs = []
    if e.o.get('faults'):
        st, _, excs = e.call_function(e.m.by_name['fault_alloc'], [], st)
    st, p = do_new(e, st, a[0])
    return st, p, excs


@model("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def op_new_nt(e, st, a, I, fn):
    if e.o.get('faults'):
        st, bad, excs = e.call_function(e.m.by_name['fault_alloc_nothrow'], [], st)
        st, p = do_new(e, st, a[0])
        return st, ite(bad, 0, p, 64), excs
    st, p = do_new(e, st, a[0])
    return ok(st, p)


@model("calloc")
def op_calloc(e, st, a, I, fn):
    st = State(st.pc, st.mem, st.exc)
    o = e.alloc(st, mul(a[0], a[1], 64), "calloc", 'heap', zero=True)
    return ok(st, obj_base(o.id))


@model("_ZdlPv", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t")
def op_delete(e, st, a, I, fn):
    p = a[0]
    k = objof(p)
    if k is not None and k in e.objs and k in st.mem:
        st = State(st.pc, dict(st.mem), st.exc)
        del st.mem[k]
        return ok(st)
    if isinstance(p, int) and p == 0:
        return ok(st)
    # conditional frees of merged pointers: objects are left alive (no use-after-free claim there)
    return ok(st)


# ------------------------------------------------------------------ memory functions
@nmodel(r"llvm\.memcpy\.|llvm\.memmove\.|^memcpy$|^memmove$")
def f_memmove(e, st, a, I, fn):
    st = State(st.pc, st.mem, st.exc)
    e.memmove(st, a[0], a[1], a[2], "memory copy in " + (e.stack[-1].dname[:80] if e.stack else ""))
    return ok(st, a[0])


@nmodel(r"llvm\.memset\.|^memset$")
def f_memset(e, st, a, I, fn):
    st = State(st.pc, st.mem, st.exc)
    e.memset(st, a[0], a[1], a[2], "memory fill in " + (e.stack[-1].dname[:80] if e.stack else ""))
    return ok(st, a[0])


@nmodel(r".*\bstd::__fill_a1<(bool|(un)?signed \w+|char|short|int|long)\*, ")
def f_fill(e, st, a, I, fn):
    """std::fill over a range of trivially copyable elements (library code, trusted)"""
    m = re.search(r"\bstd::__fill_a1<([\w ]+)\*, ([\w ]+)>", fn.dname)
    sz = {"unsigned char": 1, "char": 1, "signed char": 1, "bool": 1, "unsigned short": 2, "short": 2, "unsigned int": 4, "int": 4,
          "unsigned long": 8, "long": 8}.get(m.group(1)) if m else None
    vs = {"int": 4, "unsigned int": 4, "bool": 1, "unsigned char": 1, "char": 1, "long": 8, "unsigned long": 8}.get(m.group(2)) if m else None
    if not sz or not vs:
        raise Unsupported("std::fill of " + fn.dname[:100])
    st = State(st.pc, st.mem, st.exc)
    v = e.load(st, a[2], mkint(8 * vs), "fill value")
    n = sub(a[1], a[0], 64)
    if vs < sz:
        v = zext(v, 8 * vs, 8 * sz)
    elif vs > sz:
        v = extract(v, 8 * sz - 1, 0, 8 * vs)
    if sz > 1:
        parts = [extract(v, 8 * j + 7, 8 * j, 8 * sz) for j in range(sz)]
        if not all(isinstance(x, int) and x == parts[0] for x in parts):
            raise Unsupported("std::fill with a pattern")
        v = parts[0]
    e.memset(st, a[0], v, n, "fill")
    return ok(st)


@model("memcmp", "bcmp")
def f_memcmp(e, st, a, I, fn):
    n = a[2]
    if not isinstance(n, int) or n > 128:
        raise Unsupported("memcmp of symbolic length")
    st = State(st.pc, st.mem, st.exc)
    ty8 = I8
    xs = [e.load(st, add(a[0], i, 64), ty8, "memcmp") for i in range(n)]
    ys = [e.load(st, add(a[1], i, 64), ty8, "memcmp") for i in range(n)]
    # big-endian words compare like memcmp
    if n == 0:
        return ok(st, 0)
    A = concat([(x, 8) for x in xs])
    B = concat([(y, 8) for y in ys])
    lt = icmp('ult', A, B, 8 * n)
    eq = icmp('eq', A, B, 8 * n)
    return ok(st, ite(eq, 0, ite(lt, mask(32), 1, 32), 32))


class _T:
    pass


def mkint(w):
    t = irload.Type()
    t.k, t.w, t.n, t.elts, t.elt, t.offs = 'int', w, 0, None, None, None
    t.size = t.store = w // 8
    t.align = w // 8
    t.s = "i%d" % w
    return t


I8, I16, I32, I64 = mkint(8), mkint(16), mkint(32), mkint(64)
PTRT = mkint(64)


@model("strlen")
def f_strlen(e, st, a, I, fn):
    s = e.cstring(st, a[0])
    if s is not None:
        return ok(st, len(s.encode()))
    if 'symbolic_strlen' in e.m.by_name:
        return e.call_function(e.m.by_name['symbolic_strlen'], [a[0]], st)
    raise Unsupported("strlen of symbolic string")


@model("strcpy")
def f_strcpy(e, st, a, I, fn):
    st, n, excs = f_strlen(e, st, [a[1]], I, fn)
    st = State(st.pc, st.mem, st.exc)
    e.memmove(st, a[0], a[1], add(n, 1, 64), "strcpy")
    return st, a[0], excs


# ------------------------------------------------------------------ llvm intrinsics
def minmax(p):
    def f(e, st, a, I, fn):
        w = I.ty.w
        return ok(st, ite(icmp(p, a[0], a[1], w), a[0], a[1], w))
    return f


for _n, _p in (("umin", "ult"), ("umax", "ugt"), ("smin", "slt"), ("smax", "sgt")):
    NAME_MODELS.append((re.compile(r"llvm\.%s\.i" % _n), minmax(_p)))


@nmodel(r"llvm\.usub\.sat\.i")
def f_usubsat(e, st, a, I, fn):
    w = I.ty.w
    return ok(st, ite(icmp('ugt', a[0], a[1], w), sub(a[0], a[1], w), 0, w))


@nmodel(r"llvm\.uadd\.sat\.i")
def f_uaddsat(e, st, a, I, fn):
    w = I.ty.w
    s = add(a[0], a[1], w)
    return ok(st, ite(icmp('ult', s, a[0], w), mask(w), s, w))


@nmodel(r"llvm\.abs\.i")
def f_abs(e, st, a, I, fn):
    w = I.ty.w
    return ok(st, ite(icmp('slt', a[0], 0, w), sub(0, a[0], w), a[0], w))


@nmodel(r"llvm\.bswap\.i")
def f_bswap(e, st, a, I, fn):
    w = I.ty.w
    return ok(st, concat([(extract(a[0], 8 * i + 7, 8 * i, w), 8) for i in range(w // 8)]))


@nmodel(r"llvm\.(fshl|fshr)\.i")
def f_fsh(e, st, a, I, fn):
    w = I.ty.w
    c = binop('urem', a[2], w, w)
    ab = z3.Concat(bv(a[0], w), bv(a[1], w))
    cc = z3.ZeroExt(w, bv(c, w))
    if ".fshl." in "." + fn.name.replace("llvm.", ""):
        r = z3.Extract(2 * w - 1, w, ab << cc)
    else:
        r = z3.Extract(w - 1, 0, z3.LShR(ab, cc))
    return ok(st, wrap(z3.simplify(r), w))


def _count(e, st, a, I, trailing):
    w = I.ty.w
    x = a[0]
    if isinstance(x, int):
        if x == 0:
            return ok(st, w)
        return ok(st, (x & -x).bit_length() - 1 if trailing else w - x.bit_length())
    t = bv(x, w)
    r = bvval(w, w)
    rng = range(w - 1, -1, -1) if trailing else range(w)
    for i in rng:
        r = z3.If(z3.Extract(i, i, t) == bvval(1, 1), bvval(i if trailing else w - 1 - i, w), r)
    return ok(st, wrap(r, w))


@nmodel(r"llvm\.cttz\.i")
def f_cttz(e, st, a, I, fn):
    return _count(e, st, a, I, True)


@nmodel(r"llvm\.ctlz\.i")
def f_ctlz(e, st, a, I, fn):
    return _count(e, st, a, I, False)


@nmodel(r"llvm\.ctpop\.i")
def f_ctpop(e, st, a, I, fn):
    w = I.ty.w
    if isinstance(a[0], int):
        return ok(st, bin(a[0]).count("1"))
    t = bv(a[0], w)
    r = bvval(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, t))
    return ok(st, wrap(r, w))


@nmodel(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i")
def f_ovf(e, st, a, I, fn):
    m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with", fn.name)
    sg, op = m.group(1), m.group(2)
    w = I.ty.elts[0].w
    r = binop(op, a[0], a[1], w)
    ext = (lambda v: z3.ZeroExt(w, bv(v, w))) if sg == 'u' else (lambda v: z3.SignExt(w, bv(v, w)))
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = (a[0], a[1]) if sg == 'u' else (tosigned(a[0], w), tosigned(a[1], w))
        z = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        o = z != (r if sg == 'u' else tosigned(r, w))
        return ok(st, (r, o))
    X, Y = ext(a[0]), ext(a[1])
    Z = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
    return ok(st, (r, Z != ext(r)))


@nmodel(r"llvm\.(expect|annotation|launder|strip|ssa\.copy)")
def f_expect(e, st, a, I, fn):
    return ok(st, a[0])


@nmodel(r"llvm\.is\.constant")
def f_isconst(e, st, a, I, fn):
    return ok(st, False)


@nmodel(r"llvm\.objectsize")
def f_objsize(e, st, a, I, fn):
    return ok(st, M64)


@nmodel(r"llvm\.(trap|ubsantrap|debugtrap)")
def f_trap(e, st, a, I, fn):
    if e.feasible(st.pc):
        e.prove(st, False, "trap not reached", "mem")
    return None, None, []


@nmodel(r"llvm\.eh\.typeid\.for")
def f_typeid_for(e, st, a, I, fn):
    return ok(st, tid(e, a[0]))


# ------------------------------------------------------------------ exceptions
STD_BASE = {
    "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
    "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt8ios_base7failure": "_ZTISt13runtime_error",
}


def tid(e, p):
    k = objof(p)
    return e.tids.setdefault(k, len(e.tids) + 1)


def ti_bases(e, name):
    """direct bases of a typeinfo global"""
    if name in STD_BASE:
        return [STD_BASE[name]]
    ref = e.m.gref_by_name.get(name)
    if ref is None:
        return []
    init = irload.GetInit(ref)
    if not init:
        return []
    out = []
    n = irload.NumOperands(init)
    for i in range(2, n):
        op = e.m.operand(irload.Operand(init, i))
        if op[0] == 'k' and op[2] == 'global':
            out.append(e.m.globals[op[1]])
    return out


def ti_ancestors(e, name):
    seen, wl = set(), [name]
    while wl:
        x = wl.pop()
        if x in seen:
            continue
        seen.add(x)
        wl += ti_bases(e, x)
    return seen


def ti_ptr(e, name):
    ref = e.m.gref_by_name.get(name)
    if ref is not None:
        return e.global_ptr(ref)
    g = e.ghost.setdefault('ti', {})
    if name not in g:
        g[name] = e.new_obj(16, name, 'global')
        e.gcontent[g[name].id] = Content({}, Base('zero'))
    return obj_base(g[name].id)


def landingpad(e, act, st, I):
    cleanup, clauses = I.x
    t, p = act.excin
    sel = None
    conds = []
    names = [n for n in list(e.m.gref_by_name) + list(STD_BASE) + list(e.ghost.get('ti', {})) if n.startswith("_ZTI")]
    for op in clauses:
        if op[2] == 'cnull':
            conds.append((True, 0x7fff))
            break
        if op[2] in ('carr', 'czero', 'cdarr'):
            conds.append((False, 0))       # filter clauses: ignored
            continue
        c = e.val(act, op)
        cname = e.objs[objof(c)].name
        subs = [n for n in set(names) if cname in ti_ancestors(e, n)]
        g = Or(*[icmp('eq', t, ti_ptr(e, n), 64) for n in sorted(subs)])
        conds.append((g, tid(e, c)))
    r = 0
    anym = Or(*[g for g, _ in conds]) if conds else False
    for g, v in reversed(conds):
        r = ite(g, v, r, 32)
    if not cleanup and anym is not True:
        s2 = st.fork(Not(anym))
        act.excs.append(Edge(None, s2, None, (t, p)))
        st.pc = pc_add(st.pc, anym)
    return (p, r)


@model("__cxa_allocate_exception")
def f_cxa_alloc(e, st, a, I, fn):
    st, p = do_new(e, st, a[0])
    return ok(st, p)


@model("__cxa_free_exception")
def f_cxa_free(e, st, a, I, fn):
    return ok(st)


@model("__cxa_throw")
def f_cxa_throw(e, st, a, I, fn):
    e.ghost.setdefault('thrown', {})[objof(a[0])] = a[1]
    return None, None, [(st, (a[1], a[0]))]


@model("__cxa_begin_catch")
def f_begin_catch(e, st, a, I, fn):
    return ok(State(st.pc, st.mem, st.exc + ((a[0], a[0]),)), a[0])


@model("__cxa_end_catch")
def f_end_catch(e, st, a, I, fn):
    return ok(State(st.pc, st.mem, st.exc[:-1]))


@model("__cxa_rethrow", "_Unwind_Resume")
def f_rethrow(e, st, a, I, fn):
    p = a[0] if a else st.exc[-1][1] if st.exc else 0
    t = e.fresh("rethrown", 64)
    for k, ti in e.ghost.get('thrown', {}).items():
        t = ite(icmp('eq', p, obj_base(k), 64), ti, t, 64)
    return None, None, [(st, (t, p))]


@model("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__assert_fail")
def f_terminate(e, st, a, I, fn):
    if e.feasible(st.pc):
        e.prove(st, False, "std::terminate/abort not reached (%s)" % fn.name, "mem")
    return None, None, []


def throw_std(tiname):
    def f(e, st, a, I, fn):
        return None, None, [(st, (ti_ptr(e, tiname), 0))]
    return f


for _pat, _ti in ((r"std::__throw_length_error", "_ZTISt12length_error"), (r"std::__throw_out_of_range", "_ZTISt12out_of_range"),
                  (r"std::__throw_bad_alloc", "_ZTISt9bad_alloc"), (r"std::__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"),
                  (r"std::__throw_logic_error", "_ZTISt11logic_error"), (r"std::__throw_bad_function_call", "_ZTISt17bad_function_call"),
                  (r"std::__throw_invalid_argument", "_ZTISt16invalid_argument"), (r"std::__throw_runtime_error", "_ZTISt13runtime_error"),
                  (r"std::__throw_bad_cast", "_ZTISt8bad_cast")):
    NAME_MODELS.append((re.compile(_pat), throw_std(_ti)))


@model("__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort")
def f_nop(e, st, a, I, fn):
    return ok(st, 0)


@model("__cxa_guard_acquire")
def f_guard(e, st, a, I, fn):
    return ok(st, 1)
