"""Loop induction: unbounded loops are cut at their header with an inductive invariant.

The header state is havocked (header phis and every memory cell the body can change, found by a
fixpoint over symbolic executions of the body), the invariant is assumed, the body is executed
once; obligations in the body and after the loop are checked under the invariant.  The invariant
is the largest inductive subset (Houdini) of candidates taken from templates over the loop's own
variables and from predicates written in the harness (`opts['induct'] = [(function regex,
[predicate names])]`).  Every member is checked to hold on entry and to be preserved by every back
edge, so a wrong candidate is dropped, never assumed.  Partial correctness: termination is not proved."""
import re
import z3
import irload
import memory as M
from memory import Unsupported, Content, Base
from terms import *
from terms import _add
import engine as E
from engine import State, Edge, pc_add, pc_lits, pc_false


class Trial:
    """run with no lasting effect on obligations, inputs, returns"""
    def __init__(self, e, act):
        self.e, self.act = e, act

    def __enter__(self):
        e, a = self.e, self.act
        self.sv = (len(e.obligs), dict(e.covers), len(e.nds), len(e.allocs), len(e.foralls), len(e.hints), e.fail_count, e.trial,
                   dict(a.env), list(a.rets), list(a.excs), list(a.allocas), len(e.loopinfo), getattr(a, 'excin', None), getattr(e, 'trivial_mem', 0))
        e.trial = True
        return self

    def __exit__(self, *x):
        e, a = self.e, self.act
        no, cov, nn, na, nf, nh, fc, tr, env, rets, excs, allo, nl, ex, tm = self.sv
        del e.obligs[no:]
        e.covers = cov
        del e.nds[nn:]
        del e.allocs[na:]
        self.new_foralls = e.foralls[nf:]
        del e.foralls[nf:]
        del e.hints[nh:]
        del e.loopinfo[nl:]
        e.fail_count, e.trial = fc, tr
        a.env, a.rets, a.excs, a.allocas = env, rets, excs, allo
        e.trivial_mem = tm
        if ex is not None:
            a.excin = ex
        return False


class Var:
    """a scalar the loop may change: header phi or memory cell"""
    __slots__ = ("kind", "key", "w", "init", "cur", "ptr", "objs", "name")


def alts(v):
    if isinstance(v, Mux):
        return [x for _, x in v.alts]
    return [v]


def ptr_objs(v):
    """set of object ids the value may point into (0 for null), or None if not a pointer value"""
    out = set()
    for x in alts(v):
        if isinstance(x, z3.ExprRef):
            x = unlin(lin(x))
        if isinstance(x, int) and x == 0:
            out.add(0)
            continue
        k = objof(x)
        if k is None:
            return None
        out.add(k)
    return out


def fresh_like(e, var):
    if var.w == 1:
        return e.fresh_bool("loop")
    if var.objs:
        vals = []
        for k in sorted(var.objs):
            vals.append(0 if k == 0 else _add(e.fresh("off", 64), obj_base(k)))
        r = vals[0]
        for x in vals[1:]:
            r = ite(e.fresh_bool("which"), x, r, 64)
        return r
    return e.fresh("loop", var.w)


def cell_changes(a, b):
    """what differs between two contents: set of (off, n), or None for 'anything'"""
    if a is b:
        return set()
    if a.low is not b.low:
        return None
    out = set()
    for o, (n, v) in b.cells.items():
        x = a.cells.get(o)
        if x is None:
            w = M.read(a, o, n)
            if w is v or same(w, v, n):
                continue
            out.add((o, n))
        elif x[0] != n:
            out.add((o, max(n, x[0])))
        elif x[1] is not v and not same(x[1], v, n):
            out.add((o, n))
    for o, (n, v) in a.cells.items():
        if o not in b.cells and not any(q <= o and o + n <= q + m for q, m in out):
            w = M.read(b, o, n)
            if w is not v and not same(w, v, n):
                out.add((o, n))
    return out


def same(a, b, n):
    if isinstance(a, Float) or isinstance(b, Float):
        return a is b
    try:
        return icmp('eq', a, b, 8 * n) is True
    except Exception:
        return False


def normalize(cells):
    """merge overlapping (off, n)"""
    out = []
    for o, n in sorted(cells):
        if out and o < out[-1][0] + out[-1][1]:
            p, m = out[-1]
            out[-1] = (p, max(p + m, o + n) - p)
        else:
            out.append((o, n))
    return out


def induct(e, act, h, entry, preds):
    f = act.f
    B = f._blocks[h]
    entry = [x for x in entry if not pc_false(x.st.pc)]
    if not entry:
        return []
    st0, ph0, excval = e.merge_edges(entry, B.phis)
    st0 = State(st0.pc, st0.mem, st0.exc)
    hvs = []            # bases of the havocked objects
    mod = {}            # obj -> None (anything) | set of (off, n)
    pobj = {}           # ('phi', i) / ('cell', k, off) -> set of objects
    kept = {}           # obj written at symbolic places -> pointers in it which no iteration touches

    def pointers(c):
        return {o: (m, v) for o, (m, v) in c.cells.items() if m == 8 and not isinstance(v, Float)
                and (isinstance(v, Mux) or objof(v) in e.objs)} if len(c.cells) <= 16 else {}

    def build(deltas=None):
        # deltas: variables that change by a constant in every iteration are entry value + delta * n, for one
        # arbitrary iteration number n
        mem = dict(st0.mem)
        it = e.fresh("iter", 64) if deltas else None

        def value(x, key):
            d = deltas.get(key) if deltas else None
            if d is None or x.w not in (8, 16, 32, 64):
                return fresh_like(e, x)
            return add(x.init, trunc(mul(d & M64, it, 64), 64, x.w), x.w)
        vs, phis = [], []
        del hvs[:]
        for i, (p, v) in enumerate(zip(B.phis, ph0)):
            ty = p.ty
            if ty.k not in ('int', 'ptr'):
                if ty.k == 'fp':
                    phis.append(Float(e.fresh("fp", ty.w)))
                    continue
                raise Unsupported("loop-carried aggregate in " + f.dname)
            x = Var()
            x.kind, x.key, x.w, x.init = 'phi', i, (64 if ty.k == 'ptr' else ty.w), v
            x.objs = pobj.get(('phi', i)) if x.w == 64 else None
            x.cur = value(x, ('phi', i))
            x.name = "phi%d" % i
            phis.append(x.cur)
            vs.append(x)
        for k, cs in mod.items():
            c = mem.get(k)
            if c is None:
                c = e.gcontent.get(k)
            if cs is None:
                low = c.low
                g = low.gran if isinstance(low, Base) and low.kind == 'arr' else 0
                mem[k] = Content(dict(kept.get(k, {})), Base('arr', gran=g, name="hv_" + e.objs[k].name[:20]))
                hvs.append(mem[k].low)
                continue
            for o, n in normalize(cs):
                if n not in (1, 2, 4, 8):
                    q = o
                    while q < o + n:
                        c = M.write(c, q, 1, e.fresh("cell", 8))
                        q += 1
                    continue
                x = Var()
                x.kind, x.key, x.w = 'cell', (k, o, n), 8 * n
                x.init = M.read(mem.get(k) or e.gcontent[k], o, n)
                if isinstance(x.init, Float):
                    c = M.write(c, o, n, Float(e.fresh("fp", 8 * n)))
                    continue
                x.objs = pobj.get(('cell', k, o)) if n == 8 else None
                x.cur = value(x, ('cell',) + x.key)
                x.name = "%s+%d" % (e.objs[k].name, o)
                c = M.write(c, o, n, x.cur)
                vs.append(x)
            mem[k] = c
        seen = {}
        for x in vs:
            seen[x.name] = seen.get(x.name, 0) + 1
            if seen[x.name] > 1:
                x.name += "'" * (seen[x.name] - 1)
        pc = st0.pc if it is None else pc_add(st0.pc, icmp('ule', it, 1 << 56, 64))
        return State(pc, mem, st0.exc), phis, vs

    # ---- which phis hold pointers, initially
    def note_ptr(key, v):
        s = ptr_objs(v)
        if s is None:
            return False
        if s - {0} or key in pobj:
            old = pobj.get(key, set())
            if not s <= old:
                pobj[key] = old | s
                return True
        return False

    for i, (p, v) in enumerate(zip(B.phis, ph0)):
        if p.ty.k == 'ptr':
            s = ptr_objs(v)
            if s is None:
                raise Unsupported("loop-carried pointer of unknown origin in " + f.dname)
            pobj[('phi', i)] = s

    def body(st, phis):
        if excval is not None:
            act.excin = excval
        return e.exec_region(act, h, {h: [Edge(None, st, list(phis), excval)]})

    # ---- discovery of the write set (no invariant assumed: an over-approximation)
    for rnd in range(30):
        sth, phis, vs = build()
        sv = e.discover
        e.discover = True
        with Trial(e, act):
            out = body(sth, phis)
            backs = [b for b in out.get(h, []) if not pc_false(b.st.pc)]
        e.discover = sv
        changed = False
        for b in backs:
            for i, (p, v) in enumerate(zip(B.phis, b.phis)):
                if p.ty.k == 'ptr' or ('phi', i) in pobj:
                    s = ptr_objs(v)
                    if s is None:
                        if p.ty.k == 'ptr':
                            raise Unsupported("loop-carried pointer of unknown origin in " + f.dname)
                        continue
                    if not s <= pobj.get(('phi', i), set()):
                        pobj[('phi', i)] = pobj.get(('phi', i), set()) | s
                        changed = True
            for k, c in b.st.mem.items():
                a = sth.mem.get(k)
                if a is None:
                    a = e.gcontent.get(k)
                    if a is None:
                        continue        # born in the body; unreachable afterwards unless a pointer escapes
                if mod.get(k, 0) is None:
                    for o, (m, v) in list(kept.get(k, {}).items()):
                        x = c.cells.get(o)
                        if x is None or x[0] != m or not (x[1] is v or same(x[1], v, m)):
                            del kept[k][o]
                            changed = True
                    continue
                ch = cell_changes(a, c)
                if ch is None:
                    mod[k] = None
                    kept[k] = pointers(st0.mem.get(k) or e.gcontent[k])
                    changed = True
                    continue
                for o, n in ch:
                    covered = any(q <= o and o + n <= q + m for q, m in mod.get(k, ()))
                    if not covered:
                        mod.setdefault(k, set()).add((o, n))
                        changed = True
                    if n == 8:
                        v = M.read(c, o, n)
                        if not isinstance(v, Float):
                            if not covered:
                                note_ptr(('cell', k, o), M.read(st0.mem.get(k) or e.gcontent[k], o, n))
                            if note_ptr(('cell', k, o), v):
                                changed = True
            for k in sth.mem:
                if k not in b.st.mem and k in st0.mem:
                    raise Unsupported("object freed in a loop in " + f.dname)
        # exits may also carry writes; they need no havoc
        if not changed:
            break
    else:
        raise Unsupported("write set of a loop does not stabilise in " + f.dname)
    if not backs:
        # the body never comes back: execute it as it is
        return finish(e, body(st0, ph0))
    if e.discover:
        res = body(sth, phis)
        res.pop(h, None)
        return finish(e, res)

    # ---- constant steps
    deltas = {}
    for x in vs:
        if x.w > 1 and not isinstance(x.init, (Mux, Float)) and (not x.objs or len(x.objs) == 1):
            d = const_delta(x, backs)
            if d:
                deltas[('phi', x.key) if x.kind == 'phi' else ('cell',) + x.key] = d
    if deltas:
        sth, phis, vs = build(deltas)
        with Trial(e, act):
            out = body(sth, phis)
            backs = [b for b in out.get(h, []) if not pc_false(b.st.pc)]

    # ---- candidates
    cands = (templates(e, act, h, B, vs, backs, sth) if e.o.get('templates', True) else []) + harness_preds(e, preds, vs, outer_values(e, act, h))

    def curvals(phis, mem):
        d = {}
        for x in vs:
            if x.kind == 'phi':
                d[x.name] = phis[x.key]
            else:
                k, o, n = x.key
                c = mem.get(k)
                d[x.name] = M.read(c if c is not None else e.gcontent[k], o, n)
        return d

    alive = []
    v0 = curvals(ph0, st0.mem)
    with Trial(e, act):
        for c in cands:
            t = c.term(v0, st0)
            if t is True or (t is not None and t is not False and e.valid(st0, t, timeout=c.tmo)):
                alive.append(c)
            elif c.user and e.o['verbose'] > 1:
                print("   dropped %s: not true on entry%s" % (c.name, " (no value)" if t is None else ""), flush=True)
                if e.o['verbose'] > 3 and t is not None and t is not False:
                    r_, m_ = e.check(pc_lits(st0.pc) + [Not(t)], timeout=30, want_model=True)
                    print("     ", r_, m_ and sorted((str(d), str(m_[d])[:60]) for d in m_.decls()))
    for rnd in range(40):
        with Trial(e, act):
            hv = curvals(phis, sth.mem)
            pc = sth.pc
            for c in alive:
                pc = pc_add(pc, c.assume(e, hv, sth, hvs))
            out = body(State(pc, sth.mem, sth.exc), phis)
            keep = list(alive)
            for b in out.get(h, []):
                if pc_false(b.st.pc):
                    continue
                bv_ = curvals(b.phis, b.st.mem)
                nk = []
                for c in keep:
                    t = c.term(bv_, b.st)
                    if t is True or (t is not None and t is not False and e.valid(b.st, t, timeout=c.tmo)):
                        nk.append(c)
                    elif t is False and not e.feasible(b.st.pc):
                        nk.append(c)
                    elif c.user and e.o['verbose'] > 1:
                        print("   dropped %s: not preserved%s" % (c.name, " (no value)" if t is None else ""), flush=True)
                        if e.o['verbose'] > 3 and t is not None and t is not False:
                            r_, m_ = e.check(pc_lits(b.st.pc) + [Not(t)], timeout=30, want_model=True)
                            print("     ", r_, m_ and sorted((str(d), str(m_[d])[:60]) for d in m_.decls()))
                keep = nk
        if len(keep) == len(alive):
            break
        alive = keep
    else:
        raise Unsupported("no inductive invariant found in " + f.dname)
    if e.o['verbose'] > 1:
        print("   loop in %s: %d variables, invariant: %s" % (f.dname[:80], len(vs), "; ".join(c.name for c in alive)), flush=True)
    # ---- the body under the invariant
    hv = curvals(phis, sth.mem)
    pc = sth.pc
    for c in alive:
        pc = pc_add(pc, c.assume(e, hv, sth, hvs))
    e.loopinfo.append({"function": f.dname[:200], "variables": len(vs), "candidates": len(cands), "invariant": [c.name for c in alive],
                       "dropped_harness_predicates": [c.name for c in cands if c.user and c not in alive]})
    res = body(State(pc, sth.mem, sth.exc), phis)
    res.pop(h, None)
    return finish(e, res)


def finish(e, out):
    res = []
    for t, es in out.items():
        es = [x for x in es if not pc_false(x.st.pc)]
        if es:
            res.append((t, es))
    return res


class Cand:
    def __init__(self, name, fn, user=False, tmo=5):
        self.name, self.fn, self.user, self.tmo = name, fn, user, tmo
        self.stride = None

    def assume(self, e, vals, st, hvs):
        """the hypothesis, at the loop header; for `all<stride>_` predicates a universally quantified one,
        instantiated wherever the loop reads an element of a havocked object (checked for an arbitrary element)"""
        if not self.stride:
            return self.term(vals, st)
        b = e.fresh_bool("q")
        for base in hvs:
            q = E.Forall()
            q.name, q.arity, q.lo, q.hi, q.seen = self.name, 1, 0, 1 << 37, {}
            q.trig = (base, 0, self.stride)
            q.b = b
            snap = State(E.ROOT, dict(st.mem), ())

            def inst(idx):
                sv = (e.o['check_mem'], e.silent)
                e.o['check_mem'] = False
                e.silent = 0
                try:
                    t = self.fn(vals, snap, idx[0])
                finally:
                    e.o['check_mem'], e.silent = sv
                return True if t is None else t
            q.inst = inst
            e.foralls.append(q)
        return b

    def term(self, vals, st):
        return self.fn(vals, st)


def const_delta(x, backs):
    ds = set()
    for b in backs:
        if x.kind == 'phi':
            v = b.phis[x.key]
        else:
            k, o, n = x.key
            c = b.st.mem.get(k)
            if c is None:
                return None
            v = M.read(c, o, n)
        d = sub(v, x.cur, x.w)
        if not isinstance(d, int):
            if isinstance(d, z3.ExprRef):
                d = z3.simplify(d)
                if not z3.is_bv_value(d):
                    return None
                d = d.as_long()
            else:
                return None
        ds.add(d)
    if len(ds) == 1:
        d = ds.pop()
        return d if d < (1 << (x.w - 1)) else d - (1 << x.w)
    return None


def templates(e, act, h, B, vs, backs, sth):
    out = []
    nums = [x for x in vs if x.w > 1]

    def mk(name, fn):
        out.append(Cand(name, fn))

    for x in vs:
        if x.w == 1:
            mk("%s unchanged" % x.name, lambda vals, st, x=x: beq_bool(vals[x.name], x.init))
        else:
            mk("%s unchanged" % x.name, lambda vals, st, x=x: icmp('eq', vals[x.name], x.init, x.w))
    steps = [(x, d) for x in nums for d in [const_delta(x, backs)] if d]
    for i, (x, d) in enumerate(steps):
        for y, d2 in steps[i + 1:]:
            w = min(x.w, y.w)

            def lin2(vals, st, x=x, y=y, d=d, d2=d2, w=w):
                a = trunc(sub(vals[x.name], x.init, x.w), x.w, w)
                b = trunc(sub(vals[y.name], y.init, y.w), y.w, w)
                if d == d2:
                    return icmp('eq', a, b, w)
                if d == -d2:
                    return icmp('eq', a, sub(0, b, w), w)
                if d2 % d == 0:
                    return icmp('eq', mul(a, (d2 // d) & mask(w), w), b, w)
                return icmp('eq', mul(a, d2 & mask(w), w), mul(b, d & mask(w), w), w)
            mk("%s and %s advance together (%d:%d)" % (x.name, y.name, d, d2), lin2)
        up = d > 0
        mk("%s only moves %s" % (x.name, "up" if up else "down"),
           lambda vals, st, x=x, up=up: icmp('ule' if up else 'uge', x.init, vals[x.name], x.w))
        if abs(d) > 1:
            def div(vals, st, x=x, d=d):
                a = sub(vals[x.name], x.init, x.w) if d > 0 else sub(x.init, vals[x.name], x.w)
                return icmp('eq', binop('urem', a, abs(d), x.w), 0, x.w)
            mk("%s stays on its stride" % x.name, div)
    for x in nums:
        if not any(x is y for y, _ in steps):
            mk("%s not below start" % x.name, lambda vals, st, x=x: icmp('uge', vals[x.name], x.init, x.w))
            mk("%s not above start" % x.name, lambda vals, st, x=x: icmp('ule', vals[x.name], x.init, x.w))
    # comparison operands of the loop that are defined outside it
    terms = {}
    body = act.f.loops[h]
    for b in body:
        for I in act.f._blocks[b].instrs:
            if I.op == 'icmp':
                for op in I.ops:
                    v = None
                    if op[0] == 'v' and op[1] in act.env and not any(op[1] == J.ref for bb in body for J in act.f._blocks[bb].instrs) \
                            and not any(op[1] == J.ref for bb in body for J in act.f._blocks[bb].phis):
                        v = act.env[op[1]]
                    elif op[0] == 'k':
                        v = e.val(act, op)
                    if v is None or isinstance(v, (bool, tuple, Float)) or isinstance(v, z3.BoolRef):
                        continue
                    w = 64
                    if isinstance(v, z3.BitVecRef):
                        w = v.size()
                    elif isinstance(v, int):
                        t = e.m.ty(irload.TypeOf(op[1]))
                        w = 64 if t.k == 'ptr' else t.w
                    terms.setdefault((w, str(M.key(v)) if not isinstance(v, Mux) else id(v)), v)
    # loads of unmodified memory compared in the loop (e.g. a vector's end)
    for x in nums:
        for (w, _), t in list(terms.items())[:12]:
            if w != x.w:
                continue
            if x.objs and isinstance(t, int) and t == 0:
                continue
            mk("%s at most a loop bound" % x.name, lambda vals, st, x=x, t=t: icmp('ule', vals[x.name], t, x.w))
            mk("%s at least a loop bound" % x.name, lambda vals, st, x=x, t=t: icmp('uge', vals[x.name], t, x.w))
            if not x.objs:
                mk("%s below a loop bound" % x.name, lambda vals, st, x=x, t=t: icmp('ult', vals[x.name], t, x.w))
                mk("%s above a loop bound" % x.name, lambda vals, st, x=x, t=t: icmp('ugt', vals[x.name], t, x.w))
                mk("%s signed at most a loop bound" % x.name, lambda vals, st, x=x, t=t: icmp('sle', vals[x.name], t, x.w))
                mk("%s signed at least a loop bound" % x.name, lambda vals, st, x=x, t=t: icmp('sge', vals[x.name], t, x.w))
            for y, d in steps:
                if y is x and abs(d) > 1:
                    mk("%s on stride to a loop bound" % x.name,
                       lambda vals, st, x=x, t=t, d=d: icmp('eq', binop('urem', sub(t, vals[x.name], 64), abs(d), 64), 0, 64) if x.w == 64 else None)
    # every object: a pointer stays inside
    for x in nums:
        if x.objs and len(x.objs) == 1 and 0 not in x.objs:
            k = list(x.objs)[0]
            sz = e.objs[k].size
            if sz is not None:
                mk("%s stays within its object" % x.name,
                   lambda vals, st, x=x, k=k, sz=sz: icmp('ule', sub(vals[x.name], obj_base(k), 64), sz, 64))
    # ordering between two pointers into the same object
    ptrs = [x for x in nums if x.objs and len(x.objs) == 1]
    for x in ptrs:
        for y in ptrs:
            if x is not y and x.objs == y.objs:
                mk("%s at most %s" % (x.name, y.name), lambda vals, st, x=x, y=y: icmp('ule', vals[x.name], vals[y.name], 64))
    return out


def trunc(v, w0, w1):
    return v if w0 == w1 else extract(v, w1 - 1, 0, w0)


def beq_bool(a, b):
    return beq(tobool(a), tobool(b))


def outer_values(e, act, h):
    """current values of the header variables of the enclosing loops, as 64-bit numbers"""
    f, out = act.f, []
    p = f.loop_parent[h]
    while p is not None:
        for q in f._blocks[p].phis:
            v = act.env.get(q.ref)
            if v is None or isinstance(v, (bool, tuple, Float, z3.BoolRef)):
                continue
            w = 64 if q.ty.k == 'ptr' else q.ty.w
            out.append(v if w == 64 else zext(v, w, 64))
        p = f.loop_parent[p]
    return out


def harness_preds(e, preds, vs, outer):
    """predicate parameters: (current, entry value) for each loop variable it talks about, then
    optionally one value of an enclosing loop; every assignment of variables is a candidate"""
    out = []
    import itertools
    for pn in preds:
        fn = e.m.by_name.get(pn)
        if fn is None:
            raise Unsupported("missing invariant predicate " + pn)
        fn.load()
        npar = len(fn.params)
        mq = re.match(r'all(\d+)_', pn)
        stride = int(mq.group(1)) if mq else None
        if mq:
            npar -= 1
        k = npar // 2
        tys = [e.m.ty(irload.TypeOf(p)) for p in fn.params[1 if mq else 0:]]
        ws = [64 if t.k == 'ptr' else t.w for t in tys]
        # a predicate may name the kind of variable it is about
        pool = [x for x in vs if x.kind == 'phi'] if pn.endswith('_phi') else [x for x in vs if x.name.startswith('stack:')] if pn.endswith('_stack') else vs
        for combo in itertools.permutations(pool, k) if k else [()]:
            if any(x.w != ws[2 * i] for i, x in enumerate(combo)):
                continue
            if any((tys[2 * i].k == 'ptr') != bool(x.objs) for i, x in enumerate(combo)):
                continue

            for ov in (outer if npar % 2 else [None]):
                out.append(pred_cand(e, fn, pn, combo, ov, stride))
    return out


def pred_cand(e, fn, pn, combo, ov, stride=None):
    def term(vals, st, j=None):
        args = []
        if stride:
            args.append(e.fresh("all", 64) if j is None else j)
        for x in combo:
            args += [vals[x.name], x.init]
        if ov is not None:
            args.append(ov)
        sv = e.o['check_mem'], e.trial
        e.o['check_mem'] = False
        e.trial = True
        try:
            r, v, xs = e.call_function(fn, args, State(st.pc, st.mem, ()))
        finally:
            e.o['check_mem'], e.trial = sv
        if r is None:
            return None
        return tobool(v)
    r = Cand("%s(%s)" % (pn, ", ".join(x.name for x in combo)), term, user=True, tmo=e.o.get('cand_timeout', 20))
    r.stride = stride
    return r
