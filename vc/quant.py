"""Instantiation of quantified hypotheses (vc_forall / vc_forall2).

Queries stay quantifier-free: every hypothesis is instantiated at the index terms at which its
trigger array is read in the query, and at the hints.  Instantiation is sound for proofs (it only
adds consequences of the hypothesis); incompleteness can only make a proof fail."""
import z3
from terms import *
from terms import _add
from memory import Base

_lin_cache = {}


def lin_of(t):
    """BV64 term -> Lin by structure"""
    k = t.get_id()
    r = _lin_cache.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    if z3.is_bv_value(t):
        r = t.as_long()
    elif z3.is_app_of(t, z3.Z3_OP_BADD):
        r = 0
        for c in t.children():
            r = _add(r, lin_of(c))
    elif z3.is_app_of(t, z3.Z3_OP_BSUB):
        ch = t.children()
        r = _add(lin_of(ch[0]), lin_of(ch[1]), -1)
    elif z3.is_app_of(t, z3.Z3_OP_BNEG):
        r = mul(lin_of(t.arg(0)), M64, 64)
    elif z3.is_app_of(t, z3.Z3_OP_BSHL) and z3.is_bv_value(t.arg(1)):
        r = mul(lin_of(t.arg(0)), 1 << t.arg(1).as_long(), 64)
    elif z3.is_app_of(t, z3.Z3_OP_BMUL) and len(t.children()) == 2 and any(z3.is_bv_value(c) for c in t.children()):
        a, b = t.children()
        if z3.is_bv_value(a):
            a, b = b, a
        r = mul(lin_of(a), b.as_long(), 64)
    else:
        r = unlin(lin(t))
    _lin_cache[k] = (t, r)
    return r


def selects(asserts, arrs):
    """index terms of Select(arr, .) per array name"""
    seen = set()
    out = {n: {} for n in arrs}
    st = list(asserts)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_select(t):
            a = t.arg(0)
            if z3.is_const(a):
                n = a.decl().name()
                if n in out:
                    ix = t.arg(1)
                    out[n][ix.get_id()] = ix
        st.extend(t.children())
    return out


def divide(off, off0, stride):
    d = _add(off, off0, -1)
    if isinstance(d, int):
        s = tosigned(d, 64)
        return (s // stride) & M64      # element the byte belongs to
    t = {}
    for k, (term, co) in d.t.items():
        s = tosigned(co, 64)
        if s % stride:
            # a term that is not a multiple of the stride by its structure: divide it as a number
            b = bv(d, 64)
            return wrap(z3.LShR(b, z3.BitVecVal(stride.bit_length() - 1, 64)) if stride & (stride - 1) == 0 else z3.UDiv(b, z3.BitVecVal(stride, 64)), 64)
        t[k] = (term, (s // stride) & M64)
    c = tosigned(d.c, 64)
    return unlin(Lin(c // stride, t))


def instantiate(e, asserts):
    quants = e.foralls
    if not quants:
        return []
    out = []
    work = list(asserts)
    terms = {id(q): {} for q in quants}
    allseen = set()
    rounds = e.o.get('qrounds', 3)
    cap = e.o.get('qcap', 400)
    # only hypotheses whose guard occurs in the query
    for rnd in range(rounds):
        names = {}
        for q in quants:
            if q.trig[0].arr is not None or q.trig[0].kind == 'arr':
                names.setdefault(q.trig[0].name, []).append(q)
        sel = selects(work, list(names))
        new = []
        for q in quants:
            base, off0, stride = q.trig
            tt = terms[id(q)]
            fresh = []
            for ix in sel.get(base.name, {}).values():
                k = divide(lin_of(ix), off0, stride)
                if k is None:
                    continue
                kk = bv(k, 64)
                if kk.get_id() not in tt:
                    tt[kk.get_id()] = (k, kk)
                    fresh.append((k, kk))
            if rnd == 0:
                for h in e.hints:
                    kk = bv(h, 64)
                    if kk.get_id() not in tt:
                        tt[kk.get_id()] = (h, kk)
                        fresh.append((h, kk))
            if q.arity == 1:
                for k, kk in fresh:
                    f = inst1(e, q, (k,))
                    if f is not True:
                        new.append(f)
            else:
                fr = {kk.get_id() for _, kk in fresh}
                vals = list(tt.values())
                for a, ka in vals:
                    for b, kb in vals:
                        if ka.get_id() == kb.get_id():
                            continue
                        if ka.get_id() in fr or kb.get_id() in fr:
                            f = inst1(e, q, (a, b))
                            if f is not True:
                                new.append(f)
            if len(new) + len(out) > cap * 4:
                break
        if not new:
            break
        out += new
        work = new
        if len(out) > cap:
            break
    return out


def inst1(e, q, idx):
    key = tuple(bv(i, 64).get_id() for i in idx)
    r = q.seen.get(key)
    if r is not None:
        return r[0]
    rng = True
    if len(idx) == 1:
        rng = And(icmp('ule', q.lo, idx[0], 64), icmp('ult', idx[0], q.hi, 64))
    else:
        rng = And(icmp('ule', q.lo, idx[0], 64), icmp('ult', idx[0], idx[1], 64), icmp('ult', idx[1], q.hi, 64))
    body = True
    if rng is not False:
        body = q.inst(idx)
    f = Implies(And(q.b, rng), body)
    q.seen[key] = (f, [bv(i, 64) for i in idx])
    return f
