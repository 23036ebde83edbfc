"""Verification-condition generator: symbolic execution of LLVM IR with state merging.

Loops are either unrolled until the solver shows the back edge unreachable (complete), or cut
with an inductive invariant (vc/loops.py).  Calls go to: an engine model (allocation, memmove,
C++ runtime), a contract (a harness function standing for the callee), or the callee's own body.
"""
import sys, time, re, os, json, subprocess
import z3
import irload
import memory as M
from memory import Unsupported, Content, Base
from terms import *
from terms import _add

sys.setrecursionlimit(200000)



def run_cvc5(asserts, secs):
    s = z3.Solver()
    s.add(asserts)
    # names as cvc5 reads them: quote those with characters SMT-LIB does not allow unquoted
    txt = re.sub(r"(?<=[\s(])([A-Za-z_][^\s()|]*'[^\s()|]*)(?=[\s)])", lambda m: "|" + m.group(1) + "|", s.to_smt2())
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(secs * 1000), "--force-logic=QF_AUFBV", "--solve-bv-as-int=sum", "-q", "-"],
                           input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs + 5)
    except (OSError, subprocess.TimeoutExpired):
        return z3.unknown
    return z3.unsat if p.stdout.split() == ["unsat"] else z3.unknown


class PC:
    __slots__ = ("parent", "lit", "depth")

    def __init__(self, parent, lit):
        self.parent, self.lit = parent, lit
        self.depth = parent.depth + 1 if parent else 0


ROOT = PC(None, True)


def pc_add(pc, lit):
    if isinstance(lit, bool):
        if lit:
            return pc
        return PC(pc, False)
    return PC(pc, lit)


def pc_lits(pc, upto=None):
    r = []
    while pc is not upto and pc.parent is not None:
        r.append(pc.lit)
        pc = pc.parent
    r.reverse()
    return r


def pc_false(pc):
    while pc.parent is not None:
        if pc.lit is False:
            return True
        pc = pc.parent
    return False


def lca(a, b):
    while a.depth > b.depth:
        a = a.parent
    while b.depth > a.depth:
        b = b.parent
    while a is not b:
        a, b = a.parent, b.parent
    return a


class State:
    __slots__ = ("pc", "mem", "exc")

    def __init__(self, pc, mem, exc=()):
        self.pc, self.mem, self.exc = pc, mem, exc

    def fork(self, lit):
        return State(pc_add(self.pc, lit), self.mem, self.exc)


class Edge:
    __slots__ = ("src", "st", "phis", "excval")

    def __init__(self, src, st, phis, excval=None):
        self.src, self.st, self.phis, self.excval = src, st, phis, excval


class Obj:
    __slots__ = ("id", "size", "name", "kind", "fn", "const", "freed", "stride")

    def __init__(self, id, size, name, kind):
        self.id, self.size, self.name, self.kind = id, size, name, kind
        self.fn = None
        self.const = False
        self.freed = False
        self.stride = None


class Obligation:
    __slots__ = ("name", "where", "status", "time", "model", "kind", "detail", "key")

    def __init__(self, name, where, kind):
        self.name, self.where, self.kind = name, where, kind
        self.status, self.time, self.model, self.detail = "?", 0.0, None, ""


class Stop(Exception):
    pass


class Forall:
    __slots__ = ("b", "trig", "inst", "arity", "seen", "name", "lo", "hi")


class Wild(Exception):
    pass


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        o = dict(prune=0, peel=None, unroll=300, timeout=60, check_mem=True, havoc_unknown=False, max_oblig_fail=6, verbose=0,
                 contracts=None, models=None, loopspecs=None, split=True, unwind_check_from=1, call_hook=None, faults=False)
        o.update(opts or {})
        self.o = o
        self.facts = []
        self.objs = {}
        self.nextobj = 1
        self.gobj = {}
        self.obligs = []
        self.covers = {}
        self.nds = []          # (name, term, width)
        self.allocs = []       # (name, obj, size, base)
        self.nfresh = 0
        self.stack = []
        self.foralls = []
        self.functions_used = {}
        self.models_used = {}
        self.contracts_used = {}
        self.queries = 0
        self.solver_time = 0.0
        self.cvc5_used = 0
        self.contracts = [(re.compile(p), n) for p, n in (o['contracts'] or [])]
        self.loopspecs = [(re.compile(p), f) for p, f in (o['loopspecs'] or [])]
        import models
        self.models = dict(MODELS)
        self.models.update(o['models'] or {})
        self.name_models = NAME_MODELS
        self.tids = {}
        self.sat_cache = {}
        self.fail_count = 0
        self.loopinfo = []
        self.hints = []
        self.silent = 0
        self.deadline = None
        self.ghost = {}
        self.trial = False
        self.discover = False
        self.induct = [(re.compile(p), list(c)) for p, c in (o.get('induct') or [])]
        import models
        models.install(self)

    # ------------------------------------------------------------ fresh terms and objects
    def fresh(self, name, w):
        self.nfresh += 1
        t = z3.BitVec("%s!%d" % (name, self.nfresh), w)
        return wrap(t, w)

    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool("%s!%d" % (name, self.nfresh))

    def new_obj(self, size, name, kind):
        k = self.nextobj
        self.nextobj += 1
        o = Obj(k, size, name, kind)
        self.objs[k] = o
        return o

    def alloc(self, st, size, name, kind, gran=0, zero=False):
        o = self.new_obj(size, name, kind)
        b = Base('zero' if zero else 'arr', gran=gran, name=name)
        st.mem = dict(st.mem)
        st.mem[o.id] = Content({}, b)
        return o

    # ------------------------------------------------------------ globals
    def global_ptr(self, ref):
        if ref in self.gobj:
            return obj_base(self.gobj[ref].id)
        f = self.m.by_ref.get(ref)
        if f is not None:
            o = self.new_obj(1, f.name, 'func')
            o.fn = f
            self.gobj[ref] = o
            return obj_base(o.id)
        if ref in self.m.aliases:
            t = self.m.aliases[ref]
            return self.const(self.m.operand(t), None)
        name = self.m.globals[ref]
        ty = self.m.ty(irload.GlobalValueType(ref))
        o = self.new_obj(ty.size, name, 'global')
        o.const = bool(irload.IsGlobalConst(ref))
        self.gobj[ref] = o
        self.ginit(ref, o, ty)
        return obj_base(o.id)

    def ginit(self, ref, o, ty):
        init = irload.GetInit(ref)
        if not init:
            self.gcontent[o.id] = Content({}, Base('arr', name=o.name))
            return
        data = bytearray(ty.size)
        cells = {}
        self.gcontent[o.id] = None
        self._flatten(init, ty, 0, data, cells)
        if ty.size > 64 and not cells:
            self.gcontent[o.id] = Content({}, Base('bytes', bytes(data)))
        else:
            b = Base('bytes', bytes(data))
            self.gcontent[o.id] = Content(cells, b)

    gcontent = None

    def _flatten(self, v, ty, off, data, cells):
        k = irload.VK.get(irload.ValueKind(v), 'other')
        if k in ('czero', 'cnull', 'undef'):
            return
        if k == 'cint':
            val = self.constint(v, ty)
            data[off:off + ty.store] = (val & mask(8 * ty.store)).to_bytes(ty.store, 'little')
            return
        if k in ('cdarr', 'cdvec', 'carr', 'cvec'):
            for i in range(ty.n):
                e = irload.AggElt(v, i)
                self._flatten(e, ty.elt, off + i * ty.elt.size, data, cells)
            return
        if k == 'cstruct':
            for i in range(ty.n):
                self._flatten(irload.AggElt(v, i), ty.elts[i], off + ty.offs[i], data, cells)
            return
        if k == 'cfp':
            cells[off] = (ty.store, Float(self.fresh("fp", 8 * ty.store)))
            return
        val = self.const(('k', v, k), ty)
        cells[off] = (ty.store, val)

    def constint(self, v, ty):
        if ty.w <= 64:
            return irload.IntZExt(v)
        s = self.m.show(v).split()[-1]
        return int(s) & mask(ty.w)

    def const(self, op, ty):
        _, v, k = op
        if ty is None:
            ty = self.m.ty(irload.TypeOf(v))
        if k == 'cint':
            x = self.constint(v, ty)
            return bool(x & 1) if ty.w == 1 else x
        if k == 'cnull':
            return 0
        if k in ('global', 'func', 'alias'):
            return self.global_ptr(v)
        if k in ('undef', 'czero'):
            return self.zero(ty, k == 'undef')
        if k in ('cstruct',):
            return tuple(self.const(self.m.operand(irload.AggElt(v, i)), ty.elts[i]) for i in range(ty.n))
        if k in ('cdarr', 'carr', 'cdvec', 'cvec'):
            return tuple(self.const(self.m.operand(irload.AggElt(v, i)), ty.elt) for i in range(ty.n))
        if k == 'cexpr':
            opn = irload.OPC.get(irload.ConstOpcode(v))
            ops = [self.m.operand(irload.Operand(v, i)) for i in range(irload.NumOperands(v))]
            if opn == 'gep':
                return self.gep(self.const(ops[0], None), self.m.ty(irload.GEPSource(v)),
                                [(self.const(x, None), self.m.ty(irload.TypeOf(x[1])).w) for x in ops[1:]])
            if opn in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(ops[0], None)
            if opn in ('add', 'sub', 'xor', 'mul', 'shl'):
                return binop(opn, self.const(ops[0], None), self.const(ops[1], None), ty.w)
            if opn == 'trunc':
                return extract(self.const(ops[0], None), ty.w - 1, 0, 64)
            raise Unsupported("const expr " + str(opn))
        if k == 'cfp':
            return Float(self.fresh("fp", ty.w))
        raise Unsupported("constant kind " + k)

    def zero(self, ty, undef=False):
        if ty.k == 'int':
            return False if ty.w == 1 else 0
        if ty.k == 'ptr':
            return 0
        if ty.k == 'struct':
            return tuple(self.zero(e, undef) for e in ty.elts)
        if ty.k in ('array', 'vector'):
            return tuple(self.zero(ty.elt, undef) for _ in range(ty.n))
        if ty.k == 'fp':
            return Float(0)
        raise Unsupported("zero of " + ty.s)

    # ------------------------------------------------------------ merging
    def ite_ty(self, c, a, b, ty):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, tuple):
            ts = ty.elts if ty.k == 'struct' else [ty.elt] * len(a)
            return tuple(self.ite_ty(c, x, y, t) for x, y, t in zip(a, b, ts))
        return ite(c, a, b, 64 if ty.k == 'ptr' else (ty.w or 64))

    def merge_edges(self, edges, phis):
        """-> (state, phi values, excval)"""
        if len(edges) == 1:
            e = edges[0]
            return e.st, e.phis, e.excval
        # pairwise folding: combine the two deepest first so complementary literals cancel
        edges = list(edges)
        while len(edges) > 1:
            # pick pair with deepest lca
            best, bi, bj = -1, 0, 1
            if len(edges) <= 12:
                for i in range(len(edges)):
                    for j in range(i + 1, len(edges)):
                        d = lca(edges[i].st.pc, edges[j].st.pc).depth
                        if d > best:
                            best, bi, bj = d, i, j
            else:
                for i in range(len(edges) - 1):
                    d = lca(edges[i].st.pc, edges[i + 1].st.pc).depth
                    if d > best:
                        best, bi, bj = d, i, i + 1
            a, b = edges[bi], edges[bj]
            edges[bi] = self.merge2(a, b, phis)
            del edges[bj]
        e = edges[0]
        return e.st, e.phis, e.excval

    def merge2(self, a, b, phis):
        base = lca(a.st.pc, b.st.pc)
        la, lb = pc_lits(a.st.pc, base), pc_lits(b.st.pc, base)
        if any(x is False for x in la):
            return b
        if any(x is False for x in lb):
            return a
        ga, gb = And(*la), And(*lb)
        if ga is True or gb is True:
            # one side extends the other only by nothing: states are on the same path
            pc = base
            c = gb if ga is True else ga
            c = Not(gb) if ga is True else ga
        else:
            comp = len(la) == 1 and len(lb) == 1 and (beq(Not(la[0]), lb[0]) is True)
            if comp:
                pc = base
            elif la and lb and len(la) == len(lb) and beq(Not(la[0]), lb[0]) is True and False:
                pc = base
            else:
                pc = PC(base, self.simp_or(la, lb))
                if pc.lit is True:
                    pc = base
            # the shortest distinguishing condition
            c = ga
            if la and lb and beq(Not(la[0]), lb[0]) is True:
                c = la[0]
        mem = self.merge_mem(c, a.st.mem, b.st.mem)
        ph = None
        if a.phis is not None:
            ph = [self.ite_ty(c, x, y, p.ty) for x, y, p in zip(a.phis, b.phis, phis)]
        ex = None
        if a.excval is not None and b.excval is not None:
            ex = tuple(ite(c, x, y, 64) for x, y in zip(a.excval, b.excval))
        exc = a.st.exc
        if a.st.exc is not b.st.exc and a.st.exc != b.st.exc:
            exc = tuple(tuple(ite(c, x, y, 64) for x, y in zip(p, q)) for p, q in zip(a.st.exc, b.st.exc))
        return Edge(None, State(pc, mem, exc), ph, ex)

    def simp_or(self, la, lb):
        # Or(And(la), And(lb)) with a light simplification when first literals are complementary
        if la and lb and beq(Not(la[0]), lb[0]) is True:
            ra, rb = And(*la[1:]), And(*lb[1:])
            if ra is True and rb is True:
                return True
            # (x & ra) | (!x & rb)
            return And(Or(Not(la[0]), ra), Or(la[0], rb))
        return Or(And(*la), And(*lb))

    def merge_mem(self, c, ma, mb):
        if ma is mb:
            return ma
        if len(ma) < len(mb):
            r = dict(mb)
            for k, va in ma.items():
                vb = mb.get(k)
                if vb is None:
                    r[k] = va
                elif vb is not va:
                    r[k] = M.merge(c, va, vb)
            return r
        r = dict(ma)
        for k, vb in mb.items():
            va = ma.get(k)
            if va is None:
                r[k] = vb
            elif vb is not va:
                r[k] = M.merge(c, va, vb)
        return r

    # ------------------------------------------------------------ solver
    def inst_facts(self, assertions):
        """instantiate quantified hypotheses for the select/index terms of the query"""
        out = []
        if not self.foralls:
            return out
        import quant
        return quant.instantiate(self, assertions)

    def check(self, lits, timeout=None, want_model=False, quick=False):
        """sat of conjunction -> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        ls = []
        for l in lits:
            if l is False:
                return 'unsat', None
            if l is True:
                continue
            ls.append(l)
        key = None
        if not want_model:
            key = tuple(sorted(x.get_id() for x in ls)) + (len(self.facts), len(self.foralls))
            r = self.sat_cache.get(key)
            if r is not None:
                return r[0], None
        t0 = time.time()
        tmo = timeout or self.o['timeout']
        if self.deadline:
            tmo = max(1, min(tmo, self.deadline - time.time()))
        res, model = self.solve(ls, tmo, quick)
        self.queries += 1
        self.solver_time += time.time() - t0
        if key is not None and res != 'unknown':
            self.sat_cache[key] = (res, ls)
        return res, model

    def solve(self, ls, tmo, quick=False):
        asserts = list(self.facts) + ls
        asserts = asserts + self.inst_facts(asserts)
        res = 'unknown'
        for tac, frac in (('QF_AUFBV', 0.6), ('cvc5', 0.4)) if quick else (('QF_AUFBV', 0.05), ('cvc5', 0.4), ('ackermann', 0.2), ('QF_AUFBV', 0.4), (None, 0.3)):
            secs = max(0.2, tmo * frac)
            tq = time.time()
            if tac == 'cvc5':
                # index arithmetic: bit vectors as integers (only a refutation is taken from it)
                r = run_cvc5(asserts, max(1, secs))
                self.cvc5_used += r == z3.unsat
            else:
                if tac == 'ackermann':
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'bvarray2uf', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver()
                else:
                    s = z3.SolverFor(tac) if tac else z3.Solver()
                s.set("timeout", int(secs * 1000))
                s.add(asserts)
                try:
                    r = s.check()
                except z3.Z3Exception as e:
                    r = z3.unknown
            if os.environ.get('DUMP') and not quick:
                print('      ', tac, r, '%.1f' % (time.time() - tq), len(asserts), flush=True)
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
        if os.environ.get('DUMP') and not quick:
            self.ndump = getattr(self, 'ndump', 0) + 1
            open('%s.%d.smt2' % (os.environ['DUMP'], self.ndump), 'w').write(s.to_smt2())
        return 'unknown', None

    def feasible(self, pc, extra=True, timeout=10):
        r, _ = self.check(pc_lits(pc) + [extra], timeout=timeout, quick=True)
        return r != 'unsat'

    def valid(self, st, cond, timeout=10):
        """is cond implied by the path?"""
        if isinstance(cond, bool):
            return cond
        r, _ = self.check(pc_lits(st.pc) + [Not(cond)], timeout=timeout, quick=True)
        return r == 'unsat'

    # ------------------------------------------------------------ obligations
    def where(self):
        return " < ".join(f.dname[:120] for f in reversed(self.stack[-3:])) if self.stack else ""

    def prove(self, st, cond, name, kind="assert"):
        """discharge cond under the path; returns True when discharged"""
        if self.trial:
            return True
        if self.silent:
            self.silent_result &= True
            if isinstance(cond, bool):
                ok = cond or not self.feasible(st.pc)
            else:
                ok = self.check(pc_lits(st.pc) + [Not(cond)])[0] == 'unsat'
            if not ok:
                self.silent_result = False
            return ok
        ob = Obligation(name, self.where(), kind)
        if kind != 'mem' or cond is not True:
            self.obligs.append(ob)
        else:
            self.trivial_mem = getattr(self, 'trivial_mem', 0) + 1
            return True
        t0 = time.time()
        if cond is True:
            ob.status = 'proved'
            ob.detail = 'syntactic'
            return True
        lits = pc_lits(st.pc)
        r, model = self.check(lits + [Not(cond)], want_model=True)
        ob.time = time.time() - t0
        if self.o['verbose'] > 1 or (self.o['verbose'] and r != 'unsat'):
            print("   [%s] %s %s (%.2fs) @ %s" % (r, kind, name, ob.time, ob.where), flush=True)
        if r == 'unsat':
            ob.status = 'proved'
            return True
        if r == 'sat':
            ob.status = 'failed'
            # look for a small counterexample
            small = [z3.ULE(bv(sz, 64), bvval(lim, 64)) for (n, o, sz, b) in self.allocs if not isinstance(sz, int) for lim in (24,)]
            if small:
                r2, m2 = self.check(lits + [Not(cond)] + small, timeout=10, want_model=True)
                if r2 == 'sat':
                    model = m2
            ob.model = self.concretize(model)
            self.fail_count += 1
            if self.fail_count >= self.o['max_oblig_fail']:
                raise Stop("too many failed obligations")
        else:
            ob.status = 'unknown'
            ob.detail = 'solver timeout'
            self.fail_count += 1
            if self.fail_count >= self.o['max_oblig_fail']:
                raise Stop("too many failed obligations")
        return False

    def concretize(self, model):
        out = {"nd": [], "alloc": []}
        for name, t, w in self.nds:
            v = model.eval(bv(t, w) if not isinstance(t, z3.BoolRef) else t, model_completion=True)
            if isinstance(t, z3.BoolRef):
                out["nd"].append([name, 1 if z3.is_true(v) else 0])
            else:
                out["nd"].append([name, v.as_long()])
        for name, o, sz, base in self.allocs:
            s = sz if isinstance(sz, int) else model.eval(bv(sz, 64), model_completion=True).as_long()
            data = []
            n = min(s, 4096)
            g = base.gran or 1
            for i in range(0, n, g):
                e = model.eval(z3.Select(base.array(), bvval(i, 64)), model_completion=True)
                data.extend((e.as_long() if z3.is_bv_value(e) else 0).to_bytes(g, 'little'))
            out["alloc"].append([name, s, bytes(data).hex()])
        return out

    def cover(self, st, name):
        """reachability check behind a precondition: must be satisfiable"""
        if self.trial:
            return
        r, m = self.check(pc_lits(st.pc), want_model=True)
        prev = self.covers.get(name)
        if prev != 'sat':
            self.covers[name] = r

    # ------------------------------------------------------------ pointers
    def resolve(self, st, p, what):
        """-> list of (guard, objid, off)"""
        if isinstance(p, Mux):
            out = []
            for g, v in p.alts:
                for h, k, off in self.resolve1(st, v, what, g):
                    out.append((And(g, h), k, off))
            return out
        return self.resolve1(st, p, what, True)

    def resolve1(self, st, p, what, guard):
        if isinstance(p, z3.ExprRef):
            p = unlin(lin(p))
        k = objof(p)
        if k is not None and k in self.objs:
            off = _add(p, obj_base(k), -1)
            return [(True, k, off)]
        if isinstance(p, int):
            # null or wild constant: reaching it is a failure
            if not self.feasible(st.pc, guard):
                return []
            self.prove(st, Not(guard), "valid pointer (%s of constant address %#x)" % (what, p), "mem")
            return []
        # try If-structure of the term
        t = p.bv()
        alts = self.ite_alts(t)
        if alts is not None:
            out = []
            for g, v in alts:
                kk = objof(v)
                if kk is not None and kk in self.objs:
                    out.append((g, kk, _add(v, obj_base(kk), -1)))
                else:
                    if self.feasible(st.pc, And(guard, g)):
                        if isinstance(v, int):
                            self.prove(st, Not(And(guard, g)), "valid pointer (%s of constant address %#x)" % (what, v), "mem")
                        else:
                            out = None
                            break
            if out is not None:
                return out
        # enumerate by solver
        out = []
        lits = pc_lits(st.pc) + [guard]
        hi = z3.Extract(63, BASE_SHIFT, t)
        excl = []
        for _ in range(40):
            r, m = self.check(lits + excl, timeout=20, want_model=True)
            if r == 'unsat':
                return out
            if r != 'sat':
                if self.trial and what.startswith("load"):
                    raise Wild()
                raise Unsupported("cannot resolve pointer (%s)" % what)
            kk = m.eval(hi, model_completion=True).as_long()
            if kk not in self.objs:
                self.prove(st, Implies(guard, hi != bvval(kk, 64 - BASE_SHIFT)), "valid pointer (%s)" % what, "mem")
                excl.append(hi != bvval(kk, 64 - BASE_SHIFT))
                if self.trial and what.startswith("load") and len(excl) > 4:
                    raise Wild()
                # assume it does not happen from here on
                if self.fail_count:
                    return out
                continue
            g = hi == bvval(kk, 64 - BASE_SHIFT)
            out.append((g, kk, _add(p, obj_base(kk), -1)))
            excl.append(Not(g))
        raise Unsupported("pointer resolves to too many objects (%s)" % what)

    def ite_alts(self, t, depth=0):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            x, y = self.ite_alts(a, depth + 1), self.ite_alts(b, depth + 1)
            if x is None or y is None or len(x) + len(y) > 16:
                return None
            return [(And(c, g), v) for g, v in x] + [(And(Not(c), g), v) for g, v in y]
        if z3.is_bv_value(t):
            return [(True, t.as_long())]
        if z3.is_app_of(t, z3.Z3_OP_BADD):
            # const + rest
            l = Lin(0, {})
            acc = 0
            for ch in t.children():
                acc = _add(acc, ch.as_long() if z3.is_bv_value(ch) else lin(ch))
            if depth == 0 and isinstance(acc, Lin) and len(acc.t) == 1 and list(acc.t.values())[0][1] == 1:
                inner = self.ite_alts(list(acc.t.values())[0][0], depth + 1)
                if inner is None:
                    return None
                return [(g, _add(v, acc.c)) for g, v in inner]
            return [(True, acc)]
        return [(True, unlin(lin(t)))] if depth else None

    def bounds(self, st, k, off, n, what, guard=True):
        o = self.objs[k]
        if not self.o['check_mem']:
            return
        if o.kind == 'func':
            self.prove(st, Not(guard), "data access to function %s" % o.name, "mem")
            return
        if k not in st.mem and k not in self.gcontent:
            self.prove(st, Not(guard), "access to dead or freed object %s (%s)" % (o.name, what), "mem")
            return
        size = o.size
        if isinstance(off, int) and isinstance(size, int) and isinstance(n, int):
            so = off if off < (1 << 63) else off - (1 << 64)
            ok = so >= 0 and so + n <= size
            if ok:
                self.trivial_mem = getattr(self, 'trivial_mem', 0) + 1
                return
            self.prove(st, Not(guard), "in-bounds %s of %s (offset %d, %d bytes, size %d)" % (what, o.name, so, n, size), "mem")
            return
        # off <= size - n (unsigned, no wrap: size < 2^39)
        c = And(icmp('ule', n, size, 64), icmp('ule', off, sub(size, n, 64), 64))
        self.prove(st, Implies(guard, c), "in-bounds %s of %s (%s bytes)" % (what, o.name, n if isinstance(n, int) else "symbolic"), "mem")

    def content(self, st, k):
        c = st.mem.get(k)
        if c is None:
            c = self.gcontent.get(k)
            if c is None:
                raise Unsupported("access to dead object " + self.objs[k].name)
        return c

    def load(self, st, p, ty, what="load"):
        if ty.k in ('struct', 'array', 'vector'):
            if ty.k == 'struct':
                return tuple(self.load(st, add(p, o, 64), t, what) for o, t in zip(ty.offs, ty.elts))
            return tuple(self.load(st, add(p, i * ty.elt.size, 64), ty.elt, what) for i in range(ty.n))
        n = ty.store
        try:
            alts = self.resolve(st, p, what)
        except Wild:
            # while looking for an invariant only: a pointer nothing is known about yet; any value may be there
            return self.fresh_bool("wild") if ty.k == 'int' and ty.w == 1 else Float(self.fresh("wild", ty.w)) if ty.k == 'fp' else self.fresh("wild", 64 if ty.k == 'ptr' else ty.w)
        if not alts:
            st.pc = pc_add(st.pc, False)
            return self.zero(ty)
        r = None
        for g, k, off in reversed(alts):
            self.bounds(st, k, off, n, what, g)
            if k not in st.mem and k not in self.gcontent:
                continue
            v = M.read(self.content(st, k), off, n)
            r = v if r is None else ite(g, v, r, 8 * n)
        if r is None:
            st.pc = pc_add(st.pc, False)
            return self.zero(ty)
        if ty.k == 'int':
            if ty.w == 1:
                if isinstance(r, bool):
                    return r
                return tobool(extract(r, 0, 0, 8 * n) if not isinstance(r, int) else r & 1)
            if isinstance(r, Float):
                r = r.bits
            if ty.w != 8 * n:
                return extract(r, ty.w - 1, 0, 8 * n)
            return r
        if ty.k == 'fp' and not isinstance(r, Float):
            return Float(r)
        if ty.k == 'ptr' and isinstance(r, Float):
            return r.bits
        return r

    def store(self, st, p, v, ty, what="store"):
        if ty.k in ('struct', 'array', 'vector'):
            for i, x in enumerate(v):
                t = ty.elts[i] if ty.k == 'struct' else ty.elt
                o = ty.offs[i] if ty.k == 'struct' else i * ty.elt.size
                self.store(st, add(p, o, 64), x, t, what)
            return
        n = ty.store
        if ty.k == 'int' and ty.w != 8 * n:
            v = zext(v, ty.w, 8 * n)
        alts = self.resolve(st, p, what)
        if not alts:
            st.pc = pc_add(st.pc, False)
            return
        mem = dict(st.mem)
        for g, k, off in alts:
            self.bounds(st, k, off, n, what, g)
            if k not in st.mem:
                if k in self.gcontent:
                    if self.objs[k].const:
                        self.prove(st, Not(g), "no write to constant " + self.objs[k].name, "mem")
                else:
                    continue
            c = self.content(st, k)
            new = self.keep_pointers(st, c, M.write(c, off, n, v), off, n, g)
            mem[k] = new if g is True else M.merge(g, new, c)
        st.mem = mem

    def keep_pointers(self, st, c, new, off, n, g):
        """a write at a symbolic place leaves alone the pointers it provably does not touch"""
        if isinstance(off, int) and isinstance(n, int) or not c.cells or len(c.cells) > 16:
            return new
        kept = {}
        for o, (m, v) in c.cells.items():
            if m == 8 and not isinstance(v, (int, M.Float)) and (isinstance(v, Mux) or objof(v) in self.objs) or \
                    m == 8 and isinstance(v, int) and objof(v) in self.objs:
                if o in new.cells and new.cells[o][0] == m and new.cells[o][1] is v:
                    continue
                touches = And(icmp('ult', off, o + m, 64), icmp('ult', o, add(off, n, 64), 64), g)
                if not self.feasible(st.pc, touches, timeout=2):
                    kept[o] = (m, v)
        if not kept:
            return new
        cells = dict(kept)
        for o, (m, v) in new.cells.items():
            if not any(o < q + 8 and q < o + m for q in kept):
                cells[o] = (m, v)
        return M.Content(cells, new.low)

    def memmove(self, st, d, s, n, what):
        if isinstance(n, int) and n == 0:
            return
        guard0 = True if isinstance(n, int) else icmp('ne', n, 0, 64)
        salts = self.resolve_opt(st, s, what + " source", guard0)
        dalts = self.resolve_opt(st, d, what + " destination", guard0)
        if not salts or not dalts:
            return
        mem = dict(st.mem)
        for g, k, off in salts:
            self.bounds(st, k, off, n, what + " source", And(g, guard0))
        for h, dk, doff in dalts:
            self.bounds(st, dk, doff, n, what + " destination", And(h, guard0))
            if dk not in st.mem and dk not in self.gcontent:
                continue
            c = self.content(st, dk)
            new = None
            for g, k, off in salts:
                if k not in st.mem and k not in self.gcontent:
                    continue
                if off == 0 and doff == 0 and self.whole_object(n, dk):
                    x = self.content(st, k)            # the whole object is replaced
                else:
                    x = self.keep_pointers(st, c, M.copy(c, doff, self.content(st, k), off, n), doff, n, And(h, guard0))
                new = x if new is None else M.merge(g, x, new)
            if new is None:
                continue
            mem[dk] = new if h is True else M.merge(h, new, c)
        st.mem = mem

    def whole_object(self, n, k):
        sz = self.objs[k].size
        if isinstance(n, int) or isinstance(sz, int):
            return n == sz
        return not isinstance(n, z3.ExprRef) and not isinstance(sz, z3.ExprRef) and _add(n, sz, -1) == 0

    def resolve_opt(self, st, p, what, guard):
        """resolve a pointer that matters only under guard"""
        if guard is True:
            return self.resolve(st, p, what)
        alts = [(True, p)] if not isinstance(p, Mux) else p.alts
        out = []
        s2 = State(pc_add(st.pc, guard), st.mem, st.exc)
        for g, v in alts:
            if isinstance(v, int) and objof(v) not in self.objs:
                if self.feasible(s2.pc, g):
                    self.prove(s2, Not(g), "valid pointer (%s)" % what, "mem")
                continue
            for h, k, off in self.resolve1(s2, v, what, g):
                out.append((And(g, h), k, off))
        return out

    def memset(self, st, d, val, n, what="memset"):
        if isinstance(n, int) and n == 0:
            return
        guard0 = True if isinstance(n, int) else icmp('ne', n, 0, 64)
        mem = dict(st.mem)
        for g, k, off in self.resolve_opt(st, d, what, guard0):
            self.bounds(st, k, off, n, what, And(g, guard0))
            if k not in st.mem and k not in self.gcontent:
                continue
            c = self.content(st, k)
            new = M.fill(c, off, n, val)
            mem[k] = new if g is True else M.merge(g, new, c)
        st.mem = mem

    def cstring(self, st, p, maxlen=400):
        """constant C string at p, or None"""
        k = objof(p)
        if k is None:
            return None
        off = _add(p, obj_base(k), -1)
        if not isinstance(off, int):
            return None
        r = bytearray()
        c = self.content(st, k)
        for i in range(maxlen):
            b = M.read(c, off + i, 1)
            if not isinstance(b, int):
                return None
            if b == 0:
                return r.decode(errors="replace")
            r.append(b)
        return r.decode(errors="replace")

    # ------------------------------------------------------------ gep
    def gep(self, p, ty, idxs):
        off = 0
        first = True
        t = ty
        for v, w in idxs:
            if w != 64 and not isinstance(v, int):
                v = sext(v, w, 64)
            elif isinstance(v, int) and w < 64:
                v = tosigned(v, w) & M64
            if first:
                off = add(off, mul(v, t.size, 64), 64)
                first = False
                continue
            if t.k == 'struct':
                if not isinstance(v, int):
                    raise Unsupported("symbolic struct index")
                off = add(off, t.offs[v], 64)
                t = t.elts[v]
            else:
                t = t.elt
                off = add(off, mul(v, t.size, 64), 64)
        return add(p, off, 64)

    # ------------------------------------------------------------ execution
    def run(self, name):
        """verify one harness entry"""
        if self.gcontent is None:
            self.gcontent = {}
        f = self.m.by_name[name]
        st = State(ROOT, {})
        # globals are created lazily
        r = self.call_function(f, [], st)
        for s, x in r[2]:
            self.prove(s, False, "no exception escapes the entry", "assert")
        if r[0] is not None:
            self.cover(r[0], "exit of " + name)
        else:
            self.covers["exit of " + name] = 'no normal exit'
        return r

    def call_function(self, f, args, st, depth=0):
        """-> (state|None, value, [(state, excval)])"""
        if f.decl:
            raise Unsupported("call to undefined " + f.dname)
        if len(self.stack) > self.o.get('maxdepth', 120):
            raise Unsupported("call depth at " + f.dname)
        k = self.functions_used.get(f.dname)
        if k is None:
            self.functions_used[f.dname] = [1, f.src]
        else:
            k[0] += 1
        f.load()
        self.stack.append(f)
        try:
            act = Act(f)
            for p, a in zip(f.params, args):
                act.env[p] = a
            e = Edge(None, st, [])
            self.exec_region(act, None, {0: [e]})
            rets = act.rets
            excs = act.excs
            for k in act.allocas:
                pass
            out = None
            val = None
            if rets:
                if len(rets) == 1:
                    out, v = rets[0].st, rets[0].phis
                else:
                    out, v, _ = self.merge_edges(rets, [FakePhi(f.rty)] if f.rty.k != 'void' else [])
                val = v[0] if v else None
                if act.allocas:
                    mem = dict(out.mem)
                    for k in act.allocas:
                        mem.pop(k, None)
                    out = State(out.pc, mem, out.exc)
            xs = []
            for e in excs:
                if act.allocas:
                    mem = dict(e.st.mem)
                    for k in act.allocas:
                        mem.pop(k, None)
                    e.st = State(e.st.pc, mem, e.st.exc)
                xs.append((e.st, e.excval))
            if len(xs) > 1:
                s, _, x = self.merge_edges([Edge(None, s, None, x) for s, x in xs], [])
                xs = [(s, x)]
            return out, val, xs
        finally:
            self.stack.pop()

    def exec_region(self, act, header, entry):
        """execute blocks of the loop `header` (None: whole function) once, starting with entry edges;
        returns edges leaving the region (incl. back edges to header)"""
        f = act.f
        region = f.loops[header] if header is not None else None
        pend = {b: list(es) for b, es in entry.items()}
        out = {}
        for b in f.rpo:
            if region is not None and b not in region:
                continue
            if b not in pend:
                continue
            es = pend.pop(b)
            if b in f.loops and b != header:
                if f.loop_parent[b] != header:
                    pend[b] = es
                    continue
                res = self.exec_loop(act, b, es)
            else:
                if f.loop_of[b] != header and not (b == header):
                    pend[b] = es
                    continue
                res = self.exec_block(act, b, es)
            for t, edges in res:
                if t == header or (region is not None and t not in region):
                    out.setdefault(t, []).extend(edges)
                else:
                    pend.setdefault(t, []).extend(edges)
        if pend:
            raise Unsupported("region scheduling in " + f.dname)
        return out

    def exec_loop(self, act, h, entry):
        f = act.f
        for pat, spec in self.loopspecs:
            if pat.search(f.dname):
                r = spec(self, act, h, entry)
                if r is not None:
                    return r
        exits = {}
        edges = entry
        preds = None
        for pat, ps in self.induct:
            if pat.search(f.dname):
                preds = (preds or []) + ps
        for it in range(self.o['unroll'] + 1):
            if preds is not None:
                # concrete iterations are executed; the first undetermined one starts the induction
                import loops
                with loops.Trial(self, act):
                    sv, self.discover = self.discover, True
                    nr = len(act.rets)
                    out = self.exec_region(act, h, {h: edges})
                    self.discover = sv
                    back = [e for e in out.get(h, []) if not pc_false(e.st.pc)]
                    outs = [e for t, es in out.items() if t != h for e in es if not pc_false(e.st.pc)]
                    sym = back and (outs or len(act.rets) > nr)
                # (a loop with a fixed but large number of iterations is cut after `peel` of them)
                if sym or (back and self.o['peel'] is not None and it >= self.o['peel']):
                    for t, es in loops.induct(self, act, h, edges, preds):
                        exits.setdefault(t, []).extend(es)
                    break
            if it >= self.o['unroll']:
                raise Unsupported("loop not bounded after %d iterations in %s" % (it, f.dname))
            out = self.exec_region(act, h, {h: edges})
            back = out.pop(h, [])
            for t, es in out.items():
                exits.setdefault(t, []).extend(es)
            # keep only feasible back edges
            nb = []
            for e in back:
                if pc_false(e.st.pc):
                    continue
                nb.append(e)
            if not nb:
                break
            if it >= self.o['unwind_check_from']:
                nb = [e for e in nb if self.feasible(e.st.pc)]
                if not nb:
                    break
            edges = nb
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted in loop of " + f.dname)
        # prune exits that are infeasible constants
        res = []
        for t, es in exits.items():
            es = [e for e in es if not pc_false(e.st.pc)]
            if es:
                res.append((t, es))
        return res

    def val(self, act, op, ty=None):
        if op[0] == 'v':
            try:
                return act.env[op[1]]
            except KeyError:
                raise Unsupported("undefined value in " + act.f.dname + ": " + self.m.show(op[1]))
        if op[0] == 'k':
            c = self.ccache.get(op[1])
            if c is None:
                c = self.const(op, ty)
                self.ccache[op[1]] = c
            return c
        if op[0] == 'md':
            return None
        raise Unsupported("operand " + op[0])

    @property
    def ccache(self):
        if not hasattr(self, '_cc'):
            self._cc = {}
        return self._cc

    def mk_edge(self, act, src, dst, st, excval=None):
        ph = []
        for p in dst.phis:
            for b, op in p.ops:
                if b == src:
                    ph.append(self.val(act, op))
                    break
        return Edge(src, st, ph, excval)

    def exec_block(self, act, b, edges):
        f = act.f
        B = f._blocks[b]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted in " + f.dname)
        edges = [e for e in edges if not pc_false(e.st.pc)]
        if not edges:
            return []
        st, ph, excval = self.merge_edges(edges, B.phis)
        st = State(st.pc, st.mem, st.exc)
        for p, v in zip(B.phis, ph):
            act.env[p.ref] = v
        if excval is not None:
            act.excin = excval
        env = act.env
        for I in B.instrs:
            op = I.op
            h = HANDLERS.get(op)
            if h is not None:
                env[I.ref] = h(self, act, st, I)
                continue
            if op == 'br':
                if len(I.x) == 1:
                    return [(I.x[0].idx, [self.mk_edge(act, b, I.x[0], st)])]
                c = self.val(act, I.ops[0])
                if isinstance(c, bool):
                    t = I.x[0] if c else I.x[1]
                    return [(t.idx, [self.mk_edge(act, b, t, st)])]
                t, e = I.x
                st1, st2 = st.fork(c), st.fork(Not(c))
                if t is e:
                    return [(t.idx, [self.mk_edge(act, b, t, st)])]
                if self.o['prune']:
                    # keep only the side that can be taken
                    if not self.feasible(st1.pc, timeout=self.o['prune']):
                        return [(e.idx, [self.mk_edge(act, b, e, st)])]
                    if not self.feasible(st2.pc, timeout=self.o['prune']):
                        return [(t.idx, [self.mk_edge(act, b, t, st)])]
                return [(t.idx, [self.mk_edge(act, b, t, st1)]), (e.idx, [self.mk_edge(act, b, e, st2)])]
            if op == 'switch':
                v = self.val(act, I.ops[0])
                ty = self.m.ty(irload.TypeOf(I.ops[0][1]))
                dflt, cases = I.x
                if isinstance(v, int):
                    t = dflt
                    for cv, blk in cases:
                        if cv == v:
                            t = blk
                    return [(t.idx, [self.mk_edge(act, b, t, st)])]
                groups = {}
                rest = True
                for cv, blk in cases:
                    c = icmp('eq', v, cv, ty.w)
                    groups.setdefault(blk.idx, (blk, []))[1].append(c)
                allc = []
                res = []
                for idx, (blk, cs) in groups.items():
                    g = Or(*cs)
                    allc.append(g)
                    if blk is dflt:
                        continue
                    res.append((idx, [self.mk_edge(act, b, blk, st.fork(g))]))
                dg = And(*[Not(Or(*cs)) for idx, (blk, cs) in groups.items() if blk is not dflt])
                res.append((dflt.idx, [self.mk_edge(act, b, dflt, st.fork(dg))]))
                return res
            if op == 'ret':
                v = [self.val(act, I.ops[0])] if I.ops else []
                act.rets.append(Edge(b, st, v))
                return []
            if op == 'unreachable':
                if self.feasible(st.pc):
                    self.prove(st, False, "unreachable code reached", "mem")
                return []
            if op == 'resume':
                v = self.val(act, I.ops[0])
                act.excs.append(Edge(b, st, None, (act.excin[0], v[0])))
                return []
            if op in ('call', 'invoke'):
                callee, nd, ud = I.x
                rst, val, excs = self.do_call(act, st, I, callee)
                res = []
                if op == 'call':
                    for s, x in excs:
                        if not pc_false(s.pc):
                            act.excs.append(Edge(b, s, None, x))
                    if rst is None or pc_false(rst.pc):
                        return []
                    st = rst if rst is not st else st
                    st = State(st.pc, st.mem, st.exc)
                    env[I.ref] = val
                    continue
                xs = []
                for s, x in excs:
                    if not pc_false(s.pc):
                        xs.append(self.mk_edge(act, b, ud, s, x))
                if xs:
                    res.append((ud.idx, xs))
                if rst is not None and not pc_false(rst.pc):
                    env[I.ref] = val
                    res.append((nd.idx, [self.mk_edge(act, b, nd, rst)]))
                return res
            raise Unsupported("instruction %s in %s" % (op, f.dname))
        raise Unsupported("block without terminator")

    # ------------------------------------------------------------ calls
    def do_call(self, act, st, I, callee):
        if callee[0] == 'asm':
            raise Unsupported("inline asm")
        if callee[0] == 'k':
            ref = callee[1]
            while ref in self.m.aliases:
                ref = self.m.aliases[ref]
            fn = self.m.by_ref.get(ref)
            if fn is None:
                p = self.val(act, callee)
                fn = self.objs[objof(p)].fn
            args = None
            if fn.name.startswith("llvm."):
                if fn.name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.invariant", "llvm.assume", "llvm.stacksave", "llvm.stackrestore", "llvm.va_")):
                    return st, 0, []
            args = [self.val(act, a) for a in I.ops]
            return self.call_fn(fn, args, st, I)
        p = self.val(act, callee)
        args = [self.val(act, a) for a in I.ops]
        outs = []
        alts = self.resolve(st, p, "indirect call")
        if len(alts) == 1:
            o = self.objs[alts[0][1]]
            if o.kind != 'func':
                self.prove(st, False, "indirect call target is a function", "mem")
                return None, None, []
            return self.call_fn(o.fn, args, st, I)
        rets, excs = [], []
        for g, k, off in alts:
            s = st.fork(g)
            o = self.objs[k]
            if o.kind != 'func':
                continue
            if not self.feasible(s.pc):
                continue
            r, v, x = self.call_fn(o.fn, args, State(s.pc, s.mem, s.exc), I)
            if r is not None:
                rets.append(Edge(None, r, [v]))
            excs += x
        if not rets:
            return None, None, excs
        s, v, _ = self.merge_edges(rets, [FakePhi(I.ty)])
        return s, v[0], excs

    def call_fn(self, fn, args, st, I):
        h = self.models.get(fn.name)
        if h is not None:
            self.models_used[fn.name] = self.models_used.get(fn.name, 0) + 1
            return h(self, st, args, I, fn)
        dn = fn.dname
        for pat, h in self.name_models:
            if pat.match(dn):
                k = pat.pattern
                self.models_used[k] = self.models_used.get(k, 0) + 1
                return h(self, st, args, I, fn)
        if self.o['call_hook'] is not None:
            r = self.o['call_hook'](self, fn, args, st, I)
            if r is not None:
                return r
        for pat, cname in self.contracts:
            if pat.search(dn):
                c = self.m.by_name.get(cname)
                if c is None:
                    raise Unsupported("missing contract " + cname)
                if c in self.stack:
                    continue
                self.contracts_used[dn] = self.contracts_used.get(dn, 0) + 1
                return self.call_function(c, args, st)
        return self.call_function(fn, args, st)


class FakePhi:
    def __init__(self, ty):
        self.ty = ty


class Act:
    def __init__(self, f):
        self.f = f
        self.env = {}
        self.rets = []
        self.excs = []
        self.allocas = []
        self.excin = None


# ---------------------------------------------------------------- simple instructions
def h_bin(e, act, st, I):
    a, b = e.val(act, I.ops[0]), e.val(act, I.ops[1])
    w = I.ty.w
    if I.ty.k == 'vector':
        return tuple(binop(I.op, x, y, I.ty.elt.w) if I.ty.elt.w != 1 else None for x, y in zip(a, b))
    if w == 1:
        a, b = tobool(a), tobool(b)
        if I.op == 'and':
            return And(a, b)
        if I.op == 'or':
            return Or(a, b)
        if I.op in ('xor', 'add', 'sub'):
            return Not(beq(a, b))
        if I.op == 'mul':
            return And(a, b)
        raise Unsupported("i1 " + I.op)
    if I.op in ('ashr', 'lshr', 'sdiv', 'udiv') and I.x and isinstance(b, int) and w == 64:
        # exact division of a linear form (pointer differences)
        d = (1 << b) if I.op in ('ashr', 'lshr') else b
        r = exact_div(e, st, a, d, I.op in ('ashr', 'sdiv'))
        if r is not None:
            return r
    if I.op in ('ashr', 'lshr', 'sdiv', 'udiv') and not I.x and isinstance(b, int) and w == 64 and isinstance(a, Lin) and b:
        d = (1 << b) if I.op in ('ashr', 'lshr') else b
        if all(co % d == 0 for _, co in a.t.values()) and a.c % d == 0:
            r = exact_div(e, st, a, d, I.op in ('ashr', 'sdiv'))
            if r is not None:
                return r
    if I.op in ('udiv', 'sdiv', 'urem', 'srem'):
        if not isinstance(b, int):
            e.prove(st, icmp('ne', b, 0, w), "division by zero", "mem")
        elif b == 0:
            e.prove(st, False, "division by zero", "mem")
    return binop(I.op, a, b, w)


def exact_div(e, st, a, d, signed):
    """a/d for a linear form whose coefficients are multiples of d, when no wrap-around is possible"""
    if d == 1:
        return a
    if isinstance(a, Mux):
        out = []
        for g, x in a.alts:
            r = exact_div(e, State(pc_add(st.pc, g), st.mem), x, d, signed)
            if r is None:
                return None
            out.append((g, r))
        return mkmux(out)
    if isinstance(a, int):
        s = tosigned(a, 64) if signed else a
        q = abs(s) // d
        return (q if s >= 0 else -q) & M64
    if not isinstance(a, Lin):
        return None
    t = {}
    for k, (term, co) in a.t.items():
        s = tosigned(co, 64)
        if s % d:
            return None
        t[k] = (term, (s // d) & M64)
    c = tosigned(a.c, 64)
    if c % d:
        return None
    q = unlin(Lin(c // d, t))
    # a == d*q always (mod 2^64); the quotient is q iff q is small
    lim = (1 << 62) // d
    if isinstance(q, int):
        return q
    ok = And(icmp('sle', q, lim, 64), icmp('sge', q, (-lim) & M64 if signed else 0, 64))
    if e.valid(st, ok):
        return q
    return None


def h_icmp(e, act, st, I):
    a, b = e.val(act, I.ops[0]), e.val(act, I.ops[1])
    ty = e.m.ty(irload.TypeOf(I.ops[0][1]))
    if ty.k == 'vector':
        raise Unsupported("vector icmp")
    return icmp(I.x, a, b, 64 if ty.k == 'ptr' else ty.w)


def h_cast(e, act, st, I):
    v = e.val(act, I.ops[0])
    t0 = e.m.ty(irload.TypeOf(I.ops[0][1]))
    t1 = I.ty
    op = I.op
    if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
        if op == 'ptrtoint' and t1.w < 64:
            return extract(v, t1.w - 1, 0, 64)
        if op == 'bitcast':
            if isinstance(v, Float) and t1.k == 'int':
                return v.bits
            if t1.k == 'fp' and not isinstance(v, Float):
                return Float(v)
            if t0.k == 'vector' or t1.k == 'vector':
                # reinterpret
                if t0.k == 'vector':
                    v = concat([(x, t0.elt.w) for x in reversed(v)])
                if t1.k == 'vector':
                    w = t1.elt.w
                    return tuple(extract(v, w * (i + 1) - 1, w * i, w * t1.n) if w > 1 else tobool(extract(v, i, i, t1.n)) for i in range(t1.n))
        return v
    if op == 'trunc':
        if t0.k == 'vector':
            raise Unsupported("vector trunc")
        if t1.w == 1:
            x = extract(v, 0, 0, t0.w)
            return tobool(x)
        return extract(v, t1.w - 1, 0, t0.w)
    if t0.k == 'vector':
        return tuple((zext if op == 'zext' else sext)(x, t0.elt.w, t1.elt.w) for x in v)
    if op == 'zext':
        return zext(v, t0.w, t1.w)
    if op == 'sext':
        return sext(v, t0.w, t1.w)
    raise Unsupported(op)


def h_alloca(e, act, st, I):
    n = e.val(act, I.ops[0]) if I.ops else 1
    if not isinstance(n, int):
        raise Unsupported("variable alloca")
    o = e.alloc(st, I.x.size * n, "stack:" + act.f.dname[:60], 'alloca')
    act.allocas.append(o.id)
    return obj_base(o.id)


def h_load(e, act, st, I):
    return e.load(st, e.val(act, I.ops[0]), I.ty, "load in " + act.f.dname[:80])


def h_store(e, act, st, I):
    ty = e.m.ty(irload.TypeOf(I.ops[0][1]))
    e.store(st, e.val(act, I.ops[1]), e.val(act, I.ops[0], ty), ty, "store in " + act.f.dname[:80])
    return None


def h_gep(e, act, st, I):
    p = e.val(act, I.ops[0])
    idx = [(e.val(act, x), e.m.ty(irload.TypeOf(x[1])).w) for x in I.ops[1:]]
    return e.gep(p, I.x[0], idx)


def h_select(e, act, st, I):
    c, a, b = (e.val(act, x) for x in I.ops)
    if isinstance(c, tuple):
        raise Unsupported("vector select")
    return e.ite_ty(tobool(c), a, b, I.ty)


def h_extractvalue(e, act, st, I):
    v = e.val(act, I.ops[0])
    for i in I.x:
        v = v[i]
    return v


def h_insertvalue(e, act, st, I):
    agg = e.val(act, I.ops[0])
    v = e.val(act, I.ops[1])

    def ins(a, path):
        if not path:
            return v
        a = list(a)
        a[path[0]] = ins(a[path[0]], path[1:])
        return tuple(a)
    return ins(agg, list(I.x))


def h_freeze(e, act, st, I):
    return e.val(act, I.ops[0])


def h_landingpad(e, act, st, I):
    import models
    return models.landingpad(e, act, st, I)


def h_fp(e, act, st, I):
    return Float(e.fresh("fp", I.ty.w))


def h_fp2i(e, act, st, I):
    return e.fresh("fp2i", I.ty.w)


def h_fcmp(e, act, st, I):
    return e.fresh_bool("fcmp")


def h_extractelement(e, act, st, I):
    v = e.val(act, I.ops[0])
    i = e.val(act, I.ops[1])
    if not isinstance(i, int):
        raise Unsupported("symbolic vector index")
    return v[i]


def h_insertelement(e, act, st, I):
    v = list(e.val(act, I.ops[0]))
    i = e.val(act, I.ops[2])
    if not isinstance(i, int):
        raise Unsupported("symbolic vector index")
    v[i] = e.val(act, I.ops[1])
    return tuple(v)


def h_shuffle(e, act, st, I):
    a, b = e.val(act, I.ops[0]), e.val(act, I.ops[1])
    ab = tuple(a) + tuple(b)
    return tuple(ab[i] if 0 <= i < len(ab) else ab[0] for i in I.x)


def h_fence(e, act, st, I):
    return None


def h_atomicrmw(e, act, st, I):
    p = e.val(act, I.ops[0])
    v = e.val(act, I.ops[1])
    old = e.load(st, p, I.ty)
    op = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}.get(I.x, 'bad')
    if op == 'bad':
        raise Unsupported("atomicrmw")
    e.store(st, p, v if op is None else binop(op, old, v, I.ty.w), I.ty)
    return old


HANDLERS = {}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    HANDLERS[_o] = h_bin
for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
    HANDLERS[_o] = h_cast
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
    HANDLERS[_o] = h_fp
HANDLERS.update({'icmp': h_icmp, 'alloca': h_alloca, 'load': h_load, 'store': h_store, 'gep': h_gep, 'select': h_select,
                 'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue, 'freeze': h_freeze,
                 'landingpad': h_landingpad, 'fptoui': h_fp2i, 'fptosi': h_fp2i, 'fcmp': h_fcmp,
                 'extractelement': h_extractelement, 'insertelement': h_insertelement, 'shufflevector': h_shuffle,
                 'fence': h_fence, 'atomicrmw': h_atomicrmw})
MODELS = {}
NAME_MODELS = []
