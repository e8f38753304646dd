"""Verification-condition generator: symbolic execution of LLVM IR compiled
from the real sources, modular at calls (contracts), with automatic strongest
post-conditions for loops (closed forms for induction variables, recurrences
for accumulators, ownership maps for array writes)."""
import re, subprocess, sys, time
from fractions import Fraction
import z3
from terms import *
import llvmir

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    """construct outside the verifier's reach: the result is 'undecided'"""
    def __str__(s):
        return Exception.__str__(s) + (' [in ' + ' < '.join(x[:100] for x in s.stack[:6]) + ']' if hasattr(s, 'stack') else '')

EXIT = 'EXIT'

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'c', 'lin')
    def __init__(s, obj, c=0, lin=()):
        s.obj = obj; s.c = c; s.lin = lin
    def key(s): return (s.obj, s.c, tuple((a, t.get_id() if is_sym(t) else t) for a, t in s.lin))
    def __repr__(s): return 'Ptr(%s,%s%s)' % (s.obj, s.c, ''.join('+%d*%s' % (a, t) for a, t in s.lin))
NULL = Ptr(None, 0)
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class FnVal:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
class Undef:
    __slots__ = ('ty',)
    def __init__(s, ty=None): s.ty = ty
class Comp:
    """bytes of several cells seen as one value (ABI coercion)"""
    __slots__ = ('parts', 'size')
    def __init__(s, parts, size): s.parts = parts; s.size = size
class Aggr:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
class Opaque:
    """value with no modelled content"""
    __slots__ = ('what',)
    def __init__(s, w=''): s.what = w
class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p

# ------------------------------------------------------------------ memory
class RecC:
    """small object: cells at constant offsets"""
    __slots__ = ('cells',)
    def __init__(s, cells): s.cells = cells

class ABase:
    def __init__(s, decl, args=()): s.decl = decl; s.args = tuple(args)
    def read(s, x, cx): return s.decl(*s.args, cx.zi(x))
class AConst:
    def __init__(s, v): s.v = v
    def read(s, x, cx): return s.v
class AFun:
    def __init__(s, f): s.f = f
    def read(s, x, cx): return s.f(x)
class AStore:
    def __init__(s, prev, idx, val): s.prev = prev; s.idx = idx; s.val = val
    def read(s, x, cx):
        d = cx.const_diff(x, s.idx)
        if d == 0: return s.val
        if d is not None: return s.prev.read(x, cx)
        return cx.ite(cx.eqi(x, s.idx), s.val, s.prev.read(x, cx))
class AIte:
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def read(s, x, cx): return cx.ite(s.c, s.a.read(x, cx), s.b.read(x, cx))
class ARef:
    def __init__(s, t): s.t = t; s.base = None
    def read(s, x, cx): return s.t.read(x, cx)
class ASub:
    """content with iteration variable substituted, on a new base"""
    def __init__(s, cont, pairs, refs):
        s.cont = cont; s.pairs = pairs; s.refs = refs
    def read(s, x, cx):
        X = cx.fresh_const('X', z3.IntSort())
        old = [r.t for r, _ in s.refs]
        for r, t in s.refs: r.t = t
        try:
            v = s.cont.read(X, cx)
        finally:
            for (r, _), o in zip(s.refs, old): r.t = o
        return cx.subst(v, s.pairs + [(X, cx.zi(x))])
class APar:
    """content after a loop whose iteration own(x) is the only one that may
    write index x"""
    def __init__(s, prev, body, ref, k, K, own):
        s.prev = prev; s.body = body; s.ref = ref; s.k = k; s.K = K; s.own = own
        s.cache = None
    def read(s, x, cx):
        cond, o = s.own(x)
        rng = band(cx.lei(0, o), cx.lti(o, s.K), cond)
        pv = s.prev.read(x, cx)
        if rng is False: return pv
        if s.cache is None:
            X = cx.fresh_const('X', z3.IntSort())
            old = s.ref.t; s.ref.t = s.prev
            try: s.cache = (X, s.body.read(X, cx))
            finally: s.ref.t = old
        X, v = s.cache
        bv = cx.subst(v, [(X, cx.zi(x)), (s.k, cx.zi(o))])
        return cx.ite(rng, bv, pv)

class ArrC:
    __slots__ = ('es', 'kind', 'c')
    def __init__(s, es, kind, c): s.es = es; s.kind = kind; s.c = c

class Meta:
    __slots__ = ('name', 'nbytes', 'const', 'arr', 'id', 'heap', 'rng', 'local')
    def __init__(s, id, name, nbytes, arr=False, const=False, heap=False):
        s.id = id; s.name = name; s.nbytes = nbytes; s.arr = arr; s.const = const; s.heap = heap; s.rng = None; s.local = None

class State:
    __slots__ = ('objs', 'pc')
    def __init__(s, objs, pc): s.objs = objs; s.pc = pc
    def fork(s, c=None):
        return State(dict(s.objs), s.pc if c is None or c is True else s.pc + (c,))

class Obl:
    def __init__(s, name, hyps, goal, kind, loc=''):
        s.name = name; s.hyps = hyps; s.goal = goal; s.kind = kind; s.loc = loc
        s.status = None; s.model = None; s.time = 0; s.by = ''

class Frame:
    def __init__(s, fn, env): s.fn = fn; s.env = env; s.unroll = {}

_dem = {}
def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if not names: return
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    for n, d in zip(names, p.stdout.split('\n')):
        _dem[n] = d
def dem(n):
    if n not in _dem: demangle_all([n])
    return _dem.get(n, n)

class Cx:
    def __init__(self, mod, mode='int', fp='real', contracts=(), check_bounds=True, overflow='assume', name=''):
        self.mod = mod; self.mode = mode; self.fp = fp; self.name = name
        import exec2; exec2.BITS[0] = fp == 'bits'
        demangle_all(list(mod.fns))
        self.contracts = list(contracts)   # (regex on demangled name, handler)
        self.ccache = {}
        self.scopes = []          # loop scopes: dicts
        self.facts = [[]]         # stack of lists
        self.obls = []
        self.meta = {}
        self.nid = 0
        self.nfresh = 0
        self.keep = []
        self.rngs = {}            # ast id -> (lo,hi)
        self.decl_rng = {}        # decl name -> (lo,hi)
        self.inj = {}             # decl name -> list of inverse functions (python: x -> (cond, term))
        self.mono = {}            # decl name -> owner function (python)
        self.polyc = {}
        self.check_bounds = check_bounds
        self.overflow = overflow
        self.globals = {}
        self.dry = 0
        self.cur_pc = ()
        self.folds = []
        self.assumptions = set()
        self.used = set()         # functions whose bodies were executed
        self.used_contracts = set()
        self.candidates = []
        self.recdefs = []
        self.quick_t = 0.0
        self.steps = 0
        self.deadline = None
        self.unroll_limit = 300
        self.force_unroll = None
        self.max_steps = 3000000
        self.qcache = {}
        self.par_fns = re.compile(r'Omega_h::for_each<|Omega_h::parallel_for')
        self.fold_hook = None
        self.owner_hints = []
        self.depth = 0
        self.nounroll_fail = False

    # ------------------------------------------------------------ basic terms
    def fresh_name(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)
    def fresh_const(self, base, sort):
        c = z3.Const(self.fresh_name(base), sort); self.keep.append(c); return c
    def binders(self): return [s['k'] for s in self.scopes]
    def fresh(self, base, sort):
        """fresh symbol depending on the active iteration variables"""
        b = self.binders()
        if not b: return self.fresh_const(base, sort)
        f = z3.Function(self.fresh_name(base), *([z3.IntSort()] * len(b)), sort)
        self.keep.append(f)
        return f(*b)
    def fresh_int(self, base, bits=None, rng=None):
        if self.mode == 'bv':
            return self.fresh(base, z3.BitVecSort(bits))
        v = self.fresh(base, z3.IntSort())
        if rng is None and bits: rng = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        if rng:
            self.set_rng(v, rng)
            self.fact(band(v >= rng[0], v <= rng[1]), guard=False)
        return v
    def set_rng(self, t, rng):
        self.keep.append(t)
        if t.num_args() > 0: self.decl_rng[t.decl().name()] = rng
        else: self.rngs[t.get_id()] = rng
    def zi(self, x):
        if isinstance(x, int): return z3.IntVal(x)
        return x
    def intsort(self, bits):
        return z3.IntSort() if self.mode == 'int' else z3.BitVecSort(bits)
    def fpsort(self):
        return z3.RealSort() if self.fp == 'real' else z3.Float64()
    def fresh_kind(self, base, kind, size):
        if kind == 'f': return self.fresh(base, self.fpsort())
        if kind == 'b': return self.fresh(base, z3.BoolSort())
        if kind == 'i': return self.fresh_int(base, size * 8)
        raise Unsupported('fresh ' + kind)
    def fact(self, f, guard=True, pc=None):
        if f is True: return
        if self.dry: return
        if guard:
            g = band(*(pc if pc is not None else self.cur_pc))
            f = z3.Implies(Z(g), Z(f)) if g is not True else Z(f)
        else: f = Z(f)
        self.facts[-1].append(f)
    def all_facts(self):
        return [f for l in self.facts for f in l]
    def subst(self, v, pairs):
        if isinstance(v, (int, bool, Fraction)) or v is None: return v
        if is_sym(v):
            return z3.substitute(v, *pairs)
        if isinstance(v, Ptr):
            if not v.lin: return v
            return Ptr(v.obj, v.c, tuple((a, self.subst(t, pairs)) for a, t in v.lin))
        if isinstance(v, PIte): return PIte(self.subst(v.c, pairs), self.subst(v.a, pairs), self.subst(v.b, pairs))
        if isinstance(v, Comp): return Comp([(o, s, self.subst(x, pairs), k) for o, s, x, k in v.parts], v.size)
        if isinstance(v, Aggr): return Aggr([self.subst(x, pairs) for x in v.v])
        if isinstance(v, PInt): return PInt(self.subst(v.p, pairs))
        return v
    # ------------------------------------------------------------ int helpers (mode int, index algebra)
    def rng(self, t):
        if isinstance(t, int): return (t, t)
        if not is_sym(t): return (None, None)
        i = t.get_id()
        r = self.rngs.get(i)
        if r is not None: return r
        r = self._rng(t)
        self.rngs[i] = r; self.keep.append(t)
        return r
    def _rng(self, t):
        if z3.is_int_value(t): v = t.as_long(); return (v, v)
        k = t.decl().kind()
        A = [t.arg(j) for j in range(t.num_args())]
        def add(a, b): return None if a is None or b is None else a + b
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for a in A:
                l, h = self.rng(a); lo = add(lo, l); hi = add(hi, h)
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            lo, hi = self.rng(A[0])
            for a in A[1:]:
                l, h = self.rng(a)
                lo = None if lo is None or h is None else lo - h
                hi = None if hi is None or l is None else hi - l
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            l, h = self.rng(A[0]); return (None if h is None else -h, None if l is None else -l)
        if k == z3.Z3_OP_MUL:
            lo, hi = self.rng(A[0])
            for a in A[1:]:
                l, h = self.rng(a)
                if None in (lo, hi, l, h):
                    if lo is not None and l is not None and lo >= 0 and l >= 0:
                        lo, hi = lo * l, (hi * h if hi is not None and h is not None else None); continue
                    return (None, None)
                c = [lo * l, lo * h, hi * l, hi * h]; lo, hi = min(c), max(c)
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            l1, h1 = self.rng(A[1]); l2, h2 = self.rng(A[2])
            return (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
        if k == z3.Z3_OP_MOD and z3.is_int_value(A[1]) and A[1].as_long() > 0:
            l, h = self.rng(A[0]); m = A[1].as_long()
            if l is not None and h is not None and 0 <= l and h < m: return (l, h)
            return (0, m - 1)
        if k == z3.Z3_OP_IDIV and z3.is_int_value(A[1]) and A[1].as_long() > 0:
            l, h = self.rng(A[0]); m = A[1].as_long()
            return (None if l is None else l // m, None if h is None else h // m)
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.decl_rng.get(t.decl().name(), (None, None))
        return (None, None)
    def poly(self, t):
        """dict: sorted tuple of atom ids -> int coefficient"""
        if isinstance(t, int): return {(): t} if t else {}
        i = t.get_id()
        p = self.polyc.get(i)
        if p is None:
            p = self._poly(t); self.polyc[i] = p; self.keep.append(t)
        return p
    def _poly(self, t):
        if z3.is_int_value(t):
            v = t.as_long(); return {(): v} if v else {}
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = dict(self.poly(t.arg(0))); s = 1 if k == z3.Z3_OP_ADD else -1
            for j in range(1, t.num_args()):
                for m, c in self.poly(t.arg(j)).items():
                    n = r.get(m, 0) + s * c
                    if n: r[m] = n
                    else: r.pop(m, None)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for j in range(t.num_args()):
                q = self.poly(t.arg(j)); n = {}
                for m1, c1 in r.items():
                    for m2, c2 in q.items():
                        m = tuple(sorted(m1 + m2)); v = n.get(m, 0) + c1 * c2
                        if v: n[m] = v
                        else: n.pop(m, None)
                r = n
            return r
        self.atoms = getattr(self, 'atoms', {})
        self.atoms[t.get_id()] = t; self.keep.append(t)
        return {(t.get_id(),): 1}
    def unpoly(self, p):
        if not p: return 0
        out = None
        for m in sorted(p, key=lambda m: (len(m), m)):
            c = p[m]
            term = None
            for a in m:
                x = self.atoms[a]; term = x if term is None else term * x
            if term is None: term = c
            elif c != 1: term = (-term) if c == -1 else c * term
            if out is None: out = term
            elif isinstance(out, int) and isinstance(term, int): out = out + term
            else: out = self.zi(term) + out if isinstance(term, int) else (out + term)
        return out
    def norm(self, t):
        if isinstance(t, int): return t
        p = self.poly(t)
        if len(p) == 0: return 0
        if len(p) == 1 and () in p: return p[()]
        return t
    def const_diff(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a - b
        p = dict(self.poly(a))
        for m, c in self.poly(b).items():
            n = p.get(m, 0) - c
            if n: p[m] = n
            else: p.pop(m, None)
        if not p: return 0
        if len(p) == 1 and () in p: return p[()]
        return None
    def addi(self, *xs):
        c = 0; out = None
        for x in xs:
            if isinstance(x, int): c += x
            else: out = x if out is None else out + x
        if out is None: return c
        if c: out = out + c
        return self.norm(out)
    def subi(self, a, b):
        d = self.const_diff(a, b)
        if d is not None: return d
        if isinstance(b, int): return self.addi(a, -b)
        return self.norm(self.zi(a) - b)
    def muli(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a * b
        if isinstance(a, int):
            if a == 0: return 0
            if a == 1: return b
            return a * b
        if isinstance(b, int): return self.muli(b, a)
        return a * b
    def lti(self, a, b):
        d = self.const_diff(a, b)
        if d is not None: return d < 0
        la, ha = self.rng(a); lb, hb = self.rng(b)
        if ha is not None and lb is not None and ha < lb: return True
        if la is not None and hb is not None and la >= hb: return False
        return self.zi(a) < self.zi(b)
    def lei(self, a, b): return bnot(self.lti(b, a)) if self.const_diff(a, b) is not None else self._lei(a, b)
    def _lei(self, a, b):
        la, ha = self.rng(a); lb, hb = self.rng(b)
        if ha is not None and lb is not None and ha <= lb: return True
        if la is not None and hb is not None and la > hb: return False
        return self.zi(a) <= self.zi(b)
    def eqi(self, a, b):
        d = self.const_diff(a, b)
        if d is not None: return d == 0
        la, ha = self.rng(a); lb, hb = self.rng(b)
        if (ha is not None and lb is not None and ha < lb) or (la is not None and hb is not None and la > hb): return False
        if self.distinct and not isinstance(a, int) and not isinstance(b, int) and str(a) in self.distinct and str(b) in self.distinct: return False   # assumed pairwise different, and not the same term
        return self.zi(a) == self.zi(b)
    distinct = ()   # names of constants the precondition assumes pairwise different
    def divexact(self, t, m):
        """t/m when every monomial is divisible by m (int or term that is a product)"""
        if isinstance(m, int):
            p = self.poly(t)
            if all(c % m == 0 for c in p.values()):
                return self.unpoly({k: c // m for k, c in p.items()})
            return None
        pm = self.poly(m)
        if len(pm) != 1: return None
        (mm, mc), = pm.items()
        out = {}
        for k, c in self.poly(t).items():
            kk = list(k)
            for a in mm:
                if a in kk: kk.remove(a)
                else: return None
            if c % mc: return None
            out[tuple(kk)] = c // mc
        return self.unpoly(out)
    def split(self, t, m):
        """t = m*Q + R by monomials"""
        p = self.poly(t); Q = {}; R = {}
        if isinstance(m, int): mm, mc = (), m
        else:
            pm = self.poly(m)
            if len(pm) != 1: return None
            (mm, mc), = pm.items()
        for k, c in p.items():
            kk = list(k); ok = True
            for a in mm:
                if a in kk: kk.remove(a)
                else: ok = False; break
            if not ok: R[k] = c; continue
            if not kk and mm == () :   # constant term
                q = c // mc; r = c - q * mc
                if q: Q[()] = q
                if r: R[()] = r
                continue
            q = c // mc; r = c - q * mc
            if q: Q[tuple(kk)] = q
            if r: R[k] = r
        return self.unpoly(Q), self.unpoly(R)
    def qdiv(self, x, m):
        """floor(x/m) for m>0, decomposed when possible"""
        if isinstance(m, int):
            if m == 1: return x
            if isinstance(x, int): return x // m
        sp = self.split(x, m)
        if sp is not None:
            Q, R = sp
            if R == 0 or self.quick(band(self.lei(0, R), self.lti(R, m))): return Q
        if isinstance(m, int):
            return self.zi(x) / z3.IntVal(m)
        q = self.zi(x) / m
        return q
    def quick(self, goal, pc=None, ms=3000):
        """cheap entailment query used to simplify terms (sound: only 'unsat' counts)"""
        b = conc_bool(goal)
        if b is not None: return b
        pc = self.cur_pc if pc is None else pc
        hyps = self.all_facts() + [Z(p) for p in pc]
        key = (goal.get_id(), tuple(h.get_id() for h in hyps))
        if key in self.qcache: return self.qcache[key]
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', ms)
        qf = [h for h in hyps if not has_q(h)]
        s.add(*qf); s.add(z3.Not(goal))
        r = s.check() == z3.unsat
        if not r and len(qf) < len(hyps):
            s = z3.Solver(); s.set('timeout', ms); s.set('mbqi', False)
            s.add(*hyps); s.add(z3.Not(goal))
            r = s.check() == z3.unsat
        self.quick_t += time.time() - t0
        self.qcache[key] = r; self.keep.append(goal); self.keep.extend(hyps)
        return r
    def feasible(self, pc, ms=2000):
        s = z3.Solver(); s.set('timeout', ms)
        s.add(*[h for h in self.all_facts() if not has_q(h)]); s.add(*[Z(p) for p in pc])
        return s.check() != z3.unsat
    def ite(self, c, a, b, bits=None):
        cc = conc_bool(c)
        if cc is not None: return a if cc else b
        if a is b or same(a, b): return a
        if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)):
            if a is True: return bor(c, b)
            if a is False: return band(bnot(c), b)
            if b is True: return bor(bnot(c), a)
            if b is False: return band(c, a)
            if is_sym(a) and is_sym(b) and z3.is_bool(a) and z3.is_bool(b): return z3.If(c, a, b)
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            if isinstance(a, int) and isinstance(b, int):
                if self.mode == 'int': return z3.If(c, z3.IntVal(a), z3.IntVal(b))
                if bits is None: raise Unsupported('ite width')
                return z3.If(c, z3.BitVecVal(a, bits), z3.BitVecVal(b, bits))
            if isinstance(a, int): a = z3.IntVal(a) if z3.is_int(b) else (z3.BitVecVal(a, b.size()) if z3.is_bv(b) else a)
            if isinstance(b, int): b = z3.IntVal(b) if z3.is_int(a) else (z3.BitVecVal(b, a.size()) if z3.is_bv(a) else b)
            if is_sym(a) and is_sym(b) and a.sort() == b.sort(): return z3.If(c, a, b)
        if isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)):
            a2 = self.zf(a); b2 = self.zf(b)
            return z3.If(c, a2, b2)
        if isinstance(a, Undef) and isinstance(b, Undef): return a
        if isinstance(a, Undef) and is_sym(b): return z3.If(c, self.fresh('undef', b.sort()), b)
        if isinstance(b, Undef) and is_sym(a): return z3.If(c, a, self.fresh('undef', a.sort()))
        if isinstance(a, Undef) and isinstance(b, int): return z3.If(c, self.fresh('undef', z3.IntSort()), z3.IntVal(b)) if self.mode == 'int' else a
        if isinstance(b, Undef) and isinstance(a, int): return z3.If(c, z3.IntVal(a), self.fresh('undef', z3.IntSort())) if self.mode == 'int' else b
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque()
        if isinstance(a, (Ptr, PIte, FnVal, Undef)) and isinstance(b, (Ptr, PIte, FnVal, Undef)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.key() == b.key(): return a
                if a.obj is not None and a.obj == b.obj and a.c == b.c and len(a.lin) == len(b.lin) and all(x[0] == y[0] for x, y in zip(a.lin, b.lin)):
                    return Ptr(a.obj, a.c, tuple((x[0], self.ite(c, x[1], y[1], 64)) for x, y in zip(a.lin, b.lin)))
            return PIte(c, a, b)
        if isinstance(a, Aggr) and isinstance(b, Aggr):
            return Aggr([self.ite(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Comp) and isinstance(b, Comp) and [(p[0], p[1], p[3]) for p in a.parts] == [(p[0], p[1], p[3]) for p in b.parts]:
            return Comp([(x[0], x[1], self.ite(c, x[2], y[2], x[1] * 8), x[3]) for x, y in zip(a.parts, b.parts)], a.size)
        if isinstance(a, Comp): return self.ite(c, self.comp_int(a), b, bits)
        if isinstance(b, Comp): return self.ite(c, a, self.comp_int(b), bits)
        if isinstance(a, PInt) and isinstance(b, PInt): return PInt(self.ite(c, a.p, b.p))
        raise Unsupported('ite %r %r' % (type(a), type(b)))
    def zf(self, v):
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, (Fraction, int)):
            if self.fp == 'real': return z3.RealVal(v) if not isinstance(v, Fraction) else z3.RealVal(str(v))
            return z3.FPVal(float(v), z3.Float64())
        if isinstance(v, float): return z3.FPVal(v, z3.Float64())
        if isinstance(v, Undef): return self.fresh('undef', self.fpsort())
        raise Unsupported('fp value %r' % (v,))
    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, kind='assert', pc=None, loc=''):
        if self.dry: return
        b = conc_bool(goal)
        pc = self.cur_pc if pc is None else pc
        if b is True:
            o = Obl(name, [], z3.BoolVal(True), kind, loc); o.status = 'trivial'; self.obls.append(o); return
        o = Obl(name, self.all_facts() + [Z(p) for p in pc], Z(goal), kind, loc)
        self.obls.append(o)
    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, nbytes, arr=False, const=False, content=None, heap=False):
        self.nid += 1
        m = Meta(self.nid, name, nbytes, arr, const, heap)
        m.local = len(self.scopes)
        self.meta[self.nid] = m
        st.objs[self.nid] = content if content is not None else (ArrC(None, None, None) if arr else RecC({}))
        return Ptr(self.nid, 0)
    def global_obj(self, st, name):
        oid = self.globals.get(name)
        if oid is None:
            g = self.mod.gbyname[name]
            ty = self.mod.ty(llvmir.GValTy(g))
            self.nid += 1; oid = self.nid
            m = Meta(oid, '@' + name, ty.alloc, False, bool(llvmir.GConst(g)))
            self.meta[oid] = m
            self.globals[name] = oid
            cells = {}
            if not llvmir.GIsDecl(g):
                ini = llvmir.GInit(g)
                if ini:
                    self.flatten(self.mod.operand(ini), ty, 0, cells, st)
            self.ginit = getattr(self, 'ginit', {})
            self.ginit[oid] = RecC(cells)
        if oid not in st.objs: st.objs[oid] = self.ginit[oid]
        return Ptr(oid, 0)
    def flatten(self, op, ty, off, cells, st):
        if op[0] == 'zero' or (op[0] == 'undef'):
            self.zero_cells(ty, off, cells); return
        if op[0] == 'aggr':
            if ty.kind in ('array', 'vector'):
                for i, o in enumerate(op[2]): self.flatten(o, ty.elem, off + i * ty.elem.alloc, cells, st)
            else:
                for i, o in enumerate(op[2]): self.flatten(o, ty.elems[i], off + ty.offsets[i], cells, st)
            return
        v = self.operand(op, None, st)
        cells[off] = (ty.size, v, kindof(ty))
    def zero_cells(self, ty, off, cells):
        if ty.kind in ('array', 'vector'):
            if ty.n > 100000: raise Unsupported('big zero')
            for i in range(ty.n): self.zero_cells(ty.elem, off + i * ty.elem.alloc, cells)
        elif ty.kind == 'struct':
            for e, o in zip(ty.elems, ty.offsets): self.zero_cells(e, off + o, cells)
        elif ty.kind == 'int': cells[off] = (ty.size, 0, 'i')
        elif ty.kind == 'ptr': cells[off] = (8, NULL, 'p')
        elif ty.kind in ('double', 'float'): cells[off] = (ty.size, Fraction(0) if self.fp == 'real' else 0.0, 'f') if self.fp != 'bits' else (ty.size, 0, 'i')
    # ------------------------------------------------------------ pointers
    def padd(self, p, c, lin=()):
        if isinstance(p, PIte): return PIte(p.c, self.padd(p.a, c, lin), self.padd(p.b, c, lin))
        if isinstance(p, (Undef, Opaque)): return p
        if not isinstance(p, Ptr): raise Unsupported('padd %r' % (p,))
        nl = list(p.lin)
        for s, t in lin:
            if isinstance(t, int): c += s * t; continue
            if self.mode == 'int':
                t = self.norm(t)
                if isinstance(t, int): c += s * t; continue
            for i, (s2, t2) in enumerate(nl):
                if s2 == s:
                    if self.mode == 'int':
                        n = self.addi(t2, t)
                        nl[i] = (s, n)
                    else: nl[i] = (s, t2 + t)
                    break
            else: nl.append((s, t))
        out = []
        for s, t in nl:
            if isinstance(t, int): c += s * t
            else: out.append((s, t))
        return Ptr(p.obj, p.c + c, tuple(out))
    def off_term(self, p):
        t = p.c
        for s, x in p.lin: t = self.addi(t, self.muli(s, x)) if self.mode == 'int' else (x * s + t)
        return t
    def elem_index(self, p, es):
        if p.c % es: raise Unsupported('misaligned')
        t = p.c // es
        for s, x in p.lin:
            if s % es == 0:
                t = self.addi(t, self.muli(s // es, x)) if self.mode == 'int' else ((s // es) * x + t)
            else:
                d = self.divexact(self.muli(s, x), es) if self.mode == 'int' else None
                if d is None: raise Unsupported('stride')
                t = self.addi(t, d)
        return t
    # ------------------------------------------------------------ load/store
    def comp_int(self, v):
        if all(isinstance(x, int) for _, _, x, _ in v.parts):
            r = 0
            for o, s, x, k in v.parts: r |= (x & ((1 << 8 * s) - 1)) << (8 * o)
            return wrap_const(r, v.size * 8)
        if self.mode == 'bv':
            ps = sorted(v.parts, key=lambda p: -p[0])
            bs = []
            for o, s, x, k in ps:
                if k == 'f': x = self.f2i(x)
                bs.append(sx(x, s * 8))
            return z3.Concat(*bs) if len(bs) > 1 else bs[0]
        t = 0
        for o, s, x, k in sorted(v.parts):
            if k != 'i': raise Unsupported('comp of non int')
            last = (o + s == v.size)
            u = x if last else self.uns(x, s * 8)
            t = self.addi(t, self.muli(1 << (8 * o), u))
        return t
    def f2i(self, x):
        if self.fp != 'fp': raise Unsupported('bits of real')
        return z3.fpToIEEEBV(self.zf(x))
    def uns(self, v, bits):
        """unsigned view of a canonical signed int (mode int)"""
        if isinstance(v, int): return v & ((1 << bits) - 1)
        lo, hi = self.rng(v)
        if lo is not None and lo >= 0: return v
        if self.quick(self.zi(v) >= 0, ms=500): return v
        return z3.If(v >= 0, v, v + (1 << bits))
    def sgn(self, v, bits, why=''):
        """wrap a mathematical integer into canonical signed range"""
        if isinstance(v, int): return wrap_const(v, bits)
        v = self.norm(v)
        if isinstance(v, int): return wrap_const(v, bits)
        lo, hi = self.rng(v)
        L = -(1 << (bits - 1)); H = (1 << (bits - 1)) - 1
        if lo is not None and hi is not None and L <= lo and hi <= H: return v
        if self.quick(band(v >= L, v <= H), ms=1000): return v
        if lo is not None and hi is not None and L <= lo and hi <= H + (1 << bits):
            return z3.If(v <= H, v, v - (1 << bits))
        if lo is not None and hi is not None and L - (1 << bits) <= lo and hi <= H:
            return z3.If(v >= L, v, v + (1 << bits))
        return (v + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
    def note(self, kind, obj, idx, st, val=None):
        for d, sc in enumerate(self.scopes):
            m = self.meta[obj]
            sc['log'].append((kind, obj, idx, st.pc[sc['pcn']:], [(s['k'], s['K']) for s in self.scopes[d + 1:]], val))
    def load(self, p, ty, st):
        if isinstance(p, PIte):
            s1 = State(st.objs, st.pc + (p.c,)); s2 = State(st.objs, st.pc + (bnot(p.c),))
            return self.ite(p.c, self.load_g(p.a, ty, s1), self.load_g(p.b, ty, s2), ty.bits)
        return self.load1(p, ty, st)
    def load_g(self, p, ty, st):
        if isinstance(p, Ptr) and p.obj is None: return Undef(ty)
        return self.load(p, ty, st)
    def load1(self, p, ty, st):
        if ty.kind in ('struct', 'array', 'vector'):
            out = []
            if ty.kind == 'struct': es = list(zip(ty.elems, ty.offsets))
            else: es = [(ty.elem, i * ty.elem.alloc) for i in range(ty.n)]
            return Aggr([self.load1(self.padd(p, o), e, st) for e, o in es])
        if isinstance(p, (Opaque,)): return Opaque()
        if not isinstance(p, Ptr): raise Unsupported('load from %r' % (p,))
        if p.obj is None:
            if self.dry: return Undef(ty)
            self.oblige('null dereference', False, 'safety', st.pc); return Undef(ty)
        m = self.meta[p.obj]
        c = st.objs.get(p.obj)
        if c is None: raise Unsupported('dead object ' + m.name)
        if isinstance(c, Opaque): return self.opaque_load(p, ty, st)
        kd = kindof(ty)
        if isinstance(c, ArrC):
            c = self.typed(p.obj, c, ty, st)
            idx = self.elem_index(p, c.es)
            self.bounds(p.obj, idx, c.es, st)
            self.note('r', p.obj, idx, st)
            return c.c.read(idx, self)
        if not p.lin: return self.rec_load(c, p.c, ty, kd, m)
        # symbolic offset in a small object
        cand = self.rec_cands(c, p, ty.size, m)
        if not cand: raise Unsupported('symbolic offset load: no candidates in ' + m.name)
        off = self.off_term(p)
        if self.check_bounds:
            self.oblige('index in bounds of local/global %s' % m.name, bor(*[self.eqo(off, o) for o in cand]), 'bounds', st.pc)
        r = None
        for o in reversed(cand):
            v = self.rec_load(c, o, ty, kd, m)
            r = v if r is None else self.ite(self.eqo(off, o), v, r, ty.bits)
        return r
    def opaque_load(self, p, ty, st):
        return Opaque() if ty.kind == 'ptr' else (self.fresh_kind('opq', kindof(ty), ty.size) if ty.kind != 'int' or ty.bits != 1 else self.fresh('opq', z3.BoolSort()))
    def eqo(self, off, o):
        if self.mode == 'int': return self.eqi(off, o)
        if isinstance(off, int): return off == o
        return off == z3.BitVecVal(o, off.size())
    def rec_cands(self, c, p, size, m):
        step = 0
        import math
        for s, _ in p.lin: step = math.gcd(step, abs(s))
        step = max(step, 1)
        n = m.nbytes if isinstance(m.nbytes, int) else max(c.cells, default=0) + 8
        if n // step > 4096: raise Unsupported('large symbolic table')
        return [o for o in range(p.c % step, n - size + 1, step)]
    def rec_load(self, c, off, ty, kd, m):
        e = c.cells.get(off)
        if e is not None and e[0] == ty.size:
            return self.conv(e[1], e[2], kd, ty)
        size = ty.size
        parts = []
        for o, (s, v, k) in c.cells.items():
            if o < off + size and off < o + s: parts.append((o, s, v, k))
        if not parts: return Undef(ty)
        parts.sort()
        if len(parts) == 1 and parts[0][0] <= off and off + size <= parts[0][0] + parts[0][1]:
            o, s, v, k = parts[0]
            return self.extract(v, k, s, off - o, size, kd, ty)
        if all(off <= o and o + s <= off + size for o, s, v, k in parts):
            cp = Comp([(o - off, s, v, k) for o, s, v, k in parts], size)
            tot = sum(s for _, s, _, _ in parts)
            if tot == size and all(k == 'i' for _, _, _, k in parts) and (self.mode == 'bv' or all(isinstance(v, int) for _, _, v, _ in parts)):
                if all(isinstance(v, (int, z3.ExprRef)) for _, _, v, _ in parts):
                    return self.comp_int(cp)
            if kd == 'f' : raise Unsupported('fp from pieces')
            return cp
        raise Unsupported('overlapping load in ' + m.name)
    def extract(self, v, k, s, rel, size, kd, ty):
        if isinstance(v, Comp):
            for o, ps, x, pk in v.parts:
                if o == rel and ps == size: return self.conv(x, pk, kd, ty)
            sub = [(o - rel, ps, x, pk) for o, ps, x, pk in v.parts if rel <= o and o + ps <= rel + size]
            if sub: return Comp(sub, size)
            for o, ps, x, pk in v.parts:
                if o <= rel and rel + size <= o + ps: return self.extract(x, pk, ps, rel - o, size, kd, ty)
            return Undef(ty)
        if isinstance(v, Undef): return Undef(ty)
        if k == 'i' and kd == 'i':
            if isinstance(v, int): return wrap_const(v >> (8 * rel), 8 * size)
            if self.mode == 'bv': return z3.Extract(8 * (rel + size) - 1, 8 * rel, v)
            return self.sgn(self.qdiv(v, 1 << (8 * rel)) % (1 << (8 * size)), 8 * size)
        if k == 'f' and kd == 'i' and self.fp == 'fp' and self.mode == 'bv':
            return z3.Extract(8 * (rel + size) - 1, 8 * rel, self.f2i(v))
        raise Unsupported('extract %s from %s' % (kd, k))
    def conv(self, v, k, kd, ty):
        if k == kd or isinstance(v, Undef): return v
        if isinstance(v, Comp): return v
        if kd == 'f' and isinstance(v, Opaque): return v
        if k == 'f' and kd == 'i':
            if self.fp == 'fp' and self.mode == 'bv': return self.f2i(v)
            return Comp([(0, ty.size, v, 'f')], ty.size)
        if k == 'i' and kd == 'f':
            if isinstance(v, Comp) and len(v.parts) == 1: return v.parts[0][2]
            if isinstance(v, int) and v == 0: return Fraction(0) if self.fp == 'real' else 0.0
            if self.fp == 'fp' and self.mode == 'bv': return z3.fpBVToFP(sx(v, 64), z3.Float64())
        if k == 'p' and kd == 'i': return PInt(v)
        if k == 'i' and kd == 'p':
            if isinstance(v, PInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
        raise Unsupported('type-punned access %s as %s' % (k, kd))
    def typed(self, oid, c, ty, st):
        kd = kindof(ty)
        if c.es is None:
            sort = self.fpsort() if kd == 'f' else self.intsort(ty.size * 8)
            nm = self.meta[oid].name
            d = z3.Function(self.fresh_name('mem_' + re.sub(r'\W', '', nm)), z3.IntSort() if self.mode == 'int' else z3.BitVecSort(64), sort)
            if kd == 'i' and self.mode == 'int':
                self.decl_rng[d.name()] = (-(1 << (8 * ty.size - 1)), (1 << (8 * ty.size - 1)) - 1)
            self.keep.append(d)
            c = ArrC(ty.size, kd, ABase(d))
            st.objs[oid] = c
        if c.es != ty.size or c.kind != kd:
            raise Unsupported('array %s of %s%s accessed as %s%s' % (self.meta[oid].name, c.kind, c.es, kd, ty.size))
        return c
    def bounds(self, oid, idx, es, st):
        if not self.check_bounds or self.dry: return
        m = self.meta[oid]
        n = self.nelems(m, es)
        if n is None: return
        self.oblige('access to %s in bounds' % m.name, band(self.lei(0, idx), self.lti(idx, n)), 'bounds', st.pc)
    def nelems(self, m, es):
        if m.nbytes is None: return None
        return self.divexact(m.nbytes, es) if self.mode == 'int' else None
    def store(self, p, v, ty, st):
        if isinstance(p, PIte):
            for q, c in ((p.a, p.c), (p.b, bnot(p.c))):
                if isinstance(q, Ptr) and q.obj is None: continue
                s2 = State(dict(st.objs), st.pc + (c,))
                self.store(q, v, ty, s2)
                self.merge_objs(st, c, s2)
            return
        if ty.kind in ('struct', 'array', 'vector'):
            if ty.kind == 'struct': es = list(zip(ty.elems, ty.offsets))
            else: es = [(ty.elem, i * ty.elem.alloc) for i in range(ty.n)]
            if isinstance(v, Undef): v = Aggr([Undef(e) for e, _ in es])
            if not isinstance(v, Aggr): raise Unsupported('aggregate store %r' % v)
            for (e, o), x in zip(es, v.v): self.store(self.padd(p, o), x, e, st)
            return
        if isinstance(p, Opaque): return
        if not isinstance(p, Ptr): raise Unsupported('store to %r' % (p,))
        if p.obj is None:
            if self.dry: return
            self.oblige('null dereference (store)', False, 'safety', st.pc); return
        m = self.meta[p.obj]
        c = st.objs.get(p.obj)
        if isinstance(c, Opaque): return
        if m.const: raise Unsupported('store to constant ' + m.name)
        if ty.kind == 'int' and ty.bits == 1: v = self.ite(v, 1, 0, 8)
        kd = kindof(ty)
        if isinstance(c, ArrC):
            if isinstance(v, Comp): v = self.comp_int(v)
            c = self.typed(p.obj, c, ty, st)
            idx = self.elem_index(p, c.es)
            self.bounds(p.obj, idx, c.es, st)
            if isinstance(v, Undef): v = self.fresh_kind('undef', kd, ty.size)
            self.note('w', p.obj, idx, st, v)
            st.objs[p.obj] = ArrC(c.es, c.kind, AStore(c.c, idx, v))
            return
        cells = dict(c.cells)
        if not p.lin:
            self.rec_store(cells, p.c, ty.size, v, kd)
        else:
            cand = self.rec_cands(c, p, ty.size, m)
            off = self.off_term(p)
            if self.check_bounds:
                self.oblige('index in bounds of local %s' % m.name, bor(*[self.eqo(off, o) for o in cand]), 'bounds', st.pc)
            for o in cand:
                old = self.rec_load(c, o, ty, kd, m)
                if isinstance(old, Undef): old = self.fresh_kind('undef', kd, ty.size)
                self.rec_store(cells, o, ty.size, self.ite(self.eqo(off, o), v, old, ty.size * 8), kd)
        st.objs[p.obj] = RecC(cells)
    def rec_store(self, cells, off, size, v, kd):
        if isinstance(v, Comp) and v.size == size:
            for o in [o for o in cells if o < off + size and off < o + cells[o][0]]:
                self.rec_clip(cells, o, off, size)
            for o, s, x, k in v.parts: cells[off + o] = (s, x, k)
            return
        for o in [o for o in cells if o < off + size and off < o + cells[o][0]]:
            self.rec_clip(cells, o, off, size)
        cells[off] = (size, v, kd)
    def rec_clip(self, cells, o, off, size):
        s, v, k = cells.pop(o)
        if off <= o and o + s <= off + size: return
        if isinstance(v, Comp):
            for po, ps, x, pk in v.parts:
                if o + po + ps <= off or off + size <= o + po: cells[o + po] = (ps, x, pk)
            return
        class T: pass
        if k == 'i' and isinstance(v, (int, z3.ExprRef)):
            for b in range(s):
                if not (off <= o + b < off + size):
                    t = T(); t.size = 1; t.bits = 8
                    cells[o + b] = (1, self.extract(v, 'i', s, b, 1, 'i', t), 'i')
            return
        if isinstance(v, Undef): return
        raise Unsupported('partial overwrite')
    # ------------------------------------------------------------ merging
    def merge_objs(self, st, c, s2):
        """st := ite(c, s2, st) on objects"""
        for oid, b in list(s2.objs.items()):
            a = st.objs.get(oid)
            if a is b: continue
            if a is None: st.objs[oid] = b; continue
            st.objs[oid] = self.merge_content(c, b, a, oid)
    def merge_content(self, c, a, b, oid):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return a if isinstance(a, Opaque) else b
        if isinstance(a, ArrC):
            if a.es is None: return b
            if b.es is None: return a
            if a.c is b.c: return a
            return ArrC(a.es, a.kind, AIte(c, a.c, b.c))
        cells = {}
        for o in set(a.cells) | set(b.cells):
            x = a.cells.get(o); y = b.cells.get(o)
            if x is not None and y is not None and x[0] == y[0]:
                if x[1] is y[1]: cells[o] = x; continue
                if x[2] != y[2]:
                    if isinstance(x[1], Undef): cells[o] = y; continue
                    if isinstance(y[1], Undef): cells[o] = x; continue
                    raise Unsupported('merge kinds')
                cells[o] = (x[0], self.ite(c, x[1], y[1], x[0] * 8), x[2])
            elif x is not None and y is None:
                if any(o < p + q[0] and p < o + x[0] for p, q in b.cells.items()): raise Unsupported('merge layout')
                cells[o] = (x[0], self.ite_undef(c, x, True), x[2])
            elif y is not None and x is None:
                if any(o < p + q[0] and p < o + y[0] for p, q in a.cells.items()): raise Unsupported('merge layout')
                cells[o] = (y[0], self.ite_undef(c, y, False), y[2])
            else: raise Unsupported('merge layout')
        return RecC(cells)
    def ite_undef(self, c, cell, first):
        s, v, k = cell
        if k in 'if' and isinstance(v, (int, Fraction, z3.ExprRef)):
            u = self.fresh_kind('undef', k, s)
            return self.ite(c, v, u, s * 8) if first else self.ite(c, u, v, s * 8)
        return v
    def merge_arr(self, base_n, A, B, bits=None):
        """merge two arrivals (state, env, ret) with pcs extending base"""
        (sa, ea, ra), (sb, eb, rb) = A, B
        pa, pb = sa.pc, sb.pc
        n = 0
        while n < len(pa) and n < len(pb) and same(pa[n], pb[n]): n += 1
        xa, xb = pa[n:], pb[n:]
        c = band(*xa)
        if len(xa) == 1 and len(xb) == 1 and same(bnot(xa[0]), xb[0]): pc = pa[:n]
        elif xa and xb and same(bnot(xa[0]), xb[0]) and len(xa) == 1: pc = pa[:n] + (bor(xa[0], band(*xb)),)
        else:
            d = bor(c, band(*xb))
            pc = pa[:n] + (() if d is True else (d,))
        if c is True and not xa:
            c = bnot(band(*xb))
        # prefer the first branching literal as discriminator when it separates
        if xa and xb and same(bnot(xa[0]), xb[0]): c = xa[0]
        st = State(dict(sb.objs), pc)
        for oid, a in sa.objs.items():
            b = st.objs.get(oid)
            if a is b: continue
            if b is None: st.objs[oid] = a; continue
            st.objs[oid] = self.merge_content(c, a, b, oid)
        env = dict(eb)
        for i, v in ea.items():
            w = env.get(i)
            if w is v: continue
            if w is None: env[i] = v; continue
            try: env[i] = self.ite(c, v, w, self.inst_bits.get(i))
            except Unsupported: env[i] = Undef()
        r = None
        if ra is not None or rb is not None:
            r = self.ite(c, ra[0], rb[0], ra[1]) if ra and rb else (ra or rb)[0]
            r = (r, (ra or rb)[1])
        return st, env, r
    inst_bits = {}
    def merge_maps(self, a, b):
        for k, v in b.items():
            a[k] = self.merge_arr(0, a[k], v) if k in a else v
        return a

    # ------------------------------------------------------------ operands
    def operand(self, op, env, st):
        k = op[0]
        if k == 'inst' or k == 'arg': return env[op[1]]
        if k == 'int':
            if op[2] == 1: return bool(op[1])
            return op[1]
        if k == 'fp':
            if self.fp == 'real':
                f = op[1]
                if f != f or f in (float('inf'), float('-inf')): return self.fresh_const('fpspecial', z3.RealSort())
                return Fraction(f)
            return op[1]
        if k == 'null': return NULL
        if k == 'undef':
            return Undef(op[1])
        if k == 'fn': return FnVal(op[1])
        if k == 'global': return self.global_obj(st, op[1])
        if k == 'zero':
            return self.zero_val(op[1])
        if k == 'aggr':
            return Aggr([self.operand(o, env, st) for o in op[2]])
        if k == 'cexpr':
            if op[1] == 'gep':
                return self.gep(op[3], [self.operand(o, env, st) for o in op[2]], st)
            if op[1] == 'bitcast': return self.operand(op[2][0], env, st)
            if op[1] == 'ptrtoint': return PInt(self.operand(op[2][0], env, st))
        raise Unsupported('operand %r' % (op,))
    def zero_val(self, ty):
        if ty.kind == 'struct': return Aggr([self.zero_val(e) for e in ty.elems])
        if ty.kind in ('array', 'vector'): return Aggr([self.zero_val(ty.elem) for _ in range(ty.n)])
        if ty.kind == 'int': return False if ty.bits == 1 else 0
        if ty.kind == 'ptr': return NULL
        return Fraction(0) if self.fp == 'real' else 0 if self.fp == 'bits' else 0.0
    def gep(self, src, ops, st):
        p = ops[0]
        c = 0; lin = []
        t = src
        for n, i in enumerate(ops[1:]):
            if n == 0: s = src.alloc
            elif t.kind == 'struct':
                c += t.offsets[i]; t = t.elems[i]; continue
            else: t = t.elem; s = t.alloc
            if isinstance(i, Comp): i = self.comp_int(i)
            if isinstance(i, int): c += s * i
            elif isinstance(i, Undef): raise Unsupported('undef index')
            else:
                if self.mode == 'bv' and i.size() < 64: i = z3.SignExt(64 - i.size(), i)
                lin.append((s, i))
        return self.padd(p, c, lin)
