"""Contracts of the run-time layer (memory allocation, profiling, strings):
trusted, listed in every evidence file.  SharedAlloc's own discipline is the
subject of a separate property where the real bodies are executed."""
from loops import *

def R(p): return re.compile(p)
def noop(cx, nm, a, st, I): return st, None
def inline(cx, nm, a, st, I): return 'INLINE'
PT = None
class _T: pass
def ptr_t():
    t = _T(); t.kind = 'ptr'; t.size = 8; t.bits = 64; return t
def int_t(b):
    t = _T(); t.kind = 'int'; t.size = b // 8; t.bits = b; return t
def dbl_t():
    t = _T(); t.kind = 'double'; t.size = 8; t.bits = 64; return t

def alloc_cells(cx, st, name, nbytes, content=None, hook=None):
    arr = cx.new_obj(st, name, nbytes, arr=True, heap=True, content=content)
    hdr = cx.new_obj(st, name + '.alloc', 16, heap=True)
    st.objs[hdr.obj] = RecC({0: (8, nbytes, 'i')})
    return arr, hdr
def sa_ctor(cx, nm, a, st, I):
    n = a[1]
    if isinstance(n, Comp): n = cx.comp_int(n)
    cx.nalloc = getattr(cx, 'nalloc', 0) + 1
    if not isinstance(n, int) or n < 0:
        if cx.mode == 'int':
            cx.oblige('allocation size is not negative', cx.lei(0, n), 'safety', st.pc)
    arr, hdr = alloc_cells(cx, st, 'new%d' % cx.nalloc, n)
    cx.store(a[0], hdr, ptr_t(), st); cx.store(cx.padd(a[0], 8), arr, ptr_t(), st)
    return st, None
def sa_default(cx, nm, a, st, I):
    cx.store(a[0], NULL, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st)
    return st, None
def sa_copy(cx, nm, a, st, I):
    for o in (0, 8): cx.store(cx.padd(a[0], o), cx.load(cx.padd(a[1], o), ptr_t(), st), ptr_t(), st)
    return st, a[0]
def sa_move(cx, nm, a, st, I):
    x = [cx.load(cx.padd(a[1], o), ptr_t(), st) for o in (0, 8)]
    for o in (0, 8): cx.store(cx.padd(a[1], o), NULL, ptr_t(), st)
    for o in (0, 8): cx.store(cx.padd(a[0], o), x[o // 8], ptr_t(), st)
    return st, a[0]
def sa_size(cx, nm, a, st, I):
    p = cx.load(a[0], ptr_t(), st)
    return st, cx.load(p, int_t(64), st)
def sa_exists(cx, nm, a, st, I): return 'INLINE'
def op_new(cx, nm, a, st, I):
    n = a[0]
    return st, cx.new_obj(st, 'heap', n, arr=not isinstance(n, int), heap=True)
def fail_h(cx, nm, a, st, I):
    """Omega_h::fail does not return; reaching it is what OMEGA_H_CHECK forbids"""
    if cx.fail_obl: cx.oblige('OMEGA_H_CHECK holds', False, 'check', st.pc)
    return None
VC.fail_obl = True; VC.forget_checks = False
def opaque_ret(cx, nm, a, st, I): return st, Opaque()
def noret(cx, nm, a, st, I): return None
def any_bool(cx, nm, a, st, I): return st, cx.fresh('empty', z3.BoolSort())
STR = r'std::__cxx11::basic_string|std::allocator<char>|^std::char_traits'
BASE = [
    (R(r'^Omega_h::SharedAlloc::SharedAlloc\(unsigned long(, |\))'), sa_ctor),
    (R(r'^Omega_h::SharedAlloc::SharedAlloc\(\)'), sa_default),
    (R(r'^Omega_h::SharedAlloc::(SharedAlloc|operator=|copy)\(Omega_h::SharedAlloc const&\)'), sa_copy),
    (R(r'^Omega_h::SharedAlloc::(SharedAlloc|operator=|move)\(Omega_h::SharedAlloc&&\)'), sa_move),
    (R(r'^Omega_h::SharedAlloc::(~SharedAlloc|clear)\(\)'), noop),
    (R(r'^Omega_h::SharedAlloc::size\(\) const'), sa_size),
    (R(r'^Omega_h::(begin_code|end_code|profile::)'), noop),
    (R(r'^Omega_h::ScopedTimer'), noop),
    (R(r'^Omega_h::(fail|protect)\('), fail_h),
    (R(r'^std::__cxx11::basic_string<.*>::empty\(\) const'), any_bool),
    (R(r'^(std::__cxx11::basic_string|std::allocator<char>|std::basic_string|std::__new_allocator<char>)'), noop),
    (R(r'^(std::__cxx11::basic_string<.*> )?std::operator\+<char'), noop),
    (R(r'^std::__cxx11::to_string|^Omega_h::to_string'), noop),
    (R(r'^operator new(\[\])?\(unsigned long\)'), op_new),
    (R(r'^operator delete'), noop),
    (R(r'^(printf|fprintf|puts|fflush)$'), lambda cx, nm, a, st, I: (st, 0)),
    (R(r'^(pow|exp|log|sin|cos|sqrt|floor|ceil)$'), lambda cx, nm, a, st, I: (st, cx.mathfn(nm, a))),   # libm: uninterpreted
    (R(r'^(__cxa_begin_catch|__cxa_allocate_exception)$'), opaque_ret),
    (R(r'^(__cxa_throw|__clang_call_terminate|__cxa_rethrow|abort|std::terminate|std::__throw_.*)'), noret),
    (R(r'^(__cxa_guard_acquire|__cxa_atexit|__cxa_guard_release)'), lambda cx, nm, a, st, I: (st, 0)),
]

def match_fn(d, q):
    """parameter list when demangled d names the function q, else None"""
    i = 0
    while True:
        i = d.find(q + '(', i)
        if i < 0: return None
        if i == 0 or d[i - 1] in ' *&':
            # the prefix must be a complete return type (balanced <>)
            pre = d[:i]
            if pre.count('<') - pre.count('>') == 0 or 'operator' in pre:
                j = i + len(q); dep = 0
                for k in range(j, len(d)):
                    if d[k] == '(': dep += 1
                    elif d[k] == ')':
                        dep -= 1
                        if dep == 0: break
                if d[k + 1:].strip() in ('', 'const', '[clone .isra.0]'): return d[j:k + 1] + d[k + 1:]
        i += 1
# ---------------------------------------------------------------- spec helpers
class Arr:
    """a symbolic array handed to the code, also readable by the spec"""
    def __init__(self, name, n, es, kind, decl, ptr):
        self.name = name; self.n = n; self.es = es; self.kind = kind; self.decl = decl; self.ptr = ptr
    def __call__(self, i): return self.decl(i if not isinstance(i, int) else z3.IntVal(i))

class Env:
    """one verification task on one bitcode module"""
    def __init__(self, mod, contracts=(), **kw):
        self.cx = LoopVC(mod, contracts=list(contracts) + BASE, **kw)
        self.st = State({}, ())
        self.hyp = []
    # inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.cx.keep.append(v)
        self.cx.set_rng(v, (lo, hi))
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        return v
    def fits(self, *fs, hi=2**31 - 1):
        """precondition: the product is a valid array length"""
        import itertools
        t = fs[0]
        for f in fs[1:]: t = t * f
        self.assume(z3.And(t >= 0, t <= hi))
        for q in itertools.permutations(fs):
            u = q[0]
            for f in q[1:]: u = u * f
            self.cx.set_rng(u, (0, hi))
        return t
    def assume(self, f): self.cx.fact(f, guard=False)
    def real(self, name): return z3.Real(name)
    def decl(self, name, n, es=4, kind='i', rng=None):
        cx = self.cx
        sort = cx.fpsort() if kind == 'f' else z3.IntSort()
        d = z3.Function(name, z3.IntSort(), sort); cx.keep.append(d)
        if kind == 'i':
            r = (-(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1)
            cx.decl_rng[d.name()] = r
            x = z3.Int('x!')
            lo, hi = rng if rng is not None else r
            body = z3.And(d(x) >= lo, d(x) < hi if rng is not None else d(x) <= hi)
            self.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), body) if rng is not None else body, patterns=[d(x)]))
            if rng is not None and isinstance(rng[0], int):
                lo2 = max(r[0], rng[0]); hi2 = rng[1] - 1 if isinstance(rng[1], int) else r[1]
                # ranges hold for valid indices only: kept as a fact, not as a type range
        return d
    def array(self, name, n, es=4, kind='i', rng=None, handle=True, decl=None):
        """Read<T>/Write<T> handle: pointer to {alloc, direct_ptr}"""
        cx = self.cx
        d = decl if decl is not None else self.decl(name, n, es, kind, rng)
        nb = cx.muli(es, n)
        arr, hdr = alloc_cells(cx, self.st, name, nb, content=ArrC(es, kind, ABase(d)))
        cx.in_objs = getattr(cx, 'in_objs', {}); cx.in_objs[arr.obj] = name
        h = cx.new_obj(self.st, name + '.handle', 16)
        self.st.objs[h.obj] = RecC({0: (8, hdr, 'p'), 8: (8, arr, 'p')})
        return Arr(name, n, es, kind, d, h)
    def null_array(self):
        h = self.cx.new_obj(self.st, 'null.handle', 16)
        self.st.objs[h.obj] = RecC({0: (8, NULL, 'p'), 8: (8, NULL, 'p')})
        return h
    def sret(self, n=16, name='ret'):
        return self.cx.new_obj(self.st, name, n)
    def find(self, q, params=None):
        """mangled name of the function with this qualified name (and, when
        overloaded, a substring of its parameter list)"""
        r = self.finds(q, params)
        if len(r) != 1: raise Unsupported('function %s: %d matches %s' % (q, len(r), [dem(x)[:120] for x in r[:4]]))
        return r[0]
    def finds(self, q, params=None):
        out = []
        for n in self.cx.mod.defs:
            d = dem(n)
            k = match_fn(d, q)
            if k is None: continue
            if params is not None and params not in k: continue
            out.append(n)
        return out
    def call(self, rx, *args, params=None):
        nm = self.find(rx, params)
        args = [a.ptr if isinstance(a, Arr) else a for a in args]
        r = self.cx.run_body(self.cx.mod.function(nm), args, self.st)
        if r is None: return None
        self.st, v = r
        self.cx.cur_pc = self.st.pc
        return v
    # outputs
    def out(self, handle, es=4, kind='i', off=0):
        """(length term, reader) of the array a handle points to"""
        cx = self.cx
        h = handle.ptr if isinstance(handle, Arr) else handle
        hdr = cx.load(cx.padd(h, off), ptr_t(), self.st); arr = cx.load(cx.padd(h, off + 8), ptr_t(), self.st)
        if not isinstance(arr, Ptr) or arr.obj is None: raise Unsupported('result handle %r' % (arr,))
        nb = cx.meta[arr.obj].nbytes
        n = cx.divexact(nb, es)
        if n is None: raise Unsupported('result size')
        c = self.st.objs[arr.obj]
        t = int_t(8 * es) if kind == 'i' else dbl_t()
        c = cx.typed(arr.obj, c, t, self.st)
        def rd(i):
            v = c.c.read(cx.norm(i) if not isinstance(i, int) else i, cx)
            return cx.zi(v) if kind == 'i' else cx.zf(v)
        return n, rd
    def prove(self, name, goal, kind='post'): self.cx.oblige(name, goal, kind, self.st.pc)
    def ivar(self, name, lo=None, hi=None):
        """a fresh universally quantified variable of the specification (skolem)"""
        v = z3.Int(name); self.cx.keep.append(v)
        if lo is not None: self.assume(v >= lo)
        if isinstance(lo, int): self.cx.set_rng(v, (lo, None))
        if hi is not None: self.assume(v < hi)
        return v
    # ------------------------------------------------------------ common preconditions
    def injective(self, name, n, nb, **kw):
        """map from [0,n) into [0,nb), injective; returns (Arr, inverse decl)"""
        a = self.array(name, n, rng=(0, nb), **kw)
        inv = z3.Function(name + '_inv', z3.IntSort(), z3.IntSort()); self.cx.keep.append(inv)
        x = z3.Int('x!')
        self.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), inv(a(x)) == x), patterns=[a(x)]))
        self.cx.inj[a.decl.name()] = lambda t, at: (True, inv(self.cx.zi(t)))
        a.inv = inv
        return a
    def fan(self, name, na, nb=None, first=0):
        """offsets array of length na+1: starts at `first`, non-decreasing, ends at nb.
        owner(x) is the (unique) slot with off(owner) <= x < off(owner+1)"""
        cx = self.cx
        a = self.array(name, cx.addi(na, 1))
        x = z3.Int('x!'); y = z3.Int('y!')
        self.assume(a(0) == first)
        if nb is not None: self.assume(a(cx.zi(na)) == nb)
        self.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y <= na), a(x) <= a(y)), patterns=[z3.MultiPattern(a(x), a(y))]))
        own = z3.Function(name + '_own', z3.IntSort(), z3.IntSort()); cx.keep.append(own)
        o = own(x)
        self.assume(z3.ForAll([x], z3.Implies(z3.And(first <= x, x < a(cx.zi(na))), z3.And(0 <= o, o < na, a(o) <= x, x < a(o + 1))), patterns=[o]))
        cx.mono[a.decl.name()] = lambda t, at: (band(cx.lei(first, t), cx.lti(t, a(cx.zi(na)))), own(cx.zi(t)))
        a.own = own
        return a
    def forall(self, f, pats=None):
        x = z3.Int('x!')
        self.assume(z3.ForAll([x], f(x), **({'patterns': pats(x)} if pats else {})))
    def inst(self, *terms):
        """instances of the write summaries at the given iteration"""
        for bvs, body in self.cx.inst_reg:
            if len(bvs) == len(terms): self.assume(z3.substitute(body, *[(b, self.cx.zi(t)) for b, t in zip(bvs, terms)]))
    def induct(self, name, n, P, pats=None, lo=0):
        """proves P(lo) and P(k) => P(k+1) for lo<=k<n as obligations, then P may be used on [lo,n]"""
        cx = self.cx
        cx.ninduct = getattr(cx, 'ninduct', 0) + 1
        k = self.ivar('ind%d' % cx.ninduct, lo, n)
        self.prove(name + ': initially', P(z3.IntVal(lo) if isinstance(lo, int) else lo), 'lemma')
        self.prove(name + ': kept by every step', z3.Implies(P(k), P(k + 1)), 'lemma')
        x = z3.Int('x!')
        self.assume(z3.ForAll([x], z3.Implies(z3.And(lo <= x, x <= n), P(x)), **({'patterns': pats(x)} if pats else {})))
    def ghost(self, name, n, init, step, extra=()):
        """ghost sequence G(0)=init, G(k+1)=step(k, G(k)) for 0<=k<n (a definition)"""
        cx = self.cx
        G = z3.Function(cx.fresh_name(name), z3.IntSort(), init.sort()); cx.keep.append(G)
        k = cx.fresh('k', z3.IntSort()); self.assume(G(z3.IntVal(0)) == init)
        fs = []; cx.add_rec(G(k), k, cx.zi(n), step(k, G(k)), fs)
        for f in fs: self.assume(f)
        return G
    def foldF(self, i):
        f = self.cx.folds[i]
        return lambda t: z3.substitute(f.F, (f.k, self.cx.zi(t)))
    def foldG(self, i, *outer):
        """the i-th fold of an inner loop at the given outer iterations"""
        f = self.cx.folds[i]
        return lambda t: f.F.decl()(*[self.cx.zi(x) for x in outer], self.cx.zi(t))
    def with_inst(self, terms, goal): return goal
