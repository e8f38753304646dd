"""Contracts of repository functions that are used at call sites in place of the
bodies.  Each one is a property of its own: the obligations that justify it are
discharged on the real body by the tasks named beside it."""
from rt import *

def es_of(nm):
    m = re.search(r'(?:::|>)\w+<(signed char|int|long|double)>\(', nm)
    return {'signed char': 1, 'int': 4, 'long': 8, 'double': 8}[m.group(1)] if m else 4
def rdh(cx, st, h, es=4, kind='i', off=0):
    """(length, reader) of the array behind a handle"""
    arr = cx.load(cx.padd(h, off + 8), ptr_t(), st)
    if not isinstance(arr, Ptr) or arr.obj is None: raise Unsupported('array handle %r' % (arr,))
    n = cx.divexact(cx.meta[arr.obj].nbytes, es)
    if n is None: raise Unsupported('array length')
    c = cx.typed(arr.obj, st.objs[arr.obj], int_t(8 * es) if kind == 'i' else dbl_t(), st)
    def rd(i):
        v = c.c.read(cx.norm(i) if not isinstance(i, int) else i, cx)
        return cx.zi(v) if kind == 'i' else cx.zf(v)
    return n, rd
def mkarr(cx, st, h, name, n, es, kind, fn):
    """stores a fresh array with content fn (z3 function of the index) behind handle h"""
    nb = cx.muli(es, n)
    arr, hdr = alloc_cells(cx, st, name, nb, content=ArrC(es, kind, ABase(fn)))
    cx.store(h, hdr, ptr_t(), st); cx.store(cx.padd(h, 8), arr, ptr_t(), st)
    return arr
def top(cx, nm):
    if any(not s.get('fake') for s in cx.scopes): raise Unsupported('%s called inside a loop that is not unrolled' % nm.split('(')[0])
def fnew(cx, base, *sorts):
    d = z3.Function(cx.fresh_name(base), *sorts); cx.keep.append(d); return d
I = z3.IntSort()
def lo_rng(cx, d):
    cx.decl_rng[d.name()] = (-2**31, 2**31 - 1)
    x = z3.Int('x!'); cx.fact(z3.ForAll([x], z3.And(d(x) >= -2**31, d(x) < 2**31), patterns=[d(x)]), guard=False)
def fan_facts(cx, OFF, n, own=None):
    """consequences of OFF(0)=0, OFF(k+1)=OFF(k)+a(k), a>=0 (induction: task 'lemma: offsets')"""
    x, y = z3.Int('x!'), z3.Int('y!')
    n = cx.zi(n)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y <= n), OFF(x) <= OFF(y)), patterns=[z3.MultiPattern(OFF(x), OFF(y))]), guard=False)
    if own is None: own = fnew(cx, 'own', I, I)
    o = own(x)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < OFF(n)), z3.And(0 <= o, o < n, OFF(o) <= x, x < OFF(o + 1))), patterns=[o]), guard=False)
    cx.mono[OFF.name()] = lambda t, at: (band(cx.lei(0, t), cx.lti(t, OFF(n))), own(cx.zi(t)))
    return own
def offset_scan_h(cx, nm, a, st, Ins):
    top(cx, nm)
    n, rd = rdh(cx, st, a[1], es_of(dem(nm)))
    k = cx.fresh('k', I)
    cx.oblige('offset_scan: counts are not negative', z3.Implies(z3.And(0 <= k, k < cx.zi(n)), rd(k) >= 0), 'pre', st.pc)
    OFF = fnew(cx, 'OFF', I, I); lo_rng(cx, OFF)
    F = OFF(k)
    cx.fact(OFF(0) == 0, guard=False)
    fs = []
    cx.add_rec(F, k, cx.zi(n), F + rd(k), fs)
    for f in fs: cx.fact(f, guard=False)
    cx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= cx.zi(n)), z3.And(F >= 0, F <= OFF(cx.zi(n)))), patterns=[F]), guard=False)
    cap = getattr(cx, 'scan_cap', None)
    if cap is not None: cx.fact(OFF(cx.zi(n)) <= cap, guard=False); cx.assumptions.add('the total of every scan stays below %d (array sizes fit the index type)' % cap)
    own = fan_facts(cx, OFF, n)
    mkarr(cx, st, a[0], 'offsets%d' % len(cx.recdefs), cx.addi(n, 1), 4, 'i', OFF)
    cx.scans = getattr(cx, 'scans', []); cx.scans.append((OFF, own, n, rd))
    return st, None
def collect_marked_h(cx, nm, a, st, Ins):
    """tasks 'collect_marked' (P02)"""
    top(cx, nm)
    n, rd = rdh(cx, st, a[1], 1)
    n = cx.zi(n); x = z3.Int('x!'); y = z3.Int('y!')
    k = cx.fresh('k', I)
    cx.oblige('collect_marked: marks are 0 or 1', z3.Implies(z3.And(0 <= k, k < n), z3.And(rd(k) >= 0, rd(k) <= 1)), 'pre', st.pc)
    L = cx.fresh('nmarked', I); cx.set_rng(L, (0, 2**31 - 1))
    C = fnew(cx, 'marked', I, I); P = fnew(cx, 'mpos', I, I); lo_rng(cx, C)
    m = rd(x)
    cx.fact(z3.And(L >= 0, L <= n), guard=False)
    # sorted, marked, complete (mpos: number of marks before the index)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < L), C(x) < C(y)), patterns=[z3.MultiPattern(C(x), C(y))]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < L), z3.And(0 <= C(x), C(x) < n, rd(C(x)) == 1, P(C(x)) == x)), patterns=[C(x)]), guard=False)
    cx.fact(P(0) == 0, guard=False); cx.fact(P(n) == L, guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= n), z3.And(0 <= P(x), P(x) <= L, P(x) <= x)), patterns=[P(x)]), guard=False)
    b = z3.Implies(z3.And(0 <= x, x < n, m == 1), z3.And(P(x) < L, C(P(x)) == x))
    cx.fact(z3.ForAll([x], b, patterns=[P(x)]), guard=False)
    cx.inj[C.name()] = lambda t, at: (True, P(cx.zi(t)))
    fs = []; cx.add_rec(P(k), k, n, P(k) + rd(k), fs)
    for f in fs: cx.fact(f, guard=False)
    mkarr(cx, st, a[0], 'marked%d' % len(cx.recdefs), L, 4, 'i', C)
    cx.collected = getattr(cx, 'collected', []); cx.collected.append((C, P, L, n, rd))
    return st, None
def atomic(ret):
    def h(cx, nm, a, st, Ins):
        """read-modify-write: the order of the iterations is not relied upon"""
        p = a[0]; d = a[1] if len(a) > 1 else 1
        if isinstance(p, Ptr) and p.obj is not None and isinstance(st.objs.get(p.obj), ArrC) and cx.mode == 'int':
            c = cx.typed(p.obj, st.objs[p.obj], int_t(32), st)
            idx = cx.elem_index(p, c.es)
            cx.bounds(p.obj, idx, c.es, st)
            old = c.c.read(idx, cx)
            cx.note('a', p.obj, idx, st, d)
            st.objs[p.obj] = ArrC(c.es, c.kind, AStore(c.c, idx, cx.addi(old, d)))
            return st, (old if ret else None)
        return 'INLINE'
    return h
ATOM = [(R(r'^Omega_h::atomic_fetch_add\('), atomic(True)), (R(r'^Omega_h::atomic_(increment|add)\('), atomic(False))]
SCAN = [(R(r'Omega_h::offset_scan<(signed char|int)>\('), offset_scan_h)]
CM = [(R(r'^Omega_h::collect_marked\('), collect_marked_h)]
BASE[:0] = ATOM
def stable_sort_h(cx, nm, a, st, Ins):
    """std::stable_sort (trusted): the result is a rearrangement of the input, ordered
    by the comparator, equivalent elements in their original order.  The comparator
    is the real one, executed symbolically; that it is a strict weak order on the
    elements is an obligation."""
    top(cx, nm)
    d = dem(nm)
    m = re.search(r'(Omega_h::CompareKeySets<(?:int|long), \d+>)', d)
    if not m: raise Unsupported('stable_sort with ' + d[:120])
    b, en, comp = a[0], a[1], a[2]
    c = cx.typed(b.obj, st.objs[b.obj], int_t(32), st)
    n = cx.divexact(cx.meta[b.obj].nbytes, 4)
    cx.oblige('stable_sort: the range is the whole array', band(cx.eqi(cx.elem_index(b, 4), 0), cx.eqi(cx.elem_index(en, 4), n)), 'pre', st.pc)
    n = cx.zi(n); old = c.c
    fn = [x for x in cx.mod.defs if dem(x).startswith(m.group(1) + '::operator()(')]
    if len(fn) != 1: raise Unsupported('comparator of stable_sort')
    this = cx.new_obj(st, 'comparator', 8); cx.store(this, comp, ptr_t(), st)
    def less(A, B, st2):
        p, q = cx.new_obj(st2, 'lhs', 4), cx.new_obj(st2, 'rhs', 4)
        st2.objs[p.obj] = RecC({0: (4, A, 'i')}); st2.objs[q.obj] = RecC({0: (4, B, 'i')})
        r = cx.run_body(cx.mod.function(fn[0]), [this, p, q], st2)
        v = r[1]
        return Z(v) if isinstance(v, bool) or z3.is_bool(v) else cx.zi(v) != 0
    E = [cx.fresh('el', I) for _ in range(3)]; j = [cx.fresh('j', I) for _ in range(3)]
    for e1, j1 in zip(E, j):
        cx.fact(z3.And(0 <= j1, j1 < n, e1 == cx.zi(old.read(j1, cx))), guard=True, pc=st.pc); cx.set_rng(e1, (-2**31, 2**31 - 1))
    s2 = st.fork(); s2.pc = st.pc + (z3.And(*[z3.And(0 <= x, x < n) for x in j]),)
    x0, x1, x2 = E
    T = less(x0, x1, s2)
    L = lambda p, q: z3.substitute(T, (x0, p), (x1, q))
    inc = lambda p, q: z3.And(z3.Not(L(p, q)), z3.Not(L(q, p)))
    cx.oblige('the comparator is irreflexive', z3.Not(L(x0, x0)), 'pre', s2.pc)
    cx.oblige('the comparator is transitive', z3.Implies(z3.And(L(x0, x1), L(x1, x2)), L(x0, x2)), 'pre', s2.pc)
    cx.oblige('incomparability is transitive', z3.Implies(z3.And(inc(x0, x1), inc(x1, x2)), inc(x0, x2)), 'pre', s2.pc)
    PI = fnew(cx, 'sorted', I, I); INV = fnew(cx, 'sortinv', I, I)
    x, y = z3.Int('x!'), z3.Int('y!')
    cx.decl_rng[PI.name()] = (0, 2**31 - 1)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= PI(x), PI(x) < n, INV(PI(x)) == x)), patterns=[PI(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= INV(x), INV(x) < n, PI(INV(x)) == x)), patterns=[INV(x)]), guard=False)
    ex, ey = cx.zi(old.read(PI(x), cx)), cx.zi(old.read(PI(y), cx))
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), z3.And(z3.Not(L(ey, ex)), z3.Implies(z3.Not(L(ex, ey)), PI(x) < PI(y)))), patterns=[z3.MultiPattern(PI(x), PI(y))]), guard=False)
    cx.inj[PI.name()] = lambda t, at: (True, INV(cx.zi(t)))
    st.objs[b.obj] = ArrC(4, 'i', AFun(lambda t: old.read(PI(cx.zi(t)), cx)))
    cx.sorts = getattr(cx, 'sorts', []); cx.sorts.append((PI, INV, n, L))
    return st, None
SORT = [(R(r'std::stable_sort<'), stable_sort_h)]
def lex(rd, w, x, y):
    """strict lexicographic order of the keys of x and y"""
    r = z3.BoolVal(False)
    for j in reversed(range(w)):
        kx, ky = rd(x * w + j), rd(y * w + j)
        r = z3.Or(kx < ky, z3.And(kx == ky, r))
    return r
def sort_by_keys_h(cx, nm, a, st, Ins):
    """tasks 'sort_by_keys' (P02)"""
    top(cx, nm)
    es = es_of(dem(nm)); w = a[2]
    if not isinstance(w, int): raise Unsupported('sort_by_keys width')
    n0, rd = rdh(cx, st, a[1], es)
    n = cx.divexact(n0, w)
    if n is None: raise Unsupported('sort_by_keys size')
    n = cx.zi(n)
    PI = fnew(cx, 'perm', I, I); INV = fnew(cx, 'perminv', I, I); lo_rng(cx, PI)
    x, y = z3.Int('x!'), z3.Int('y!')
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= PI(x), PI(x) < n, INV(PI(x)) == x)), patterns=[PI(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= INV(x), INV(x) < n, PI(INV(x)) == x)), patterns=[INV(x)]), guard=False)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), z3.Or(lex(rd, w, PI(x), PI(y)), z3.And(z3.Not(lex(rd, w, PI(y), PI(x))), PI(x) < PI(y)))), patterns=[z3.MultiPattern(PI(x), PI(y))]), guard=False)
    cx.inj[PI.name()] = lambda t, at: (True, INV(cx.zi(t)))
    mkarr(cx, st, a[0], 'perm%d' % len(cx.inj), n, 4, 'i', PI)
    cx.perms = getattr(cx, 'perms', []); cx.perms.append((PI, INV, n))
    return st, None
SBK = [(R(r'Omega_h::sort_by_keys<(int|long)>\('), sort_by_keys_h)]

def invert_map_h(cx, nm, a, st, Ins):
    """tasks 'invert_map_by_atomics' (P02): offsets, and the sources of each target in some
    order; nothing about the order is stated"""
    top(cx, nm)
    na, rd = rdh(cx, st, a[1]); nb = cx.zi(a[2]); na = cx.zi(na); k = cx.fresh('k', I); x = z3.Int('x!')
    cx.oblige('invert_map: targets are in range', z3.Implies(z3.And(0 <= k, k < na), z3.And(rd(k) >= 0, rd(k) < nb)), 'pre', st.pc)
    OFF, IT, POS = fnew(cx, 'OFF', I, I), fnew(cx, 'src', I, I), fnew(cx, 'spos', I, I); lo_rng(cx, OFF); lo_rng(cx, IT)
    own = fan_facts(cx, OFF, nb)
    cx.fact(OFF(0) == 0, guard=False)
    M = OFF(nb); cx.fact(M == na, guard=False)     # IT and POS below are inverse to each other: as many sources as positions
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= nb), z3.And(OFF(x) >= 0, OFF(x) <= M)), patterns=[OFF(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < na), z3.And(0 <= POS(x), POS(x) < M, OFF(rd(x)) <= POS(x), POS(x) < OFF(rd(x) + 1), own(POS(x)) == rd(x), IT(POS(x)) == x)), patterns=[POS(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < M), z3.And(0 <= IT(x), IT(x) < na, rd(IT(x)) == own(x), POS(IT(x)) == x)), patterns=[IT(x)]), guard=False)
    cx.inj[IT.name()] = lambda t, at: (True, POS(cx.zi(t)))
    n = len(cx.inj)
    mkarr(cx, st, a[0], 'inv_off%d' % n, cx.addi(nb, 1), 4, 'i', OFF); mkarr(cx, st, cx.padd(a[0], 16), 'inv_src%d' % n, M, 4, 'i', IT)
    cx.inverted = getattr(cx, 'inverted', []); cx.inverted.append((OFF, own, IT, POS, nb, na, rd))
    return st, None
IMA = [(R(r'^Omega_h::invert_map_by_(atomics|sorting)\('), invert_map_h)]
def sort_high_h(cx, nm, a, st, Ins):
    """task 'sort_by_high_index: one list' (P04), one list per iteration of the kernel: every
    list is rearranged, with its codes, into increasing order; lists do not overlap"""
    top(cx, nm)
    L, off = rdh(cx, st, a[0]); n, A0 = rdh(cx, st, a[1]); n2, C0 = rdh(cx, st, a[2], 1)
    if not getattr(cx, 'inverted', None): raise Unsupported('sort_by_high_index of other lists')
    OFF, own, _, _, nb, _, _ = cx.inverted[-1]
    k = cx.fresh('k', I); x, y = z3.Int('x!'), z3.Int('y!'); n = cx.zi(n)
    cx.oblige('sort_by_high_index: one offset per list, entries and codes', z3.And(cx.zi(L) == nb + 1, z3.Implies(z3.And(0 <= k, k <= nb), off(k) == OFF(k)), n == OFF(nb), cx.zi(n2) == n), 'pre', st.pc)
    G, H = fnew(cx, 'from', I, I), fnew(cx, 'to', I, I)
    for f, g in ((G, H), (H, G)):
        cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= f(x), f(x) < n, own(f(x)) == own(x), g(f(x)) == x)), patterns=[f(x)]), guard=False)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n, own(x) == own(y)), cx.zi(A0(G(x))) <= cx.zi(A0(G(y)))), patterns=[z3.MultiPattern(G(x), G(y))]), guard=False)
    for h, es, old in ((a[1], 4, None), (a[2], 1, None)):
        arr = cx.load(cx.padd(h, 8), ptr_t(), st); c = st.objs[arr.obj]; prev = c.c
        st.objs[arr.obj] = ArrC(es, 'i', AFun(lambda t, prev=prev: prev.read(G(cx.zi(t)), cx)))
    cx.sorted_lists = getattr(cx, 'sorted_lists', []) + [(G, H)]
    return st, None
SBHI = [(R(r'^Omega_h::sort_by_high_index\('), sort_high_h)]
def invert_fan_h(cx, nm, a, st, Ins):
    """task 'invert_fan' (P02)"""
    top(cx, nm); n1, off = rdh(cx, st, a[1]); n = cx.zi(cx.subi(n1, 1)); k = cx.fresh('k', I); x = z3.Int('x!')
    cx.oblige('invert_fan: offsets do not decrease', z3.And(off(IV0) == 0, z3.Implies(z3.And(0 <= k, k < n), off(k) <= off(k + 1))), 'pre', st.pc)
    W = fnew(cx, 'fan_of', I, I); lo_rng(cx, W); N_ = off(n)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < N_), z3.And(0 <= W(x), W(x) < n, off(W(x)) <= x, x < off(W(x) + 1))), patterns=[W(x)]), guard=False)
    cx.fan_inv = (W, n, off); mkarr(cx, st, a[0], 'fan_of', N_, 4, 'i', W); return st, None
def invert_funnel_h(cx, nm, a, st, Ins):
    """task 'invert_funnel' (P02)"""
    top(cx, nm); nab, s = rdh(cx, st, a[1]); nab = cx.zi(nab); na = cx.zi(a[2]); k, l = cx.fresh('k', I), cx.fresh('k', I); x, y = z3.Int('x!'), z3.Int('y!')
    cx.oblige('invert_funnel: targets are sorted and in range', z3.Implies(z3.And(0 <= k, k < l, l < nab), s(k) <= s(l)), 'pre', st.pc)
    cx.oblige('invert_funnel: targets are in range', z3.Implies(z3.And(0 <= k, k < nab), z3.And(0 <= s(k), s(k) < na)), 'pre', st.pc)
    c = fnew(cx, 'cut', I, I); lo_rng(cx, c)
    cx.fact(z3.And(c(0) == 0, c(na) == nab), guard=False)
    cx.fact(z3.ForAll([x], z3.And(0 <= c(x), c(x) <= nab), patterns=[c(x)]), guard=False)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y <= na), c(x) <= c(y)), patterns=[z3.MultiPattern(c(x), c(y))]), guard=False)
    own = fnew(cx, 'cut_own', I, I); o = own(x)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < nab), z3.And(0 <= o, o < na, o == s(x), c(o) <= x, x < c(o + 1))), patterns=[o]), guard=False)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= y, y < na, c(y) <= x, x < c(y + 1)), own(x) == y), patterns=[z3.MultiPattern(own(x), c(y))]), guard=False)
    cx.mono[c.name()] = lambda t, at: (band(cx.lei(0, t), cx.lti(t, nab)), own(cx.zi(t)))
    cx.funnels = getattr(cx, 'funnels', []); cx.funnels.append((c, own, s)); mkarr(cx, st, a[0], 'cut', cx.addi(a[2], 1), 4, 'i', c); return st, None
IV0 = z3.IntVal(0)
FANINV = [(R(r'^Omega_h::invert_fan\('), invert_fan_h), (R(r'^Omega_h::invert_funnel\('), invert_funnel_h)]
