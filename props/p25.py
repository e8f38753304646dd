from prop import *
from native import Native
import z3
from meshc import *
from p02 import C, IV
from p04 import kernel, fire, sized, rdo, closure
from p16 import few
from p24 import AMesh, put, nth_kernel, parents
U = ('unmap_mesh', 'map', 'array', 'array_ops', 'shared_alloc', 'adj', 'graph')
N = 2**31 - 2; CAP = (2**31 - 1) // 64
TASKS = []
def T(name, f, *c, U=U, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
TY = {'signed char': (1, 'i'), 'int': (4, 'i'), 'long': (8, 'i'), 'double': (8, 'f')}
def rda(e, o, t):
    es, k = TY[t]; c = e.cx.typed(o, e.st.objs[o], int_t(8 * es) if k == 'i' else dbl_t(), e.st)
    return lambda i: (e.cx.zi if k == 'i' else e.cx.zf)(c.c.read(e.cx.norm(i) if not isinstance(i, int) else i, e.cx))
def unmap(t):
    def f(e):
        es, kd = TY[t]; na, nb = e.int('na', 0, 2**20), e.int('nb', 0, 2**20); w = e.int('width', 1, 512); m = e.array('a2b', na, rng=(0, nb)); b = e.array('b', nb * w, es, kd); r = e.sret(); k = e.ivar('k', 0, na); j = e.ivar('j', 0, w); z = e.ivar('z', 0)
        fn, clo, new = kernel(e, 'unmap<%s>' % t, [r, m, b, w], k); o = sized(e, new, e.cx.muli(es, e.cx.muli(na, w))); A0 = rda(e, o, t); fire(e, fn, clo, k); A = rda(e, o, t)
        e.prove('every component comes from the entry it is mapped to', A(k * w + j) == b(m(k) * w + j)); e.prove('other entries are untouched', z3.Implies(z3.Or(z < k * w, z >= k * w + w), A(z) == A0(z)))
    return f
for t in TY: T('unmap<%s>: one entity, any width' % t, unmap(t))

def hobj(cx, st, h):
    a = cx.load(cx.padd(h, 8), ptr_t(), st); return a.obj if isinstance(a, Ptr) else None
SHORT = {'signed char': 'signed char', 'int': 'int', 'long': 'long', 'double': 'double'}
class Log(list):
    """what the code did along its path; passes the engine only looks ahead at leave no trace"""
    def __init__(s, e): super().__init__(); s.c = e.cx.new_obj(e.st, 'log', 4); e.st.objs[s.c.obj] = RecC({0: (4, 0, 'i')})
    def add(s, st, x): n = st.objs[s.c.obj].cells[0][1]; s[n:] = [x]; st.objs[s.c.obj] = RecC({0: (4, n + 1, 'i')})
class Tags:
    """an arbitrary tag of a mesh; what is added to the new mesh is recorded"""
    def __init__(s, e, M, W, d, t, n): s.__dict__.update(e=e, M=M, d=d, t=t, n=n, ev=[], made={}, asked=[]); M.h_ntags = s.ntags; M.h_get_tag = s.get_tag; W.h_add_tag = s.add_tag; s.obj = e.cx.new_obj(e.st, 'tag', 64); s.name = e.cx.new_obj(e.st, 'name', 32); e.cx.strnames = {(s.name.obj, 0): 'the tag'}; s.w = e.int('ncomps', 1, 512); es, k = TY[t]; s.data = e.array('tag_data', M.n[d] * s.w, es, k)
    def ntags(s, cx, nm, a, st): s.asked.append(a[1]); return st, s.n
    def get_tag(s, cx, nm, a, st): s.asked.append(a[1]); s.i = a[2]; return st, s.obj
    def add_tag(s, cx, nm, a, st):
        t = re.search(r'add_tag<([^()<>]*)>', nm).group(1); s.ev.append((t, a[1], cx.strnames.get((a[2].obj, a[2].c)), a[3], hobj(cx, st, a[4]))); return st, None
    def contracts(s):
        mine = lambda a: isinstance(a[0], Ptr) and a[0].obj == s.obj.obj
        def is_(cx, nm, a, st, I): return st, 1 if re.search(r'is<([^()<>]*)>', dem(nm)).group(1) == s.t else 0
        def as_(cx, nm, a, st, I):
            if re.search(r'as<([^()<>]*)>', dem(nm)).group(1) != s.t: return st, NULL
            return st, a[0]
        def array(cx, nm, a, st, I):
            for o in (0, 8): cx.store(cx.padd(a[0], o), cx.load(cx.padd(s.data.ptr, o), ptr_t(), st), ptr_t(), st)
            return st, None
        def name(cx, nm, a, st, I): return st, s.name
        def ncomps(cx, nm, a, st, I): return st, s.w
        def unmap_(cx, nm, a, st, I):
            """tasks 'unmap: one entity, any width'"""
            t = re.search(r'unmap<([^()<>]*)>', dem(nm)).group(1); es, k = TY[t]; na, m = rdh(cx, st, a[1]); nb, b = rdh(cx, st, a[2], es, k); x = cx.fresh('k', z3.IntSort()); w = a[3]
            cx.oblige('unmap: indices are in range', z3.Implies(z3.And(0 <= x, x < cx.zi(na)), z3.And(0 <= m(x), (m(x) + 1) * cx.zi(w) <= cx.zi(nb))), 'pre', st.pc)
            arr, hdr = alloc_cells(cx, st, 'unmapped', cx.muli(es, cx.muli(na, w)), content=ArrC(es, k, ABase(fnew(cx, 'unmapped', z3.IntSort(), z3.IntSort() if k == 'i' else cx.fpsort())))); cx.store(a[0], hdr, ptr_t(), st); cx.store(cx.padd(a[0], 8), arr, ptr_t(), st); s.made[arr.obj] = (t, hobj(cx, st, a[1]), hobj(cx, st, a[2]), w); return st, None
        return [(R(r'Omega_h::is<[^()<>]*>\(Omega_h::TagBase'), is_), (R(r'Omega_h::as<[^()<>]*>\(Omega_h::TagBase'), as_), (R(r'Omega_h::Tag<[^()<>]*>::array\('), array), (R(r'Omega_h::TagBase::name(\[abi:cxx11\])?\('), name), (R(r'Omega_h::TagBase::ncomps\('), ncomps), (R(r'Omega_h::unmap<[^()<>]*>\(Omega_h::(LOs|Read<int>)'), unmap_)]
    # the loop over the tags
    def enter(s, cx, L): s.ev.clear()
    def inv(s, cx, L): return [('range', z3.And(0 <= cx.zi(L.phi[0]), cx.zi(L.phi[0]) <= s.n))]
    def variant(s, L): return s.n - s.e.cx.zi(L.phi[0])
    def steps(s, cx, L, Lb):
        ev = s.ev; one = len(ev) == 1; yield 'each tag is added once', z3.BoolVal(one)
        if not one: return
        t, d, nm, w, o = ev[0]; yield 'it is the tag of this pass', cx.zi(s.i) == cx.zi(L.phi[0])
        yield 'in the same dimension, with the same name, type and number of components', z3.And(z3.BoolVal(t == s.t and nm == 'the tag'), cx.zi(d) == s.d, cx.zi(w) == s.w, *[cx.zi(x) == s.d for x in s.asked])
        ok = o in s.made and s.made[o][:3] == (s.t, hobj(cx, s.e.st, s.m.ptr), hobj(cx, s.e.st, s.data.ptr)); yield 'its values are the old ones of the kept entities', z3.And(z3.BoolVal(ok), cx.zi(s.made[o][3]) == s.w) if ok else z3.BoolVal(False)
def tags(t, d):
    def f(e):
        O, W = SymMesh(e, 'simplex', 3, CAP // 512, 'old_'), SymMesh(e, 'simplex', 3, CAP // 512, 'new_'); n = e.int('ntags', 0, N); m = e.array('new2old', W.n[d], rng=(0, O.n[d])); s = Tags(e, O, W, d, t, n); s.m = m
        e.cx.contracts = s.contracts() + list(e.cx.contracts); e.cx.ccache.clear(); e.cx.invariants = [('unmap_tags', 0, s)]
        e.call('Omega_h::unmap_tags', O.ptr, W.ptr, d, m); e.prove('returns with every tag seen', e.cx.zi(e.cx.inv_heads[-1].phi[0]) >= 0 if e.cx.inv_heads else z3.BoolVal(False))
    return f
for t in TY:
    for d in range(4): T('unmap_tags: a tag of type %s, dimension %d' % (t, d), tags(t, d))

# ---- connectivity
def same_n(cx, a, b): return z3.BoolVal(True) if cx.veq(a, b) else cx.zi(a) == cx.zi(b)
def down(fam, d):
    def f(e):
        cx = e.cx; dim = 3 if d == 3 else 2 if d == 2 else 1; O, W = SymMesh(e, fam, dim, CAP, 'old_'), SymMesh(e, fam, dim, CAP, 'new_'); n2o = e.array('new2old', W.n[d], rng=(0, O.n[d])); o2n = e.array('old2new', O.n[d - 1], rng=(-1, W.n[d - 1])); got = Log(e)
        def set_ents(cx, nm, a, st): got.add(st, (a[1], [cx.load(cx.padd(a[2], 16 * j + 8), ptr_t(), st) for j in range(3)])); return st, None
        W.h_set_ents = set_ents; O.h_set_ents = lambda cx, nm, a, st: (got.add(st, None), (st, None))[1]
        e.call('Omega_h::unmap_down', O.ptr, W.ptr, d, n2o, o2n); ok = len(got) == 1 and got[0] is not None; e.prove('the connectivity of that dimension is set once', z3.BoolVal(ok) if not ok else cx.zi(got[0][0]) == d)
        if not ok: return
        _, (a2ab, ab, cd) = got[0]; m = O.deg(d, d - 1); k = e.ivar('k', 0, W.n[d]); dn, dc = O.down(d, d - 1); A = rdo(e, e.st, ab.obj); e.prove('one list per kept entity', same_n(cx, cx.meta[ab.obj].nbytes, cx.muli(4 * m, W.n[d]))); e.prove('lists have the fixed length of the family', z3.BoolVal(a2ab.obj is None))
        for j in range(m): e.prove('side %d is the old side under its new number' % j, A(k * m + j) == o2n(dn(n2o(k) * m + j)))
        if d > 1:
            B = rdo(e, e.st, cd.obj, 1); e.prove('one code per side', same_n(cx, cx.meta[cd.obj].nbytes, cx.muli(m, W.n[d])))
            for j in range(m): e.prove('side %d keeps its orientation code' % j, B(k * m + j) == dc(n2o(k) * m + j))
        else: e.prove('vertices have no codes', z3.BoolVal(cd.obj is None))
    return f
for fam in FAM:
    for d in (1, 2, 3): T('unmap_down: %s, dimension %d' % (fam, d), down(fam, d))
# ---- owners
class Dists:
    """Mesh::ask_dist sends from each copy to its owner; its inverse delivers to every copy the value of its owner (P20)"""
    def __init__(s, e, M, d): s.__dict__.update(e=e, M=M, d=d, kind={}, sent=[], owners=[]); M.h_ask_dist = s.ask_dist; M.h_ask_owners = s.ask_owners; s.E = e.decl('value_at_owner', 0); s.ranks = e.array(M.name + 'owner_ranks', M.n[d]); s.idxs = e.array(M.name + 'owner_idxs', M.n[d]); e.cx.decl_rng[s.E.name()] = (-1, 2**31 - 1)
    def ask_dist(s, cx, nm, a, st): s.kind[(a[0].obj, a[0].c)] = ('dist', a[2]); return st, None
    def ask_owners(s, cx, nm, a, st):
        s.owners.append(a[2]); s.M.ret(a[0], s.ranks, st); s.M.ret(a[0], s.idxs, st, 16); return st, None
    def contracts(s):
        K = lambda p: s.kind.get((p.obj, p.c))
        def invert(cx, nm, a, st, I): k = K(a[1]); s.kind[(a[0].obj, a[0].c)] = {'dist': ('inv', k[1]), 'inv': ('dist', k[1])}[k[0]]; return st, None
        def exch(cx, nm, a, st, I): s.sent.append((K(a[1]), hobj(cx, st, a[2]), a[3])); mkarr(cx, st, a[0], 'received', s.M.n[s.d], 4, 'i', s.E); return st, None
        def other(cx, nm, a, st, I):
            if len(a) == 2: s.kind[(a[0].obj, a[0].c)] = K(a[1])
            return st, a[0]
        return [(R(r'Omega_h::Dist::invert\('), invert), (R(r'Omega_h::Dist::exch<int>\('), exch), (R(r'Omega_h::Dist::(~?Dist|operator=)\('), other)]
def owners(d):
    def f(e):
        cx = e.cx; O, W = SymMesh(e, 'simplex', 3, CAP, 'old_'), SymMesh(e, 'simplex', 3, CAP, 'new_'); D = Dists(e, O, d); n2o = e.array('new2old', W.n[d], rng=(0, O.n[d])); o2n = e.array('old2new', O.n[d], rng=(-1, W.n[d])); r = e.sret(32); k = e.ivar('k', 0, W.n[d])
        cx.contracts = D.contracts() + list(cx.contracts); cx.ccache.clear(); e.call('Omega_h::unmap_owners', r, O.ptr, d, n2o, o2n, params='(Omega_h::Mesh*, int, ')
        e.prove('every copy receives the new number its owner gave to the entity', z3.BoolVal(D.sent == [(('inv', d), hobj(cx, e.st, o2n.ptr), 1)] and D.owners == [d])); L, R1 = e.out(r); M_, R2 = e.out(r, off=16)
        e.prove('one owner per kept entity', z3.And(L == W.n[d], M_ == W.n[d])); e.prove('the owner is on the same rank as before, under its new number there', z3.And(R1(k) == D.ranks(n2o(k)), R2(k) == D.E(n2o(k))))
    return f
for d in range(4): T('unmap_owners: dimension %d' % d, owners(d))
def set_owners(d):
    def f(e):
        cx = e.cx; O, W = SymMesh(e, 'simplex', 3, CAP, 'old_'), SymMesh(e, 'simplex', 3, CAP, 'new_'); n2o = e.array('new2old', W.n[d], rng=(0, O.n[d])); o2n = e.array('old2new', O.n[d], rng=(-1, W.n[d])); n = e.int('nranks', 1, 2**20); ev = []; mine = (e.array('ranks', W.n[d]), e.array('idxs', W.n[d])); comm = cx.new_obj(e.st, 'comm', 64)
        def get(cx, nm, a, st, I): ev.append(('make', a[1] == O.ptr, a[2] == d, hobj(cx, st, a[3]) == hobj(cx, st, n2o.ptr), hobj(cx, st, a[4]) == hobj(cx, st, o2n.ptr))); W.ret(a[0], mine[0], st); W.ret(a[0], mine[1], st, 16); return st, None
        def put_(cx, nm, a, st): ev.append(('set', True, a[1] == d, hobj(cx, st, a[2]) == hobj(cx, st, mine[0].ptr), hobj(cx, st, cx.padd(a[2], 16)) == hobj(cx, st, mine[1].ptr))); st.objs[flag.obj] = RecC({0: (4, 1, 'i')}); return st, None
        def gc(cx, nm, a, st): cx.store(a[0], comm, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
        flag = cx.new_obj(e.st, 'flag', 4); e.st.objs[flag.obj] = RecC({0: (4, 0, 'i')}); W.h_set_owners = put_; O.h_comm = W.h_comm = gc
        cx.contracts = [(R(r'Omega_h::unmap_owners\(Omega_h::Mesh\*, int, '), get), (R(r'Omega_h::Comm::size\('), lambda cx, nm, a, st, I: (st, n)), (R(r'^std::(__)?shared_ptr(_access)?<Omega_h::Comm.*>::~'), lambda cx, nm, a, st, I: (st, None))] + list(cx.contracts); cx.ccache.clear()
        e.call('Omega_h::unmap_owners', O.ptr, W.ptr, d, n2o, o2n, params='(Omega_h::Mesh*, Omega_h::Mesh*, '); v = cx.zi(cx.load(flag, int_t(32), e.st))
        e.prove('owners are given to the new mesh unless there is one rank', v == z3.If(n == 1, 0, 1)); e.prove('they are the renumbered owners of that dimension', z3.BoolVal([x[0] for x in ev] == ['make', 'set'] and all(all(x[1:]) for x in ev)))
    return f
for d in range(4): T('unmap_owners into the new mesh: dimension %d' % d, set_owners(d))
# ---- parents, leaves
class PMesh(AMesh):
    def __init__(s, e, *a): super().__init__(e, *a); s.given = Log(e)
    def par(s, d):
        if d not in s._par: s._par[d] = (s.e.array('%sparent%d' % (s.name, d), s.n[d]), s.e.array('%sparent_code%d' % (s.name, d), s.n[d], 1))
        return s._par[d]
    def h_ask_parents(s, cx, nm, a, st):
        if not isinstance(a[2], int): raise Unsupported('ask_parents')
        p, c = s.par(a[2]); s.ret(a[0], p, st); s.ret(a[0], c, st, 16); return st, None
    def h_set_parents(s, cx, nm, a, st):
        s.given.add(st, (a[1], [cx.load(cx.padd(a[2], o), ptr_t(), st) for o in (8, 24)])); return st, None
def psetting(e, dim):
    O, W = PMesh(e, dim, CAP, 'old_'), PMesh(e, dim, CAP, 'new_'); n2o = {j: e.array('new2old%d' % j, W.n[j], rng=(0, O.n[j])) for j in range(dim + 1)}; o2n = {j: e.array('old2new%d' % j, O.n[j], rng=(-1, W.n[j])) for j in range(dim + 1)}; h1, h2 = few(e, 4), few(e, 4)
    for j in range(dim + 1): put(e, h1, j, n2o[j]); put(e, h2, j, o2n[j])
    return O, W, n2o, o2n, h1, h2
def parent(dim, c, pd):
    def f(e):
        cx = e.cx; O, W, n2o, o2n, h1, h2 = psetting(e, dim); fn, clo, new, rest = nth_kernel(e, 'unmap_parents', c, [O.ptr, W.ptr, h1, h2]); P, Q = O.par(c); k = e.ivar('k', 0, W.n[c]); q = n2o[c](k); w = e.int('which', 0, 31); z = e.ivar('z', 0)
        e.prove('the loop runs over the kept entities of dimension %d' % c, z3.And(*[cx.zi(n_) == W.n[c] for n_ in rest[:1]]) if rest else z3.BoolVal(False))
        e.assume(z3.And(Q(q) == 4 * w + pd, z3.Implies(P(q) >= 0, P(q) < O.n[pd]))); oo = e.st.objs[Q.ptr.obj].cells[8][1].obj; C0 = rdo(e, e.st, oo, 1); e.st.objs[oo] = ArrC(1, 'i', AFun(lambda x: cx.ite(cx.eqi(x, q), cx.addi(cx.muli(4, w), pd), C0(x))))
        a, b = last_sized(e, new, cx.muli(4, W.n[c])), last_sized(e, new, W.n[c]); st0 = fire(e, fn, clo, k); A, B, A0, B0 = rdo(e, e.st, a), rdo(e, e.st, b, 1), rdo(e, st0, a), rdo(e, st0, b, 1); there = z3.And(P(q) >= 0, o2n[pd](P(q)) >= 0)
        e.prove('a kept parent is referred to by its new number, with the same place in it', z3.Implies(there, z3.And(A(k) == o2n[pd](P(q)), B(k) == 4 * w + pd)))
        e.prove('a dropped parent, or none, becomes absent', z3.Implies(z3.Not(there), z3.And(A(k) == -1, B(k) == 0))); e.prove('other entities are untouched', z3.Implies(z != k, z3.And(A(z) == A0(z), B(z) == B0(z))))
    return f
def last_sized(e, new, nb):
    o = [x for x in new if e.cx.veq(e.cx.meta[x].nbytes, nb)]
    if not o: raise Unsupported('array of the given size')
    return o[-1]
def set_parents(dim):
    def f(e):
        cx = e.cx; O, W, n2o, o2n, h1, h2 = psetting(e, dim); cx.contracts = [(R(r'Omega_h::parallel_for<.*unmap_parents'), lambda cx, nm, a, st, I: (st, None))] + list(cx.contracts); cx.ccache.clear()
        e.call('Omega_h::unmap_parents', O.ptr, W.ptr, h1, h2); e.prove('parents are given to every dimension, vertices included', z3.BoolVal([g[0] for g in W.given] == list(range(dim + 1))))
        for c, (x, y) in W.given: e.prove('dimension %d: one parent and one code per kept entity' % c, z3.And(same_n(cx, cx.meta[x.obj].nbytes, cx.muli(4, W.n[c])), same_n(cx, cx.meta[y.obj].nbytes, W.n[c])))
    return f
for dim in (1, 2, 3):
    T('unmap_parents: results, mesh of dimension %d' % dim, set_parents(dim))
    for c in range(dim + 1):
        for pd in range(max(c, 1), dim + 1): T('unmap_parents: entities of dimension %d with a parent of dimension %d, mesh of dimension %d' % (c, pd, dim), parent(dim, c, pd))

def leaves(dim):
    def f(e):
        cx = e.cx; W = PMesh(e, dim, CAP); L = {d: e.array('leaf%d' % d, W.n[d], 1, rng=(0, 2)) for d in range(dim + 1)}; got = Log(e)
        W.h_ask_leaves = lambda cx, nm, a, st: (W.ret(a[0], L[a[2]], st), (st, None))[1]
        def set_tag(cx, nm, a, st): got.add(st, (a[1], cx.strnames.get((a[2].obj, a[2].c)), cx.load(cx.padd(a[3], 8), ptr_t(), st).obj, re.search(r'set_tag<([^<>]*)>', nm).group(1))); return st, None
        W.h_set_tag = set_tag; e.call('Omega_h::unmap_leaves', W.ptr); e.prove('the leaf mark of every dimension but that of vertices is set', z3.BoolVal([g[0] for g in got] == list(range(1, dim + 1)) and all(g[1] == 'leaf' and g[3] == 'signed char' for g in got)))
        for d, _, o, _ in got:
            k = e.ivar('k%d' % d, 0, W.n[d]); A = rdo(e, e.st, o, 1); off = W.kids(d, d)[0]; e.prove('dimension %d: one mark per entity' % d, same_n(cx, cx.meta[o].nbytes, W.n[d])); e.prove('dimension %d: an entity is a leaf if it was one or has no children left' % d, A(k) == z3.If(off(k + 1) == off(k), 1, L[d](k)))
    return f
for dim in (1, 2, 3): T('unmap_leaves: mesh of dimension %d' % dim, leaves(dim))
# ---- the whole
def whole(dim, has):
    def f(e):
        cx = e.cx; O, W = PMesh(e, dim, CAP, 'old_'), PMesh(e, dim, CAP, 'new_'); n2o = {j: e.injective('new2old%d' % j, W.n[j], O.n[j]) for j in range(dim + 1)}; h = few(e, 4); ev = Log(e); inv = {}
        for j in range(dim + 1): put(e, h, j, n2o[j])
        ob = {j: hobj(cx, e.st, n2o[j].ptr) for j in n2o}; H = lambda st, p, i=0: hobj(cx, st, cx.padd(p, 16 * i)); new = []
        def is_new(p): return isinstance(p, Ptr) and new and p.obj == new[0].obj and p.c == new[0].c
        def copy_meta(cx, nm, a, st): new.append(a[0]); cx.meshes[a[0].obj] = W; ev.add(st, ('copy',)); return st, None
        O.h_copy_meta = copy_meta; O.h_has_any_parents = lambda cx, nm, a, st: (st, int(has)); W.h_set_verts = lambda cx, nm, a, st: (ev.add(st, ('verts', a[1])), (st, None))[1]
        def inverse(cx, nm, a, st, I):
            """task 'invert_injective_map' (P02)"""
            o = hobj(cx, st, a[1]); es = mkarr(cx, st, a[0], 'inverse', a[2], 4, 'i', fnew(cx, 'inverse', z3.IntSort(), z3.IntSort())); inv[hobj(cx, st, a[0])] = (o, a[2]); return st, None
        def of(o): return next((j for j in ob if ob[j] == o), None)
        def inv_of(o): x = inv.get(o); j = of(x[0]) if x else None; return j if j is not None and cx.veq(x[1], O.n[j]) else None
        old = lambda p: isinstance(p, Ptr) and p.obj == O.ptr.obj
        def rec(nm_, *k):
            def g(cx, nm, a, st, I): ev.add(st, (nm_, old(a[0]) and is_new(a[1])) + tuple(f_(st, a) for f_ in k)); return st, None
            return g
        leaves_ = lambda cx, nm, a, st, I: (ev.add(st, ('leaves', is_new(a[0]))), (st, None))[1]
        def assign(cx, nm, a, st, I): ev.add(st, ('assign', old(a[0]) and is_new(a[1]))); return st, a[0]
        cx.contracts = [(R(r'Omega_h::unmap_down\('), rec('down', lambda st, a: a[2], lambda st, a: of(H(st, a[3])), lambda st, a: inv_of(H(st, a[4])))), (R(r'Omega_h::unmap_tags\('), rec('tags', lambda st, a: a[2], lambda st, a: of(H(st, a[3])))),
            (R(r'Omega_h::unmap_owners\(Omega_h::Mesh\*, Omega_h::Mesh'), rec('owners', lambda st, a: a[2], lambda st, a: of(H(st, a[3])), lambda st, a: inv_of(H(st, a[4])))), (R(r'Omega_h::unmap_parents\('), rec('parents', lambda st, a: [of(H(st, a[2], j)) for j in n2o], lambda st, a: [inv_of(H(st, a[3], j)) for j in n2o])), (R(r'Omega_h::unmap_leaves\('), leaves_),
            (R(r'Omega_h::invert_injective_map\('), inverse), (R(r'Omega_h::Mesh::operator='), assign), (R(r'Omega_h::Mesh::~Mesh\('), lambda cx, nm, a, st, I: (st, None))] + list(cx.contracts); cx.ccache.clear()
        e.call('Omega_h::unmap_mesh', O.ptr, h); at = lambda x: ev.index(x) if ev.count(x) == 1 else None; names = [x[0] for x in ev]
        def once(what, x): e.prove(what, z3.BoolVal(ev.count(x) == 1 and names.count(x[0]) == (dim + 1 if x[0] in ('tags', 'owners') else dim if x[0] == 'down' else 1)))
        e.prove('the new mesh starts from the properties of the old one and replaces it at the end', z3.BoolVal(bool(ev) and ev[0] == ('copy',) and ev[-1] == ('assign', True) and names.count('assign') == 1)); vs = [x[1] for x in ev if x[0] == 'verts']
        e.prove('one vertex per kept vertex', cx.zi(vs[0]) == W.n[0] if len(vs) == 1 else z3.BoolVal(False))
        for d in range(dim + 1):
            if d: once('dimension %d: connectivity over the kept entities and the new numbers of their sides' % d, ('down', True, d, d, d - 1))
            once('dimension %d: tags of the kept entities' % d, ('tags', True, d, d)); once('dimension %d: owners of the kept entities' % d, ('owners', True, d, d, d))
        first = {x: min(i for i, y in enumerate(ev) if y[0] == x) for x in set(names)}; last = {x: max(i for i, y in enumerate(ev) if y[0] == x) for x in set(names)}
        if has: once('parents of all dimensions', ('parents', True, list(n2o), list(n2o))); once('leaves are marked after parents are known and tags copied', ('leaves', True)); e.prove('in that order', z3.BoolVal('leaves' in last and 'parents' in last and last['leaves'] > last['parents'] and last['leaves'] > last['tags']))
        else: e.prove('no parents are made up', z3.BoolVal('parents' not in names and 'leaves' not in names))
    return f
for dim in (1, 2, 3):
    for has in (0, 1): T('unmap_mesh: mesh of dimension %d, %s' % (dim, 'with parents' if has else 'without parents'), whole(dim, has))
PROP = Prop('P25', TASKS, native=[Native('unmap')], assumptions=['the tags of a mesh are what ntags and get_tag list; add_tag, set_ents, set_owners, set_parents and set_tag store what they are given', 'an exchange along the inverse of Mesh::ask_dist delivers to every copy the value of its owner (P20)'])
