"""A mesh as its clients see it: arrays behind the accessors of Omega_h::Mesh, with the
relations between them that the derivation functions establish (property P04) as the
mesh invariant.  One rank: owned copies are all copies, and an exchange changes nothing."""
from stdc import *
FAM = {'simplex': 0, 'hypercube': 1}
NV = {('simplex', d): d + 1 for d in range(4)}; NV.update({('hypercube', d): 2**d for d in range(4)})
def perm_pos(n, f, r, j):
    p = (j + r) % n
    return (n - p) % n if f else p
def codes_of(n): return [(f, q) for q in range(n) for f in ((0, 1) if n > 2 else (0,))]
def aligned(n, f, q, u, v): return z3.And(*[u(perm_pos(n, f, q, j)) == v(j) for j in range(n)])
class SymMesh:
    def __init__(s, e, family='simplex', dim=3, cap=None, name=''):
        s.e = e; s.cx = e.cx; s.family = family; s.dim = dim; s.ptr = e.cx.new_obj(e.st, 'mesh', None)
        s.cap = cap or (2**31 - 1) // 48
        s.name = name; s.n = [e.int(name + 'nents%d' % d, 0, s.cap) for d in range(dim + 1)]
        s._v = {}; s._d = {}; s._u = {}; s._t = {}; e.cx.mesh = s; e.cx.meshes = getattr(e.cx, 'meshes', {}); e.cx.meshes[s.ptr.obj] = s
        s.parting = 2; s.held = []; s.lazy = False
    def later(s, f):
        """part of the mesh invariant; with `lazy` it is only brought in by reveal()"""
        if s.lazy: s.held.append(f)
        else: s.e.assume(f)
    def reveal(s):
        for f in s.held: s.e.assume(f)
        s.held = []
    def deg(s, a, b):
        e = s.e
        if a == b: return 1
        if b == 0: return NV[(s.family, a)]
        return {('simplex', 2, 1): 3, ('simplex', 3, 1): 6, ('simplex', 3, 2): 4, ('hypercube', 2, 1): 4, ('hypercube', 3, 1): 12, ('hypercube', 3, 2): 6}[(s.family, a, b)]
    def put(s, f):
        """inputs created while the code runs still belong to the precondition"""
        return f()
    def verts(s, d):
        if d not in s._v: s._v[d] = s.down(d, 0)[0] if d else None
        return s._v[d]
    def codes(s, name, n, which, nl):
        """array of codes 8*which + 2*rotation + flip, each field a function of the place"""
        e = s.e; cx = e.cx; Q = R = None
        if nl:
            Q = e.decl(name + '_rot', 0); cx.decl_rng[Q.name()] = (0, nl - 1); x = z3.Int('x!'); e.assume(z3.ForAll([x], z3.And(0 <= Q(x), Q(x) < nl), patterns=[Q(x)]))
            if nl > 2: R = e.decl(name + '_flip', 0); cx.decl_rng[R.name()] = (0, 1); e.assume(z3.ForAll([x], z3.And(0 <= R(x), R(x) < 2), patterns=[R(x)]))
        def val(x):
            x = cx.zi(x); v = z3.IntVal(0)
            if which is not None: v = 8 * which(x)
            if Q is not None: v = v + 2 * Q(x)
            if R is not None: v = v + R(x)
            return v
        A = e.array(name, n, 1); A.decl = val; o = e.st.objs[A.ptr.obj].cells[8][1].obj; e.st.objs[o] = ArrC(1, 'i', AFun(val)); z0 = lambda x: z3.IntVal(0); A.rot = z0 if Q is None else Q; A.flip = z0 if R is None else R; return A
    def down(s, h, l):
        k = (h, l)
        if k not in s._d:
            m = s.deg(h, l)
            s._d[k] = (s.e.array(s.name + 'm%d_to_%d' % k, s.n[h] * m, rng=(0, s.n[l])), s.codes(s.name + 'm%d_to_%d_codes' % k, s.n[h] * m, None, s.deg(l, 0)) if l else None)
        return s._d[k]
    def up(s, l, h):
        """lists of the entities of dimension h around each entity of dimension l: the inverse
        of the downward lists, each entry with position and orientation (tasks 'invert_adj', P04)"""
        k = (l, h)
        if k not in s._u:
            e = s.e; cx = e.cx; m = s.deg(h, l); dn, dc = s.down(h, l); T = s.n[h] * m; nm = s.name + 'm%d_up_%d' % k; x = z3.Int('x!')
            off = e.fan(nm, s.n[l], T); up = e.array(nm + '_ents', T, rng=(0, s.n[h])); W = e.decl(nm + '_which', 0); cx.decl_rng[W.name()] = (0, m - 1); e.assume(z3.ForAll([x], z3.And(0 <= W(x), W(x) < m), patterns=[W(x)]))
            cd = s.codes(nm + '_codes', T, W, s.deg(l, 0) if l else 0)
            at = e.decl(nm + '_at', T, rng=(0, T)); use = e.decl(nm + '_use', T, rng=(0, T)); rng = z3.And(0 <= x, x < T)
            s.later(z3.ForAll([x], z3.Implies(rng, z3.And(use(x) == up(x) * m + W(x), 0 <= use(x), use(x) < T)), patterns=[up(x)]))
            if dc is not None: s.later(z3.ForAll([x], z3.Implies(rng, z3.And(cd.rot(x) == dc.rot(use(x)), cd.flip(x) == dc.flip(use(x)))), patterns=[use(x)]))
            s.later(z3.ForAll([x], z3.Implies(rng, z3.And(at(use(x)) == x, dn(use(x)) == off.own(x))), patterns=[use(x)]))
            y = at(x); s.later(z3.ForAll([x], z3.Implies(rng, z3.And(0 <= y, y < T, off(dn(x)) <= y, y < off(dn(x) + 1), use(y) == x)), patterns=[y]))
            off.use = use; off.which = W; off.at = at
            s._u[k] = (off, up, cd)
        return s._u[k]
    def tag(s, d, name, es=4, kind='i', w=1, **kw):
        k = (d, name)
        if k not in s._t: s._t[k] = (s.e.array(s.name + 'tag_%d_%s' % k, s.n[d] * w, es, kind, **kw), es)
        return s._t[k][0]
    def h_comm(s, cx, d, a, st):
        for o in (0, 8): cx.store(cx.padd(a[0], o), NULL, ptr_t(), st)
        return st, None
    # ---- handlers
    def ret(s, r, arr, st, off=0):
        cx = s.cx
        h = s.e.st.objs[arr.ptr.obj] if arr is not None else None
        for o in (0, 8): cx.store(cx.padd(r, off + o), h.cells[o][1] if arr is not None else NULL, ptr_t(), st)
def objs_into(cx, st):
    """arrays the mesh holds, created on first use, exist in every state"""
    for k, v in cx.mesh.e.st.objs.items():
        if k not in st.objs: st.objs[k] = v
SERIAL_TRUE = ('owners_have_all_upward',); SERIAL_FALSE = ('could_be_shared',)
def mesh_h(cx, nm, a, st, Ins):
    M = next((cx.meshes[p.obj] for p in a[:2] if isinstance(p, Ptr) and p.obj in cx.meshes), None); d = dem(nm); m = re.search(r'Omega_h::Mesh::(\w+)(?:<([^()]*)>)?\(', d); f, T = m.group(1), m.group(2)
    if M is None: raise Unsupported('Mesh::%s of an unknown mesh' % f)
    def ints(*l):
        for v in l:
            if not isinstance(v, int): raise Unsupported('Mesh::%s with a symbolic argument' % f)
    if f == 'dim': return st, M.dim
    if f == 'family': return st, FAM[M.family]
    if f == 'parting': return st, M.parting
    if f in ('nverts', 'nedges', 'nfaces', 'nregions', 'nelems', 'nents'):
        dd = {'nverts': 0, 'nedges': 1, 'nfaces': 2, 'nregions': 3, 'nelems': M.dim}.get(f)
        if dd is None: ints(a[1]); dd = a[1]
        return st, M.n[dd]
    if f in SERIAL_TRUE: return st, 1
    if f in SERIAL_FALSE: return st, 0
    old = M.e.st; M.e.st = st      # new arrays go into the current state
    try:
        if f in ('ask_verts_of', 'ask_elem_verts'):
            dd = M.dim if f == 'ask_elem_verts' else a[2]; ints(dd); M.ret(a[0], M.verts(dd), st); return st, None
        if f == 'ask_down':
            ints(a[2], a[3]); x, c = M.down(a[2], a[3]); M.ret(a[0], None, st); M.ret(a[0], x, st, 16); M.ret(a[0], c, st, 32); return st, None
        if f == 'ask_up':
            ints(a[2], a[3]); o, x, c = M.up(a[2], a[3]); M.ret(a[0], o, st); M.ret(a[0], x, st, 16); M.ret(a[0], c, st, 32); return st, None
        if f == 'get_array':
            ints(a[2]); name = strname(cx, a[3]); es = {'signed char': 1, 'int': 4, 'long': 8, 'double': 8}[T]
            x = M.tag(a[2], name, es, 'f' if T == 'double' else 'i')
            if M._t[(a[2], name)][1] != es: raise Unsupported('tag %s asked for with another type' % name)
            M.ret(a[0], x, st); return st, None
        if f in ('globals', 'ask_lengths'):
            dd = 1 if f == 'ask_lengths' else a[2]; ints(dd); M.ret(a[0], M.tag(dd, 'global', 8, 'i') if f == 'globals' else M.tag(1, 'length', 8, 'f'), st); return st, None
        if f in ('sync_array', 'sync_subset_array', 'reduce_array', 'owned_array'):
            for o in (0, 8): cx.store(cx.padd(a[0], o), cx.load(cx.padd(a[3], o), ptr_t(), st), ptr_t(), st)
            cx.assumptions.add('Mesh::%s on one rank changes nothing' % f); return st, None
        h = getattr(M, 'h_' + f, None)
        if h: return h(cx, d, a, st)
    finally: M.e.st = old
    raise Unsupported('Mesh::' + f)
def strname(cx, p):
    n = getattr(cx, 'strnames', {}).get((p.obj, p.c)) if isinstance(p, Ptr) and not p.lin else None
    if n is None: raise Unsupported('string value')
    return n
def cstr(cx, p, st):
    c = st.objs[p.obj]; out = []; o = p.c
    while isinstance(c, RecC) and o in c.cells and isinstance(c.cells[o][1], int):
        v = c.cells[o][1]
        if v == 0: return bytes(x & 255 for x in out).decode('latin1')
        out.append(v); o += 1
    return None
def str_ctor(cx, nm, a, st, Ins):
    cx.strnames = getattr(cx, 'strnames', {})
    if len(a) > 1 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
        d = dem(nm)
        if 'char const*' in d.split('(')[-1] or 'char const*,' in d: n = cstr(cx, a[1], st)
        else: n = cx.strnames.get((a[1].obj, a[1].c))
        cx.strnames[(a[0].obj, a[0].c)] = n
    return st, None
MESH = [(R(r'^(std::__cxx11::)?basic_string<.*>::basic_string'), str_ctor), (R(r'^std::__cxx11::basic_string<.*>::basic_string'), str_ctor), (R(r'Omega_h::Mesh::\w+(<[^()]*>)?\('), mesh_h)]
def mark_down_h(cx, nm, a, st, Ins):
    """task 'mark_down over a graph' (P21)"""
    top(cx, nm); n1, off = rdh(cx, st, a[1]); M, ed = rdh(cx, st, cx.padd(a[1], 16)); m, h = rdh(cx, st, a[2], 1); n = cx.zi(cx.subi(n1, 1)); M = cx.zi(M); x, y = z3.Int('x!'), z3.Int('y!')
    k = cx.fresh('k', I)
    cx.oblige('mark_down: edges are in range', z3.Implies(z3.And(0 <= k, k < M), z3.And(0 <= ed(k), ed(k) < cx.zi(m))), 'pre', st.pc)
    cx.oblige('mark_down: offsets', z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= off(k), off(k) <= off(k + 1), off(k + 1) <= M)), 'pre', st.pc)
    MD = fnew(cx, 'down_mark', I, I); W = fnew(cx, 'down_by', I, I); cx.decl_rng[MD.name()] = (0, 1)
    cx.fact(z3.ForAll([x], z3.And(0 <= MD(x), MD(x) <= 1), patterns=[MD(x)]), guard=False)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, off(x) <= y, y < off(x + 1), h(ed(y)) != 0), MD(x) == 1), patterns=[z3.MultiPattern(MD(x), ed(y))]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n, MD(x) == 1), z3.And(off(x) <= W(x), W(x) < off(x + 1), h(ed(W(x))) != 0)), patterns=[MD(x)]), guard=False)
    cx.marked_down = (MD, W); mkarr(cx, st, a[0], 'down_mark', n, 1, 'i', MD); return st, None
MD = [(R(r'Omega_h::mark_down\(Omega_h::Graph'), mark_down_h)]
