from prop import *
from native import Native
import z3
# wrappers only instantiate and call the real inline functions
H = '''#include <Omega_h_align.hpp>
using namespace Omega_h;
int w_make(bool f, int r, int w) { return make_code(f, r, w); }
int w_flip(I8 c) { return code_is_flipped(c); }
int w_rot(I8 c) { return code_rotation(c); }
int w_down(I8 c) { return code_which_down(c); }
int w_vert(int n, int i, I8 c) { return align_vert_index(n, i, c); }
int w_edge(int n, int i, I8 c) { return align_edge_index(n, i, c); }
int w_index(int n, int d, int i, I8 c) { return align_index(n, d, i, c); }
I8 w_inv(int n, I8 c) { return invert_alignment(n, c); }
int w_first(int n, int i) { return rotation_to_first(n, i); }
int w_rotate(int n, int i, int r) { return rotate_index(n, i, r); }
I8 w_comp(int n, I8 a, I8 b) { return compound_alignments(n, a, b); }
I8 w_comp4(I8 a, I8 b) { return compound_alignments<4>(a, b); }
'''
def BV(n, b): return z3.BitVec(n, b)
def zx(x, b): return z3.ZeroExt(b - x.size(), x) if x.size() < b else z3.Extract(b - 1, 0, x)
def asbv(v, b):
    if isinstance(v, bool): return z3.BitVecVal(int(v), b)
    if isinstance(v, int): return z3.BitVecVal(v, b)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
    if v.size() == b: return v
    return z3.SignExt(b - v.size(), v) if v.size() < b else z3.Extract(b - 1, 0, v)
def code(e, name, n, noflip=False):
    """a valid alignment code for an entity with n vertices"""
    f, r, w = z3.Bool(name + '_f'), BV(name + '_r', 32), BV(name + '_w', 32)
    e.assume(z3.ULT(r, n)); e.assume(z3.ULT(w, 16))
    if noflip: e.assume(z3.Not(f))
    c = z3.Extract(7, 0, (w << 3) | (r << 1) | z3.If(f, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    return c, f, r, w
def vert(n, i, f, r):
    j = z3.URem(i + r, n)
    return z3.If(f, z3.URem(n - j, z3.BitVecVal(n, 32)), j)
def edge(n, i, f, r):
    j = z3.URem(i + r, n)
    return z3.If(f, n - 1 - j, j)
def pack(e):
    f, r, w = z3.Bool('f'), BV('r', 32), BV('w', 32)
    e.assume(z3.ULT(r, 4)); e.assume(z3.ULT(w, 16))
    c = z3.Extract(7, 0, asbv(e.call('w_make', f, r, w), 32))
    e.prove('unpacked flip', (asbv(e.call('w_flip', c), 32) != 0) == f)
    e.prove('unpacked rotation', asbv(e.call('w_rot', c), 32) == r)
    e.prove('unpacked position', asbv(e.call('w_down', c), 32) == w)
def unpack(e):
    c = BV('c', 8); e.assume(c >= 0)
    e.prove('packing the parts of a code returns it', z3.Extract(7, 0, asbv(e.call('w_make', asbv(e.call('w_flip', c), 32) != 0, asbv(e.call('w_rot', c), 32), asbv(e.call('w_down', c), 32)), 32)) == c)
def act(n):
    def g(e):
        c, f, r, w = code(e, 'c', n); i = BV('i', 32); e.assume(z3.ULT(i, n))
        e.prove('vertex position follows rotation then flip', asbv(e.call('w_vert', n, i, c), 32) == vert(n, i, f, r))
        e.prove('edge position follows rotation then flip', asbv(e.call('w_edge', n, i, c), 32) == edge(n, i, f, r))
        e.prove('dispatch on dimension 0', asbv(e.call('w_index', n, 0, i, c), 32) == vert(n, i, f, r))
        e.prove('dispatch on dimension 1', asbv(e.call('w_index', n, 1, i, c), 32) == edge(n, i, f, r))
        e.prove('a rotation to first brings a position to the front', asbv(e.call('w_rotate', n, i, e.call('w_first', n, i)), 32) == 0)
        ft = asbv(e.call('w_first', n, i), 32); e.prove('its value is a rotation', z3.ULT(ft, n))
    return g
def inverse(n):
    def g(e):
        c, f, r, w = code(e, 'c', n); i = BV('i', 32); e.assume(z3.ULT(i, n))
        ci = asbv(e.call('w_inv', n, c), 8)
        e.prove('inverse undoes the vertex action', asbv(e.call('w_vert', n, e.call('w_vert', n, i, c), ci), 32) == i)
        e.prove('vertex action undoes the inverse', asbv(e.call('w_vert', n, e.call('w_vert', n, i, ci), c), 32) == i)
        if n > 2:
            e.prove('inverse undoes the edge action', asbv(e.call('w_edge', n, e.call('w_edge', n, i, c), ci), 32) == i)
            e.prove('edge action undoes the inverse', asbv(e.call('w_edge', n, e.call('w_edge', n, i, ci), c), 32) == i)
    return g
def compound(n):
    def g(e):
        c1, f1, r1, w1 = code(e, 'c1', n, n == 2); c2, f2, r2, w2 = code(e, 'c2', n, n == 2); i = BV('i', 32); e.assume(z3.ULT(i, n))
        cc = asbv(e.call('w_comp4', c1, c2) if n == 4 else e.call('w_comp', n, c1, c2), 8)
        e.prove('composition acts like one after the other', asbv(e.call('w_vert', n, i, cc), 32) == asbv(e.call('w_vert', n, e.call('w_vert', n, i, c1), c2), 32))
        e.prove('edges too', asbv(e.call('w_edge', n, i, cc), 32) == asbv(e.call('w_edge', n, e.call('w_edge', n, i, c1), c2), 32))
        e.prove('composition carries no position', z3.LShR(cc, 3) == 0)
        e.prove('composition is a valid code', z3.ULT((cc >> 1) & 3, n))
    return g
def apply(n, T, es):
    def g(e):
        ne = e.int('ne', 0, (2**31 - 1) // 4)
        a = e.array('ev2v', ne * n, es); c = e.array('codes', ne, 1, rng=(0, 128)); r = e.sret()
        x = e.ivar('x', 0, ne)
        rot = lambda t: (c(t) / 2) % 4
        y = z3.Int('y!')
        e.assume(z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < ne), rot(y) < n), patterns=[c(y)]))
        e.call('Omega_h::align_ev2v<%s>' % T, r, n, a, c)
        L, rd = e.out(r, es)
        e.prove('size', L == ne * n)
        w = z3.Int('w'); e.inst(x)
        for f in (0, 1):
            for r0 in range(n):
                for j in range(n):
                    p = (j + r0) % n
                    q = (n - p) % n if f else p
                    e.prove('flip %d rotation %d: vertex %d lands at its aligned position' % (f, r0, j), z3.Implies(z3.And(w >= 0, c(x) == 8 * w + (2 * r0 + f)), rd(n * x + q) == a(n * x + j)))
    return g
TASKS = [Task('code packing', pack, extra=H, mode='bv'), Task('code unpacking', unpack, extra=H, mode='bv')]
for n in (2, 3, 4):
    TASKS += [Task('action on positions, %d vertices' % n, act(n), extra=H, mode='bv'), Task('inverse codes, %d vertices' % n, inverse(n), extra=H, mode='bv'), Task('composed codes, %d vertices' % n, compound(n), extra=H, mode='bv')]
    for T, es in (('int', 4), ('long', 8)): TASKS.append(Task('align_ev2v<%s>, %d vertices' % (T, n), apply(n, T, es), ('align', 'array', 'array_ops')))
PROP = Prop('P05', TASKS, native=[Native('align', ['align'])], assumptions=['codes carry a rotation smaller than the number of vertices (type invariant of a code)', 'an edge (two vertices) has no flip'])
