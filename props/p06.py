from prop import *
from native import Native
import z3
from p05 import BV, asbv
H = '''#include <Omega_h_element.hpp>
using namespace Omega_h;
int w_down(int f, int e, int b, int i, int v) { return element_down_template(Omega_h_Family(f), e, b, i, v); }
int w_deg(int f, int a, int b) { return element_degree(Omega_h_Family(f), a, b); }
int w_up(int f, int e, int b, int i, int u) { return element_up_template(Omega_h_Family(f), e, b, i, u).up; }
int w_upw(int f, int e, int b, int i, int u) { return element_up_template(Omega_h_Family(f), e, b, i, u).which_down; }
bool w_upf(int f, int e, int b, int i, int u) { return element_up_template(Omega_h_Family(f), e, b, i, u).is_flipped; }
int w_opp(int e, int b, int i) { return simplex_opposite_template(e, b, i); }
int w_sdown(int e, int b, int i, int v) { return simplex_down_template(e, b, i, v); }
int w_hdown(int e, int b, int i, int v) { return hypercube_down_template(e, b, i, v); }
int w_sdeg(int a, int b) { return simplex_degree(a, b); }
int w_hdeg(int a, int b) { return hypercube_degree(a, b); }
'''
C = lambda e, nm, *a: asbv(e.call(nm, *a), 32)
NV = {0: {0: 1, 1: 2, 2: 3, 3: 4}, 1: {0: 1, 1: 2, 2: 4, 3: 8}}
# entity counts of a d-simplex and a d-cube, from combinatorics
def comb(n, k):
    from math import comb as c
    return c(n, k)
def count(f, d, b): return comb(d + 1, b + 1) if f == 0 else comb(d, b) * 2 ** (d - b)
def idx(e, name, n):
    i = BV(name, 32); e.assume(z3.ULT(i, n)); return i
def fam(f): return ('simplex', 'hypercube')[f]
def counts(f):
    def g(e):
        for d in range(4):
            for b in range(d + 1):
                e.prove('%d-%s has %d sides of dimension %d' % (d, fam(f), count(f, d, b), b), C(e, 'w_deg', f, d, b) == count(f, d, b))
                e.prove('family dispatch of counts %d %d' % (d, b), C(e, 'w_deg', f, d, b) == C(e, 'w_sdeg' if f == 0 else 'w_hdeg', d, b))
    return g
def downs(f, d, b):
    def g(e):
        n = count(f, d, b); nv = NV[f][b]; N = NV[f][d]
        i = idx(e, 'i', n); j = idx(e, 'j', n); v = idx(e, 'v', nv); w = idx(e, 'w', nv)
        D = lambda i, v: C(e, 'w_down', f, d, b, i, v)
        e.prove('vertex numbers are in range', z3.ULT(D(i, v), N))
        e.prove('vertices of a side are distinct', z3.Implies(v != w, D(i, v) != D(i, w)))
        same = z3.And(*[z3.Or(*[D(i, p) == D(j, q) for q in range(nv)]) for p in range(nv)])
        e.prove('different sides have different vertex sets', z3.Implies(i != j, z3.Not(same)))
        e.prove('family dispatch', D(i, v) == C(e, 'w_sdown' if f == 0 else 'w_hdown', d, b, i, v))
        if b == 0: e.prove('vertices are numbered by themselves', D(i, v) == i)
    return g
def ups(f, d, b):
    """b-dimensional sides used by (b+1)-dimensional sides of a d-element"""
    def g(e):
        n = count(f, d, b); nv = NV[f][b]; m = count(f, d, b + 1); sub = count(f, b + 1, b)
        nup = m * sub // n
        i = idx(e, 'i', n); u = idx(e, 'u', nup); u2 = idx(e, 'u2', nup); s = idx(e, 's', m)
        up = C(e, 'w_up', f, d, b, i, u); wd = C(e, 'w_upw', f, d, b, i, u); fl = asbv(e.call('w_upf', f, d, b, i, u), 32) != 0
        e.prove('the up entry names a side', z3.ULT(up, m))
        e.prove('at a position the side has', z3.ULT(wd, sub))
        D = lambda dd, bb, a, v: C(e, 'w_down', f, dd, bb, a, v)
        through = [D(d, b + 1, up, D(b + 1, b, wd, k)) for k in range(nv)]
        own = [D(d, b, i, k) for k in range(nv)]
        if b == 0:
            e.prove('the side has the vertex at that position', through[0] == own[0])
            e.prove('a vertex is not flipped', z3.Not(fl))
        else:
            e.prove('not flipped: same vertices in order', z3.Implies(z3.Not(fl), z3.And(*[a == c for a, c in zip(through, own)])))
            e.prove('flipped: same vertices in reverse', z3.Implies(fl, z3.And(*[a == c for a, c in zip(through, own[::-1])])))
        e.prove('entries name different sides', z3.Implies(u != u2, up != C(e, 'w_up', f, d, b, i, u2)))
        # completeness: every side which contains the sub-entity is listed
        sv = [D(d, b + 1, s, k) for k in range(NV[f][b + 1])]
        contains = z3.And(*[z3.Or(*[x == o for x in sv]) for o in own])
        e.prove('every containing side is listed', z3.Implies(contains, z3.Or(*[C(e, 'w_up', f, d, b, i, k) == s for k in range(nup)])))
    return g
def orient(f, d):
    """codimension-one sides: neighbouring sides traverse what they share in opposite directions"""
    def g(e):
        n = count(f, d, d - 1)
        D = lambda dd, bb, a, v: C(e, 'w_down', f, dd, bb, a, v)
        if d == 2:
            i = idx(e, 'i', n)
            nx = z3.If(i == n - 1, z3.BitVecVal(0, 32), i + 1)
            e.prove('sides run head to tail', D(2, 1, i, 1) == D(2, 1, nx, 0))
            e.prove('side i starts at vertex i', D(2, 1, i, 0) == i)
        else:
            i = idx(e, 'i', n); j = idx(e, 'j', n); m = count(f, 2, 1); p = idx(e, 'p', m); q = idx(e, 'q', m)
            a = lambda s, k, v: D(3, 2, s, D(2, 1, k, v))
            e.prove('no directed edge is used by two faces', z3.Implies(i != j, z3.Not(z3.And(a(i, p, 0) == a(j, q, 0), a(i, p, 1) == a(j, q, 1)))))
            # the reverse directed edge is used by some other face
            e.prove('every directed edge is used backwards by another face', z3.Or(*[z3.And(a(s, k, 0) == a(i, p, 1), a(s, k, 1) == a(i, p, 0)) for s in range(n) for k in range(m)]))
            # outward normals: with reference coordinates, face (a,b,c) has the rest of the element behind it
            X = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)] if f == 0 else [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
            def co(v, c): 
                r = z3.BitVecVal(X[-1][c], 32)
                for k in range(len(X) - 1): r = z3.If(v == k, z3.BitVecVal(X[k][c], 32), r)
                return r
            V = [[co(D(3, 2, i, k), c) for c in range(3)] for k in range(3)]
            w = idx(e, 'w', len(X)); W = [co(w, c) for c in range(3)]
            sub = lambda a, b: [x - y for x, y in zip(a, b)]
            U, T, R = sub(V[1], V[0]), sub(V[2], V[0]), sub(W, V[0])
            det = R[0] * (U[1] * T[2] - U[2] * T[1]) + R[1] * (U[2] * T[0] - U[0] * T[2]) + R[2] * (U[0] * T[1] - U[1] * T[0])
            on = z3.Or(*[D(3, 2, i, k) == w for k in range(NV[f][2])])
            e.prove('faces point outward', z3.If(on, det == 0, det < 0))
    return g
def opp(d, b):
    def g(e):
        n = count(0, d, b); o = d - b - 1; m = count(0, d, o)
        i = idx(e, 'i', n); v = idx(e, 'v', d + 1)
        k = C(e, 'w_opp', d, b, i)
        e.prove('opposite entity exists', z3.ULT(k, m))
        ini = z3.Or(*[C(e, 'w_down', 0, d, b, i, p) == v for p in range(b + 1)])
        ino = z3.Or(*[C(e, 'w_down', 0, d, o, k, p) == v for p in range(o + 1)])
        e.prove('the opposite entity has exactly the other vertices', ini != ino)
        e.prove('opposite of the opposite', C(e, 'w_opp', d, o, k) == i)
    return g
TASKS = []
for f in (0, 1):
    TASKS.append(Task('%s counts' % fam(f), counts(f), extra=H, mode='bv'))
    for d in (1, 2, 3):
        for b in range(d): TASKS.append(Task('%s vertices of %d-sides in dimension %d' % (fam(f), b, d), downs(f, d, b), extra=H, mode='bv'))
        for b in range(d - 1): TASKS.append(Task('%s up entries %d to %d in dimension %d' % (fam(f), b, b + 1, d), ups(f, d, b), extra=H, mode='bv'))
        if d > 1: TASKS.append(Task('%s side orientation in dimension %d' % (fam(f), d), orient(f, d), extra=H, mode='bv'))
for d in (1, 2, 3):
    for b in range(d): TASKS.append(Task('opposite entities, dimension %d of %d' % (b, d), opp(d, b), extra=H, mode='bv'))
PROP = Prop('P06', TASKS, native=[Native('tables', lib=True, san=False)])
