from prop import *
from native import Native
import z3, re, itertools
W = []      # wrappers: instantiate the real templates, arguments and results by address
def wrap(name, res, args, expr):
    """args: list of C++ types; result stored through the last pointer"""
    W.append('void w_%s(%s%s* r) { *r = %s; }' % (name, ''.join('%s const* a%d, ' % (t, i) for i, t in enumerate(args)), res, re.sub(r'\$(\d)', r'(*a\1)', expr)))
M = lambda m, n: 'Matrix<%d,%d>' % (m, n)
V = lambda n: 'Vector<%d>' % n
S = 'Real'
def size(t):
    k = re.findall(r'\d+', t)
    return 1 if not k else int(k[0]) * (int(k[1]) if len(k) > 1 else 1)
def shape(t, vals):
    k = [int(x) for x in re.findall(r'\d+', t)]
    if not k: return vals[0]
    if len(k) == 1: return vals
    m, n = k
    return [[vals[j * m + i] for j in range(n)] for i in range(m)]     # rows of columns-major storage
def ext():
    R = z3.RealSort(); f = {n: z3.Function(n + '_', R, R) for n in ('sqrt', 'cos', 'sin')}
    def sq(cx, nm, a, st, I):
        x = cx.zf(a[0]); s = f['sqrt'](x); cx.fact(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x))); return st, s
    def tr(cx, nm, a, st, I):
        x = cx.zf(a[0]); c, s = f['cos'](x), f['sin'](x); cx.fact(c * c + s * s == 1)
        return st, (c if 'cos' in nm else s)
    def cs(cx, nm, a, st, I):
        x, y = cx.zf(a[0]), cx.zf(a[1]); ax = z3.If(x >= 0, x, -x)
        s = cx.fresh('sign', R); cx.fact(z3.Or(s == ax, s == -ax)); cx.fact(z3.Implies(y > 0, s == ax)); cx.fact(z3.Implies(y < 0, s == -ax))
        return st, s
    return [(re.compile(r'^(std::)?sqrt\b|^sqrtf?$|llvm\.sqrt'), sq), (re.compile(r'^(std::)?(cos|sin)(\(|$)|llvm\.(cos|sin)'), tr), (re.compile(r'^(std::)?copysign(\(|$)|^llvm\.copysign'), cs)]
TASKS = []
def task(name, res, args, expr, spec, pre=None, **kw):
    """spec(result, *args) yields (name, formula)"""
    w = 'f%d' % len(W); wrap(w, res, args, expr)
    def g(e):
        from rt import RecC, dbl_t
        ps, vs = [], []
        for i, t in enumerate(args):
            n = size(t); v = [z3.Real('%s%d' % ('abcd'[i], k)) for k in range(n)]
            p = e.cx.new_obj(e.st, 'arg%d' % i, 8 * n); e.st.objs[p.obj] = RecC({8 * k: (8, x, 'f') for k, x in enumerate(v)})
            ps.append(p); vs.append(shape(t, v))
        if pre is not None: e.assume(pre(*vs))
        r = e.cx.new_obj(e.st, 'result', 8 * size(res))
        e.call('Omega_h::w_' + w, *ps, r)
        out = shape(res, [e.cx.zf(e.cx.load(e.cx.padd(r, 8 * k), dbl_t(), e.st)) for k in range(size(res))])
        k = 0
        for nm, f in spec(out, *vs):
            e.prove(nm, f); k += 1
    TASKS.append(Task(name, g, contracts=ext, **kw))
def eqm(r, s, what='entry'): return [('%s %d,%d' % (what, i, j), r[i][j] == s[i][j]) for i in range(len(r)) for j in range(len(r[0]))]
def eqv(r, s, what='component'): return [('%s %d' % (what, i), r[i] == s[i]) for i in range(len(r))]
def sm(l):
    l = list(l); r = l[0]
    for x in l[1:]: r = r + x
    return r
def mul(a, b): return [[sm(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def mv(a, v): return [sm(a[i][k] * v[k] for k in range(len(v))) for i in range(len(a))]
def tp(a): return [list(x) for x in zip(*a)]
def ident(n): return [[z3.RealVal(int(i == j)) for j in range(n)] for i in range(n)]
def det(a):
    n = len(a); tot = []
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i): s *= -1 if p[j] > p[i] else 1
        t = z3.RealVal(s)
        for i in range(n): t = t * a[i][p[i]]
        tot.append(t)
    return sm(tot)
def dot(a, b): return sm(x * y for x, y in zip(a, b))
def crs(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
D = (1, 2, 3)
for m in D:
    for n in D:
        task('matrix %dx%d times vector' % (m, n), V(m), [M(m, n), V(n)], '$0 * $1', lambda r, a, v: eqv(r, mv(a, v)))
        task('transpose %dx%d' % (m, n), M(n, m), [M(m, n)], 'transpose($0)', lambda r, a: eqm(r, tp(a)))
        task('matrix %dx%d plus, minus, scaled' % (m, n), M(m, n), [M(m, n), M(m, n), S, S], '$2 * ($0 + $1) - (-($0 - $1)) * $3', lambda r, a, b, s, t: eqm(r, [[s * (a[i][j] + b[i][j]) + (a[i][j] - b[i][j]) * t for j in range(len(a[0]))] for i in range(len(a))]))
        task('matrix %dx%d over scalar' % (m, n), M(m, n), [M(m, n), S], '$0 / $1', lambda r, a, s: eqm([[x * s for x in q] for q in r], a), pre=lambda a, s: s != 0)
        task('outer product %dx%d' % (m, n), M(m, n), [V(m), V(n)], 'outer_product($0, $1)', lambda r, a, b: eqm(r, [[x * y for y in b] for x in a]))
        task('inner product of matrices %dx%d' % (m, n), S, [M(m, n), M(m, n)], 'inner_product($0, $1)', lambda r, a, b: [('sum of products', r == sm(x * y for p, q in zip(a, b) for x, y in zip(p, q)))])
        task('row-wise packing of %dx%d' % (m, n), V(m * n), [M(m, n)], 'matrix2vector($0)', lambda r, a: eqv(r, [x for q in a for x in q]))
        task('unpacking the packed %dx%d' % (m, n), M(m, n), [M(m, n)], '(vector2matrix<%d, %d>(matrix2vector($0)))' % (m, n), lambda r, a: eqm(r, a))
        task('matrix %dx%d compound assignment' % (m, n), M(m, n), [M(m, n), M(m, n), S], '[&]{ auto x = $0; x *= $2; x += $1; x -= $0; return x; }()', lambda r, a, b, s: eqm(r, [[a[i][j] * s + b[i][j] - a[i][j] for j in range(len(a[0]))] for i in range(len(a))]))
        for p in D: task('matrix %dx%d times %dx%d' % (m, p, p, n), M(m, n), [M(m, p), M(p, n)], '$0 * $1', lambda r, a, b: eqm(r, mul(a, b)))
for n in D:
    task('identity %d' % n, M(n, n), [], '(identity_matrix<%d, %d>())' % (n, n), lambda r, n=n: eqm(r, ident(n)))
    task('zero %d' % n, M(n, n), [], '(zero_matrix<%d, %d>())' % (n, n), lambda r: eqm(r, [[z3.RealVal(0)] * len(r)] * len(r)))
    task('trace %d' % n, S, [M(n, n)], 'trace($0)', lambda r, a: [('sum of the diagonal', r == sm(a[i][i] for i in range(len(a))))])
    task('diagonal of a matrix %d' % n, V(n), [M(n, n)], 'diagonal($0)', lambda r, a: eqv(r, [a[i][i] for i in range(len(a))]))
    task('diagonal matrix %d' % n, M(n, n), [V(n)], 'diagonal($0)', lambda r, v: eqm(r, [[v[i] if i == j else z3.RealVal(0) for j in range(len(v))] for i in range(len(v))]))
    task('determinant %d' % n, S, [M(n, n)], 'determinant($0)', lambda r, a: [('Leibniz formula', r == det(a))])
    task('inverse %d' % n, M(n, n), [M(n, n)], 'invert($0)', lambda r, a: eqm(mul(a, r), ident(len(a)), 'matrix times inverse') + eqm(mul(r, a), ident(len(a)), 'inverse times matrix'), pre=lambda a: det(a) != 0, ms=30000)
    task('inverse as pseudo-inverse %d' % n, M(n, n), [M(n, n)], 'pseudo_invert($0)', lambda r, a: eqm(mul(a, r), ident(len(a)), 'matrix times inverse'), pre=lambda a: det(a) != 0, ms=30000)
    task('deviator %d' % n, M(n, n), [M(n, n)], 'deviator($0)', lambda r, a, n=n: eqm(r, [[a[i][j] - (sm(a[k][k] for k in range(n)) * z3.Q(*(1.0 / n).as_integer_ratio()) if i == j else 0) for j in range(n)] for i in range(n)]))
    task('vector algebra %d' % n, V(n), [V(n), V(n), S], '($0 + $1) * $2 - (-$1) - $2 * $0', lambda r, a, b, s: eqv(r, [(x + y) * s + y - s * x for x, y in zip(a, b)]))
    task('vector over scalar %d' % n, V(n), [V(n), S], '$0 / $1', lambda r, a, s: eqv([x * s for x in r], a), pre=lambda a, s: s != 0)
    task('vector compound assignment %d' % n, V(n), [V(n), V(n), S], '[&]{ auto x = $0; x *= $2; x += $1; x -= $0; x /= $2; return x; }()', lambda r, a, b, s: eqv([x * s for x in r], [x * s + y - x for x, y in zip(a, b)]), pre=lambda a, b, s: s != 0)
    task('inner product %d' % n, S, [V(n), V(n)], '$0 * $1', lambda r, a, b: [('sum of products', r == dot(a, b))])
    task('norm %d' % n, S, [V(n)], 'norm($0)', lambda r, a: [('squared norm is the sum of squares', r * r == dot(a, a)), ('norm is not negative', r >= 0)])
    task('matrix norm %d' % n, S, [M(n, n)], 'norm($0)', lambda r, a: [('squared norm is the sum of squares', r * r == sm(x * x for q in a for x in q)), ('norm is not negative', r >= 0)])
    task('normalize %d' % n, V(n), [V(n)], 'normalize($0)', lambda r, a: [('unit length', dot(r, r) == 1)] + [('parallel %d,%d' % (i, j), r[i] * a[j] == r[j] * a[i]) for i in range(len(a)) for j in range(i)] + [('same direction', dot(r, a) > 0)], pre=lambda a: dot(a, a) > 0, ms=30000)
    task('project %d' % n, V(n), [V(n), V(n)], 'project($0, $1)', lambda r, a, b: eqv([x * dot(b, b) for x in r], [dot(a, b) * y for y in b]), pre=lambda a, b: dot(b, b) > 0, ms=30000)
    nc = n * (n + 1) // 2
    order = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]}[n]
    inria = {1: [(0, 0)], 2: [(0, 0), (0, 1), (1, 1)], 3: [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)]}[n]
    symm = lambda a: z3.And(*([z3.BoolVal(True)] + [a[i][j] == a[j][i] for i in range(len(a)) for j in range(i)]))
    for nm, f, b, o in (('', 'symm2vector', 'vector2symm', order), (' (INRIA order)', 'symm2vector_inria', 'vector2symm_inria', inria)):
        task('packing symmetric %d%s' % (n, nm), V(nc), [M(n, n)], '%s($0)' % f, lambda r, a, o=o: eqv(r, [a[i][j] for i, j in o]), pre=symm)
        task('unpacking symmetric %d%s' % (n, nm), M(n, n), [V(nc)], '%s($0)' % b, lambda r, v, o=o: [('entry of component %d' % k, z3.And(r[i][j] == v[k], r[j][i] == v[k])) for k, (i, j) in enumerate(o)])
        task('unpack after pack %d%s' % (n, nm), M(n, n), [M(n, n)], '%s(%s($0))' % (b, f), lambda r, a: eqm(r, a), pre=symm)
        task('pack after unpack %d%s' % (n, nm), V(nc), [V(nc)], '%s(%s($0))' % (f, b), lambda r, a: eqv(r, a))
for m, n in ((2, 1), (3, 1), (3, 2)):
    task('pseudo-inverse %dx%d' % (m, n), M(n, m), [M(m, n)], 'pseudo_invert($0)', lambda r, a: eqm(mul(r, a), ident(len(a[0])), 'left inverse'), pre=lambda a: det(mul(tp(a), a)) != 0, ms=60000)
    task('pseudo-inverse %dx%d' % (n, m), M(m, n), [M(n, m)], 'pseudo_invert($0)', lambda r, a: eqm(mul(a, r), ident(len(a)), 'right inverse'), pre=lambda a: det(mul(a, tp(a))) != 0, ms=60000)
task('cross product in the plane', S, [V(2), V(2)], 'cross($0, $1)', lambda r, a, b: [('signed area', r == a[0] * b[1] - a[1] * b[0])])
task('perpendicular vector', V(2), [V(2)], 'perp($0)', lambda r, a: [('orthogonal', dot(r, a) == 0), ('same length', dot(r, r) == dot(a, a)), ('counter-clockwise', a[0] * r[1] - a[1] * r[0] == dot(a, a))])
task('cross product', V(3), [V(3), V(3)], 'cross($0, $1)', lambda r, a, b: eqv(r, crs(a, b)) + [('orthogonal to both', z3.And(dot(r, a) == 0, dot(r, b) == 0)), ('Lagrange identity', dot(r, r) == dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b))])
task('cross-product matrix', V(3), [V(3), V(3)], 'cross($0) * $1', lambda r, a, b: eqv(r, crs(a, b)))
task('uncross after cross', V(3), [V(3)], 'uncross(cross($0))', lambda r, a: eqv(r, a))
task('cross after uncross', M(3, 3), [M(3, 3)], 'cross(uncross($0))', lambda r, a: eqm(r, a), pre=lambda a: z3.And(*[a[i][j] == -a[j][i] for i in range(3) for j in range(i + 1)]))
task('plane rotation', M(2, 2), [S], 'rotate($0)', lambda r, t: eqm(mul(tp(r), r), ident(2), 'orthogonal') + [('proper', det(r) == 1)])
task('rotation about an axis', M(3, 3), [S, V(3)], 'rotate($0, $1)', lambda r, t, v: [('the axis is fixed: component %d' % i, mv(r, v)[i] == v[i]) for i in range(3)], pre=lambda t, v: dot(v, v) == 1, ms=40000)
for n in (1, 2): task('orthonormal basis %d' % n, M(n, n), [V(n)], 'form_ortho_basis($0)', lambda r, v: eqm(mul(tp(r), r), ident(len(v)), 'orthonormal') + [('first vector is the given one', z3.And(*[r[i][0] == v[i] for i in range(len(v))]))], pre=lambda v: dot(v, v) == 1)
task('orthonormal basis 3', M(3, 3), [V(3)], 'form_ortho_basis($0)', lambda r, v: [('first vector is the given one', z3.And(*[r[i][0] == v[i] for i in range(3)]))] + eqm(mul(tp(r), r), ident(3), 'orthonormal'), pre=lambda v: dot(v, v) == 1, ms=60000)
for a, b in ((1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)):
    task('resize matrix %d to %d' % (a, b), M(b, b), [M(a, a)], '(resize<%d, %d>($0))' % (b, a), lambda r, x: eqm(r, [[x[i][j] if i < len(x) and j < len(x) else z3.RealVal(0) for j in range(len(r))] for i in range(len(r))]))
for n in (2, 3, 4, 9): pass
H = '#include <Omega_h_matrix.hpp>\n#include <Omega_h_array.hpp>\nnamespace Omega_h {\n' + '\n'.join(W) + '\n}\n'
for t in TASKS: t.extra = H
# ---- arrays of packed tensors
def arr(fn, dim, ins, outc, spec, sig=None, order='d'):
    """fn over arrays: spec(j, rd0, rd1...) gives component j of entry x"""
    def g(e):
        n = e.int('n', 0, (2**31 - 1) // 9)
        A = [e.array('in%d' % i, n * c, 8, 'f') for i, c in enumerate(ins)]; r = e.sret()
        args = {'d': A + [dim], 'D': [dim] + A}[order] if not isinstance(dim, tuple) else A + list(dim)
        e.call(fn, r, *args)
        L, rd = e.out(r, 8, 'f'); x = e.ivar('x', 0, n); e.inst(x)
        e.prove('size', L == n * outc)
        for j in range(outc): e.prove('component %d' % j, rd(outc * x + j) == spec(j, *[(lambda k, a=a, c=c: a(c * x + k)) for a, c in zip(A, ins)]))
    return g
AU = ('matrix', 'array', 'array_ops')
O = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]}
IN = {1: [(0, 0)], 2: [(0, 0), (0, 1), (1, 1)], 3: [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)]}
for n in D:
    nc = n * (n + 1) // 2
    TASKS.append(Task('symms_inria2osh %d' % n, arr('Omega_h::symms_inria2osh', n, [nc], nc, lambda j, a, n=n: a(IN[n].index(O[n][j])), order='D'), AU))
    TASKS.append(Task('symms_osh2inria %d' % n, arr('Omega_h::symms_osh2inria', n, [nc], nc, lambda j, a, n=n: a(O[n].index(IN[n][j])), order='D'), AU))
    TASKS.append(Task('matrices_to_symms %d' % n, arr('Omega_h::matrices_to_symms', n, [n * n], nc, lambda j, a, n=n: a(O[n][j][0] * n + O[n][j][1])), AU))
    TASKS.append(Task('matrices_times_vectors %d' % n, arr('Omega_h::matrices_times_vectors', n, [n * n, n], n, lambda j, a, b, n=n: sm(a(j * n + k) * b(k) for k in range(n))), AU))
    TASKS.append(Task('matrices_times_matrices %d' % n, arr('Omega_h::matrices_times_matrices', n, [n * n, n * n], n * n, lambda j, a, b, n=n: sm(a(j // n * n + k) * b(k * n + j % n) for k in range(n))), AU))
for a, b in ((2, 3), (3, 2), (3, 3)):
    TASKS.append(Task('resize_symms %d to %d' % (a, b), arr('Omega_h::resize_symms', (a, b), [a * (a + 1) // 2], b * (b + 1) // 2, lambda j, f, a=a, b=b: f(O[a].index(O[b][j])) if O[b][j] in O[a] else z3.RealVal(0)), AU))
PROP = Prop('P19', TASKS, native=[Native('linalg')], assumptions=['real-number arithmetic: floating-point rounding is not modelled', 'sqrt, sin, cos: square-root and Pythagorean identities'])
