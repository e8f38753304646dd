from prop import *
from native import Native
import z3, re
from p05 import BV, asbv
H = '''#include <Omega_h_int128.hpp>
namespace Omega_h {
void w_add(Int128* a, Int128* b, Int128* r) { *r = *a + *b; }
void w_sub(Int128* a, Int128* b, Int128* r) { *r = *a - *b; }
void w_neg(Int128* a, Int128* r) { *r = -*a; }
void w_shr(Int128* a, int n, Int128* r) { *r = *a >> n; }
bool w_eq(Int128* a, Int128* b) { return *a == *b; }
bool w_lt(Int128* a, Int128* b) { return *a < *b; }
void w_int(std::int64_t v, Int128* r) { *r = Int128(v); }
void w_from(double v, double u, Int128* r) { *r = Int128::from_double(v, u); }
}
'''
N = 'Omega_h::w_'
def val(e, name):
    from rt import RecC
    h, l = BV(name + '_high', 64), BV(name + '_low', 64)
    p = e.cx.new_obj(e.st, name, 16); e.st.objs[p.obj] = RecC({0: (8, h, 'i'), 8: (8, l, 'i')})
    return p, z3.Concat(h, l)
def res(e): return e.cx.new_obj(e.st, 'result', 16)
def get(e, p):
    from rt import int_t
    return z3.Concat(*[asbv(e.cx.load(e.cx.padd(p, 8 * i), int_t(64), e.st), 64) for i in (0, 1)])
def binop(w, f):
    def g(e):
        (pa, a), (pb, b) = val(e, 'a'), val(e, 'b'); r = res(e)
        e.call(N + w, pa, pb, r); e.prove('exact modulo 2^128', get(e, r) == f(a, b))
    return g
def neg(e):
    pa, a = val(e, 'a'); r = res(e); e.call(N + 'neg', pa, r); e.prove('exact modulo 2^128', get(e, r) == -a)
def shr(e):
    pa, a = val(e, 'a'); r = res(e); n = BV('n', 32); e.assume(z3.And(n >= 1, n <= 63))
    e.call(N + 'shr', pa, n, r); e.prove('arithmetic shift (floor division by 2^n)', get(e, r) == (a >> z3.ZeroExt(96, n)))
def cmp(w, f):
    def g(e):
        (pa, a), (pb, b) = val(e, 'a'), val(e, 'b')
        v = asbv(e.call(N + w, pa, pb), 1); e.prove('compares as signed 128-bit integers', (v == 1) == f(a, b))
    return g
def ctor(e):
    v = BV('v', 64); r = res(e); e.call(N + 'int', v, r); e.prove('sign extension', get(e, r) == z3.SignExt(64, v))
def from_double(e):
    """value = m * unit for an integer m: exactly m is kept (reals; unit is a power of two so the division is exact)"""
    m = e.int('m', -2**63, 2**63 - 1); u = e.real('unit'); e.assume(u > 0)
    r = e.cx.new_obj(e.st, 'result', 16)
    x = e.real('x'); e.assume(x == z3.ToReal(m) * u); e.assume(x / u == z3.ToReal(m))
    e.call(N + 'from', x, u, r)
    from rt import int_t
    h, l = [e.cx.zi(e.cx.load(e.cx.padd(r, 8 * i), int_t(64), e.st)) for i in (0, 1)]
    e.prove('high word is the sign', h == z3.If(m < 0, -1, 0))
    e.prove('low word is the integer modulo 2^64', l % 2**64 == m % 2**64)
def algebra(e):
    """lemma: exact sums modulo 2^128 do not depend on order or grouping"""
    a, b, c = [z3.BitVec(x, 128) for x in 'abc']
    e.prove('commutative', a + b == b + a); e.prove('associative', (a + b) + c == a + (b + c)); e.prove('left-commutative (adjacent summands can be exchanged)', a + (b + c) == b + (a + c))
I = z3.IntSort()
FD = {}
def dbl_contracts():
    # value of a 128-bit integer: opaque mathematical integer, words are functions of it
    R = z3.RealSort()
    FD['fix'] = z3.Function('fixpoint', R, R, I)          # from_double as an integer
    FD['hi'] = z3.Function('high_word', I, I); FD['lo'] = z3.Function('low_word', I, I)
    FD['val'] = z3.Function('value_of', I, I, I)
    def pack(cx, v, I_, a):
        return Aggr_([FD['hi'](v), FD['lo'](v)])
    from rt import Aggr
    Aggr_ = Aggr
    def fromd(cx, nm, a, st, I_):
        return st, pack(cx, FD['fix'](cx.zf(a[0]), cx.zf(a[1])), I_, a)
    def plus(cx, nm, a, st, I_):
        x, y = [FD['val'](cx.zi(a[i]), cx.zi(a[i + 1])) for i in (0, 2)]
        return st, pack(cx, x + y, I_, a)
    return [(re.compile(r'^Omega_h::Int128::from_double'), fromd), (re.compile(r'^Omega_h::operator\+\(Omega_h::Int128'), plus)]
def total(e):
    n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 8, 'f'); u = e.real('unit')
    x = z3.Int('x!'); e.assume(z3.ForAll([x], FD['val'](FD['hi'](x), FD['lo'](x)) == x, patterns=[FD['hi'](x)]))
    for f in (FD['hi'], FD['lo']): e.cx.decl_rng[f.name()] = (-2**63, 2**64 - 1)
    r = e.call('Omega_h::int128_sum', a, u)
    S = z3.Function('S', I, I); x = z3.Int('x!')      # mathematical sum of the first k fixed-point values
    hi, lo, fix = FD['hi'], FD['lo'], FD['fix']
    e.assume(z3.And(hi(0) == 0, lo(0) == 0))          # Int128(0)
    e.assume(S(0) == 0); e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), S(x + 1) == S(x) + fix(a(x), u)), patterns=[z3.MultiPattern(S(x), a(x))]))
    fs = [f for f in e.cx.folds]
    inv = lambda k: z3.And(*[z3.substitute(f.F, (f.k, k)) == w(S(k)) for f, w in zip(fs, (hi, lo))])
    k = e.ivar('k', 0, n)
    e.prove('two accumulators, the words of one 128-bit sum', z3.BoolVal(len(fs) == 2))
    e.prove('the sum holds before the first value', inv(z3.IntVal(0)))
    e.prove('the sum is kept by every value', z3.Implies(inv(k), inv(k + 1)))
    e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= n), inv(x)), patterns=[S(x)]))
    e.prove('high word of the exact sum', e.cx.zi(r.v[0]) == hi(S(n))); e.prove('low word of the exact sum', e.cx.zi(r.v[1]) == lo(S(n)))
def ext_contracts():
    R = z3.RealSort()
    FD['ex'] = z3.Function('exponent_of', R, I)
    def frexp(cx, nm, a, st, _):
        from rt import int_t
        v = FD['ex'](cx.zf(a[0])); cx.fact(z3.And(v >= -1073, v <= 1024))
        cx.store(a[1], v, int_t(32), st); return st, cx.fresh('mantissa', R)
    return [(re.compile(r'^(std::)?frexp'), frexp)]
def maxexp(e):
    n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 8, 'f')
    r = e.cx.zi(e.call('Omega_h::max_exponent', a)); MIN = -2**31
    t = lambda x: z3.If(a(x) == 0, MIN, FD['ex'](a(x)))
    e.assume(z3.ForAll([z3.Real('y!')], z3.And(FD['ex'](z3.Real('y!')) >= -1073, FD['ex'](z3.Real('y!')) <= 1024), patterns=[FD['ex'](z3.Real('y!'))]))
    F = e.foldF(0)
    x = z3.Int('x!!'); W = z3.Function('W', I, I)     # ghost: where the maximum was seen
    e.assume(W(0) == -1); e.assume(z3.ForAll([x], W(x + 1) == z3.If(F(x + 1) == F(x), W(x), x), patterns=[W(x + 1)]))
    e.induct('bounds every exponent', n, lambda k: z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < k), F(k) >= t(x)), patterns=[a(x)]))
    e.induct('is attained', n, lambda k: z3.And(z3.If(W(k) == -1, F(k) == MIN, z3.And(0 <= W(k), W(k) < k, F(k) == t(W(k))))))
    q = e.ivar('q', 0, n)
    e.prove('not below any exponent', r >= t(q))
    e.prove('is the exponent of some value, or the smallest integer', z3.Or(r == MIN, z3.And(0 <= W(n), W(n) < n, r == t(W(n)))))
def to_double(e):
    from rt import RecC
    m = e.int('m', -2**63 + 1, 2**63 - 1); u = e.real('unit')
    p = e.cx.new_obj(e.st, 'this', 16)
    e.st.objs[p.obj] = RecC({0: (8, z3.If(m < 0, z3.IntVal(-1), z3.IntVal(0)), 'i'), 8: (8, m, 'i')})
    v = e.call('Omega_h::Int128::to_double', p, u)
    e.prove('value times unit', e.cx.zf(v) == z3.ToReal(m) * u)
def sum_contracts():
    R = z3.RealSort(); FD['sum'] = [z3.Function('sum_high', R, I), z3.Function('sum_low', R, I)]; FD['td'] = z3.Function('to_double', I, I, R, R); FD['exp2'] = z3.Function('exp2', R, R)
    from rt import Aggr, int_t
    def me(cx, nm, a, st, _):
        cx.E = z3.Int('largest_exponent'); cx.fact(z3.And(cx.E >= -2**31, cx.E <= 1024), guard=False); return st, cx.E
    def su(cx, nm, a, st, _): return st, Aggr([f(cx.zf(a[-1])) for f in FD['sum']])
    def td(cx, nm, a, st, _):
        h, l = [cx.zi(cx.load(cx.padd(a[0], 8 * i), int_t(64), st)) for i in (0, 1)]
        return st, FD['td'](h, l, cx.zf(a[1]))
    def ex(cx, nm, a, st, _): cx.exp_arg = cx.zf(a[0]); return st, FD['exp2'](cx.exp_arg)
    return [(re.compile(r'^Omega_h::max_exponent'), me), (re.compile(r'^Omega_h::int128_sum'), su), (re.compile(r'^Omega_h::Int128::to_double'), td), (re.compile(r'^(std::)?exp2'), ex)]
def repro(e):
    n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 8, 'f')
    v = e.cx.zf(e.call('Omega_h::repro_sum', a, params='(Omega_h::Read<double>)'))
    E = e.cx.E; u = FD['exp2'](e.cx.exp_arg); d = z3.ToReal(E) - e.cx.exp_arg
    e.prove('unit follows from the largest exponent alone: values fit 63 bits and keep at least 52', z3.And(d >= 52, d <= 62))
    q = z3.Int('E2'); e.prove('the shift is a constant', z3.ToReal(q) - z3.substitute(e.cx.exp_arg, (E, q)) == d)
    e.prove('sum is a function of the exact fixed-point sum and the largest exponent', v == z3.If(z3.Or(n == 0, E == -2**31), 0, FD['td'](FD['sum'][0](u), FD['sum'][1](u), u)))
TASKS = [Task('Int128 +', binop('add', lambda a, b: a + b), extra=H, mode='bv'), Task('Int128 -', binop('sub', lambda a, b: a - b), extra=H, mode='bv'), Task('Int128 unary -', neg, extra=H, mode='bv'), Task('Int128 >>', shr, extra=H, mode='bv'),
    Task('Int128 ==', cmp('eq', lambda a, b: a == b), extra=H, mode='bv'), Task('Int128 <', cmp('lt', lambda a, b: a < b), extra=H, mode='bv'), Task('Int128(int64)', ctor, extra=H, mode='bv'), Task('Int128::from_double', from_double, extra=H), Task('sums are independent of order (lemma)', algebra, extra=H, mode='bv')]
TASKS += [Task('int128_sum', total, ('array_ops', 'array'), contracts=dbl_contracts)]
TASKS += [Task('max_exponent', maxexp, ('array_ops', 'array'), contracts=ext_contracts), Task('Int128::to_double', to_double, ('int128',)), Task('repro_sum', repro, ('array_ops', 'array'), contracts=sum_contracts)]
PROP = Prop('P08', TASKS, native=[Native('repro'), Native('repro', np=4)])
