from prop import *
from native import Native
import z3, re
from p05 import BV, asbv
H = '''#include <Omega_h_array.hpp>
#include <Omega_h_random_inline.hpp>
namespace Omega_h {
void w_philox(std::uint64_t a, std::uint64_t b, std::uint64_t k, std::uint64_t* out) { Few<std::uint64_t, 2> c; c[0] = a; c[1] = b; auto r = run_philox_cbrng(c, k); out[0] = r[0]; out[1] = r[1]; }
double w_dev(std::uint64_t x) { return unit_uniform_deviate_from_uint64(x); }
void w_draw(I64 seed, I64 key, I64 ctr, double* out) { UnitUniformDistribution d(seed, key, ctr); out[0] = d(); out[1] = d(); out[2] = d(); out[3] = d(); }
double w_first(I64 seed, I64 key, I64 ctr) { UnitUniformDistribution d(seed, key, ctr); return d(); }
}
'''
def bv(v, b=32): return z3.BitVecVal(v, b)
def philox(c, k, rounds=10):
    """Philox-4x32 as published by Salmon, Moraes, Dror and Shaw (SC11), figure 3 and table 2"""
    M0, M1, W0, W1 = 0xD2511F53, 0xCD9E8D57, 0x9E3779B9, 0xBB67AE85
    for i in range(rounds):
        if i: k = [k[0] + bv(W0), k[1] + bv(W1)]
        p0 = z3.ZeroExt(32, c[0]) * bv(M0, 64); p1 = z3.ZeroExt(32, c[2]) * bv(M1, 64)
        hi = lambda p: z3.Extract(63, 32, p)
        lo = lambda p: z3.Extract(31, 0, p)
        c = [hi(p1) ^ c[1] ^ k[0], lo(p1), hi(p0) ^ c[3] ^ k[1], lo(p0)]
    return c
def kat():
    """the published known-answer vectors pin the specification above"""
    V = [([0] * 4, [0] * 2, [0x6627e8d5, 0xe169c58d, 0xbc57ac4c, 0x9b00dbd8]), ([0xffffffff] * 4, [0xffffffff] * 2, [0x408f276d, 0x41c83b0e, 0xa20bc7c6, 0x6d5451fd]),
         ([0x243f6a88, 0x85a308d3, 0x13198a2e, 0x03707344], [0xa4093822, 0x299f31d0], [0xd16cfe09, 0x94fdcceb, 0x5001e420, 0x24126ea1])]
    return all([z3.simplify(x).as_long() for x in philox([bv(x) for x in c], [bv(x) for x in k])] == r for c, k, r in V)
def mem(e, n, es=8):
    return e.cx.new_obj(e.st, 'out', n * es)
def block(e):
    a, b, k = BV('ctr0', 64), BV('ctr1', 64), BV('key', 64)
    out = mem(e, 2)
    e.call('Omega_h::w_philox', a, b, k, out)
    from rt import int_t
    r = [e.cx.load(e.cx.padd(out, 8 * i), int_t(64), e.st) for i in (0, 1)]
    h = lambda x, i: z3.Extract(32 * i + 31, 32 * i, x)
    w = philox([h(a, 0), h(a, 1), h(b, 0), h(b, 1)], [h(k, 0), h(k, 1)])
    e.prove('specification matches the published known-answer vectors', z3.BoolVal(kat()))
    for i in range(4): e.prove('word %d is the published ten-round block function' % i, h(asbv(r[i // 2], 64), i % 2) == w[i])
def deviate(e):
    x = BV('x', 64)
    v = e.call('Omega_h::w_dev', x)
    v = e.cx.zf(v)
    one = z3.FPVal(1.0, z3.Float64()); zero = z3.FPVal(0.0, z3.Float64())
    e.prove('not below zero', z3.fpGEQ(v, zero)); e.prove('not above one', z3.fpLEQ(v, one))
F = {}
def draw_contracts():
    B = z3.BitVecSort(64)
    F['p'] = [z3.Function('philox_word%d' % i, B, B, B, B) for i in (0, 1)]; F['dev'] = z3.Function('dev', B, z3.RealSort())
    def ph_ptr(cx, nm, a, st, I):
        from rt import int_t, Ptr
        if isinstance(a[-2], Ptr) and len(a) <= 3: c = [asbv(cx.load(cx.padd(a[-2], 8 * i), int_t(64), st), 64) for i in (0, 1)]
        else: c = [asbv(a[-3], 64), asbv(a[-2], 64)]
        r = [F['p'][i](c[0], c[1], asbv(a[-1], 64)) for i in (0, 1)]
        if isinstance(a[0], Ptr) and a[0] is not a[-2]:
            for i in (0, 1): cx.store(cx.padd(a[0], 8 * i), r[i], int_t(64), st)
            return st, None
        from rt import Aggr
        return st, Aggr(r)
    def dv(cx, nm, a, st, I): return st, F['dev'](asbv(a[0], 64))
    return [(re.compile(r'^Omega_h::run_philox_cbrng'), ph_ptr), (re.compile(r'^Omega_h::unit_uniform_deviate_from_uint64'), dv)]
def draws(e):
    s, k, c = BV('seed', 64), BV('key', 64), BV('counter', 64)
    out = mem(e, 4)
    e.call('Omega_h::w_draw', s, k, c, out)
    from rt import dbl_t
    p, dev = F['p'], F['dev']
    for i in range(4):
        ci = c + i
        w = z3.If(z3.Extract(0, 0, ci) == 0, p[0](z3.LShR(ci, 1), s, k), p[1](z3.LShR(ci, 1), s, k))
        e.prove('draw %d is the word its counter selects' % i, e.cx.load(e.cx.padd(out, 8 * i), dbl_t(), e.st) == dev(w))
    a, b = BV('ca', 64), BV('cb', 64)
    e.prove('different counters select different words of different blocks', z3.Implies(a != b, z3.Or(z3.LShR(a, 1) != z3.LShR(b, 1), z3.Extract(0, 0, a) != z3.Extract(0, 0, b))))
def array_contracts():
    I = z3.IntSort(); F['first'] = z3.Function('first_draw', I, I, I, z3.RealSort())
    def ctor(cx, nm, a, st, _):
        from rt import RecC
        st.objs[a[0].obj] = RecC({0: (8, a[1], 'i'), 8: (8, a[2], 'i'), 16: (8, a[3], 'i')}); return st, None
    def op(cx, nm, a, st, _):
        from rt import int_t
        f = [cx.zi(cx.load(cx.padd(a[0], 8 * i), int_t(64), st)) for i in range(3)]
        return st, F['first'](*f)
    return [(re.compile(r'^Omega_h::UnitUniformDistribution::UnitUniformDistribution\(long'), ctor), (re.compile(r'^Omega_h::UnitUniformDistribution::operator\(\)'), op)]
def array(e):
    n = e.int('n', 0, 2**31 - 1); g = e.array('globals', n, 8); s = e.int('seed', -2**63, 2**63 - 1); c = e.int('counter', -2**63, 2**63 - 1); r = e.sret()
    e.call('Omega_h::unit_uniform_random_reals_from_globals', r, g, s, c)
    L, rd = e.out(r, 8, 'f'); x = e.ivar('x', 0, n)
    e.prove('size', L == n)
    e.prove('each value depends only on its global number, the seed and the counter', rd(x) == F['first'](s, g(x), c))
TASKS = [Task('block function', block, extra=H, mode='bv', ms=60000), Task('uniform deviate', deviate, extra=H, mode='bv', fp='fp', ms=100000), Task('consecutive draws', draws, extra=H, mode='bv', contracts=draw_contracts), Task('unit_uniform_random_reals_from_globals', array, ('random', 'array'), contracts=array_contracts)]
PROP = Prop('P23', TASKS, native=[Native('random')])
