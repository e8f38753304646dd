from prop import *
from native import Native
import z3
import re
U = ('linpart', 'array', 'array_ops')
I64MAX = 2**63 - 1
def setup(e):
    tot = e.int('total', 0, I64MAX); n = e.int('nranks', 1, 2**31 - 1)
    q = z3.Int('q'); r = z3.Int('r'); e.cx.keep += [q, r]
    return tot, n
def parts(e, tot, n):
    q, r = tot / n, tot % n
    return q, r
def size(q, r, k): return z3.If(k < r, q + 1, q)
def start(q, r, k): return z3.If(k < r, k * (q + 1), r * (q + 1) + (k - r) * q)
def part_sizes(e):
    tot, n = setup(e); k = e.int('rank', 0); e.assume(k < n)
    q, r = parts(e, tot, n); e.assume(q + 1 <= 2**31 - 1)
    s = e.call('Omega_h::linear_partition_size', tot, n, k, params='(long, int, int)')
    s = e.cx.zi(s)
    e.prove('size of a part', s == size(q, r, k))
    e.prove('largest part minus smallest part is at most one', z3.And(q <= s, s <= q + 1))
def tiling(e):
    """lemma: the parts of these sizes, laid end to end, tile [0,total)"""
    tot, n = setup(e); k = e.int('rank', 0); e.assume(k < n)
    q, r = z3.Ints('q r'); e.assume(z3.And(q >= 0, r >= 0, r < n, tot == n * q + r))
    e.prove('parts start at zero', start(q, r, z3.IntVal(0)) == 0)
    e.prove('each part starts where the previous one ends', start(q, r, k + 1) == start(q, r, k) + size(q, r, k))
    e.prove('the last part ends at the total', start(q, r, n) == tot)
def owners(e):
    tot, n = setup(e)
    m = e.int('m', 0, 2**31 - 1)
    g = e.array('globals', m, 8, rng=(0, tot)); ret = e.sret(32)
    x = e.ivar('x', 0, m)
    q, r = z3.Ints('q r'); Q, R = tot / n, tot % n
    e.assume(z3.And(q == Q, r == R, tot == n * q + r, r >= 0, r < n, q >= 0))
    e.assume(q + 1 <= 2**31 - 1)
    e.call('Omega_h::globals_to_linear_owners', ret, g, tot, n, params='long, int)')
    L1, rk = e.out(ret, 4); L2, ix = e.out(ret, 4, off=16)
    e.prove('one rank per number', L1 == m); e.prove('one index per number', L2 == m)
    w = z3.Int('w'); u = z3.Int('u'); v = z3.Int('v'); d = z3.Int('d')
    # case 1: g = u*(q+1)+v below the split, case 2: g = split + u*q + v
    G = g(x)
    a = z3.And(u >= 0, u < r, v >= 0, v <= q, G == u * (q + 1) + v)
    b = z3.And(u >= 0, u < n - r, v >= 0, v < q, G == r * (q + 1) + u * q + v)
    e.prove('numbers below the split: rank', z3.Implies(a, rk(x) == u)); e.prove('numbers below the split: index', z3.Implies(a, ix(x) == v))
    e.prove('numbers above the split: rank', z3.Implies(b, rk(x) == u + r)); e.prove('numbers above the split: index', z3.Implies(b, ix(x) == v))
def cases(e):
    """lemma: every number in range has exactly one of the two forms"""
    tot, n = setup(e); g = e.int('g', 0, I64MAX); e.assume(g < tot)
    q, r = z3.Ints('q r'); e.assume(z3.And(q >= 0, r >= 0, r < n, tot == n * q + r))
    u1, v1, u2, v2 = z3.Ints('u1 v1 u2 v2'); s = r * (q + 1)
    e.assume(z3.And(g == u1 * (q + 1) + v1, 0 <= v1, v1 <= q))             # Euclidean division by q+1
    e.assume(z3.Implies(q > 0, z3.And(g - s == u2 * q + v2, 0 <= v2, v2 < q)))
    e.prove('below the split the rank is below the remainder', z3.Implies(g < s, z3.And(u1 >= 0, u1 < r)))
    e.prove('above the split the part is not empty', z3.Implies(g >= s, q > 0))
    e.prove('above the split the rank is below the rank count', z3.Implies(g >= s, z3.And(u2 >= 0, u2 < n - r)))
    e.prove('index is smaller than the size of its part', z3.If(g < s, v1 < size(q, r, u1), v2 < size(q, r, u2 + r)))
    e.prove('rank and index give back the number', z3.If(g < s, start(q, r, u1) + v1 == g, start(q, r, u2 + r) + v2 == g))
    k, l, k2, l2 = z3.Ints('k l k2 l2')
    e.prove('two parts share no number', z3.Implies(z3.And(0 <= k, k < k2, k2 <= n), start(q, r, k) + size(q, r, k) <= start(q, r, k2)))
TASKS = [Task('linear_partition_size', part_sizes, U), Task('parts tile the numbering (lemma)', tiling, U), Task('globals_to_linear_owners', owners, U, ms=20000), Task('owner and index are determined (lemma)', cases, U, ms=20000)]
def total(e):
    m = e.int('m', 0, 2**31 - 1); g = e.array('globals', m, 8)
    comm = e.null_array()
    t = e.call('Omega_h::find_total_globals', comm, g)
    M = e.cx.maxres
    e.prove('total is one more than the largest number on any rank, zero when there is none', e.cx.zi(t) == z3.If(M < 0, 0, M + 1))
def total_contracts():
    def gm(cx, nm, a, st, I):
        cx.maxres = z3.Int('max_over_ranks'); cx.fact(z3.And(cx.maxres < 2**63 - 1, cx.maxres >= -2**63), guard=False)
        return st, cx.maxres
    return [(re.compile(r'Omega_h::get_max<long>\(std::shared_ptr'), gm), (re.compile(r'std::(__)?shared_ptr<Omega_h::Comm'), lambda cx, nm, a, st, I: (st, a[0] if a else None)), (re.compile(r'Omega_h::Read<long>::(Read|~Read)\('), 0)][:2]
TASKS.append(Task('find_total_globals', total, U, contracts=total_contracts))
PROP = Prop('P09', TASKS, native=[Native('linpart'), Native('linpart', np=3)], assumptions=['each part holds fewer than 2^31 numbers (local indices are 32 bits)', 'globals are in [0,total)'])
