from prop import *
from native import Native
import z3, re
from p05 import BV, asbv
H = '''#include "Omega_h_base64.cpp"
namespace Omega_h { namespace base64 {
void w_e3(unsigned char const* in, char* out) { encode_3(in, out); }
void w_e2(unsigned char const* in, char* out) { encode_2(in, out); }
void w_e1(unsigned char const* in, char* out) { encode_1(in, out); }
void w_d(char const* in, unsigned char* out, std::size_t n) { decode_4(in, out, n); }
}}
'''
AL = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
N = 'Omega_h::base64::'
def buf(e, name, n, vals=None):
    from rt import RecC
    p = e.cx.new_obj(e.st, name, n)
    if vals is not None: e.st.objs[p.obj] = RecC({i: (1, v, 'i') for i, v in enumerate(vals)})
    return p
def rd(e, p, i):
    from rt import int_t
    return asbv(e.cx.load(e.cx.padd(p, i), int_t(8), e.st), 8)
def alpha(six):
    r = z3.BitVecVal(AL[63], 8)
    for k in range(63): r = z3.If(six == k, z3.BitVecVal(AL[k], 8), r)
    return r
def unit(n):
    """encoding n bytes (1,2,3): standard alphabet and padding; decoding gives the bytes back"""
    def g(e):
        b = [BV('b%d' % i, 8) for i in range(n)]
        src = buf(e, 'in', n, b); txt = buf(e, 'text', 4); dst = buf(e, 'out', n)
        e.call(N + 'w_e%d' % n, src, txt)
        bits = z3.Concat(*(b + [z3.BitVecVal(0, 8)] * (3 - n)))
        for k in range(4):
            want = alpha(z3.Extract(23 - 6 * k, 18 - 6 * k, bits)) if k <= n else z3.BitVecVal(ord('='), 8)
            e.prove('character %d is the standard one' % k, rd(e, txt, k) == want)
        e.call(N + 'w_d', txt, dst, n)
        for k in range(n): e.prove('byte %d is restored' % k, rd(e, dst, k) == b[k])
        for k in range(n): e.prove('input byte %d is untouched' % k, rd(e, src, k) == b[k])
    return g
def decode_any(n):
    """decode_4 on any text: characters outside the alphabet never get past the check"""
    def g(e):
        c = [BV('c%d' % i, 8) for i in range(4)]
        txt = buf(e, 'text', 4, c); dst = buf(e, 'out', n)
        e.cx.fail_obl = False
        e.call(N + 'w_d', txt, dst, n)
        for k in range(4): e.prove('character %d accepted only if in the alphabet or padding' % k, z3.Or(*[c[k] == a for a in AL], c[k] == ord('=')))
        six = lambda ch: sum([z3.If(ch == a, z3.BitVecVal(i, 6), z3.BitVecVal(0, 6)) for i, a in enumerate(AL)], z3.BitVecVal(0, 6))
        bits = z3.Concat(*[six(x) for x in c])
        for k in range(n): e.prove('byte %d is the concatenated sextets' % k, rd(e, dst, k) == z3.Extract(23 - 8 * k, 16 - 8 * k, bits))
    return g
def size_fn(e):
    n = e.int('n', 0, 2**31); u = e.int('u', 0); v = e.int('v', 0, 2); e.assume(n == 3 * u + v)
    s = e.cx.zi(e.call(N + 'encoded_size', n))
    e.prove('four characters per started group of three bytes', s == z3.If(v == 0, 4 * u, 4 * u + 4))
# ---- whole strings: encode_3 / decode_4 replaced by their contracts
I = z3.IntSort()
ENC = {n: [z3.Function('enc%d_%d' % (n, k), *([I] * n), I) for k in range(4)] for n in (1, 2, 3)}
DEC = [z3.Function('dec_%d' % k, I, I, I, I, I) for k in range(3)]
def str_contracts():
    from rt import int_t, ptr_t, RecC, ArrC
    t8 = int_t(8)
    def enc(n):
        def h(cx, nm, a, st, _):
            xs = [cx.zi(cx.load(cx.padd(a[0], i), t8, st)) % 256 for i in range(n)]
            for k in range(4):
                v = ENC[n][k](*xs); cx.fact(z3.And(v >= -128, v <= 127))
                cx.store(cx.padd(a[1], k), v, t8, st)
            return st, None
        return h
    def dec(cx, nm, a, st, _):
        xs = [cx.zi(cx.load(cx.padd(a[0], i), t8, st)) for i in range(4)]
        n = a[2]
        if not isinstance(n, int): n = cx.conc(n)
        for k in range(n): cx.store(cx.padd(a[1], k), DEC[k](*xs), t8, st)
        for k in range(3): cx.fact(z3.And(DEC[k](*xs) >= -128, DEC[k](*xs) <= 127))
        return st, None
    def ctor(cx, nm, a, st, _):
        from rt import alloc_cells
        arr, hdr = alloc_cells(cx, st, 'string', a[1])
        cx.store(a[0], arr, ptr_t(), st); cx.store(cx.padd(a[0], 8), a[1], int_t(64), st)
        return st, None
    def index(cx, nm, a, st, _):
        p = cx.load(a[0], ptr_t(), st)
        return st, cx.padd(p, 0, [(1, a[1])])
    return [(re.compile(r'base64::\(anonymous namespace\)::encode_3'), enc(3)), (re.compile(r'base64::\(anonymous namespace\)::encode_2'), enc(2)), (re.compile(r'base64::\(anonymous namespace\)::encode_1'), enc(1)),
        (re.compile(r'base64::\(anonymous namespace\)::decode_4'), dec),
        (re.compile(r'basic_string<.*>::basic_string(<.*>)?\(unsigned long, char'), ctor),
        (re.compile(r'basic_string<.*>::operator\[\]\(unsigned long\)'), index)]
def encode(rem):
    def g(e):
        u = e.int('groups', 0, 2**30); n = 3 * u + rem
        from rt import ArrC, ABase, alloc_cells
        d = e.decl('data', n, 1)
        src, _ = alloc_cells(e.cx, e.st, 'data', n, content=ArrC(1, 'i', ABase(d)))
        ret = e.sret(32)
        e.call(N + 'encode[abi:cxx11]', ret, src, n)
        L, rd = strout(e, ret)
        e.prove('announced length', L == (4 * u if rem == 0 else 4 * u + 4))
        x = e.ivar('x', 0, u); e.inst(x)
        b = lambda i: d(i) % 256
        for k in range(4): e.prove('full group: character %d' % k, rd(4 * x + k) == ENC[3][k](b(3 * x), b(3 * x + 1), b(3 * x + 2)))
        if rem:
            for k in range(4): e.prove('last group: character %d' % k, rd(4 * u + k) == ENC[rem][k](*[b(3 * u + i) for i in range(rem)]))
    return g
def strout(e, h):
    from rt import ptr_t, int_t
    arr = e.cx.load(h, ptr_t(), e.st)
    c = e.st.objs[arr.obj]
    c = e.cx.typed(arr.obj, c, int_t(8), e.st)
    return e.cx.meta[arr.obj].nbytes, lambda i: e.cx.zi(c.c.read(e.cx.norm(i), e.cx))
def decode(rem):
    def g(e):
        from rt import ArrC, ABase, alloc_cells, ptr_t, int_t, RecC
        u = e.int('groups', 0, 2**28); n = 3 * u + rem
        m = 4 * u if rem == 0 else 4 * u + 4
        d = e.decl('text', m, 1)
        src, _ = alloc_cells(e.cx, e.st, 'text', m, content=ArrC(1, 'i', ABase(d)))
        s = e.cx.new_obj(e.st, 'string', 32); e.st.objs[s.obj] = RecC({0: (8, src, 'p'), 8: (8, m, 'i')})
        dst, _ = alloc_cells(e.cx, e.st, 'bytes', n)
        e.call(N + 'decode', s, dst, n)
        from rt import int_t
        c = e.cx.typed(dst.obj, e.st.objs[dst.obj], int_t(8), e.st)
        rd = lambda i: e.cx.zi(c.c.read(e.cx.norm(i), e.cx))
        x = e.ivar('x', 0, u); e.inst(x)
        T = lambda i: d(i)
        for k in range(3): e.prove('full group: byte %d' % k, rd(3 * x + k) == DEC[k](*[T(4 * x + i) for i in range(4)]))
        for k in range(rem): e.prove('last group: byte %d' % k, rd(3 * u + k) == DEC[k](*[T(4 * u + i) for i in range(4)]))
    return g
TASKS = [Task('one group of %d bytes' % n, unit(n), extra=H, mode='bv') for n in (1, 2, 3)] + [Task('decoding any four characters to %d bytes' % n, decode_any(n), extra=H, mode='bv') for n in (1, 2, 3)]
TASKS += [Task('encoded_size', size_fn, extra=H)]
for r in (0, 1, 2): TASKS += [Task('encode, %d left over' % r, encode(r), extra=H, contracts=str_contracts), Task('decode, %d left over' % r, decode(r), extra=H, contracts=str_contracts)]
PROP = Prop('P11', TASKS, native=[Native('base64')], trusted=['std::string: construction with a length, operator[] (contracts in props/p11.py)'])
