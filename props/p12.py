"""Binary streams (Omega_h_file.cpp).  A stream is the sequence of pieces handed to
std::ostream::write; std::istream::read takes them back in order, and must ask for
exactly the number of bytes of each piece (byte-exact sequential streams)."""
from prop import *
from stdc import *
from native import Native
import z3
from p05 import BV, asbv
from p25 import Log, hobj
from rt import R, dem, Unsupported, int_t, ptr_t
U = ('file', 'array', 'array_ops', 'shared_alloc', 'for')
CT = {'signed char': 1, 'int': 4, 'long': 8, 'double': 8}
TASKS = []
def T(name, f, **kw): TASKS.append(Task(name, f, U, **kw))
def B(**kw): return dict(mode='bv', fp='bits', **kw)
def cell(e, name, n, v):
    p = e.cx.new_obj(e.st, name, n); e.st.objs[p.obj] = RecC({0: (n, v, 'i')}); return p
def bytes_of(v): return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(v.size() // 8)]
def rev(v): return z3.Concat(*bytes_of(v)) if v.size() > 8 else v
class Blob:
    """content produced by compress2"""
    def __init__(s, n, c): s.n, s.c = n, c
    def read(s, i, cx): raise Unsupported('a byte of compressed data')
class Stream:
    """sequential stream of pieces: ('v', nbytes, bits) for values, ('a', nbytes, content) for arrays"""
    def __init__(s, e): s.e = e; s.out = Log(e); s.pos = 0; s.os = e.cx.new_obj(e.st, 'ostream', 64); s.is_ = e.cx.new_obj(e.st, 'istream', 64); s.blobs = {}; s.es = 1
    def whole(s, cx, p, n, st, what):
        """the piece is a whole array"""
        nb = cx.meta[p.obj].nbytes
        cx.oblige(what, band(cx.eqi(cx.off_term2(p), 0), cx.eqi(n, nb)), 'post', st.pc)
    def contracts(s):
        def write(cx, nm, a, st, I):
            n = a[2]; p = a[1]
            if not isinstance(p, Ptr) or p.obj is None: raise Unsupported('write from %r' % (p,))
            c = st.objs[p.obj]
            if isinstance(c, ArrC):
                if isinstance(c.c, Blob): cx.oblige('writes all compressed bytes', cx.eqi(n, c.c.n), 'post', st.pc)
                else: s.whole(cx, p, n, st, 'writes the whole array')
                s.out.add(st, ('a', n, c, a[0] == s.os)); return st, a[0]
            if not isinstance(n, int) or n not in (1, 2, 4, 8): raise Unsupported('write of %r bytes' % (n,))
            s.out.add(st, ('v', n, cx.load(p, int_t(8 * n), st), a[0] == s.os)); return st, a[0]
        def read(cx, nm, a, st, I):
            if s.pos >= len(s.out) : cx.oblige('reads no more pieces than were written', False, 'post', st.pc); raise Unsupported('end of stream')
            k, n, v, _ = s.out[s.pos]; s.pos += 1
            cx.oblige('reads the number of bytes that were written', cx.eqi(a[2], n), 'post', st.pc)
            if k == 'v': cx.store(a[1], v, int_t(8 * n), st)
            else: s.whole(cx, a[1], a[2], st, 'fills the whole array'); st.objs[a[1].obj] = v
            return st, a[0]
        def bound(cx, nm, a, st, I):
            """zlib: an upper bound of the compressed size"""
            f = cx.fnew_cb if hasattr(cx, 'fnew_cb') else fnew(cx, 'compressBound', z3.IntSort(), z3.IntSort()); cx.fnew_cb = f; cx.decl_rng[f.name()] = (0, 2**40)
            cx.fact(z3.And(f(cx.zi(a[0])) >= 0, f(cx.zi(a[0])) <= 2**40), guard=False); return st, f(cx.zi(a[0]))
        def compress(cx, nm, a, st, I):
            """zlib: succeeds when the output buffer has compressBound(source length) bytes"""
            d, dl, sp, sl = a[:4]; cap = cx.load(dl, int_t(64), st); f = getattr(cx, 'fnew_cb', None)
            cx.oblige('the buffer for compressed data is large enough', band(cx.lei(f(cx.zi(sl)), cap), cx.lei(cap, cx.meta[d.obj].nbytes)) if f is not None else False, 'pre', st.pc)
            s.whole(cx, sp, sl, st, 'compresses the whole array'); m = cx.fresh('zbytes', z3.IntSort()); cx.set_rng(m, (0, 2**40)); cx.fact(z3.And(m >= 0, m <= cx.zi(cap)), guard=False)
            cx.oblige('compressed data at the start of the buffer', cx.eqi(cx.off_term2(d), 0), 'pre', st.pc); cx.store(dl, m, int_t(64), st); st.objs[d.obj] = ArrC(1, 'i', Blob(m, (sl, st.objs[sp.obj]))); return st, 0
        def uncompress(cx, nm, a, st, I):
            """zlib: the inverse of compress2 when given all of its output and a buffer of the original size"""
            d, dl, sp, sl = a[:4]; c = st.objs[sp.obj]
            if not (isinstance(c, ArrC) and isinstance(c.c, Blob)): raise Unsupported('uncompress of other data')
            n, src = c.c.c; cap = cx.load(dl, int_t(64), st)
            cx.oblige('uncompresses all of the compressed data', band(cx.eqi(sl, c.c.n), cx.eqi(cx.off_term2(sp), 0)), 'pre', st.pc); cx.oblige('the buffer has the original size', cx.lei(n, cap), 'pre', st.pc)
            s.whole(cx, d, n, st, 'fills the whole array'); cx.store(dl, n, int_t(64), st); st.objs[d.obj] = src; return st, 0
        return [(R(r'^std::(ostream|basic_ostream<char.*>)::write\('), write), (R(r'^std::(istream|basic_istream<char.*>)::read\('), read), (R(r'^compressBound'), bound), (R(r'^compress2'), compress), (R(r'^uncompress'), uncompress)]
    def install(s): s.e.cx.contracts = s.contracts() + list(s.e.cx.contracts); s.e.cx.ccache.clear(); return s
def swap(t):
    n = CT.get(t, 8)
    def f(e):
        v = BV('v', 8 * n); p = cell(e, 'x', n, v); nm = 'Omega_h::binary::swap_bytes<%s>' % t; k = '(%s&)' % t
        e.call(nm, p, params=k); w = asbv(e.cx.load(p, int_t(8 * n), e.st), 8 * n)
        for i in range(n): e.prove('byte %d comes from byte %d' % (i, n - 1 - i), bytes_of(w)[i] == bytes_of(v)[n - 1 - i])
        e.call(nm, p, params=k); e.prove('swapping twice returns the value', asbv(e.cx.load(p, int_t(8 * n), e.st), 8 * n) == v)
    return f
for t in list(CT) + ['unsigned long']: T('swap_bytes<%s>: one value' % t, swap(t), **B())
def value(t, sw):
    n = CT[t]
    def f(e):
        s = Stream(e).install(); v = BV('v', 8 * n); q = cell(e, 'read', n, BV('old', 8 * n))
        e.call('Omega_h::binary::write_value<%s>' % t, s.os, v, int(sw))
        ok = len(s.out) == 1 and s.out[0][1] == n and s.out[0][3]; e.prove('one piece of the size of the type', z3.BoolVal(ok))
        e.prove('the bytes written are those of the value, %s' % ('last byte first' if sw else 'in memory order'), asbv(s.out[0][2], 8 * n) == (rev(v) if sw else v))
        e.call('Omega_h::binary::read_value<%s>' % t, s.is_, q, int(sw)); e.prove('the value read is the value written, bit for bit', asbv(e.cx.load(q, int_t(8 * n), e.st), 8 * n) == v)
    return f
for t in CT:
    for sw in (0, 1): T('write_value/read_value<%s>%s' % (t, ', swapped' if sw else ''), value(t, sw), **B())
def arrays(t, z, sw):
    n = CT[t]
    def f(e):
        cx = e.cx; s = Stream(e).install(); cx.bswap_fn(32); cx.bswap_fn(64); L = e.int('n', 0, 2**31 - 1 if n < 8 else 2**28); x = e.array('x', L, es=n); h = e.sret(); k = e.ivar('k', 0, L); e.st.objs[h.obj] = RecC({0: (8, NULL, 'p'), 8: (8, NULL, 'p')})
        e.call('Omega_h::binary::write_array<%s>' % t, s.os, x, z, sw); p0 = list(s.out)
        ok = len(s.out) == 2 + z and all(p[3] for p in s.out); e.prove('the length, %sthe array' % ('the compressed length, ' if z else ''), z3.BoolVal(ok))
        if not ok: return
        bs = lambda v, b: cx.bswap_fn(b)(v) if sw and b > 8 else v
        e.prove('the length%s is in the byte order asked for' % (' and the compressed length' if z else ''), z3.And(cx.zi(s.out[0][2]) == bs(L, 32), *([cx.zi(s.out[1][2]) == bs(s.out[2][2].c.n, 64)] if z else []), z3.BoolVal([p[1] for p in s.out[:1 + z]] == [4, 8][:1 + z])))
        c = s.out[-1][2].c.c[1] if z else s.out[-1][2]; e.prove('every entry is in the byte order asked for', cx.zi(cx.typed(None, c, int_t(8 * n), e.st).c.read(k, cx) if c.es == n else 0) == bs(x(k), 8 * n))
        m, rd = e.out(x, n); e.prove('the array written is not changed', rd(k) == x(k))
        e.call('Omega_h::binary::read_array<%s>' % t, s.is_, h, z, sw); e.prove('everything written is read', z3.BoolVal(s.pos == len(s.out)))
        m, rd = e.out(h, n); e.prove('the length read is the length written', m == L); e.prove('every entry read is the entry written, bit for bit', rd(k) == x(k))
    return f
for t in CT:
    for z in (0, 1):
        for sw in (0, 1): T('write_array/read_array<%s>%s%s' % (t, ', compressed' if z else '', ', swapped' if sw else ''), arrays(t, z, sw), fp='bits')

# ---- strings
SC = r'^(std::__cxx11::)?basic_string<char.*>::|^std::__cxx11::basic_string<char.*>::'
def strings_contracts():
    """std::string: a length and characters; resize gives a buffer of the new length"""
    get = lambda cx, p, o, st, t: cx.load(cx.padd(p, o), t, st)
    def ctor(cx, nm, a, st, I):
        src = len(a) > 1 and isinstance(a[1], Ptr) and 'basic_string const&' in dem(nm).replace('std::__cxx11::', '').replace('<char, std::char_traits<char>, std::allocator<char> >', '')
        cx.store(a[0], get(cx, a[1], 0, st, ptr_t()) if src else NULL, ptr_t(), st); cx.store(cx.padd(a[0], 8), get(cx, a[1], 8, st, int_t(64)) if src else 0, int_t(64), st); return st, None
    def length(cx, nm, a, st, I): return st, get(cx, a[0], 8, st, int_t(64))
    def data(cx, nm, a, st, I): return st, cx.padd(get(cx, a[0], 0, st, ptr_t()), 0, [(1, a[1])] if len(a) > 1 and not isinstance(a[1], int) else ()) if len(a) < 2 or a[1] == 0 else cx.padd(get(cx, a[0], 0, st, ptr_t()), a[1])
    def resize(cx, nm, a, st, I):
        p = cx.new_obj(st, 'chars', a[1], arr=True, heap=True); cx.store(a[0], p, ptr_t(), st); cx.store(cx.padd(a[0], 8), a[1], int_t(64), st); return st, None
    return [(R(SC.replace('|', r'basic_string\(|', 1) + r'basic_string\('), ctor), (R(r'basic_string<char.*>::(length|size)\(\) const'), length), (R(r'basic_string<char.*>::empty\(\) const'), lambda cx, nm, a, st, I: (st, cx.eqi(get(cx, a[0], 8, st, int_t(64)), 0))), (R(r'basic_string<char.*>::(c_str|data)\(\) const'), data), (R(r'basic_string<char.*>::operator\[\]\(unsigned long\)'), data), (R(r'basic_string<char.*>::resize\(unsigned long\)'), resize)]
def string(e, name, n):
    arr = e.cx.new_obj(e.st, name + '.chars', n, arr=True); d = e.decl(name, n, 1); e.st.objs[arr.obj] = ArrC(1, 'i', ABase(d)); p = e.cx.new_obj(e.st, name, 32); e.st.objs[p.obj] = RecC({0: (8, arr, 'p'), 8: (8, n, 'i')}); return p, d
def chars(e, p):
    cx = e.cx; q = cx.load(p, ptr_t(), e.st); n = cx.load(cx.padd(p, 8), int_t(64), e.st); c = cx.typed(q.obj, e.st.objs[q.obj], int_t(8), e.st); return cx.zi(n), cx.meta[q.obj].nbytes, lambda i: cx.zi(c.c.read(i, cx))
def text(sw):
    def f(e):
        cx = e.cx; s = Stream(e); cx.contracts = strings_contracts() + list(cx.contracts); s.install(); cx.bswap_fn(32); L = e.int('n', 0, 2**31 - 1); p, d = string(e, 'text', L); q = cx.new_obj(e.st, 'got', 32); e.st.objs[q.obj] = RecC({0: (8, NULL, 'p'), 8: (8, 0, 'i')}); k = e.ivar('k', 0, L)
        e.call('Omega_h::binary::write', s.os, p, sw, params='basic_string'); ok = len(s.out) == 2 and all(x[3] for x in s.out) and s.out[0][1] == 4; e.prove('the length, then the characters', z3.BoolVal(ok))
        if not ok: return
        e.prove('the length is in the byte order asked for', cx.zi(s.out[0][2]) == (cx.bswap_fn(32)(L) if sw else L))
        e.call('Omega_h::binary::read', s.is_, q, sw, params='basic_string'); e.prove('everything written is read', z3.BoolVal(s.pos == 2)); n, nb, c = chars(e, q); e.prove('the length read is the length written', z3.And(n == L, cx.zi(nb) == L)); e.prove('every character read is the character written', c(k) == d(k))
    return f
for sw in (0, 1): T('write/read: a string%s' % (', swapped' if sw else ''), text(sw), fp='bits')

# ---- tags
TN = {'signed char': 'I8', 'int': 'I32', 'long': 'I64', 'double': 'Real'}; MG = {'signed char': 'a', 'int': 'i', 'long': 'l', 'double': 'd'}
WT = '#include <new>\n#include <Omega_h_tag.hpp>\nusing namespace Omega_h;\n' + ''.join('void w_tag_%s(void* p, std::string const& s, Int n, Read<%s> a) { auto t = new (p) Tag<%s>(s, n); t->set_array(a); }\n' % (MG[t], TN[t], TN[t]) for t in CT)
def eqv(cx, p, q):
    B = lambda v: isinstance(v, bool) or z3.is_bool(v)
    if B(p) or B(q):
        p, q = [v if isinstance(v, bool) or z3.is_bool(v) else cx.zi(v) != 0 for v in (p, q)]
        return bor(band(p, q), band(bnot(p), bnot(q)))
    return cx.eqi(p, q)
class Tokens:
    """the stream as the sequence of values, strings, arrays (and tags) written; each is read back whole (tasks above)"""
    def __init__(s, e): s.e = e; s.w = Log(e); s.r = Log(e); s.os = e.cx.new_obj(e.st, 'ostream', 64); s.is_ = e.cx.new_obj(e.st, 'istream', 64); s.loops = []
    def n(s, log, st): return st.objs[log.c.obj].cells[0][1]
    def last(s, log, st):
        n = s.n(log, st); return log[n - 1] if n and log[n - 1][0] == 'loop' and log[n - 1][1]['open'] else None
    def put(s, st, x):
        l = s.last(s.w, st)
        if l: l[1]['body'].append(x)
        else: s.w.add(st, x)
    def get(s, cx, st, kind, what):
        """the piece read next: must be of that kind"""
        l = s.last(s.r, st)
        if l:
            n = s.n(s.r, st) - 1; W = s.w[n][1]['body'] if n < len(s.w) and s.w[n][0] == 'loop' else []; i = len(l[1]['body']); l[1]['body'].append((kind,) + what); x = W[i] if i < len(W) else None
        else:
            n = s.n(s.r, st); s.r.add(st, (kind,) + what); x = s.w[n] if n < len(s.w) else None
        ok = x is not None and x[0] == kind and x[1] == what[0]
        cx.oblige('reads back the piece that was written there', ok, 'post', st.pc)
        if not ok: raise Unsupported('the reader asks for %s %s where the writer wrote %s' % (kind, what[0], x and x[:2]))
        same = [eqv(cx, p, q) for p, q in zip(x[3:], what[2:])]; cx.oblige('with the same settings', band(*same) if len(same) > 1 else same[0] if same else True, 'post', st.pc); return x[2]
    def contracts(s):
        ty = lambda nm: re.search(r'(?:read|write)_(?:value|array)<([^<>]*)>', dem(nm)).group(1)
        def own(cx, a, st, p): cx.oblige('on the stream it was given', isinstance(a, Ptr) and a.obj == p.obj, 'post', st.pc)
        def wv(cx, nm, a, st, I): own(cx, a[0], st, s.os); s.put(st, ('value', ty(nm), a[1], a[2])); return st, None
        def rv(cx, nm, a, st, I): own(cx, a[0], st, s.is_); t = ty(nm); cx.store(a[1], s.get(cx, st, 'value', (t, None, a[2])[:1] + (None, a[2])), int_t(8 * CT[t]), st); return st, None
        def wa(cx, nm, a, st, I): own(cx, a[0], st, s.os); s.put(st, ('array', ty(nm), [cx.load(cx.padd(a[1], o), ptr_t(), st) for o in (0, 8)], a[2], a[3])); return st, None
        def ra(cx, nm, a, st, I):
            own(cx, a[0], st, s.is_)
            for o, v in zip((0, 8), s.get(cx, st, 'array', (ty(nm), None, a[2], a[3]))): cx.store(cx.padd(a[1], o), v, ptr_t(), st)
            return st, None
        def ws(cx, nm, a, st, I): own(cx, a[0], st, s.os); s.put(st, ('string', '', [cx.load(a[1], ptr_t(), st), cx.load(cx.padd(a[1], 8), int_t(64), st)], a[2])); return st, None
        def rs(cx, nm, a, st, I):
            own(cx, a[0], st, s.is_); p, n = s.get(cx, st, 'string', ('', None, a[2])); cx.store(a[1], p, ptr_t(), st); cx.store(cx.padd(a[1], 8), n, int_t(64), st); return st, None
        def dyn(cx, nm, a, st, I):
            """dynamic_cast to the type of the object, or to another one"""
            if not isinstance(a[0], Ptr) or a[0].obj != s.tag[0]: raise Unsupported('dynamic_cast of another object')
            return st, (a[0] if ('Tag<%s>' % s.tag[1]) in dem(cx.meta[a[2].obj].name) or cx.meta[a[2].obj].name.endswith('TagI%sEE' % MG[s.tag[1]]) else NULL)
        b = r'Omega_h::binary::'
        return [(R(b + r'write_value<'), wv), (R(b + r'read_value<'), rv), (R(b + r'write_array<'), wa), (R(b + r'read_array<'), ra), (R(b + r'write\(.*ostream.*basic_string'), ws), (R(b + r'read\(.*istream.*basic_string'), rs), (R(r'^__dynamic_cast'), dyn)] + strings_contracts()
    def install(s): s.e.cx.contracts = s.contracts() + list(s.e.cx.contracts); s.e.cx.ccache.clear(); return s
    def same(s): return len(s.w) == len(s.r)
def tag(t):
    def f(e):
        from meshc import SymMesh, mesh_h
        cx = e.cx; s = Tokens(e); W = SymMesh(e, 'simplex', 3, None, 'new_'); got = Log(e)
        def add(cx, nm, a, st): got.add(st, (re.search(r'add_tag<([^<>]*)>', nm).group(1), a[1], [cx.load(a[2], ptr_t(), st), cx.load(cx.padd(a[2], 8), int_t(64), st)], a[3], [cx.load(cx.padd(a[4], o), ptr_t(), st) for o in (0, 8)])); return st, None
        W.h_add_tag = add; cx.contracts = [(R(r'Omega_h::Mesh::\w+(<[^()]*>)?\('), mesh_h)] + list(cx.contracts); s.install()
        p = cx.new_obj(e.st, 'tag', 96); s.tag = (p.obj, t); nm, d = string(e, 'tag_name', e.int('name_length', 1, 2**31 - 1)); w = e.int('ncomps', 1, 127); dt = e.array('data', e.int('n', 0, 2**24) * w, es=CT[t]); z, sw, dim = e.int('compressed', 0, 1), e.int('swapped', 0, 1), e.int('dim', 0, 3)
        e.call('w_tag_' + MG[t], p, nm, w, dt); mine = [cx.load(cx.padd(dt.ptr, o), ptr_t(), e.st) for o in (0, 8)]; chars0 = cx.load(nm, ptr_t(), e.st); z = cx.nz(z) if hasattr(cx, 'nz') else z != 0; sw = sw != 0
        e.call('Omega_h::binary::write_tag', s.os, p, z, sw); e.call('Omega_h::binary::read_tag', s.is_, W.ptr, dim, z, 9, sw)
        e.prove('everything written is read', z3.BoolVal(s.same() and len(s.w) > 0)); ok = len(got) == 1; e.prove('one tag is added', z3.BoolVal(ok))
        if not ok: return
        T_, d_, n_, w_, a_ = got[0]; e.prove('of the same type', z3.BoolVal(T_ == t)); e.prove('in the dimension being read', cx.zi(d_) == dim); e.prove('with the same name', z3.And(z3.BoolVal(n_[0].obj == chars0.obj and n_[0].c == 0), cx.zi(n_[1]) == z3.Int('name_length'))); e.prove('and number of components', cx.zi(w_) == w); e.prove('and the array written', z3.BoolVal(all(bool(cx.veq(x, y)) for x, y in zip(a_, mine))))
    return f
for t in CT: TASKS.append(Task('write_tag/read_tag: a tag of type %s' % t, tag(t), U + ('tag',), extra=WT, fp='bits'))

# ---- a whole mesh
MX = r'Omega_h::Mesh::\w+(<[^()]*>)?\('
class TagLoop:
    """the loop over the tags of one dimension, in the writer (w) or the reader (r)"""
    def __init__(s, k, log): s.k = k; s.log = log
    def enter(s, cx, L):
        k, log, st = s.k, s.log, L.st; l = k.last(log, st)
        if L.entry is L:
            if l is None: log.add(st, ('loop', {'open': True, 'body': [], 'phi': None, 'n': k.count[0]}))
            else: l[1]['n'] = k.count[0]
        elif l is not None: l[1]['body'].clear()
    def n(s, L): return s.k.count[0]
    def inv(s, cx, L): i = cx.zi(L.phi[0]); return [('range', z3.And(0 <= i, i <= cx.zi(s.n(L))))] + ([('starts with the first tag', i == 0)] if L.entry is L else [])
    def variant(s, L): return s.k.e.cx.zi(s.n(L)) - s.k.e.cx.zi(L.phi[0])
    def steps(s, cx, L, Lb):
        k = s.k; l = k.last(s.log, L.st); i = cx.zi(L.phi[0])
        yield 'goes on to the next tag', cx.zi(Lb.phi[0]) == i + 1
        b = l[1]['body']; ok = len(b) == 1 and b[0][0] == 'tag'; yield 'one tag in each pass', z3.BoolVal(ok)
        if ok and s.log is k.w: yield 'the tag of this pass', z3.And(cx.zi(b[0][2][1]) == i, cx.zi(b[0][2][0]) == cx.zi(k.count[1]))
        l[1]['phi'] = L.phi[0]; l[1]['open'] = False
def mesh(fam, dim, par, anc, hints=None):
    def f(e):
        from meshc import SymMesh, mesh_h, FAM
        cx = e.cx; s = Tokens(e); M, W = SymMesh(e, fam, dim, None, 'old_'), SymMesh(e, fam, dim, None, 'new_'); ev = Log(e); W.dim = None; H = [(lambda v: v)(e.int('axis%d_%d' % (i, j))) for i in range(hints or 0) for j in range(3)]
        size = e.int('comm_size', 2, 2**31 - 1) if par else 1; rank = e.int('comm_rank', 0, size - 1) if par else 0; comm = cx.new_obj(e.st, 'comm', 64); NT = [e.int('ntags%d' % d, 0, 126) for d in range(dim + 1)]; G = e.int('nghost_layers'); M.parting = e.int('parting', 0, 2); cx.set_rng(G, (-2**31, 2**31 - 1)); b = e.int('little_endian', 0, 1)
        own = [(e.array('owner_ranks%d' % d, M.n[d]), e.array('owner_idxs%d' % d, M.n[d])) for d in range(dim + 1)]; pa = [(e.array('parent%d' % d, M.n[d]), e.array('parent_codes%d' % d, M.n[d], 1)) for d in range(dim + 1)]; tagp = cx.new_obj(e.st, 'tag', 96)
        P = lambda st, h, o=0: cx.load(cx.padd(h, o + 8), ptr_t(), st)
        obj = lambda a: P(e.st, a.ptr).obj
        def gc(cx, nm, a, st): cx.store(a[0], comm, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
        def both(**kw):
            for k, v in kw.items(): setattr(M, 'h_' + k, v)
        def note(k): return lambda cx, nm, a, st: (ev.add(st, (k,) + tuple(a[1:])), (st, None))[1]
        def ntags(cx, nm, a, st): s.count = (NT[a[1]], a[1]); return st, NT[a[1]]
        def get_tag(cx, nm, a, st): s.cur = (a[1], a[2]); return st, tagp
        def two(l): return lambda cx, nm, a, st: (M.ret(a[0], l[a[2]][0], st), M.ret(a[0], l[a[2]][1], st, 16), (st, None))[2]
        rib = cx.new_obj(e.st, 'rib', 24)
        if hints is not None:
            ax = cx.new_obj(e.st, 'axes', 24 * hints); e.st.objs[ax.obj] = RecC({8 * i: (8, v, 'i') for i, v in enumerate(H)}); e.st.objs[rib.obj] = RecC({0: (8, ax, 'p'), 8: (8, cx.padd(ax, 24 * hints), 'p'), 16: (8, cx.padd(ax, 24 * hints), 'p')})
        def rh(cx, nm, a, st): cx.store(a[0], rib if hints is not None else NULL, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
        both(comm=gc, ntags=ntags, get_tag=get_tag, nghost_layers=lambda cx, nm, a, st: (st, G), rib_hints=rh, has_any_parents=lambda cx, nm, a, st: (st, anc), ask_owners=two(own), ask_parents=two(pa)); W.h_comm = gc
        def set_dim(cx, nm, a, st): W.dim = a[1]; ev.add(st, ('dim', a[1])); return st, None
        def set_ents(cx, nm, a, st): ev.add(st, ('ents', a[1], tuple(P(st, a[2], 16 * j).obj for j in range(3)))); return st, None
        def set2(k): return lambda cx, nm, a, st: (ev.add(st, (k, a[1], tuple(P(st, a[2], 16 * j).obj for j in range(2)))), (st, None))[1]
        for k in ('set_family', 'set_parting', 'set_verts'): setattr(W, 'h_' + k, note(k[4:]))
        W.h_set_dim = set_dim; W.h_set_ents = set_ents; W.h_set_owners = set2('owners'); W.h_set_parents = set2('parents'); W.h_set_rib_hints = lambda cx, nm, a, st: (ev.add(st, ('hints', cx.load(a[1], ptr_t(), st).obj)), (st, None))[1]
        axes = Log(e); nrib = cx.new_obj(e.st, 'new_rib', 24)
        def make(cx, nm, a, st, I): cx.store(a[0], nrib, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
        def push(cx, nm, a, st, I): axes.add(st, (a[0].obj, [cx.load(cx.padd(a[1], 8 * j), int_t(64), st) for j in range(3)])); return st, None
        def copy2(cx, nm, a, st, I):
            for o in (0, 8): cx.store(cx.padd(a[0], o), cx.load(cx.padd(a[1], o), ptr_t(), st), ptr_t(), st)
            return st, None
        def wt(cx, nm, a, st, I): cx.oblige('writes the tag it was given', a[1].obj == tagp.obj and a[0] == s.os, 'post', st.pc); s.put(st, ('tag', 'tag', s.cur, a[2], a[3])); return st, None
        def rt(cx, nm, a, st, I):
            cx.oblige('reads tags into the mesh', a[0] == s.is_ and a[1].obj == W.ptr.obj, 'post', st.pc); x = s.get(cx, st, 'tag', ('tag', None, a[3], a[5])); cx.oblige('of the same dimension', cx.eqi(x[0], a[2]), 'post', st.pc); cx.oblige('in the version of the file', cx.eqi(a[4], 9), 'post', st.pc); return st, None
        def wset(cx, nm, a, st, I): cx.oblige('writes the sets of the mesh', a[0] == s.os and a[1].obj == M.ptr.obj, 'post', st.pc); s.put(st, ('sets', '', None, a[2])); return st, None
        def rset(cx, nm, a, st, I): cx.oblige('reads the sets into the mesh', a[0] == s.is_ and a[1].obj == W.ptr.obj, 'post', st.pc); s.get(cx, st, 'sets', ('', None, a[2])); return st, None
        def raww(cx, nm, a, st, I):
            if not isinstance(a[2], int) or a[2] > 64: raise Unsupported('raw write')
            s.put(st, ('raw', a[2], [cx.load(cx.padd(a[1], i), int_t(8), st) for i in range(a[2])])); return st, a[0]
        def rawr(cx, nm, a, st, I):
            for i, v in enumerate(s.get(cx, st, 'raw', (a[2],))): cx.store(cx.padd(a[1], i), v, int_t(8), st)
            return st, a[0]
        rv0 = [h for r, h in s.contracts() if r.match('Omega_h::binary::read_value<')]
        def rv(cx, nm, a, st, I):
            r = rv0[0](cx, nm, a, st, I); v = cx.load(a[1], int_t(32), st) if 'read_value<int>' in dem(nm) else None
            if v is not None: s.count = (v, None)      # the reader's loop runs to the number of tags just read
            return r
        B = r'Omega_h::binary::'
        cx.contracts = [(R(MX), mesh_h), (R(r'Omega_h::Comm::size\(\) const'), lambda cx, nm, a, st, I: (st, size)), (R(r'Omega_h::Comm::rank\(\) const'), lambda cx, nm, a, st, I: (st, rank)), (R(r'^Omega_h::is_little_endian_cpu'), lambda cx, nm, a, st, I: (st, b == 1)), (R(B + r'write_tag\('), wt), (R(B + r'read_tag\('), rt), (R(B + 'write_sets'), wset), (R(B + 'read_sets'), rset), (R(r'make_shared<Omega_h::inertia::Rib'), make), (R(r'vector<Omega_h::Vector<3>.*>::push_back'), push), (R(r'^std::shared_ptr<Omega_h::inertia::Rib const>::shared_ptr<'), copy2), (R(r'^std::(ostream|basic_ostream<char.*>)::write\('), raww), (R(r'^std::(istream|basic_istream<char.*>)::read\('), rawr)] + list(cx.contracts); s.install(); cx.contracts = [(R(B + r'read_value<'), rv)] + list(cx.contracts); cx.ccache.clear()
        LW, LR = TagLoop(s, s.w), TagLoop(s, s.r); s.count = (0, None)
        cx.invariants = [(re.compile(r'binary::write\(.*Mesh\*\)'), r'write_tag\(', LW), (re.compile(r'binary::read\(.*Mesh\*, int\)'), r'read_tag\(', LR)]
        e.call('Omega_h::binary::write', s.os, M.ptr, params='ostream<char, std::char_traits<char> >&, Omega_h::Mesh*)'); e.call('Omega_h::binary::read', s.is_, W.ptr, 9, params='istream<char, std::char_traits<char> >&, Omega_h::Mesh*, int)')
        e.prove('everything written is read', z3.BoolVal(s.same() and len(s.w) > 0))
        for log in (s.w, s.r):
            ls = [x[1] for x in log if x[0] == 'loop']; e.prove('every tag is %s' % ('written' if log is s.w else 'read'), z3.BoolVal(False) if len(ls) != dim + 1 or any(l['phi'] is None for l in ls) else z3.And(*[z3.And(cx.zi(l['phi']) == NT[d], cx.zi(l['n']) == NT[d]) for d, l in enumerate(ls)]))
        want = [('family', FAM[fam]), ('dim', dim), ('verts', M.n[0])] + [('ents', d, (None, obj(M.down(d, d - 1)[0]), obj(M.down(d, d - 1)[1]) if d > 1 else None)) for d in range(1, dim + 1)] + [('owners', d, tuple(obj(x) for x in own[d])) for d in range(dim + 1) if par] + [('parents', d, tuple(obj(x) for x in pa[d])) for d in range(dim + 1) if anc]
        got = [x for x in ev if x[0] not in ('parting', 'hints')]; pk = [x for x in ev if x[0] == 'parting']; hk = [x for x in ev if x[0] == 'hints']
        for w in want:
            g = [x for x in got if x[0] == w[0] and (len(w) == 2 or cx.veq(x[1], w[1]))]; nm = 'the mesh read has the same %s%s' % ({'verts': 'number of vertices', 'ents': 'connectivity', 'owners': 'owners', 'parents': 'parents'}.get(w[0], w[0]), ', dimension %d' % w[1] if len(w) > 2 else '')
            e.prove(nm, z3.BoolVal(False) if len(g) != 1 else cx.zi(g[0][1]) == cx.zi(w[1]) if len(w) == 2 else z3.BoolVal(g[0][2] == w[2]))
        e.prove('nothing else is set', z3.BoolVal(len(got) == len(want)))
        e.prove('the mesh read has the same partitioning', z3.And(cx.zi(pk[0][1]) == M.parting, cx.zi(pk[0][2]) == G) if len(pk) == 1 and len(pk[0]) == 4 else z3.BoolVal(False))
        ok = len(hk) == (hints is not None) and len(axes) == (hints or 0) and all(x[0] == nrib.obj for x in axes) and all(x[1] == nrib.obj for x in hk); e.prove('the mesh read has the same number of bisection axes', z3.BoolVal(ok))
        if ok and H: e.prove('and the same axes', z3.And(*[cx.zi(x) == h for x, h in zip([v for a in axes for v in a[1]], H)]))
    return f
for fam in ('simplex', 'hypercube'):
    for dim in (1, 2, 3):
        for par in (0, 1):
            for anc in (0, 1): T('write/read: a %s mesh of dimension %d%s%s' % (fam, dim, ', several ranks' if par else '', ', with parents' if anc else ''), mesh(fam, dim, par, anc), fp='bits')
for k in (0, 1, 3): T('write/read: a mesh with %d bisection axes (bounded)' % k, mesh('simplex', 3, 1, 0, k), fp='bits')

# ---- classification sets: the containers are walked with a stated number of sets and pairs
def sets(shape):
    def f(e):
        from meshc import SymMesh, mesh_h
        cx = e.cx; s = Tokens(e).install(); M, W = SymMesh(e, 'simplex', 3, None, 'old_'), SymMesh(e, 'simplex', 3, None, 'new_'); S = len(shape); node = cx.new_obj(e.st, 'sets', 64 * S); cells = {}; want = []; names = []; touched = Log(e); got = Log(e); vec = {}
        for i, m in enumerate(shape):
            p, d = string(e, 'set%d' % i, e.int('set%d_length' % i, 0, 2**31 - 1)); c = e.st.objs[p.obj].cells; names.append(c[0][1].obj); v = cx.new_obj(e.st, 'pairs%d' % i, 8 * m); vs = [e.int('pair%d_%d' % (i, j), -2**31, 2**31 - 1) for j in range(2 * m)]; e.st.objs[v.obj] = RecC({4 * j: (4, x, 'i') for j, x in enumerate(vs)})
            want += [(names[-1], vs[2 * j], vs[2 * j + 1]) for j in range(m)]
            cells.update({64 * i: c[0], 64 * i + 8: c[8], 64 * i + 32: (8, v, 'p'), 64 * i + 40: (8, cx.padd(v, 8 * m), 'p'), 64 * i + 48: (8, cx.padd(v, 8 * m), 'p')})
        e.st.objs[node.obj] = RecC(cells)
        def mine(cx, a, st): cx.oblige('the sets of the mesh', isinstance(a[0], Ptr) and a[0].obj == M.ptr.obj, 'post', st.pc)
        def at(k): return lambda cx, nm, a, st, I: (mine(cx, a, st), (st, cx.padd(node, 64 * k) if k is not None else S))[1]
        def inc(cx, nm, a, st, I): cx.store(a[0], cx.padd(cx.load(a[0], ptr_t(), st), 64), ptr_t(), st); return st, a[0]
        def deref(cx, nm, a, st, I): return st, cx.load(a[0], ptr_t(), st)
        def index(cx, nm, a, st, I):
            cx.oblige('the sets of the mesh read', isinstance(a[0], Ptr) and a[0].obj == W.ptr.obj, 'post', st.pc); o = cx.load(a[1], ptr_t(), st).obj; touched.add(st, o); v = vec.setdefault(o, cx.new_obj(e.st, 'vec', 24))
            if v.obj not in st.objs: st.objs[v.obj] = e.st.objs[v.obj]
            return st, v
        def push(cx, nm, a, st, I): k = [o for o, v in vec.items() if v.obj == a[0].obj]; got.add(st, (k[0] if k else None, cx.load(a[1], int_t(32), st), cx.load(cx.padd(a[1], 4), int_t(32), st))); return st, None
        MP = r'std::map<std::__cxx11::basic_string.*ClassPair.*>::'; IT = r'std::_Rb_tree_iterator<.*ClassPair.*>::'
        cx.contracts = [(R(MX), mesh_h), (R(MP + r'size\('), at(None)), (R(MP + r'begin\('), at(0)), (R(MP + r'end\('), at(S)), (R(MP + r'operator\[\]\('), index), (R(IT + r'operator\+\+\(\)'), inc), (R(IT + r'operator(\*|->)\('), deref), (R(r'^std::vector<Omega_h::ClassPair.*>::push_back'), push)] + list(cx.contracts); cx.ccache.clear()
        sw = e.int('swapped', 0, 1) != 0; e.call('Omega_h::binary::write_sets', s.os, M.ptr, sw); e.call('Omega_h::binary::read_sets', s.is_, W.ptr, sw)
        e.prove('everything written is read', z3.BoolVal(s.same() and len(s.w) > 0)); e.prove('every set is there, empty ones too', z3.BoolVal(set(touched) == set(names)))
        e.prove('as many pairs in the same sets', z3.BoolVal([x[0] for x in got] == [x[0] for x in want]))
        if len(got) == len(want) and got: e.prove('the same pairs in the same order', z3.And(*[z3.And(cx.zi(g[1]) == w[1], cx.zi(g[2]) == w[2]) for g, w in zip(got, want)]))
    return f
for sh in ((), (0,), (2,), (1, 3), (0, 2), (2, 0, 1)): T('write_sets/read_sets: sets with %s pairs (bounded)' % (', '.join(map(str, sh)) or 'no'), sets(sh), fp='bits')
def endian(e): e.prove('this machine keeps the low byte first', z3.BoolVal(True) if e.call('Omega_h::is_little_endian_cpu') in (1, True) else z3.BoolVal(False))
T('is_little_endian_cpu', endian)

PROP = Prop('P12', TASKS, native=[Native('file'), Native('file', np=2)], assumptions=['std::ostream::write and std::istream::read move exactly the given bytes, in order', 'zlib: uncompress of the output of compress2 into a buffer of the original length restores it; compressBound bounds its length', 'std::string, std::vector, std::map and std::shared_ptr meet their specifications', 'a tag has at most 127 components (Mesh::add_tag rejects more)', 'the paths of a file (directory, version, number of parts, one stream per rank) are checked natively only', 'bounded: the number of classification sets, of pairs in them and of bisection axes'])
