"""SharedAlloc / Alloc: reference counts and the tracked list.  Here the real
bodies are executed: the storage-layer contracts used everywhere else are
switched off."""
from prop import *
from stdc import *
from native import Native
import z3
IV = z3.IntVal
U = ('shared_alloc',)
INL = [(R(r'^Omega_h::SharedAlloc::'), inline)]
GH = 1000   # ghost cell of an Alloc record: times destroyed
def dtor(cx, nm, a, st, I):
    c = cx.padd(a[0], GH); cx.store(c, cx.addi(cx.load(c, int_t(32), st), 1), int_t(32), st); return st, None
def opdel(cx, nm, a, st, I):
    c = cx.padd(a[0], GH + 4); cx.store(c, cx.addi(cx.load(c, int_t(32), st), 1), int_t(32), st); return st, None
HND = [(R(r'^Omega_h::Alloc::~Alloc\(\)'), dtor), (R(r'^operator delete'), opdel)] + INL
W = '''#include <cstdint>
#include <string>
#include <Omega_h_shared_alloc.hpp>
#include <utility>
namespace Omega_h {
void w_cctor(SharedAlloc* h, SharedAlloc const& o) { new (h) SharedAlloc(o); }
void w_mctor(SharedAlloc* h, SharedAlloc& o) { new (h) SharedAlloc(std::move(o)); }
void w_cass(SharedAlloc& h, SharedAlloc const& o) { h = o; }
void w_mass(SharedAlloc& h, SharedAlloc& o) { h = std::move(o); }
void w_dtor(SharedAlloc& h) { h.~SharedAlloc(); }
std::size_t w_size(SharedAlloc const& h) { return h.size(); }
void* w_data(SharedAlloc const& h) { return h.data(); }
bool w_def() { SharedAlloc h; return h.alloc == nullptr && h.direct_ptr == nullptr; }
}
'''.replace('#include <utility>', '#include <utility>\n#include <new>')
def rec(e, oid, off, t=None):
    return e.cx.load(Ptr(oid, off) if False else e.cx.padd(oid, off), t or int_t(32), e.st)
class Al:
    def __init__(self, e, name):
        cx = e.cx; self.e = e; self.name = name
        self.n = e.int('size_' + name, 0, 2**40); self.u = e.int('uses_' + name, 1, 2**31 - 2)
        self.data = cx.new_obj(e.st, name + '.data', self.n, arr=True, heap=True)
        self.p = cx.new_obj(e.st, name, 72, heap=True)
        e.st.objs[self.p.obj] = RecC({0: (8, self.n, 'i'), 40: (8, self.data, 'p'), 48: (4, self.u, 'i'), 56: (8, NULL, 'p'), 64: (8, NULL, 'p'), GH: (4, IV(0), 'i'), GH + 4: (4, IV(0), 'i')})
    def uses(self): return self.e.cx.zi(self.e.cx.load(self.e.cx.padd(self.p, 48), int_t(32), self.e.st))
    def freed(self, o=0): return self.e.cx.zi(self.e.cx.load(self.e.cx.padd(self.p, GH + o), int_t(32), self.e.st))
def handle(e, name, al):
    h = e.cx.new_obj(e.st, name, 16)
    e.st.objs[h.obj] = RecC({0: (8, al.p if al else NULL, 'p'), 8: (8, al.data if al else NULL, 'p')})
    return h
def ptrs(e, h): return [e.cx.load(e.cx.padd(h, o), ptr_t(), e.st) for o in (0, 8)]
def isptr(e, x, y): return e.cx.veq(x, y) if not (isinstance(x, PIte) or isinstance(y, PIte)) else False
def op(fn, this, other, par=False):
    """this/other: None (no handle), '0' (empty), 'A', 'B' (owners); other may be 'self'"""
    def f(e):
        cx = e.cx
        A = {x: Al(e, x) for x in sorted({this, other} & {'A', 'B'})}
        h = handle(e, 'this', A.get(this)); o = h if other == 'self' else handle(e, 'other', A.get(other))
        # handles to each allocation before the call: u = (handles here) + (handles elsewhere)
        before = {x: (this == x) + (other == x) for x in A}
        for x in A: e.assume(A[x].u >= before[x])
        if fn == 'w_dtor': e.call('Omega_h::w_dtor', h)
        else: e.call('Omega_h::' + fn, h, o)
        src = this if other == 'self' else other
        move = fn in ('w_mctor', 'w_mass')
        now = {}
        if fn != 'w_dtor':
            now['this'] = src; now['other'] = 'self' if other == 'self' else ('0' if move else other)
            w = A.get(src)
            if w is not None or src == '0':
                p = ptrs(e, h)
                e.prove('the handle refers to the storage assigned', z3.BoolVal(bool(isptr(e, p[0], w.p if w else NULL)) and bool(isptr(e, p[1], w.data if w else NULL))))
            if other != 'self':
                q = ptrs(e, o); w2 = A.get(now['other'])
                e.prove('the source handle is empty after a move and unchanged after a copy', z3.BoolVal(bool(isptr(e, q[0], w2.p if w2 else NULL)) and bool(isptr(e, q[1], w2.data if w2 else NULL))))
        after = {x: sum(1 for v in now.values() if v == x) for x in A}
        for x in A:
            cnt = A[x].u + after[x] - before[x]
            e.prove('use count of %s equals the number of handles' % x, z3.Implies(cnt > 0, A[x].uses() == cnt))
            e.prove('%s is released exactly when no handle is left' % x, z3.And(A[x].freed() == z3.If(cnt == 0, IV(1), IV(0)), A[x].freed(4) == A[x].freed()))
    return f
TASKS = []
for fn, this, other in [('w_cctor', None, x) for x in '0A'] + [('w_mctor', None, x) for x in '0A'] + [(g, t, o) for g in ('w_cass', 'w_mass') for t in '0A' for o in ('0', 'A', 'B', 'self') ] + [('w_dtor', 'A', None)]:
    names = {'w_cctor': 'copy construction', 'w_mctor': 'move construction', 'w_cass': 'copy assignment', 'w_mass': 'move assignment', 'w_dtor': 'destruction'}
    d = {'0': 'empty', 'A': 'owner of A', 'B': 'owner of B', 'self': 'the same handle', None: '-'}
    TASKS.append(Task('%s (this: %s, other: %s)' % (names[fn], d[this], d[other]), op(fn, this, other), U, extra=W, contracts=HND))
def sz(e):
    A = Al(e, 'A'); h = handle(e, 'h', A)
    r = e.call('Omega_h::w_size', h); e.prove('size of the allocation', e.cx.zi(r) == A.n)
    d = e.call('Omega_h::w_data', h); e.prove('data of the allocation', z3.BoolVal(bool(isptr(e, d, A.data))))
def df(e):
    r = e.call('Omega_h::w_def'); e.prove('a default handle is empty', r if z3.is_bool(r) or isinstance(r, bool) else e.cx.zi(r) != 0)
TASKS += [Task('size and data', sz, U, extra=W, contracts=HND), Task('default construction', df, U, extra=W, contracts=HND)]
# ---- inside a parallel region handles do not own (functors are copied there)
def setg(e, name, cell): e.st.objs[e.cx.global_obj(e.st, name).obj] = RecC({0: cell})
EP = '_ZN7Omega_h17entering_parallelE'; GA = '_ZN7Omega_h13global_allocsE'
def par(fn):
    def f(e):
        cx = e.cx; A = Al(e, 'A'); o = handle(e, 'other', A); h = cx.new_obj(e.st, 'this', 16); e.st.objs[h.obj] = RecC({0: (8, NULL, 'p'), 8: (8, NULL, 'p')})
        setg(e, EP, (1, 1, 'i'))
        e.call('Omega_h::' + fn, h, o)
        e.prove('use count counts the owning handles only', A.uses() == (A.u if fn == 'w_cctor' else A.u - 1)); 
        r = e.call('Omega_h::w_size', h); e.prove('size of the allocation', cx.zi(r) == A.n)
        d = e.call('Omega_h::w_data', h); e.prove('data of the allocation', z3.BoolVal(bool(isptr(e, d, A.data))))
        setg(e, EP, (1, 0, 'i'))
        u = A.uses(); e.call('Omega_h::w_dtor', h)
        e.prove('destroying the parallel copy releases nothing', z3.And(A.uses() == u, A.freed() == 0))
    return f
TASKS += [Task('copy construction in a parallel region', par('w_cctor'), U, extra=W, contracts=HND), Task('move construction in a parallel region', par('w_mctor'), U, extra=W, contracts=HND)]
# ---- Alloc: storage and the tracked list
def vec_clear(cx, nm, a, st, I): return st, None
def malloc_h(cx, nm, a, st, I):
    arr = cx.new_obj(st, 'storage', a[0], arr=True, heap=True); cx.storage = (arr, a[0]); return st, arr
def free_h(cx, nm, a, st, I):
    cx.released = getattr(cx, 'released', []) + [(a[0], a[1])]; return st, None
REC = [(R(r'^Omega_h::maybe_pooled_device_malloc'), malloc_h), (R(r'^Omega_h::maybe_pooled_device_free'), free_h), (R(r'^std::vector<Omega_h::HighWaterRecord'), vec_clear), (R(r'^Omega_h::HighWaterRecord::'), noop)] + INL
WA = W.replace('namespace Omega_h {', '''namespace Omega_h {
void w_new(Alloc* a, std::size_t n, std::string const& s) { new (a) Alloc(n, s); }
void w_del(Alloc& a) { a.~Alloc(); }
void w_share(SharedAlloc* h, std::size_t n, std::string const& s) { new (h) SharedAlloc(n, s); }
''')
def node(e, name, n): 
    p = e.cx.new_obj(e.st, name, 72, heap=True); e.st.objs[p.obj] = RecC({0: (8, n, 'i'), 40: (8, NULL, 'p'), 48: (4, IV(1), 'i'), 56: (8, NULL, 'p'), 64: (8, NULL, 'p')}); return p
def link(e, ns):
    for x, y in zip(ns, ns[1:]): e.cx.store(e.cx.padd(x, 64), y, ptr_t(), e.st); e.cx.store(e.cx.padd(y, 56), x, ptr_t(), e.st)
def getp(e, p, o): return e.cx.load(e.cx.padd(p, o), ptr_t(), e.st)
def geti(e, p, o): return e.cx.zi(e.cx.load(e.cx.padd(p, o), int_t(64), e.st))
def allocs(e, first, last, total, high):
    ga = e.cx.new_obj(e.st, 'allocs', 56, heap=True)
    e.st.objs[ga.obj] = RecC({0: (8, first, 'p'), 8: (8, last, 'p'), 16: (8, total, 'i'), 24: (8, high, 'i'), 32: (8, NULL, 'p'), 40: (8, NULL, 'p'), 48: (8, NULL, 'p')})
    setg(e, GA, (8, ga, 'p')); return ga
def is_list(e, ga, ns):
    """the doubly linked list anchored at ga is exactly ns, in order"""
    ok = isptr(e, getp(e, ga, 0), ns[0] if ns else NULL) and isptr(e, getp(e, ga, 8), ns[-1] if ns else NULL)
    for i, x in enumerate(ns):
        ok = ok and isptr(e, getp(e, x, 56), ns[i - 1] if i else NULL) and isptr(e, getp(e, x, 64), ns[i + 1] if i + 1 < len(ns) else NULL)
    return z3.BoolVal(bool(ok))
def create(m, tracking=True, fn='w_new'):
    def f(e):
        cx = e.cx; n = e.int('n', 0, 2**40)
        ns = [node(e, 'live%d' % i, e.int('size%d' % i, 0, 2**40)) for i in range(m)]; link(e, ns)
        if tracking:
            tot = e.int('total', 0, 2**50); high = e.int('high', 0, 2**50); e.assume(high >= tot)
            ga = allocs(e, ns[0] if ns else NULL, ns[-1] if ns else NULL, tot, high)
        a = e.sret(72, 'new'); s = e.sret(32)
        if fn == 'w_share':
            h = e.sret(16); e.call('Omega_h::w_share', h, n, s); a = getp(e, h, 0)
            e.prove('the handle refers to the new storage', z3.BoolVal(bool(isptr(e, getp(e, h, 8), cx.storage[0]))))
        else: e.call('Omega_h::w_new', a, n, s)
        e.prove('size', geti(e, a, 0) == n); e.prove('storage of that size', z3.And(z3.BoolVal(bool(isptr(e, getp(e, a, 40), cx.storage[0]))), cx.zi(cx.storage[1]) == n))
        e.prove('one owner', cx.zi(cx.load(cx.padd(a, 48), int_t(32), e.st)) == 1)
        if tracking:
            e.prove('the list is the live allocations, the new one last', is_list(e, ga, ns + [a]))
            e.prove('total bytes', geti(e, ga, 16) == tot + n); e.prove('high water mark', geti(e, ga, 24) == z3.If(tot + n > high, tot + n, high))
    return f
def destroy(m, j):
    def f(e):
        cx = e.cx; sz = [e.int('size%d' % i, 0, 2**40) for i in range(m)]; ns = [node(e, 'live%d' % i, sz[i]) for i in range(m)]; link(e, ns)
        tot = e.int('total', 0, 2**50); high = e.int('high', 0, 2**50); e.assume(z3.And(high >= tot, tot >= sum(sz)))
        data = cx.new_obj(e.st, 'data', sz[j], arr=True, heap=True); cx.store(cx.padd(ns[j], 40), data, ptr_t(), e.st)
        ga = allocs(e, ns[0], ns[-1], tot, high); cx.released = []
        e.call('Omega_h::w_del', ns[j])
        e.prove('its storage is released once', z3.And(z3.BoolVal(len(cx.released) == 1 and bool(isptr(e, cx.released[0][0], data))), cx.zi(cx.released[0][1]) == sz[j] if cx.released else z3.BoolVal(False)))
        e.prove('the list is the remaining allocations', is_list(e, ga, ns[:j] + ns[j + 1:]))
        e.prove('total bytes', geti(e, ga, 16) == tot - sz[j]); e.prove('high water mark stays', geti(e, ga, 24) == high)
    return f
TASKS += [Task('allocation, tracking off', create(0, False), U, extra=WA, contracts=REC), Task('handle construction', create(0, False, 'w_share'), U, extra=WA, contracts=REC)]
for m in (0, 1, 2, 3): TASKS.append(Task('allocation, %d tracked' % m, create(m), U, extra=WA, contracts=REC))
for m, j in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (5, 2)): TASKS.append(Task('release of number %d of %d tracked' % (j + 1, m), destroy(m, j), U, extra=WA, contracts=REC))
PROP = Prop('P18', TASKS, native=[Native('shared_alloc')], assumptions=['allocation tracking is switched on before the first allocation', 'the operating system allocator (malloc, free) is trusted'])
