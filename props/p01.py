from prop import *
import z3
MAPU = ('map', 'array', 'int_scan', 'array_ops', 'shared_alloc', 'sort', 'graph')
TY = {'signed char': (1, 'i'), 'int': (4, 'i'), 'long': (8, 'i'), 'double': (8, 'f')}
I31 = 2**31 - 1
def sizes(e):
    na, nb, w = e.int('na', 0, I31 - 1), e.int('nb', 0, I31 - 1), e.int('w', 1, I31)
    e.fits(na, w); e.fits(nb, w)
    return na, nb, w
def unmap(T):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        a2b = e.array('a2b', na, rng=(0, nb)); d = e.array('d', nb * w, es, k); r = e.sret()
        e.call('Omega_h::unmap<%s>' % T, r, a2b, d, w)
        L, rd = e.out(r, es, k)
        i = e.ivar('i', 0, na); j = e.ivar('j', 0, w)
        e.prove('result has width entries per source', L == na * w)
        e.prove('entry (i,j) is entry (a2b[i],j) of the input', rd(i * w + j) == d(a2b(i) * w + j))
    return f
def unmap_range(T):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        b = e.int('begin', 0, I31); en = e.int('end', 0, I31); e.assume(b <= en); e.assume(en <= nb)
        d = e.array('d', nb * w, es, k); r = e.sret()
        e.call('Omega_h::unmap_range<%s>' % T, r, b, en, d, w)
        L, rd = e.out(r, es, k)
        i = e.ivar('i', 0, en - b); j = e.ivar('j', 0, w)
        e.prove('size', L == (en - b) * w)
        e.prove('entry (i,j) is entry (begin+i,j)', rd(i * w + j) == d((b + i) * w + j))
    return f
def wr(e, arr): 
    n, rd = e.out(arr, arr.es, arr.kind); return rd
def map_into(T, fn='map_into'):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        a2b = e.injective('a2b', na, nb); a = e.array('a', na * w, es, k); b = e.array('b', nb * w, es, k)
        e.call('Omega_h::%s<%s>' % (fn, T), a, a2b, b, w, params='Read<int>, Omega_h::Write')
        rd = wr(e, b)
        i = e.ivar('i', 0, na); j = e.ivar('j', 0, w); y = e.ivar('y', 0, nb)
        if fn == 'add_into':
            if k == 'i' and es < 8: 
                pass
            v = b(a2b(i) * w + j) + a(i * w + j)
            got = rd(a2b(i) * w + j)
            if k == 'i': e.prove('mapped entries accumulate', z3.Implies(z3.And(v >= -2**(8*es-1), v < 2**(8*es-1)), got == v))
            else: e.prove('mapped entries accumulate', got == v)
        else: e.prove('mapped entries are overwritten', rd(a2b(i) * w + j) == a(i * w + j))
        hit = z3.And(0 <= a2b.inv(y), a2b.inv(y) < na, a2b(a2b.inv(y)) == y)
        e.prove('entries outside the image are untouched', z3.Implies(z3.Not(hit), rd(y * w + j) == b(y * w + j)))
    return f
def map_value_into(T):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        a2b = e.array('a2b', na, rng=(0, nb)); b = e.array('b', nb, es, k)
        v = e.real('v') if k == 'f' else e.int('v', -2**(8*es-1), 2**(8*es-1)-1)
        e.call('Omega_h::map_value_into<%s>' % T, v, a2b, b)
        rd = wr(e, b)
        i = e.ivar('i', 0, na); y = e.ivar('y', 0, nb)
        e.prove('mapped entries take the value', rd(a2b(i)) == v)
        q = z3.Int('q')
        e.prove('other entries are untouched', z3.Or(rd(y) == b(y), z3.And(rd(y) == v, z3.Exists([q], z3.And(0 <= q, q < na, a2b(q) == y)))))
    return f
def map_into_range(T):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        be = e.int('begin', 0, I31); en = e.int('end', 0, I31); e.assume(be <= en); e.assume(en <= nb)
        a = e.array('a', (en - be) * w, es, k); b = e.array('b', nb * w, es, k)
        e.call('Omega_h::map_into_range<%s>' % T, a, be, en, b, w)
        rd = wr(e, b)
        i = e.ivar('i', 0, en - be); j = e.ivar('j', 0, w); y = e.ivar('y', 0, nb)
        e.prove('range entries are overwritten', rd((be + i) * w + j) == a(i * w + j))
        e.prove('entries outside the range are untouched', z3.Implies(z3.Or(y < be, y >= en), rd(y * w + j) == b(y * w + j)))
    return f
def map_onto(T):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e); e.assume(na <= nb)
        a2b = e.injective('a2b', na, nb); a = e.array('a', na * w, es, k); r = e.sret()
        v = e.real('v') if k == 'f' else e.int('v', -2**(8*es-1), 2**(8*es-1)-1)
        e.call('Omega_h::map_onto<%s>' % T, r, a, a2b, nb, v, w, params='Read<int>, int')
        L, rd = e.out(r, es, k)
        i = e.ivar('i', 0, na); j = e.ivar('j', 0, w); y = e.ivar('y', 0, nb)
        e.prove('size', L == nb * w)
        e.prove('mapped entries', rd(a2b(i) * w + j) == a(i * w + j))
        hit = z3.And(0 <= a2b.inv(y), a2b.inv(y) < na, a2b(a2b.inv(y)) == y)
        e.prove('other entries hold the initial value', z3.Implies(z3.Not(hit), rd(y * w + j) == v))
    return f
def permute(T):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        a2b = e.injective('a2b', na, na); a = e.array('a', na * w, es, k); r = e.sret()
        e.call('Omega_h::permute<%s>' % T, r, a, a2b, w)
        L, rd = e.out(r, es, k)
        i = e.ivar('i', 0, na); j = e.ivar('j', 0, w)
        e.prove('size', L == na * w)
        e.prove('entry (p[i],j) is entry (i,j)', rd(a2b(i) * w + j) == a(i * w + j))
    return f
def expand(T, into):
    def f(e):
        es, k = TY[T]; na, nb, w = sizes(e)
        a2b = e.fan('a2b', na, nb); a = e.array('a', na * w, es, k)
        if into:
            b = e.array('b', nb * w, es, k)
            e.call('Omega_h::expand_into<%s>' % T, a, a2b, b, w); rd = wr(e, b)
        else:
            r = e.sret(); e.call('Omega_h::expand<%s>' % T, r, a, a2b, w)
            L, rd = e.out(r, es, k); e.prove('size', L == nb * w)
        i = e.ivar('i', 0, na); x = e.ivar('x', 0, nb); j = e.ivar('j', 0, w)
        e.assume(a2b(i) <= x); e.assume(x < a2b(i + 1))
        e.prove('every slot of fan i holds entry i', rd(x * w + j) == a(i * w + j))
    return f
def compound(e):
    na, nb, nc = e.int('na', 0, I31), e.int('nb', 0, I31), e.int('nc', 0, I31)
    a = e.array('a2b', na, rng=(0, nb)); b = e.array('b2c', nb, rng=(0, nc)); r = e.sret()
    e.call('Omega_h::compound_maps', r, a, b)
    L, rd = e.out(r); i = e.ivar('i', 0, na)
    e.prove('size', L == na); e.prove('composition', rd(i) == b(a(i)))
def invperm(e):
    na = e.int('na', 0, I31); a = e.injective('a2b', na, na); r = e.sret()
    e.call('Omega_h::invert_permutation', r, a)
    L, rd = e.out(r); i = e.ivar('i', 0, na)
    e.prove('size', L == na); e.prove('left inverse', rd(a(i)) == i)
def invinj(e):
    na = e.int('na', 0, I31 - 1); nb = e.int('nb', 0, I31); a = e.injective('a2b', na, nb); r = e.sret()
    e.call('Omega_h::invert_injective_map', r, a, nb)
    L, rd = e.out(r); i = e.ivar('i', 0, na); y = e.ivar('y', 0, nb)
    e.prove('size', L == nb); e.prove('left inverse', rd(a(i)) == i)
    e.prove('unmapped entries are -1, mapped ones point back', z3.Or(rd(y) == -1, z3.And(0 <= rd(y), rd(y) < na, a(rd(y)) == y)))
def inject_map(e):
    na = e.int('na', 0, I31 - 1); nb = e.int('nb', 0, I31); a = e.injective('a2b', na, nb); b = e.array('b', nb)
    e.call('Omega_h::inject_map', a, b)
    rd = wr(e, b); i = e.ivar('i', 0, na); y = e.ivar('y', 0, nb)
    e.prove('inverse entries', rd(a(i)) == i)
    e.prove('others untouched', z3.Or(rd(y) == b(y), z3.And(0 <= rd(y), rd(y) < na, a(rd(y)) == y)))
def invmarks(e):
    n = e.int('n', 0, I31); m = e.array('m', n, 1, rng=(0, 2)); r = e.sret()
    e.call('Omega_h::invert_marks', r, m)
    L, rd = e.out(r, 1); i = e.ivar('i', 0, n)
    e.prove('size', L == n); e.prove('logical not', rd(i) == z3.If(m(i) == 0, 1, 0))
def mark_image(e):
    na = e.int('na', 0, I31 - 1); nb = e.int('nb', 0, I31); a = e.array('a2b', na, rng=(0, nb)); r = e.sret()
    e.call('Omega_h::mark_image', r, a, nb)
    L, rd = e.out(r, 1); i = e.ivar('i', 0, na); y = e.ivar('y', 0, nb); q = z3.Int('q')
    e.prove('size', L == nb); e.prove('image is marked', rd(a(i)) == 1)
    e.prove('only the image is marked', z3.Or(rd(y) == 0, z3.And(rd(y) == 1, z3.Exists([q], z3.And(0 <= q, q < na, a(q) == y)))))
def degrees(e):
    na = e.int('na', 0, I31 - 1); nb = e.int('nb', 0, I31); a = e.fan('a2b', na, nb); r = e.sret()
    nm = e.sret(32)
    e.call('Omega_h::get_degrees', r, a, nm)
    L, rd = e.out(r); i = e.ivar('i', 0, na)
    e.prove('size', L == na); e.prove('degree', rd(i) == a(i + 1) - a(i))
def fan_preimage(e):
    na = e.int('na', 0, I31 - 1); nb = e.int('nb', 0, I31); a = e.fan('a2b', na, nb); r = e.sret()
    e.call('Omega_h::mark_fan_preimage', r, a)
    L, rd = e.out(r, 1); i = e.ivar('i', 0, na)
    e.prove('size', L == na); e.prove('marked iff the fan is not empty', rd(i) == z3.If(a(i + 1) > a(i), 1, 0))
TASKS = []
for T in TY:
    TASKS += [Task('unmap<%s>' % T, unmap(T), MAPU), Task('unmap_range<%s>' % T, unmap_range(T), MAPU), Task('map_into<%s>' % T, map_into(T), MAPU),
        Task('add_into<%s>' % T, map_into(T, 'add_into'), MAPU), Task('map_value_into<%s>' % T, map_value_into(T), MAPU), Task('map_into_range<%s>' % T, map_into_range(T), MAPU),
        Task('map_onto<%s>' % T, map_onto(T), MAPU), Task('permute<%s>' % T, permute(T), MAPU), Task('expand_into<%s>' % T, expand(T, True), MAPU), Task('expand<%s>' % T, expand(T, False), MAPU)]
for n, f in dict(compound_maps=compound, invert_permutation=invperm, invert_injective_map=invinj, inject_map=inject_map, invert_marks=invmarks, mark_image=mark_image, get_degrees=degrees, mark_fan_preimage=fan_preimage).items():
    TASKS.append(Task(n, f, MAPU))
from native import Native
PROP = Prop('P01', TASKS, native=[Native('maps', ['maps'])], trusted=['SharedAlloc/Write/Read storage contracts (the storage layer itself is property P18)'],
    assumptions=['array lengths and products length*width fit in 31 bits (the library\'s LO type)', 'serial back end of parallel_for; each loop is proved free of cross-iteration conflicts, so any schedule computes the same arrays', 'floating-point data is only copied here; sums over doubles are sums of reals'])
