"""P17: choice of owners and exchange plans.  An exchange plan is built by the real constructor on two ranks of one run: a client p and
a server q, one symbolic state holding both.  MPI enters by one contract: what p puts at position k of its messages arrives at a position
L(k) of the messages of q when message number own(k) of p goes to q, and the inverse communicator moves it back along the same links."""
from prop import *
from stdc import *
from native import Native
import z3
from p25 import Log, hobj, TY, rda
from p04 import kernel, fire, sized, rdo
U = ('dist', 'map', 'array', 'array_ops', 'shared_alloc', 'sort', 'owners')
B30 = 2**30
TASKS = []
def T(name, f, *c, U=U, **kw): TASKS.append(Task(name, f, U, contracts=lambda: IMA + SCAN + FANINV + list(c), **kw))
def arrp(cx, st, h, off=0): return cx.load(cx.padd(h, off + 8), ptr_t(), st)

def sort_small_h(cx, nm, a, st, Ins):
    """tasks 'sort_small_range' (P02): positions of the items when grouped by value, offsets of the groups, the values in increasing order"""
    top(cx, nm); n, rd = rdh(cx, st, a[0]); n = cx.zi(n); x, y = z3.Int('x!'), z3.Int('y!'); K = cx.fresh('ngroups', I); cx.fact(z3.And(K >= 0, K <= n), guard=False); cx.set_rng(K, (0, None))
    P, Q, OFF, Uq = fnew(cx, 'pos', I, I), fnew(cx, 'posinv', I, I), fnew(cx, 'OFF', I, I), fnew(cx, 'uniq', I, I)
    for f in (P, OFF, Uq): lo_rng(cx, f)
    own = fan_facts(cx, OFF, K); cx.fact(z3.And(OFF(0) == 0, OFF(K) == n), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= P(x), P(x) < n, Q(P(x)) == x, Uq(own(P(x))) == rd(x), own(P(x)) >= 0, own(P(x)) < K)), patterns=[P(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= Q(x), Q(x) < n, P(Q(x)) == x)), patterns=[Q(x)]), guard=False)
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < K), Uq(x) < Uq(y)), patterns=[z3.MultiPattern(Uq(x), Uq(y))]), guard=False)
    cx.inj[P.name()] = lambda t, at: (True, Q(cx.zi(t)))
    j = len(cx.inj); mkarr(cx, st, a[1], 'perm%d' % j, n, 4, 'i', P); mkarr(cx, st, a[2], 'fan%d' % j, cx.addi(K, 1), 4, 'i', OFF); mkarr(cx, st, a[3], 'uniq%d' % j, K, 4, 'i', Uq)
    cx.groups = getattr(cx, 'groups', []) + [(P, Q, OFF, own, Uq, K, n)]; return st, None
SSR = [(R(r'Omega_h::sort_small_range<int>\('), sort_small_h)]

class Net:
    """communicators by contract; every message exchange is recorded"""
    def __init__(s, e): s.e = e; s.cx = e.cx; s.comms = {}; s.ev = Log(e); s.nr = e.int('nranks', 1, B30); s.moves = []; s.world = s.comm(kind='world', rank=e.int('rank', 0)); s.pin = []; s.install()
    def comm(s, **kw): p = s.cx.new_obj(s.e.st, 'comm%d' % len(s.comms), 64); s.comms[p.obj] = dict(kw, ptr=p); return p
    def sp(s, c):
        h = s.cx.new_obj(s.e.st, 'commptr', 16); s.e.st.objs[h.obj] = RecC({0: (8, c, 'p'), 8: (8, NULL, 'p')}); return h
    def of(s, a):
        if not isinstance(a, Ptr) or a.obj not in s.comms: raise Unsupported('communicator %r' % (a,))
        return s.comms[a.obj]
    def fresh(s, base, n, lo=0, hi=None):
        cx = s.cx; f = fnew(cx, base, I, I); lo_rng(cx, f); x = z3.Int('x!'); cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(f(x) >= lo, *([f(x) < hi] if hi is not None else []))), patterns=[f(x)]), guard=False); return f
    def install(s):
        e, cx = s.e, s.cx
        def put(st, h, p): cx.store(h, p, ptr_t(), st); cx.store(cx.padd(h, 8), NULL, ptr_t(), st)
        def null(cx, nm, a, st, I): put(st, a[0], NULL); return st, None
        def cp(cx, nm, a, st, I): put(st, a[0], cx.load(a[1], ptr_t(), st)); return st, a[0]
        def get(cx, nm, a, st, I): return st, cx.load(a[0], ptr_t(), st)
        def die(cx, nm, a, st, I): return st, None
        def new(cx, a, st, **kw):
            key = (kw['kind'], kw.get('of'), kw.get('key')); d = [c for c in s.comms.values() if c.get('ident') == key]
            if d: p = d[0]['ptr']
            else: p = cx.new_obj(st, 'comm%d' % len(s.comms), 64); e.st.objs.setdefault(p.obj, st.objs[p.obj]); s.comms[p.obj] = dict(kw, ptr=p, ident=key)
            put(st, a[0], p)
            return st, None
        def graph(cx, nm, a, st, I):
            c = s.of(a[1]); n, rd = rdh(cx, st, a[2]); K = cx.fresh('nsources', I_()); cx.fact(K >= 0, guard=False); cx.set_rng(K, (0, None)); return new(cx, a, st, kind='graph', of=a[1].obj, key=hobj(cx, st, a[2]), dsts=(n, rd, hobj(cx, st, a[2])), nsrcs=K, rank=c['rank'], dir=0)
        def inverse(cx, nm, a, st, I):
            c = s.of(a[1]); return new(cx, a, st, kind='inverse', of=a[1].obj, dsts=None, ndsts=c['nsrcs'], nsrcs=c['dsts'][0] if c.get('dsts') else c['ndsts'], rank=c['rank'], dir=1, inv=c)
        def nd(c): return c['dsts'][0] if c.get('dsts') else c['ndsts']
        def a2a(cx, nm, a, st, I):
            c = s.of(a[1]); n, rd = rdh(cx, st, a[2]); top(cx, nm); cx.oblige('alltoall: one value per destination', cx.zi(n) == cx.zi(nd(c)), 'pre', st.pc); f = s.fresh('from_sources', cx.zi(c['nsrcs'])); mkarr(cx, st, a[0], 'from_sources', c['nsrcs'], 4, 'i', f); return st, None
        def a2av(cx, nm, a, st, I):
            t = re.search(r'alltoallv<([^()<>]*)>', dem(nm)).group(1); es, kd = TY[t]; c = s.of(a[1]); top(cx, nm); N, rd = rdh(cx, st, a[2], es, kd); m1, sd = rdh(cx, st, a[3]); m2, rv = rdh(cx, st, a[4]); w = a[5]; ns, nr_ = cx.subi(m1, 1), cx.subi(m2, 1)
            cx.oblige('alltoallv: one message per destination and source', z3.And(cx.zi(ns) == cx.zi(nd(c)), cx.zi(nr_) == cx.zi(c['nsrcs'])), 'pre', st.pc)
            tot, rtot = sd(cx.zi(ns)), rv(cx.zi(nr_)); cx.oblige('alltoallv: the messages hold all the data', cx.zi(N) == cx.zi(w) * tot, 'pre', st.pc)
            f = s.pin.pop(0) if s.pin else fnew(cx, 'received', I_(), cx.fpsort() if kd == 'f' else I_())
            if kd == 'i' and es == 4: lo_rng(cx, f)
            mkarr(cx, st, a[0], 'received%d' % len(s.ev), cx.muli(w, rtot), es, kd, f); s.ev.add(st, dict(comm=a[1].obj, c=c, t=t, w=w, sent=rd, sd=hobj(cx, st, a[3]), rd=hobj(cx, st, a[4]), recv=f, rtot=rtot)); return st, None
        def dests(cx, nm, a, st, I):
            c = s.of(a[1])
            if not c.get('dsts'):
                if 'dfn' not in c: c['dfn'] = s.fresh('destinations', cx.zi(c['ndsts']), 0, s.nr)
                mkarr(cx, st, a[0], 'destinations', c['ndsts'], 4, 'i', c['dfn']); return st, None
            n, rd, o = c['dsts']; h = cx.fresh_name('d'); mkarr(cx, st, a[0], 'destinations', n, 4, 'i', c.setdefault('dfn', s.same(rd))); return st, None
        def allg(cx, nm, a, st, I):
            c = s.of(a[1]); f = s.fresh('gathered', cx.zi(c['nsrcs'])); mkarr(cx, st, a[0], 'gathered', c['nsrcs'], 4, 'i', f); s.ev.add(st, dict(gather=a[2], c=c, f=f)); return st, None
        def move(kind):
            def h(cx, nm, a, st, I):
                """tasks 'permute', 'expand', 'unmap' (P01, P25), any width"""
                t = es_t(nm); es, kd = TY[t]; top(cx, nm); du, mu = (2, 1) if kind == 'unmap' else (1, 2); N, data = rdh(cx, st, a[du], es, kd); m1, mp = rdh(cx, st, a[mu]); w = a[3]; f = fnew(cx, kind, I_(), cx.fpsort() if kd == 'f' else I_()); m = cx.zi(m1); x, y = cx.fresh('x', I_()), cx.fresh('y', I_())
                if kd == 'i' and es == 4: lo_rng(cx, f)
                rows = cx.divexact(N, w); cx.oblige('%s: the width divides the data' % kind, z3.BoolVal(rows is not None), 'pre', st.pc)
                if rows is None: raise Unsupported('rows of the data given to ' + kind)
                rows = cx.zi(rows)
                if kind == 'permute':
                    cx.oblige('permute: as many rows as targets', rows == m, 'pre', st.pc); cx.oblige('permute: targets are in range and distinct', z3.And(z3.Implies(z3.And(0 <= x, x < m), z3.And(mp(x) >= 0, mp(x) < m)), z3.Implies(z3.And(0 <= x, x < m, 0 <= y, y < m, x != y), mp(x) != mp(y))), 'pre', st.pc)
                    n = m; fact = lambda x, y, c: z3.Implies(z3.And(0 <= x, x < m, 0 <= c, c < w), f(mp(x) * w + c) == data(x * w + c))
                elif kind == 'unmap':
                    cx.oblige('unmap: sources are in range', z3.Implies(z3.And(0 <= x, x < m), z3.And(mp(x) >= 0, mp(x) < rows)), 'pre', st.pc); n = m; fact = lambda x, y, c: z3.Implies(z3.And(0 <= x, x < m, 0 <= c, c < w), f(x * w + c) == data(mp(x) * w + c))
                else:
                    cx.oblige('expand: one row per fan', rows == m - 1, 'pre', st.pc); cx.oblige('expand: offsets start at zero and do not decrease', z3.And(mp(z3.IntVal(0)) == 0, z3.Implies(z3.And(0 <= x, x < m - 1), mp(x) <= mp(x + 1))), 'pre', st.pc)
                    n = mp(m - 1); fact = lambda x, y, c: z3.Implies(z3.And(0 <= x, x < m - 1, mp(x) <= y, y < mp(x + 1), 0 <= c, c < w), f(y * w + c) == data(x * w + c))
                
                s.moves.append(fact); mkarr(cx, st, a[0], kind, cx.muli(n, w), es, kd, f)
                if kind == 'unmap' and cx.veq(w, 1): o = arrp(cx, st, a[0]).obj; st.objs[o] = ArrC(es, kd, AFun(lambda t: data(cx.zi(mp(t)))))
                return st, None
            return h
        def es_t(nm): return re.search(r'::(?:permute|expand|unmap)<([^()<>]*)>', dem(nm)).group(1)
        cx.contracts = [(R(r'Omega_h::%s<[^()<>]*>\(' % k), move(k)) for k in ('permute', 'expand', 'unmap')] + list(cx.contracts)
        SPC = r'^std::(__)?shared_ptr(_access)?<Omega_h::Comm.*>::'; CC = r'^Omega_h::Comm::'
        cx.contracts = [(R(SPC + r'(shared_ptr|__shared_ptr)\(\)'), null), (R(SPC + r'(shared_ptr|__shared_ptr)\(std::shared_ptr'), cp), (R(SPC + r'operator=\('), cp), (R(SPC + r'operator(->|\*)\('), get), (R(SPC + r'get\('), get), (R(SPC + r'~'), die),
            (R(CC + r'graph\('), graph), (R(CC + r'graph_inverse\('), inverse), (R(r'.*Omega_h::Comm::alltoall<int>\('), a2a), (R(r'.*Omega_h::Comm::alltoallv<'), a2av), (R(CC + r'destinations\('), dests), (R(r'.*Omega_h::Comm::allgather<int>\('), allg), (R(CC + r'rank\('), lambda cx, nm, a, st, I: (st, s.of(a[0])['rank'])), (R(CC + r'size\('), lambda cx, nm, a, st, I: (st, s.nr))] + SSR + list(cx.contracts); cx.ccache.clear()
    def use(s, xs, ys=(0,), cs=(0,)):
        """instances of the contracts of permute, expand and unmap"""
        for f in s.moves:
            for x in xs:
                for y in ys:
                    for c in cs: s.e.assume(f(*[s.cx.zi(t) for t in (x, y, c)]))
    def same(s, rd):
        f = fnew(s.cx, 'destination', I, I); lo_rng(s.cx, f); x = z3.Int('x!'); s.cx.fact(z3.ForAll([x], f(x) == rd(x), patterns=[f(x)]), guard=False); return f
def I_(): return z3.IntSort()
class Plan:
    """a plan made by Dist::Dist(comm, owner references, number of roots)"""
    def __init__(s, e, net, nm, n=None):
        cx = e.cx; s.e = e; s.n = e.int(nm + 'items', 0, B30); s.nroots = e.int(nm + 'roots', 0, B30); s.ranks = e.array(nm + 'ranks', s.n, rng=(0, net.nr)); s.idxs = e.array(nm + 'idxs', s.n); s.d = cx.new_obj(e.st, nm + 'dist', 144)
        r = cx.new_obj(e.st, 'remotes', 32)
        for h, o in ((s.ranks, 0), (s.idxs, 16)):
            for q in (0, 8): cx.store(cx.padd(r, o + q), cx.load(cx.padd(h.ptr, q), ptr_t(), e.st), ptr_t(), e.st)
        i0, i1 = len(net.ev), len(getattr(cx, 'inverted', [])); f = fnew(cx, nm + 'recv_idx', I_(), I_()); lo_rng(cx, f); x = z3.Int('x!'); cx.fact(z3.ForAll([x], z3.And(f(x) >= 0, f(x) < s.nroots), patterns=[f(x)]), guard=False); net.pin = [f]
        e.call('Omega_h::Dist::Dist', s.d, net.sp(net.world), r, s.nroots, params='Omega_h::Remotes, int')
        s.P, s.Q, s.OFF, s.own, s.U, s.K, _ = cx.groups[-1]; s.rOFF, s.rown, s.IT, s.POS, _, _, _ = cx.inverted[-1]; s.first = net.ev[i0]; s.N = s.first['rtot']
    def inv(s): h = s.e.cx.new_obj(s.e.st, 'inv', 144); s.e.call('Omega_h::Dist::invert', h, s.d); return h
def link(e, p, q, i, net):
    """item i of the client is addressed to the server: where it arrives"""
    L = e.cx.fresh('arrives_at', I_()); k = p.P(i); net.use([i]); e.prove('the message of an item goes to the rank of its owner', z3.And(p.own(k) >= 0, p.own(k) < p.K, p.U(p.own(k)) == p.ranks(i)), 'post'); e.assume(z3.And(L >= 0, L < q.N)); e.assume(q.first['recv'](L) == p.first['sent'](k)); return k, L
def plan(t, what):
    def f(e):
        cx = e.cx; es, kd = TY[t]; net = Net(e); p, q = Plan(e, net, 'client_'), Plan(e, net, 'server_'); i = e.ivar('i', 0, p.n); w = e.int('width', 1, 512); c = e.ivar('c', 0, w); k, L = link(e, p, q, i, net); j = p.idxs(i)
        e.prove('the server learns which root an item belongs to', q.first['recv'](L) == j)
        if what == 'back':
            data, own_ = e.array('server_data', q.nroots * w, es, kd), e.array('client_data', p.nroots * w, es, kd); r1, r2 = e.sret(name='r1'), e.sret(name='r2'); a = len(net.ev)
            e.call('Omega_h::Dist::exch<%s>' % t, r1, q.inv(), data, w); s1 = net.ev[a]; e.call('Omega_h::Dist::exch<%s>' % t, r2, p.inv(), own_, w); s2 = net.ev[a + 1]
            e.prove('the data goes back along the links it came from', z3.BoolVal(s1['c'].get('inv') is q.first['c'] and s2['c'].get('inv') is p.first['c'] and (s1['sd'], s1['rd'], s2['sd'], s2['rd']) == (q.first['rd'], q.first['sd'], p.first['rd'], p.first['sd'])))
            m = q.POS(L); net.use([i, j, m], [m], [c]); e.prove('what the server sends to a copy', s1['sent'](L * w + c) == data(j * w + c)); e.assume(s2['recv'](k * w + c) == s1['sent'](L * w + c))
            n, A = e.out(r2, es, kd); e.prove('one value per copy', cx.zi(n) == p.n * w); e.prove('every copy receives the value at its owner', A(i * w + c) == data(j * w + c))
        else:
            data, own_ = e.array('client_data', p.n * w, es, kd), e.array('server_data', q.n * w, es, kd); r1, r2 = e.sret(name='r1'), e.sret(name='r2'); a = len(net.ev)
            e.call('Omega_h::Dist::exch<%s>' % t, r1, p.d, data, w); s1 = net.ev[a]; e.call('Omega_h::Dist::exch<%s>' % t, r2, q.d, own_, w); s2 = net.ev[a + 1]
            e.prove('the data goes along the links of the plan', z3.BoolVal(s1['c'] is p.first['c'] and s2['c'] is q.first['c'] and (s1['sd'], s1['rd'], s2['sd'], s2['rd']) == (p.first['sd'], p.first['rd'], q.first['sd'], q.first['rd'])))
            m = q.POS(L); net.use([i, m], [m], [c]); e.prove('what a copy sends to its owner', s1['sent'](k * w + c) == data(i * w + c)); e.assume(s2['recv'](L * w + c) == s1['sent'](k * w + c))
            n, A = e.out(r2, es, kd); e.prove('one value per copy of a root here', cx.zi(n) == q.N * w); e.prove('the owner receives the value of every copy', A(m * w + c) == data(i * w + c))
            off = arrp(cx, e.st, cx.padd(q.d, 16 + 16)); rd = rda(e, off.obj, 'int'); e.prove('among the values of that root', z3.And(rd(j) <= m, m < rd(j + 1)))
            L2 = e.ivar('L2', 0, q.N); e.prove('values of different copies are different values', z3.Implies(L2 != L, q.POS(L2) != m)); z = e.ivar('z', 0, q.N); e.prove('every value is that of a copy', z3.And(q.IT(z) >= 0, q.IT(z) < q.N, q.POS(q.IT(z)) == z))
    return f
for t in TY:
    T('exchange plan: copies to owner, %s' % t, plan(t, 'forth')); T('exchange plan: owner to copies, %s' % t, plan(t, 'back'))

class DistC:
    """a plan from copies to owners and its inverse, by contract (tasks 'exchange plan')"""
    def __init__(s, e, net):
        cx = e.cx; s.e, s.net = e, net; s.n = e.int('ncopies', 0, B30); s.no = e.int('nowners', 0, B30); s.S = e.int('nserv', 0, B30); s.d = cx.new_obj(e.st, 'dist', 144); s.kind = {(s.d.obj, 0): 'c2o'}; s.ev = Log(e)
        s.off = e.fan('old2serv', s.no, s.S); s.ncl = e.int('nclients', 0, B30); s.cl = e.array('serv2client', s.S, rng=(0, s.ncl)); s.cr = e.array('client2rank', s.ncl, rng=(0, net.nr)); s.nc = e.array('client_ncopies', s.ncl, rng=(0, B30)); s.fcomm = net.comm(kind='graph', rank=0, dsts=None, ndsts=e.int('nservers', 0, B30), nsrcs=s.ncl)
        def k(a): return s.kind[(a.obj, a.c)]
        def need(cx, a, kind, st, what): cx.oblige(what + ': plan of the right direction', z3.BoolVal(k(a) == kind), 'post', st.pc)
        def give(h):
            def f(cx, a, st): [cx.store(cx.padd(a[0], o), cx.load(cx.padd(h.ptr, o), ptr_t(), st), ptr_t(), st) for o in (0, 8)]; return st, None
            return f
        def q(kind, what, g, at=1):
            def f(cx, nm, a, st, I): top(cx, nm); need(cx, a[at], kind, st, what); return g(cx, a, st)
            return f
        def inv(cx, nm, a, st, I): s.kind[(a[0].obj, a[0].c)] = 'o2c' if k(a[1]) == 'c2o' else 'c2o'; return st, None
        def cp(cx, nm, a, st, I):
            if len(a) > 1: s.kind[(a[0].obj, a[0].c)] = k(a[1])
            return st, a[0]
        def put(c):
            def f(cx, a, st): cx.store(a[0], c, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
            return f
        def exch(cx, nm, a, st, I):
            t = re.search(r'exch<([^()<>]*)>', dem(nm)).group(1); es, kd = TY[t]; top(cx, nm); kk = k(a[1]); N, rd = rdh(cx, st, a[2], es, kd); w = a[3]; src, out = (s.n, s.S) if kk == 'c2o' else (s.no, s.n); cx.oblige('exch: one value per source', cx.zi(N) == cx.zi(w) * src, 'pre', st.pc)
            f = fnew(cx, 'exchanged', I_(), cx.fpsort() if kd == 'f' else I_())
            if kd == 'i' and es == 4: lo_rng(cx, f)
            o = hobj(cx, st, a[2]); mkarr(cx, st, a[0], 'exchanged%d' % len(s.ev), cx.muli(w, out), es, kd, f); s.ev.add(st, dict(k=kk, w=w, sent=rd, obj=o, recv=f, out=hobj(cx, st, a[0]), t=t)); return st, None
        def allg(cx, nm, a, st, I): top(cx, nm); cx.oblige('counts are asked from the clients', z3.And(z3.BoolVal(a[1].obj == s.fcomm.obj), cx.zi(a[2]) == s.n), 'post', st.pc); return give(s.nc)(cx, a, st)
        D = r'Omega_h::Dist::'
        cx.contracts = [(R(D + r'invert\('), inv), (R(D + r'nitems\('), q('c2o', 'nitems', lambda cx, a, st: (st, s.n), 0)), (R(D + r'nroots\('), q('o2c', 'nroots', lambda cx, a, st: (st, s.no), 0)), (R(D + r'items2msgs\('), q('o2c', 'items2msgs', give(s.cl))), (R(D + r'roots2items\('), q('o2c', 'roots2items', give(s.off))), (R(D + r'msgs2ranks\('), q('o2c', 'msgs2ranks', give(s.cr))),
            (R(D + r'comm\('), q('c2o', 'comm', put(s.fcomm))), (R(D + r'parent_comm\('), lambda cx, nm, a, st, I: put(net.world)(cx, a, st)), (R(D + r'exch<'), exch), (R(r'Omega_h::Comm::allgather<int>\('), allg), (R(D + r'(~Dist|Dist\(Omega_h::Dist|operator=)'), cp)] + list(cx.contracts); cx.ccache.clear()
def grab_loops(e, pat, arrays):
    """the parallel loops of the function, in order; the arrays they may write are arbitrary afterwards"""
    got = []; cx = e.cx
    def h(cx, nm, a, st, I):
        had = arrays(st); got.append(dict(nm=nm, a=a, st=State(dict(st.objs), st.pc), had=had))
        for o in had: es, kd = had[o]; st.objs[o] = ArrC(es, kd, ABase(fnew(cx, 'loop%d' % len(got), I_(), I_())))
        return st, None
    cx.contracts = [(R(r'Omega_h::parallel_for<.*' + pat), h)] + list(cx.contracts); cx.ccache.clear(); return got
def body(e, b):
    """the kernel of a loop, in the state it starts from"""
    cx = e.cx; k = re.search(r'parallel_for<(.*)>\(', dem(b['nm'])).group(1); fns = [x for x in cx.mod.defs if dem(x).startswith(k + '::operator()(int)')]
    if len(fns) != 1: raise Unsupported('kernel %s: %d candidates' % (k, len(fns)))
    e.st = b['st']; return cx.mod.function(fns[0]), [a for a in b['a'] if isinstance(a, Ptr)][0]
def update(given):
    def f(e):
        cx = e.cx; net = Net(e); D = DistC(e, net); given_r = e.array('own_ranks', D.n) if given else None; r = e.sret(32); none = cx.new_obj(e.st, 'none', 16); e.st.objs[none.obj] = RecC({0: (8, NULL, 'p'), 8: (8, NULL, 'p')}); had = set(e.st.objs)
        def arrays(st): return {o: (4, 'i') for o in st.objs if o not in had and cx.meta[o].nbytes is not None and cx.veq(cx.meta[o].nbytes, cx.muli(4, D.no)) and not isinstance(st.objs[o], RecC)}
        got = grab_loops(e, 'update_ownership', arrays); e.call('Omega_h::update_ownership', r, D.d, given_r if given else none); ev = list(D.ev); fin = e.st; x = e.ivar('x', 0, D.n); o = e.ivar('o', 0, D.no); idx, rk = arrp(cx, fin, r, 16).obj, hobj(cx, fin, r)
        back = {v['out']: v for v in ev if v['k'] == 'o2c' and v['w'] == 1 and v['t'] == 'int'}; E = [v for v in ev if v['k'] == 'c2o' and v['w'] == 1 and v['t'] == 'int']; first = [v for v in E if not given or v['obj'] != given_r_obj(e, given_r)]
        e.prove('one loop over the old owners, one exchange of the indices of the copies', z3.BoolVal(len(got) == 1 and len(first) == 1 and idx in back and len(ev) == 3)); b = got[0]; e.prove('every copy tells its index', first[0]['sent'](x) == x); e.prove('the index of the owner comes from the old owner', z3.BoolVal(back[idx]['obj'] in b['had']))
        if given: e.prove('the given ranks are kept', z3.BoolVal(rk == given_r_obj(e, given_r)))
        else: e.prove('the rank of the owner comes from the old owner', z3.BoolVal(rk in back and back[rk]['obj'] in b['had'] and back[rk]['obj'] != back[idx]['obj']))
        fn, clo = body(e, b); e.prove('the loop covers all old owners', z3.BoolVal(any(cx.veq(a, D.no) for a in b['a'] if not isinstance(a, Ptr)))); nf = len(cx.folds); lo, hi = D.off(o), D.off(o + 1); rank = lambda t: D.cr(D.cl(t)); IDX = first[0]['recv']
        if given:
            O = [v for v in ev if v['obj'] == given_r_obj(e, given_r)][0]['recv']; mine = lambda t: z3.And(lo <= t, t < hi, O(t) == rank(t)); y = e.ivar('y'); e.assume(mine(y)); z = z3.Int('z!'); e.assume(z3.ForAll([z], z3.Implies(mine(z), z == y), patterns=[O(z)])); fire(e, fn, clo, o); X = rda(e, back[idx]['obj'], 'int')(o)
            e.prove('the owner is the copy on the rank that all copies name', X == IDX(y))
        else:
            fire(e, fn, clo, o); e.assume(hi - lo >= 1); X, Rk = rda(e, back[idx]['obj'], 'int')(o), rda(e, back[rk]['obj'], 'int')(o); F = {x.F.decl().name(): x.F.decl() for x in cx.folds[nf:]}; FX, FR = [decls_of(t, F) for t in (X, Rk)]; FC = [F[k] for k in F if k not in (FX.name(), FR.name())]
            if len(FC) != 1: raise Unsupported('loop over the copies')
            cnt = lambda t: D.nc(D.cl(lo + t)); rnk = lambda t: rank(lo + t); less = lambda a, b: z3.Or(cnt(a) < cnt(b), z3.And(cnt(a) == cnt(b), rnk(a) < rnk(b))); n = e.int('copies'); e.assume(n == hi - lo); W_ = e.ghost('best', n, z3.IntVal(0), lambda k, b: z3.If(z3.Or(k == 0, less(k, b)), k, b)); y = e.ivar('y', 0, n)
            e.induct('best copy so far', n, lambda t: z3.Implies(t >= 1, z3.And(0 <= W_(t), W_(t) < t, FX(t) == IDX(lo + W_(t)), FR(t) == rnk(W_(t)), FC[0](t) == cnt(W_(t)), z3.Implies(y < t, z3.Not(less(y, W_(t)))))), pats=lambda t: [W_(t)])
            w = W_(n); e.prove('the owner is one of the copies', z3.And(0 <= w, w < n, X == IDX(lo + w), Rk == rnk(w))); e.prove('no copy is on a rank with fewer copies, or with as many and a lower rank', z3.Not(less(y, w)))
    return f
def decls_of(t, F):
    todo, got = [t], set()
    while todo: x = todo.pop(); todo += x.children(); got |= {x.decl().name()} & set(F)
    if len(got) != 1: raise Unsupported('result of the loop over the copies')
    return F[got.pop()]
def given_r_obj(e, h): return hobj(e.cx, e.st, h.ptr)
for g in (0, 1): T('update_ownership%s' % (', ranks given' if g else ''), update(g))

# ---- what a plan says about itself
def queries(e):
    cx = e.cx; net = Net(e); p, q = Plan(e, net, 'client_'), Plan(e, net, 'server_'); i = e.ivar('i', 0, p.n); k, L = link(e, p, q, i, net); j = p.idxs(i); r = [e.sret(name='r%d' % x) for x in range(4)]
    e.call('Omega_h::Dist::items2ranks', r[0], p.d); net.use([i]); W = cx.fan_inv[0](k); o = p.own(k); n, A = e.out(r[0]); e.prove('every entry of a message belongs to it', z3.Implies(z3.And(0 <= k, k < p.n), W == o), 'lemma'); e.prove('one rank per item', cx.zi(n) == p.n); e.prove('the rank of the owner of an item', A(i) == p.ranks(i))
    a = len(net.ev); e.call('Omega_h::Dist::items2dest_idxs', r[1], q.d); s1 = net.ev[a]; a = len(net.ev); e.call('Omega_h::Dist::items2dest_idxs', r[2], p.d); s2 = net.ev[a]; net.use([i, j, q.POS(L)], [q.POS(L)])
    e.prove('the index goes back along the links', z3.BoolVal(s1['c'].get('inv') is q.first['c'] and s2['c'].get('inv') is p.first['c'])); e.prove('the index a root sends to its copies', s1['sent'](L) == j); e.assume(s2['recv'](k) == s1['sent'](L)); n, A = e.out(r[2]); e.prove('one index per item', cx.zi(n) == p.n); e.prove('the index of the owner of an item', A(i) == j)
    e.prove('as many items as owner references', cx.zi(e.call('Omega_h::Dist::nitems', p.d)) == p.n); e.prove('as many sources as items', cx.zi(e.call('Omega_h::Dist::nsrcs', p.d)) == p.n); e.prove('as many destinations as roots', cx.zi(e.call('Omega_h::Dist::ndests', p.d)) == p.nroots); e.prove('as many roots in the inverse', cx.zi(e.call('Omega_h::Dist::nroots', p.inv())) == p.nroots)
T('exchange plan: ranks, indices and counts', queries)
FIELDS = [(0, 'parent communicator')] + [(o + 16 * x, w + (' there', ' back')[x]) for o, w in ((16, 'items of roots'), (48, 'content of items'), (80, 'content of messages'), (112, 'communicator')) for x in (0, 1)]
def key(cx, st, d, o):
    v = cx.load(cx.padd(d, o if o == 0 or o >= 112 else o + 8), ptr_t(), st); return (v.obj, v.c) if isinstance(v, Ptr) else v
def copies(e):
    cx = e.cx; net = Net(e); p = Plan(e, net, 'client_'); c, d, v = [cx.new_obj(e.st, x, 144) for x in ('copy', 'assigned', 'inverse')]
    # a plan with roots on both sides
    f = e.fan('roots2items', e.int('nforward', 0, B30), p.n); e.call('Omega_h::Dist::set_roots2items', p.d, f); K = lambda x, o: key(cx, e.st, x, o)
    e.prove('roots are kept', z3.BoolVal(K(p.d, 16) == (arrp(cx, e.st, f.ptr).obj, 0))); before = [K(p.d, o) for o, _ in FIELDS]; e.prove('every part of the plan is set', z3.BoolVal(len(set(before)) == 9 and all(x and x[0] is not None for x in before)))
    e.call('Omega_h::Dist::Dist', c, p.d, params='Omega_h::Dist const&'); e.call('Omega_h::Dist::Dist', d, params='()'); e.call('Omega_h::Dist::operator=', d, p.d); e.call('Omega_h::Dist::invert', v, p.d)
    for o, w in FIELDS:
        e.prove('a copy has the same %s' % w, z3.BoolVal(K(c, o) == K(p.d, o))); e.prove('an assigned plan has the same %s' % w, z3.BoolVal(K(d, o) == K(p.d, o)))
    for x, (o, w) in enumerate(FIELDS): e.prove('the inverse has the %s of the other direction' % w, z3.BoolVal(K(v, o) == (K(p.d, 0) if o == 0 else K(p.d, o + (16 if w.endswith('there') else -16)))))
    e.prove('the plan itself is unchanged', z3.BoolVal([K(p.d, o) for o, _ in FIELDS] == before))
T('exchange plan: copies and the inverse', copies)
def reduce_(t):
    def f(e):
        cx = e.cx; es, kd = TY[t]; net = Net(e); q = Plan(e, net, 'server_'); w = e.int('width', 1, 512); op = e.int('op', 0, 2); data = e.array('data', q.n * w, es, kd); got = []
        def fr(cx, nm, a, st, I): got.append((arrp(cx, st, a[1]).obj, rdh(cx, st, a[2], es, kd), a[3], a[4])); mkarr(cx, st, a[0], 'reduced', cx.muli(q.nroots, w), es, kd, fnew(cx, 'reduced', I_(), cx.fpsort() if kd == 'f' else I_())); cx.reduced = arrp(cx, st, a[0]).obj; return st, None
        cx.contracts = [(R(r'Omega_h::fan_reduce<'), fr)] + list(cx.contracts); cx.ccache.clear(); r = e.sret(); a = len(net.ev); e.call('Omega_h::Dist::exch_reduce<%s>' % t, r, q.d, data, w, op); v = net.ev[a]
        e.prove('one exchange along the plan, one reduction', z3.BoolVal(len(net.ev) == a + 1 and v['c'] is q.first['c'] and (v['sd'], v['rd']) == (q.first['sd'], q.first['rd']) and len(got) == 1)); o, (n, rd), w2, op2 = got[0]; e.prove('the result is the reduction', z3.BoolVal(hobj(cx, e.st, r) == cx.reduced)); x, c = e.ivar('x', 0, q.N), e.ivar('c', 0, w); net.use([x, q.POS(x)], [x], [c])
        e.prove('over the copies of each root', z3.BoolVal(o == key(cx, e.st, q.d, 32)[0])); e.prove('with the given width and operation', z3.And(cx.zi(w2) == w, cx.zi(op2) == op)); e.prove('of what the copies sent, each once', z3.And(cx.zi(n) == q.N * w, rd(q.POS(x) * w + c) == v['recv'](x * w + c), q.IT(q.POS(x)) == x, q.POS(q.IT(x)) == x))
    return f
for t in TY: T('exch_reduce<%s>' % t, reduce_(t))
def from_roots(e):
    cx = e.cx; net = Net(e); p = Plan(e, net, 'client_'); nf = e.int('nforward', 0, B30); f = e.fan('roots2items', nf, p.n); w = e.int('width', 1, 512); data = e.array('data', nf * w); r = e.sret(); e.call('Omega_h::Dist::set_roots2items', p.d, f); a = len(net.ev); e.call('Omega_h::Dist::exch<int>', r, p.d, data, w); v = net.ev[a]
    x, y, c = e.ivar('x', 0, nf), e.ivar('y', 0, p.n), e.ivar('c', 0, w); e.assume(z3.And(f(x) <= y, y < f(x + 1))); net.use([x, y], [y], [c]); e.prove('every item of a root carries its value', v['sent'](p.P(y) * w + c) == data(x * w + c)); e.prove('as many sources as roots', cx.zi(e.call('Omega_h::Dist::nsrcs', p.d)) == nf)
T('set_roots2items: a root sends to each of its items', from_roots)
def by_globals(e):
    cx = e.cx; net = Net(e); n = e.int('n', 0, B30); ranks = e.array('ranks', n, rng=(0, net.nr)); g = e.array('globals', n, 8); d = cx.new_obj(e.st, 'dist', 144); e.call('Omega_h::Dist::Dist', d, params='()'); e.call('Omega_h::Dist::set_parent_comm', d, net.sp(net.world)); e.call('Omega_h::Dist::set_dest_ranks', d, ranks); e.call('Omega_h::Dist::set_dest_globals', d, g); P = cx.groups[-1][0]; PI, INV, m = cx.perms[-1]; v1 = net.ev[0]
    i = e.ivar('i', 0, n); r = e.sret(); net.use([i]); e.prove('every item sends its global number', v1['sent'](P(i)) == g(i)); a = len(net.ev); e.call('Omega_h::Dist::exch<long>', r, d, g, 1); v2 = net.ev[a]; x, y = e.ivar('x', 0, m), e.ivar('y', 0, m); z = z3.Int('x!'); net.use([i, x, y]); e.prove('the same is sent again', v2['sent'](P(i)) == v1['sent'](P(i))); e.assume(z3.ForAll([z], v2['recv'](z) == v1['recv'](z), patterns=[v2['recv'](z)]))
    N, A = e.out(r, 8); e.prove('one item per message entry', cx.zi(N) == v1['rtot']); e.prove('items arrive in the order of their global numbers', z3.Implies(x < y, A(x) <= A(y))); e.prove('each once', z3.And(A(x) == v2['recv'](PI(x)), INV(PI(x)) == x, PI(INV(x)) == x)); e.prove('items are the roots', z3.BoolVal(key(cx, e.st, d, 32) in ((None, 0), 0) or key(cx, e.st, d, 32)[0] is None))
T('set_dest_globals', by_globals, *SBK)
def change(e):
    cx = e.cx; net = Net(e); p = Plan(e, net, 'client_'); new = net.comm(kind='world', rank=e.int('new_rank', 0)); got = []; F0, R0 = key(cx, e.st, p.d, 112)[0], key(cx, e.st, p.d, 128)[0]; fields = [key(cx, e.st, p.d, o) for o, _ in FIELDS[1:7]]; made = net.comm(kind='graph', rank=0, dsts=None, ndsts=e.int('nd', 0), nsrcs=e.int('ns', 0))
    def adj(cx, nm, a, st, I): got.append((a[1].obj, rdh(cx, st, a[2]), rdh(cx, st, a[3]))); cx.store(a[0], made, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
    cx.contracts = [(R(r'^Omega_h::Comm::graph_adjacent\('), adj)] + list(cx.contracts); cx.ccache.clear(); a = len(net.ev); e.call('Omega_h::Dist::change_comm', p.d, net.sp(new)); g = net.ev[a:]; ok = len(g) == 2 and len(got) == 1; e.prove('neighbours in both directions are asked once', z3.BoolVal(ok and [x['c'] for x in g] == [net.comms[F0], net.comms[R0]]))
    x = e.ivar('x', 0); e.prove('for their rank in the new communicator', z3.And(*[cx.zi(v['gather']) == net.comms[new.obj]['rank'] for v in g])); e.prove('the new neighbours are the old ones: sources, then destinations', z3.And(z3.BoolVal(got[0][0] == new.obj), cx.zi(got[0][1][0]) == cx.zi(g[0]['c']['nsrcs']), got[0][1][1](x) == g[0]['f'](x), cx.zi(got[0][2][0]) == cx.zi(g[1]['c']['nsrcs']), got[0][2][1](x) == g[1]['f'](x)))
    inv = net.comms.get(key(cx, e.st, p.d, 128)[0]); e.prove('the plan uses the new communicators', z3.BoolVal(key(cx, e.st, p.d, 112)[0] == made.obj and inv is not None and inv.get('inv') is net.comms[made.obj] and key(cx, e.st, p.d, 0)[0] == new.obj)); e.prove('the rest of the plan is unchanged', z3.BoolVal([key(cx, e.st, p.d, o) for o, _ in FIELDS[1:7]] == fields))
T('change_comm', change)

# ---- functions that use plans
def varsized(e):
    cx = e.cx; net = Net(e); D = DistC(e, net); e.assume(D.no == D.n); S = e.int('nitems', 0, B30); c2d = e.fan('copies2data', D.n, S); ranks = e.array('owner_ranks', D.n, rng=(0, net.nr)); made = []; r = e.sret(144)
    def i2r(cx, nm, a, st, I): cx.oblige('ranks of the right plan', z3.BoolVal(D.kind[(a[1].obj, a[1].c)] == 'c2o'), 'post', st.pc); [cx.store(cx.padd(a[0], o), cx.load(cx.padd(ranks.ptr, o), ptr_t(), st), ptr_t(), st) for o in (0, 8)]; return st, None
    def make(cx, nm, a, st, I): made.append((a[0], cx.load(a[1], ptr_t(), st), rdh(cx, st, a[2]), rdh(cx, st, a[2], off=16), a[3], st.fork())); return st, None
    cx.contracts = [(R(r'^Omega_h::Dist::items2ranks\('), i2r), (R(r'^Omega_h::Dist::Dist\(std::shared_ptr.*, Omega_h::Remotes, int\)'), make)] + list(cx.contracts); cx.ccache.clear()
    e.call('Omega_h::create_dist_for_variable_sized', r, D.d, c2d); a, t, x = e.ivar('a', 0, D.n), e.ivar('t'), e.ivar('x', 0, D.n); e.assume(z3.And(c2d(a) <= t, t < c2d(a + 1))); net.use([a], [t]); ev = list(D.ev)
    e.prove('one exchange, from owners to copies, and one plan', z3.BoolVal(len(ev) == 1 and ev[0]['k'] == 'o2c' and ev[0]['w'] == 1 and len(made) == 1 and made[0][0].obj == r.obj)); e.prove('owners tell where their data starts', ev[0]['sent'](x) == c2d(x)); _, cm, (n1, rk), (n2, ix), nroots, _ = made[0]
    e.prove('same communicator', z3.BoolVal(cm.obj == net.world.obj)); e.prove('one reference per datum', z3.And(cx.zi(n1) == S, cx.zi(n2) == S, cx.zi(nroots) == S)); e.prove('a datum is owned where its holder is owned', rk(t) == ranks(a)); e.prove('at the same place among the data of the owner', ix(t) == ev[0]['recv'](a) + (t - c2d(a)))
T('create_dist_for_variable_sized', varsized)
def to_owners(t):
    def f(e):
        cx = e.cx; es, kd = TY[t]; net = Net(e); D = DistC(e, net); w = e.int('ncomps', 1, 128); data = e.array('data', D.n * w, es, kd); r = e.sret(); o, c, z = e.ivar('o', 0, D.no), e.ivar('c', 0, w), e.ivar('z', 0); e.assume(D.off(o) < D.off(o + 1)); e.fits(D.S, w); e.fits(D.no, w)
        fn, clo, new = kernel(e, 'reduce_data_to_owners<%s>' % t, [r, data, D.d, w], o); ev = list(D.ev); A_ = sized(e, [x for x in new if x not in [v['out'] for v in ev]], e.cx.muli(es, e.cx.muli(D.no, w))); st0 = e.st; B = rda(e, A_, t); fire(e, fn, clo, o); A = rda(e, A_, t); x = e.ivar('x', 0, D.n * w)
        e.prove('one exchange, from copies to owners, of the given data', z3.And(z3.BoolVal(len(ev) == 1 and ev[0]['k'] == 'c2o'), cx.zi(ev[0]['w']) == w, ev[0]['sent'](x) == data(x))); e.prove('an owner takes the value of its first copy', A(o * w + c) == ev[0]['recv'](D.off(o) * w + c)); e.prove('other owners are untouched', z3.Implies(z3.Or(z < o * w, z >= o * w + w), A(z) == B(z)))
    return f
for t in TY: T('reduce_data_to_owners<%s>' % t, to_owners(t))
def by_linear(e):
    cx = e.cx; net = Net(e); n = e.int('n', 0, B30); g, own = e.array('globals', n, 8), e.array('own_ranks', n); r = e.sret(32); log = []; D = cx.new_obj(e.st, 'linear', 144)
    def lin(cx, nm, a, st, I): log.append(('linear', cx.load(a[1], ptr_t(), st).obj, hobj(cx, st, a[2]))); cx.store(a[0], cx.padd(D, 8), ptr_t(), st); return st, None
    def cpy(cx, nm, a, st, I):
        if len(a) == 2: cx.store(a[0], cx.load(a[1], ptr_t(), st), ptr_t(), st)
        return st, a[0]
    def upd(cx, nm, a, st, I): log.append(('update', cx.load(a[1], ptr_t(), st).obj, hobj(cx, st, a[2]), a[0].obj)); return st, None
    cx.contracts = [(R(r'^Omega_h::copies_to_linear_owners\('), lin), (R(r'^Omega_h::Dist::(~?Dist|operator=)\('), cpy), (R(r'^Omega_h::update_ownership\('), upd)] + list(cx.contracts); cx.ccache.clear(); e.call('Omega_h::owners_from_globals', r, net.sp(net.world), g, own)
    e.prove('owners are chosen among the copies that meet in the linear partition of their global number', z3.BoolVal(log == [('linear', net.world.obj, hobj(cx, e.st, g.ptr)), ('update', D.obj, hobj(cx, e.st, own.ptr), r.obj)]))
T('owners_from_globals', by_linear)
def linear(e):
    cx = e.cx; net = Net(e); n = e.int('n', 0, B30); g = e.array('globals', n, 8); tot, nl = e.int('total', 0, 2**50), e.int('nlins', 0, B30); rk, ix = e.array('lin_ranks', n), e.array('lin_idxs', n); log = []; r = e.sret(144)
    def C(h, st): return cx.load(h, ptr_t(), st).obj
    def ftg(cx, nm, a, st, I): log.append(('total', C(a[0], st) == net.world.obj, hobj(cx, st, a[1]) == hobj(cx, st, g.ptr))); return st, tot
    def lps(cx, nm, a, st, I): log.append(('size', C(a[0], st) == net.world.obj, cx.veq(a[1], tot))); return st, nl
    def glo(cx, nm, a, st, I):
        log.append(('owners', C(a[1], st) == net.world.obj, hobj(cx, st, a[2]) == hobj(cx, st, g.ptr), cx.veq(a[3], tot)))
        for h, o in ((rk, 0), (ix, 16)):
            for q in (0, 8): cx.store(cx.padd(a[0], o + q), cx.load(cx.padd(h.ptr, q), ptr_t(), st), ptr_t(), st)
        return st, None
    def make(cx, nm, a, st, I): log.append(('plan', C(a[1], st) == net.world.obj, hobj(cx, st, a[2]) == hobj(cx, st, rk.ptr) and arrp(cx, st, a[2], 16).obj == hobj(cx, st, ix.ptr), cx.veq(a[3], nl))); return st, None
    def cpy(cx, nm, a, st, I): log.append(('copy',)); return st, a[0]
    cx.contracts = [(R(r'^Omega_h::find_total_globals\('), ftg), (R(r'^Omega_h::linear_partition_size\(std'), lps), (R(r'^Omega_h::globals_to_linear_owners\(std'), glo), (R(r'^Omega_h::Dist::Dist\(std::shared_ptr.*, Omega_h::Remotes, int\)'), make), (R(r'^Omega_h::Dist::(~?Dist|operator=)\('), cpy)] + list(cx.contracts); cx.ccache.clear(); e.call('Omega_h::copies_to_linear_owners', r, net.sp(net.world), g)
    e.prove('copies are sent to the linear owner of their global number, which has a root per number of its part', z3.BoolVal(sorted(x for x in log if x[0] != 'copy') == [('owners', True, True, True), ('plan', True, True, True), ('size', True, True), ('total', True, True)]))
T('copies_to_linear_owners', linear, U=('linpart', 'array', 'array_ops', 'shared_alloc', 'dist'))
def part(e):
    cx = e.cx; net = Net(e); t = e.int('total', 0, 2**50); log = []; v = e.int('size'); n = e.int('n', 0, B30); g = e.array('globals', n, 8); r = e.sret(32)
    def lps(cx, nm, a, st, I): log.append(z3.And(cx.zi(a[0]) == t, cx.zi(a[1]) == net.nr, cx.zi(a[2]) == net.comms[net.world.obj]['rank'])); return st, v
    def glo(cx, nm, a, st, I): log.append(z3.And(z3.BoolVal(hobj(cx, st, a[1]) == hobj(cx, st, g.ptr) and a[0].obj == r.obj), cx.zi(a[2]) == t, cx.zi(a[3]) == net.nr)); return st, None
    cx.contracts = [(R(r'^Omega_h::linear_partition_size\(long'), lps), (R(r'^Omega_h::globals_to_linear_owners\(Omega'), glo)] + list(cx.contracts); cx.ccache.clear(); x = e.call('Omega_h::linear_partition_size', net.sp(net.world), t, params='shared_ptr'); e.prove('the part of this rank', z3.And(*log, cx.zi(x) == v)); log.clear(); e.call('Omega_h::globals_to_linear_owners', r, net.sp(net.world), g, t, params='shared_ptr'); e.prove('owners among all ranks', z3.And(z3.BoolVal(len(log) == 1), *log))
T('linear partition of a communicator', part, U=('linpart', 'array', 'array_ops', 'shared_alloc', 'dist'))
def rescan(t):
    def f(e):
        from meshc import SymMesh, mesh_h
        cx = e.cx; net = Net(e); M = SymMesh(e, 'simplex', 3, 2**20, ''); n = e.int('n', 0, B30); k = e.array('counts', n, TY[t][0], rng=(0, 64)); start = e.int('start', 0, 2**50); log = []; r = e.sret(); i = e.ivar('i', 0, n)
        def gc(cx, nm, a, st): cx.store(a[0], net.world, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
        def ex(cx, nm, a, st, I): log.append((a[0].obj == net.world.obj, a[1], a[2])); return st, start
        M.h_comm = gc; cx.contracts = [(R(MX_), mesh_h), (R(r'Omega_h::Comm::exscan<long>\('), ex)] + list(cx.contracts); cx.ccache.clear(); e.call('Omega_h::rescan_globals<%s>' % t, r, M.ptr, k); L, A = e.out(r, 8); OFF = cx.scans[-1][0]; e.prove('every rank contributes its total', z3.And(z3.BoolVal(len(log) == 1 and log[0][0] and log[0][2] == 2), cx.zi(log[0][1]) == OFF(n)) if log else z3.BoolVal(False)); e.prove('one number per entry', cx.zi(L) == n); e.prove('numbers start after those of lower ranks', z3.Implies(i == 0, A(i) == start)); e.prove('each entry takes as many numbers as it counts', z3.Implies(i + 1 < n, A(i + 1) == A(i) + k(i))); e.prove('entries stay below the total', A(i) + k(i) <= start + OFF(n))
    return f
MX_ = r'Omega_h::Mesh::'
for t in ('signed char', 'int'): T('rescan_globals<%s>' % t, rescan(t), U=('globals', 'array', 'array_ops', 'shared_alloc', 'map'))
def synced(t, what):
    def f(e):
        cx = e.cx; es, kd = TY[t]; net = Net(e); D = DistC(e, net); w = e.int('width', 1, 512); D.no = D.n; data = e.array('data', D.n * w, es, kd); r = e.sret(); M = cx.new_obj(e.st, 'mesh', 4096); d, op = e.int('dim', 0, 3), e.int('op', 0, 2); log = []; red = []
        def could(cx, nm, a, st, I): log.append((a[0].obj == M.obj, cx.veq(a[1], d))); return st, int(what.endswith('shared'))
        def ask(cx, nm, a, st, I): log.append((a[1].obj == M.obj, cx.veq(a[2], d))); D.kind[(a[0].obj, a[0].c)] = 'c2o'; return st, None
        def reduce(cx, nm, a, st, I): red.append((D.kind[(a[1].obj, a[1].c)], hobj(cx, st, a[2]), cx.veq(a[3], w), cx.veq(a[4], op))); mkarr(cx, st, a[0], 'reduced', cx.muli(D.n, w), es, kd, fnew(cx, 'reduced', I_(), cx.fpsort() if kd == 'f' else I_())); cx.reduced = arrp(cx, st, a[0]).obj; return st, None
        cx.contracts = [(R(r'^Omega_h::Mesh::could_be_shared\('), could), (R(r'^Omega_h::Mesh::ask_dist\('), ask), (R(r'Omega_h::Dist::exch_reduce<'), reduce)] + list(cx.contracts); cx.ccache.clear(); src = hobj(cx, e.st, data.ptr); share = what.endswith('shared')
        if what.startswith('sync'): e.call('Omega_h::Mesh::sync_array<%s>' % t, r, M, d, data, w)
        else: e.call('Omega_h::Mesh::reduce_array<%s>' % t, r, M, d, data, w, op)
        out = hobj(cx, e.st, r); ev = list(D.ev); e.prove('of the entities asked for', z3.BoolVal(bool(log) and all(all(x) for x in log)))
        if not share: e.prove('entities that are not shared keep their data', z3.BoolVal(out == src and not ev and not red))
        elif what.startswith('sync'): e.prove('the data of the owners, along the inverse of the plan', z3.And(z3.BoolVal(len(ev) == 1 and ev[0]['k'] == 'o2c' and ev[0]['obj'] == src and ev[0]['out'] == out), cx.zi(ev[0]['w']) == w) if ev else z3.BoolVal(False))
        else: e.prove('the reduction over the copies', z3.BoolVal(red == [('c2o', src, True, True)] and out == cx.reduced))
    return f
for t in TY:
    for what in ('sync_array', 'reduce_array'):
        for sh in ('shared', 'not shared'): T('%s<%s>, %s' % (what, t, sh), synced(t, ('sync ' if what[0] == 's' else 'reduce ') + ('shared' if sh == 'shared' else 'alone')), U=('mesh', 'array', 'array_ops', 'shared_alloc', 'dist'))
def from_owners(share):
    def f(e):
        from meshc import SymMesh, mesh_h
        cx = e.cx; net = Net(e); M = SymMesh(e, 'simplex', 3, 2**20, ''); d = 1; n = M.n[d]; start = e.int('start', 0, 2**50); log = []; r = e.sret(); i = e.ivar('i', 0, n); own = e.array('owned', n, 1, rng=(0, 2)); g, s = e.array('rescanned', n, 8), e.array('synced', n, 8)
        def give(h, st, a): [cx.store(cx.padd(a[0], o), cx.load(cx.padd(h.ptr, o), ptr_t(), st), ptr_t(), st) for o in (0, 8)]; return st, None
        def gc(cx, nm, a, st): cx.store(a[0], net.world, ptr_t(), st); cx.store(cx.padd(a[0], 8), NULL, ptr_t(), st); return st, None
        def ex(cx, nm, a, st, I): log.append(('exscan', a[0].obj == net.world.obj, cx.veq(a[1], n), a[2] == 2)); return st, start
        def ow(cx, nm, a, st): log.append(('owned', cx.veq(a[2], d))); return give(own, st, a)
        def rs(cx, nm, a, st, I): log.append(('rescan', a[1].obj == M.ptr.obj, hobj(cx, st, a[2]) == hobj(cx, st, own.ptr))); return give(g, st, a)
        def sy(cx, nm, a, st): log.append(('sync', cx.veq(a[2], d), hobj(cx, st, a[3]) == hobj(cx, st, g.ptr), cx.veq(a[4], 1))); return give(s, st, a)
        J = lambda h: (lambda cx, nm, a, st, I: h(cx, nm, a, st)); K = r'Omega_h::Mesh::'; M.h_comm = gc; cx.contracts = [(R(K + r'owned\('), J(ow)), (R(K + r'sync_array<long>\('), J(sy)), (R(K + r'could_be_shared\('), lambda cx, nm, a, st, I: (st, int(share))), (R(r'Omega_h::Mesh::\w+(<[^()]*>)?\('), mesh_h), (R(r'Omega_h::Comm::exscan<long>\('), ex), (R(r'Omega_h::rescan_globals<signed char>\('), rs)] + list(cx.contracts); cx.ccache.clear(); e.call('Omega_h::globals_from_owners', r, M.ptr, d); out = hobj(cx, e.st, r)
        if share: e.prove('owners take numbers, copies take those of their owner', z3.BoolVal(log == [('owned', True), ('rescan', True, True), ('sync', True, True, True)] and out == hobj(cx, e.st, s.ptr)))
        else: N, A = e.out(r, 8); e.prove('numbers in order, after those of lower ranks', z3.And(z3.BoolVal(log == [('exscan', True, True, True)]), cx.zi(N) == cx.zi(n), A(i) == start + i))
    return f
for sh in (0, 1): T('globals_from_owners, %s' % ('shared' if sh else 'not shared'), from_owners(sh))
def future(t, what):
    def f(e):
        cx = e.cx; F = cx.new_obj(e.st, 'future', 96); rq = cx.new_obj(e.st, 'requests', 64); n = 3; flag = e.int('all_arrived', 0, 1); st_ = e.int('status', 0, 2); log = Log(e); r = e.sret(); res = e.array('result', e.int('n', 0, B30), TY[t][0], TY[t][1])
        def mine(a): return cx.veq(a[0], n) and isinstance(a[1], Ptr) and a[1].obj == rq.obj and a[1].c == 0
        def test(cx, nm, a, st, I): log.add(st, ('test', mine(a))); cx.store(a[2], flag, int_t(32), st); return st, 0
        def wait(cx, nm, a, st, I): log.add(st, ('wait', mine(a))); st.objs[wt.obj] = RecC({0: (4, 1, 'i')}); return st, 0
        def call(cx, nm, a, st, I): log.add(st, ('callback', a[1].obj == F.obj)); [cx.store(cx.padd(a[0], o), cx.load(cx.padd(res.ptr, o), ptr_t(), st), ptr_t(), st) for o in (0, 8)]; w = cx.load(wt, int_t(32), st); cx.oblige('the messages have arrived when the result is made', z3.Or(st_ == 1, cx.zi(w) == 1), 'post', st.pc); return st, None
        wt = cx.new_obj(e.st, 'waited', 4); e.st.objs[wt.obj] = RecC({0: (4, 0, 'i')})
        c = {o: (8, NULL, 'p') for o in range(0, 64, 8)}; c.update({64: (8, rq, 'p'), 72: (8, cx.padd(rq, 8 * n), 'p'), 80: (8, cx.padd(rq, 8 * n), 'p'), 88: (4, st_, 'i')}); e.st.objs[F.obj] = RecC(c); cx.contracts = [(R(r'^MPI_Testall$'), test), (R(r'^MPI_Waitall$'), wait), (R(r'std::function<.*>::operator\(\)'), call)] + list(cx.contracts); cx.ccache.clear(); after = lambda: cx.zi(cx.load(cx.padd(F, 88), int_t(32), e.st))
        if what == 'completed':
            v = e.call('Omega_h::Future<%s>::completed' % t, F); v = (v if z3.is_bool(v) else cx.zi(v) != 0) if z3.is_expr(v) else z3.BoolVal(bool(v)); e.prove('completed exactly when nothing is waited for or all messages have arrived', v == z3.Or(st_ != 0, flag != 0)); e.prove('the result may be taken without waiting only then', z3.And(z3.Implies(st_ != 0, after() == st_), z3.Implies(st_ == 0, after() == flag))); e.prove('of all the messages', z3.BoolVal(all(x[1] for x in log)))
        else:
            e.assume(st_ <= 1); e.call('Omega_h::Future<%s>::get' % t, r, F); e.prove('the result is that of the callback', z3.BoolVal(hobj(cx, e.st, r) == hobj(cx, e.st, res.ptr) and all(x[1] for x in log))); e.prove('the result is given once', after() == 2)
    return f
for t in TY:
    for w in ('completed', 'get'): T('Future<%s>: %s' % (t, w), future(t, w), U=('future', 'array', 'shared_alloc'))
PROP = Prop('P17', TASKS, native=[Native('owners', np=4), Native('owners')], assumptions=['MPI: what a rank puts at position k of its messages arrives at one position of the messages of the rank it is addressed to, and the inverse communicator moves data back along the same links; the implementation of Comm is checked natively only', 'owner references name an existing root; every entity has a copy', 'the ranks given to update_ownership name exactly one holder of each entity', 'asynchronous exchanges (iexch, isync_array) and the cached plan of a mesh are checked natively only'])
