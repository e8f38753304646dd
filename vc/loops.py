from exec2 import *
from exec2 import _ex

class Fold: pass

def fdeps(v):
    return v

class LoopVC(VC):
    parallel_note = None
    def is_parallel(self, fr):
        return bool(self.par_rx.search(dem(fr.fn.name)))
    par_rx = re.compile(r'Omega_h::(for_each|parallel_for)<|^void Omega_h::(for_each|parallel_for)')
    def snapshot(self):
        return (len(self.obls), len(self.folds))
    def rollback(self, s):
        del self.obls[s[0]:]; del self.folds[s[1]:]
    def loop(self, fr, h, env, st, stops):
        fn = fr.fn
        body = fn.loops[h]
        for rx, nth, spec in self.invariants:
            if (rx.search(dem(fn.name)) if hasattr(rx, 'search') else rx in dem(fn.name)) and ([b for b in fn.blocks if b in fn.loops].index(h) == nth if isinstance(nth, int) else self.innermost(fn, h, nth)): return self.inv_loop(fr, h, env, st, spec)
        cut = getattr(self, 'cut', None)
        if cut and not self.dry and any(x in fn.loops and x != h for x in body): cut(dem(fn.name), st)
        md = fr.unroll.get(h)
        if md is None or md[0] == 'peek' or md[0] == 'sym':
            r = self.peek(fr, h, env, st, body)
            if r == 'concrete':
                fr.unroll[h] = ('peek', (md[1] if md else 0) + 1)
                if fr.unroll[h][1] > 20000: raise Unsupported('unroll limit')
                return None
        if self.mode == 'bv' or (self.force_unroll and self.force_unroll(dem(fn.name))):
            n = fr.unroll.get(h, ('u', 0))[1] + 1
            fr.unroll[h] = ('sym', n)
            fr.prune = 1
            if n > self.unroll_limit: raise Unsupported('unwinding limit in ' + dem(fn.name))
            return None
        fr.unroll[h] = ('sym', 0)
        return self.summarise(fr, h, env, st)
    def innermost(self, fn, h, rx):
        """the innermost loop of fn that calls a function matching rx"""
        has = lambda b: any(I.op in ('call', 'invoke') and I.extra['callee'][0] == 'fn' and re.search(rx, dem(I.extra['callee'][1])) for I in fn.blocks[b].insts)
        ls = [(len(fn.loops[l]), l) for l in fn.loops if any(has(b) for b in fn.loops[l])]
        return bool(ls) and min(ls)[1] == h
    def peek(self, fr, h, env, st, body):
        fn = fr.fn
        B = fn.blocks[h]
        T = B.insts[-1]
        headexit = T.op in ('br', 'switch', 'invoke') and any(s not in body for s in fn.succs[h])
        snap = self.snapshot()
        self.facts.append([])
        old = self.dry, getattr(fr, 'inloop', None), dict(fr.unroll), getattr(fr, 'prune', 0)
        scl = [len(s['log']) for s in self.scopes]
        fr.inloop = h
        fr.prune = 0
        try:
            if headexit:
                stops = frozenset(fn.succs[h])
            else:
                stops = frozenset({h} | {s for b in body for s in fn.succs[b] if s not in body and s not in fn.noret})
            s2 = st.fork()
            arr = self.region(fr, h, dict(env), s2, stops, True)
        finally:
            self.facts.pop(); self.rollback(snap)
            self.dry, fr.inloop, fr.unroll, fr.prune = old
            for s, l in zip(self.scopes, scl): del s['log'][l:]
        ins = [b for b in arr if b in body]; outs = [b for b in arr if b not in body]
        if ins and outs: return 'sym'
        return 'concrete'
    # ------------------------------------------------------------------
    def pdelta(self, a, b):
        """byte delta of pointers b - a when constant"""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            x = self.off_term2(a); y = self.off_term2(b)
            d = self.const_diff(y, x)
            return d
        return None
    def veq(self, a, b):
        if a is b: return True
        if isinstance(a, (Ptr, FnVal, Opaque, Undef)) or isinstance(b, (Ptr, FnVal, Opaque, Undef)):
            if isinstance(a, Opaque) and isinstance(b, Opaque): return True
            if isinstance(a, FnVal) and isinstance(b, FnVal): return a.name == b.name
            if isinstance(a, Undef) and isinstance(b, Undef): return True
            return isinstance(a, Ptr) and isinstance(b, Ptr) and (a.key() == b.key() or self.pdelta(a, b) == 0)
        if isinstance(a, (Comp, Aggr, PIte, PInt)) or isinstance(b, (Comp, Aggr, PIte, PInt)):
            if isinstance(a, Comp) and isinstance(b, Comp):
                return len(a.parts) == len(b.parts) and all(x[:2] == y[:2] and self.veq(x[2], y[2]) for x, y in zip(a.parts, b.parts))
            return False
        if same(a, b): return True
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            try:
                if (isinstance(a, int) or z3.is_int(a)) and (isinstance(b, int) or z3.is_int(b)) and not isinstance(a, bool) and not isinstance(b, bool):
                    return self.const_diff(a, b) == 0
            except Exception: pass
        return False
    def summarise(self, fr, h, env0, st0):
        fn = fr.fn
        body = fn.loops[h]
        phis = [I for I in fn.blocks[h].insts if I.op == 'phi']
        exits = {s for b in body for s in fn.succs[b] if s not in body and s not in fn.noret}
        stops = frozenset({h} | exits)
        par = self.is_parallel(fr)
        k = self.fresh_const('k', z3.IntSort())
        self.set_rng(k, (0, None))
        Kc = self.fresh('K', z3.IntSort())
        self.set_rng(Kc, (0, None))
        carried = {}   # key -> [init, kind, size, mode, data]
        for I in phis:
            v = env0[I.id]
            carried[('phi', I.id)] = [v, self.vkind(v, I.ty), I.ty.size, None, None]
        writes_objs = {}
        accum = set()
        accS = {}
        saved_inloop = getattr(fr, 'inloop', None)
        khint = [None]
        self.cur_pc = st0.pc
        # type lazily typed arrays consistently: discovered below
        def run(final):
            scope = {'k': k, 'K': Kc, 'log': [], 'pcn': len(st0.pc), 'par': par}
            st = st0.fork()
            st.pc = st0.pc + (k >= 0, k <= Kc)
            env = dict(env0)
            refs = {}
            for oid in writes_objs:
                c = st.objs[oid]
                if c.es is None:
                    es, kd = writes_objs[oid]
                    class T: pass
                    t = T(); t.size = es; t.bits = 8 * es; t.kind = 'double' if kd == 'f' else 'int'
                    old_scopes = self.scopes
                    c = self.typed(oid, c, t, st0)
                    st.objs[oid] = c
                r = ARef(c.c); refs[oid] = r
                st.objs[oid] = ArrC(c.es, c.kind, r)
            self.scopes.append(scope)
            self.facts.append([])
            if khint[0] is not None: self.facts[-1].append(khint[0])
            for oid in accum:
                if oid not in accS:
                    b = self.binders()
                    d = z3.Function(self.fresh_name('ACC'), *([z3.IntSort()] * (len(b) + 1)), z3.IntSort()); self.keep.append(d)
                    accS[oid] = d
                d = accS[oid]; base = refs[oid].t; b = self.binders()
                refs[oid].t = AFun(lambda x, d=d, base=base, b=b: self.addi(base.read(x, self), d(*b, self.zi(x))))
                refs[oid].base = base
            for key, e in carried.items():
                init, kind, size, md, data = e[:5]
                if md == 'iv':
                    v = self.addi(init, self.muli(data, k)) if kind == 'i' else None
                elif md == 'piv':
                    v = self.padd(init, 0, [(data, k)]) if data else init
                elif md == 'undef': v = Undef()
                elif md == 'fold':
                    v = data
                elif md is None:
                    if kind == 'p': v = init
                    elif kind in ('i', 'f', 'b'):
                        v = self.fresh_kind('c', kind, size); e[4] = v
                    else: v = Undef()
                if key[0] == 'phi': env[key[1]] = v
                elif key[0] == 'rec':
                    c = st.objs[key[1]]; cells = dict(c.cells)
                    old = cells[key[2]]
                    cells[key[2]] = (old[0], v, old[2]); st.objs[key[1]] = RecC(cells)
                elif key[0] == 'arr':
                    c = st.objs[key[1]]
                    st.objs[key[1]] = ArrC(c.es, c.kind, AStore(c.c, e[5], v))
            fr.inloop = h
            start = st.fork()
            try:
                arr = self.region(fr, h, env, st, stops, True)
            finally:
                fr.inloop = saved_inloop
            return scope, start, arr, refs
        # ---- discovery
        for attempt in range(12):
            snap = self.snapshot()
            un = dict(fr.unroll)
            scl = [len(s['log']) for s in self.scopes]
            self.disc += 1
            try:
                scope, start, arr, refs = run(False)
            finally:
                self.disc -= 1
                if len(self.scopes) > len(scl):
                    sc = self.scopes.pop(); fx = self.facts.pop()
                self.rollback(snap); fr.unroll = un
                for s, l in zip(self.scopes, scl): del s['log'][l:]
            if h not in arr:
                # no iteration comes back: at most one pass through the body
                fr.inloop = h
                try: return {b: v for b, v in self.region(fr, h, dict(env0), st0.fork(), frozenset(exits), True).items()}
                finally: fr.inloop = saved_inloop
            sb, eb, _ = arr[h]
            new = False
            for oid, c0 in start.objs.items():
                c1 = sb.objs.get(oid)
                if c1 is c0: continue
                if isinstance(c0, RecC) and isinstance(c1, RecC):
                    for off, (sz, v, kd) in c0.cells.items():
                        x = c1.cells.get(off)
                        if ('rec', oid, off) in carried: continue
                        if x is not None and x[0] == sz and self.veq(v, x[1]): continue
                        vk = self.vkind2(v, kd)
                        carried[('rec', oid, off)] = [v, vk, sz, None, None]
                        new = True
            if new: continue
            allw = set()
            for kind, oid, idx, g, bv, val, _f in scope['log']:
                if oid not in st0.objs: continue
                if kind == 'a':
                    if oid not in accum:
                        accum.add(oid); writes_objs.setdefault(oid, self.wtype(arr, h, oid)); new = True
                    continue
                if kind != 'w': continue
                allw.add(oid)
                if oid not in writes_objs:
                    writes_objs[oid] = self.wtype(arr, h, oid); new = True
            if accum & allw: raise Unsupported('array both accumulated and written in a loop')
            syms = self.loop_syms(k, carried, scope)
            for oid in allw:
                evs = [e for e in scope['log'] if e[0] == 'w' and e[1] == oid]
                cellidx = []
                for e in evs:
                    if not e[4] and not occurs(e[2], syms):
                        if not any(self.const_diff(e[2], x) == 0 for x in cellidx): cellidx.append(e[2])
                if cellidx and len(cellidx) and all((not e[4]) and not occurs(e[2], syms) for e in evs):
                    for x in cellidx:
                        key = ('arr', oid, x if isinstance(x, int) else x.get_id())
                        if key not in carried:
                            c = st0.objs[oid]
                            if c.es is None:
                                es, kd = writes_objs[oid]
                                class T: pass
                                t = T(); t.size = es; t.bits = 8 * es; t.kind = 'double' if kd == 'f' else 'int'
                                c = self.typed(oid, c, t, st0)
                            init = c.c.read(x, self)
                            if is_sym(x): self.keep.append(x)
                            carried[key] = [init, c.kind, c.es, None, None, x]
                            new = True
            if new: continue
            # classify
            changed = False
            for key, e in carried.items():
                if e[3] in ('fold', 'undef', 'iv', 'piv'): continue
                vend = self.endval(key, e, sb, eb)
                kind = e[1]
                if kind == 'p':
                    d = self.pdelta(e[0], vend)
                    if d is not None: e[3] = 'piv'; e[4] = d
                    elif self.veq(e[0], vend): e[3] = 'piv'; e[4] = 0
                    else: e[3] = 'undef'
                    changed = True
                elif kind == 'i':
                    s = e[4]
                    if isinstance(vend, (int, z3.ExprRef)) and not isinstance(vend, bool):
                        p = self.polydiff(vend, s)
                        t = self.unpoly(p)
                        if not occurs(t, syms): e[3] = 'iv'; e[4] = t
                        else: e[3] = 'fold'
                    else: e[3] = 'undef'
                    changed = True
                elif kind in ('f', 'b'):
                    e[3] = 'fold'
                    if is_sym(vend) and vend.eq(e[4]): e[3] = 'inv'
                    changed = True
                else:
                    e[3] = 'undef'; changed = True
            for e in carried.values():
                if e[3] == 'inv': e[3] = 'fold'
            break
        else:
            raise Unsupported('loop discovery did not converge')
        # ---- final run (retry when an induction guess fails)
        for attempt in range(7):
            snap = self.snapshot(); un = dict(fr.unroll)
            indf = self.ind_failed
            obl0 = len(self.obls)
            scl = [len(s['log']) for s in self.scopes]
            ok = False
            try:
                for e in carried.values():
                    if e[3] == 'fold':
                        # symbol must depend on k: create under scope
                        self.scopes.append({'k': k, 'K': Kc, 'log': [], 'pcn': 0, 'par': par})
                        self.facts.append([])
                        e[4] = self.fresh_kind('F', e[1], e[2])
                        fx = self.facts.pop(); self.scopes.pop()
                        e_rng = fx
                scope, start, arr, refs = run(True)
                sb, eb, _ = arr[h]
                bad = []
                for key, e in carried.items():
                    vend = self.endval(key, e, sb, eb)
                    if e[3] == 'iv':
                        nxt = self.addi(e[0], self.muli(e[4], self.addi(k, 1)))
                        if not isinstance(vend, (int, z3.ExprRef)) or self.polydiff(vend, nxt): bad.append((key, 'fold'))
                    elif e[3] == 'piv':
                        nxt = self.padd(e[0], e[4], [(e[4], k)]) if e[4] else e[0]
                        if not self.veq(nxt, vend): bad.append((key, 'undef'))
                newobjs = [ev for ev in scope['log'] if ev[0] == 'w' and ev[1] in st0.objs and ev[1] not in writes_objs]
                for oid, c0 in start.objs.items():
                    c1 = sb.objs.get(oid)
                    if c1 is c0 or not isinstance(c0, RecC): continue
                    for off, (sz, v, kd) in c0.cells.items():
                        if ('rec', oid, off) in carried: continue
                        x = c1.cells.get(off)
                        if x is None or x[0] != sz or not self.veq(v, x[1]):
                            carried[('rec', oid, off)] = [v, self.vkind2(v, kd), sz, 'fold' if self.vkind2(v, kd) in 'ifb' else 'undef', None]
                            bad.append((None, None))
                if newobjs:
                    raise Unsupported('array write set changed')
                ok = not bad
                if ok and khint[0] is None and self.ind_failed > indf and self.dry == 0:
                    # a guess about an inner loop failed: once more, knowing the trip count
                    hint = self.trip_hint(arr, h, k, Kc, start, st0)
                    if hint is not None: khint[0] = hint; ok = False
                if not ok:
                    for key, md in bad:
                        if key is not None: carried[key][3] = md
            finally:
                if not ok:
                    if len(self.scopes) > len(scl):
                        self.scopes.pop(); self.facts.pop()
                    self.rollback(snap); fr.unroll = un
                    for s, l in zip(self.scopes, scl): del s['log'][l:]
            if ok: break
        else:
            raise Unsupported('loop invariant guess')
        return self.finish(fr, h, k, Kc, st0, env0, carried, scope, start, arr, refs, exits, par, obl0, accS, khint[0])
    def wtype(self, arr, h, oid):
        """element size and kind of an array that some path through the body writes"""
        for b in [h] + [x for x in arr if x != h]:
            c = arr[b][0].objs.get(oid) if b in arr else None
            if c is not None and getattr(c, 'es', None) is not None: return c.es, c.kind
        raise Unsupported('type of a written array')
    # ------------------------------------------------------------ stated invariants
    invariants = ()
    def inv_loop(self, fr, h, env0, st0, spec):
        """a loop with an invariant stated by the contract: the invariant is an obligation
        on entry and at the end of an arbitrary pass that starts in any state that
        satisfies it; everything the loop may change is arbitrary there"""
        if any(not x.get('fake') for x in self.scopes): raise Unsupported('stated invariant inside another loop')
        fn = fr.fn; body = fn.loops[h]
        phis = [I for I in fn.blocks[h].insts if I.op == 'phi']
        exits = {s for b in body for s in fn.succs[b] if s not in body and s not in fn.noret}
        stops = frozenset({h} | exits)
        saved = getattr(fr, 'inloop', None); nm = dem(fn.name).split('(')[0][-50:]
        mod = {}; recs = {}; ptrs = set()
        gsort = z3.IntSort()
        def head():
            st = st0.fork(); env = dict(env0); vals = []
            for I in phis:
                v = env0[I.id]; kd = self.vkind(v, I.ty)
                if kd == 'p': vals.append(v); continue        # checked to be invariant below
                if kd not in 'ifb': raise Unsupported('carried value of kind ' + kd)
                env[I.id] = self.fresh_kind('inv', kd, I.ty.size); vals.append(env[I.id])
            for oid, (es, kd) in mod.items():
                d = z3.Function(self.fresh_name('at'), z3.IntSort(), self.fpsort() if kd == 'f' else z3.IntSort()); self.keep.append(d)
                if kd == 'i':
                    self.decl_rng[d.name()] = (-(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1)
                    x = z3.Int('x!'); self.fact(z3.ForAll([x], z3.And(d(x) >= -(1 << (8 * es - 1)), d(x) < 1 << (8 * es - 1)), patterns=[d(x)]), guard=False)
                st.objs[oid] = ArrC(es, kd, ABase(d))
            for (oid, off), (sz, kd) in recs.items():
                c = st.objs[oid]; cells = dict(c.cells)
                cells[off] = (sz, self.fresh_kind('inv', kd, sz), cells[off][2]); st.objs[oid] = RecC(cells)
            if ptrs: spec.havoc(self, st, sorted(ptrs))      # handles replaced by the loop: the contract says what they may hold
            return env, st
        def view(env, st, ghost):
            L = Fold(); L.phi = [env[I.id] for I in phis]; L.ghost = ghost; L.st = st
            def arr(name):
                for oid, c in st.objs.items():
                    if (oid == name if isinstance(name, int) else self.meta[oid].name == name) and isinstance(c, ArrC):
                        c = self.typed(oid, c, self._ty(*mod[oid]), st) if c.es is None and oid in mod else c
                        return lambda i: (self.zf if c.kind == 'f' else self.zi)(c.c.read(self.norm(i) if not isinstance(i, int) else i, self))
                raise Unsupported('no array ' + name)
            L.arr = arr
            return L
        def run(env, st):
            fr.inloop = h
            try: return self.region(fr, h, env, st, stops, True)
            finally: fr.inloop = saved
        for attempt in range(8):
            snap = self.snapshot(); un = dict(fr.unroll); self.disc += 1
            self.scopes.append({'k': self.fresh_const('k', z3.IntSort()), 'K': self.fresh_const('K', z3.IntSort()), 'log': [], 'pcn': len(st0.pc), 'par': False, 'fake': True}); self.facts.append([])
            try:
                if hasattr(spec, 'enter'): L = view(env0, st0, None); L.entry = L; spec.enter(self, L)
                env, st = head(); start = st.fork()
                if hasattr(spec, 'enter'):
                    L2 = view(env, st, None); L2.entry = L; spec.enter(self, L2)
                arr = run(env, st)
            finally:
                self.disc -= 1; sc = self.scopes.pop(); self.facts.pop(); self.rollback(snap); fr.unroll = un
            new = False
            if h in arr:
                sb, eb, _ = arr[h]
                for kind, oid, *_r in sc['log']:
                    if kind in 'wa' and oid in st0.objs and oid not in mod:
                        mod[oid] = self.wtype(arr, h, oid); new = True
                for oid, c0 in start.objs.items():
                    c1 = sb.objs.get(oid)
                    if c1 is c0 or not isinstance(c0, RecC): continue
                    for off, (sz, v, kd) in c0.cells.items():
                        x = c1.cells.get(off)
                        if (oid, off) in recs or (oid, off) in ptrs or (x is not None and x[0] == sz and self.veq(v, x[1])): continue
                        if isinstance(v, Ptr) and hasattr(spec, 'havoc'): ptrs.add((oid, off)); new = True; continue
                        recs[(oid, off)] = (sz, self.vkind2(v, kd)); new = True
            if not new: break
        else: raise Unsupported('loop discovery did not converge')
        for oid in mod:
            if st0.objs[oid].es is None: self.typed(oid, st0.objs[oid], self._ty(*mod[oid]), st0)
        gd = getattr(spec, 'ghosts', {})
        L0 = view(env0, st0, {g: f[0] for g, f in gd.items()})
        L0.entry = L0
        if hasattr(spec, 'enter'): spec.enter(self, L0)
        for name, f in spec.inv(self, L0): self.oblige('%s: %s: on entry' % (nm, name), f, 'lemma', st0.pc)
        env, st = head()
        gh = {}
        for g in gd:
            d = z3.Function(self.fresh_name('gh_' + g), z3.IntSort(), gsort); self.keep.append(d); gh[g] = (lambda i, d=d: d(self.zi(i)))
        L = view(env, st.fork(), gh); L.entry = L0
        if hasattr(spec, 'enter'): spec.enter(self, L)
        for name, f in spec.inv(self, L): self.fact(f, guard=True, pc=st0.pc)
        nf = len(self.folds)
        arr = run(env, st)
        if h in arr:
            sb, eb, _ = arr[h]
            for I in phis:
                if self.vkind(env0[I.id], I.ty) == 'p' and not self.veq(env0[I.id], eb[I.id]): raise Unsupported('pointer changed by a loop with a stated invariant')
            L.folds = self.folds[nf:]
            Lb = view(eb, sb, None); Lb.entry = L0
            Lb.ghost = {g: f[1](L, Lb) for g, f in gd.items()}
            self.cur_pc = sb.pc
            for name, f in getattr(spec, 'steps', lambda *a: [])(self, L, Lb):
                self.oblige('%s: %s' % (nm, name), f, 'lemma', sb.pc); self.fact(f, guard=True, pc=sb.pc)
            for name, f in spec.inv(self, Lb): self.oblige('%s: %s: kept by every pass' % (nm, name), f, 'lemma', sb.pc)
            if getattr(spec, 'variant', None):
                a, b = spec.variant(L), spec.variant(Lb)
                self.oblige('%s: the loop terminates' % nm, z3.And(a >= 0, b < a), 'termination', sb.pc)
            else: self.assumptions.add('termination of the loop in ' + nm)
        self.cur_pc = st0.pc
        self.inv_heads = getattr(self, 'inv_heads', []) + [L]
        return {b: v for b, v in arr.items() if b != h}
    def _ty(self, es, kd):
        class T: pass
        t = T(); t.size = es; t.bits = 8 * es; t.kind = 'double' if kd == 'f' else 'int'; return t
    def polydiff(self, a, b):
        p = dict(self.poly(a))
        for m, c in self.poly(b).items():
            n = p.get(m, 0) - c
            if n: p[m] = n
            else: p.pop(m, None)
        return p
    def vkind(self, v, ty):
        if ty.kind == 'int': return 'b' if ty.bits == 1 else ('i' if not isinstance(v, (Comp, PInt, Opaque)) else 'o')
        if ty.kind == 'ptr': return 'p'
        if ty.kind in ('double', 'float'): return 'f' if self.fp != 'bits' else 'i'
        return 'o'
    def vkind2(self, v, kd):
        if isinstance(v, (Comp, PInt, Opaque, Aggr, Undef)): return 'o'
        if isinstance(v, (Ptr, PIte, FnVal)): return 'p'
        return kd
    def endval(self, key, e, sb, eb):
        if key[0] == 'phi': return eb[key[1]]
        if key[0] == 'rec':
            c = sb.objs[key[1]].cells.get(key[2])
            return c[1] if c is not None else Undef()
        return sb.objs[key[1]].c.read(e[5], self)
    def loop_syms(self, k, carried, scope):
        s = {k.get_id()}
        for e in carried.values():
            if is_sym(e[4]): s.add(e[4].get_id())
        return s
    # ------------------------------------------------------------ trip count
    def lin_exit(self, g, k):
        """exit guard g true first at K; returns (K term, termination goal) or None"""
        neg = False
        t = g
        if not is_sym(t): return None
        while z3.is_not(t): t = t.arg(0); neg = not neg
        kd = t.decl().kind()
        ops = {z3.Z3_OP_LT: 'lt', z3.Z3_OP_LE: 'le', z3.Z3_OP_GT: 'gt', z3.Z3_OP_GE: 'ge', z3.Z3_OP_EQ: 'eq', z3.Z3_OP_DISTINCT: 'ne'}
        if kd not in ops: return None
        o = ops[kd]
        a, b = t.arg(0), t.arg(1)
        if not z3.is_int(a): return None
        if neg: o = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[o]
        p = self.polydiff(a, b)          # a-b  o  0
        kid = k.get_id()
        beta = 0; alpha = {}
        for m, c in p.items():
            if m == (kid,): beta = c
            else:
                if any(occurs(self.atoms[x], {kid}) for x in m): return None
                alpha[m] = c
        if beta == 0: return None
        if o in ('lt', 'le'):            # -(a-b) o' 0
            alpha = {m: -c for m, c in alpha.items()}; beta = -beta
            o = {'lt': 'gt', 'le': 'ge'}[o]
        al = self.unpoly(alpha)
        if o == 'gt': al = self.addi(al, -1); o = 'ge'
        if o == 'ge':                    # exit when alpha+beta k >= 0
            if beta < 0: return None
            n = self.muli(-1, al)
            K = n if beta == 1 else self.zi(self.addi(n, beta - 1)) / z3.IntVal(beta)
            if self.quick(self.lei(0, n), ms=2000): return K, True
            return self.maxi0(K), True
        if o == 'eq' and all(c % beta == 0 for c in alpha.values()):
            K = self.unpoly({m: -c // beta for m, c in alpha.items()})
            return K, self.lei(0, K)
        return None
    ind_failed = 0; disc = 0
    def trip_hint(self, arr, h, k, Kc, start, st0):
        """the trip count as finish() derives it; only when the exit is sure to be reached"""
        n0 = len(start.pc); sb = arr[h][0]
        for b, (s, e, rv) in arr.items():
            if b == h: continue
            g = s.pc[n0:]
            if len(g) == 1:
                r = self.lin_exit(g[0], k)
                if r is not None:
                    if r[1] is not True and not self.quick(Z(r[1]), pc=st0.pc): return None
                    f = Z(Kc <= self.zi(r[0])); pc = band(*st0.pc)
                    return f if pc is True else z3.Implies(Z(pc), f)
        return None
    def maxi0(self, t):
        if isinstance(t, int): return max(t, 0)
        return z3.If(t >= 0, t, z3.IntVal(0))
    def finish(self, fr, h, k, Kc, st0, env0, carried, scope, start, arr, refs, exits, par, obl0, accS={}, khint=None):
        n0 = len(start.pc)
        sb, eb, _ = arr[h]
        ex = {b: v for b, v in arr.items() if b != h}
        self.cur_pc = st0.pc
        # --- trip count
        Kterm = None; header_only = False; tgoal = True
        for b, (s, e, rv) in ex.items():
            g = s.pc[n0:]
            if len(g) == 1:
                r = self.lin_exit(g[0], k)
                if r is not None:
                    Kterm, tgoal = r
                    header_only = len(ex) == 1 and len(sb.pc[n0:]) >= 1 and same(bnot(g[0]), sb.pc[n0:][0])
                    break
        single = len(ex) == 1
        contg = band(*sb.pc[n0:])
        # --- lemmas about accumulators, proved by induction inside the scope
        post_facts = []
        self.lemf = []
        self.cur_pc = sb.pc
        for key, e in carried.items():
            if e[3] != 'fold': continue
            vend = self.endval(key, e, sb, eb)
            F = e[4]
            if not is_sym(F): continue
            if isinstance(vend, (Undef, Opaque, Comp)) : continue
            fo = Fold(); fo.key = key; fo.F = F; fo.k = k; fo.K = Kc; fo.init = e[0]; fo.end = vend; fo.kind = e[1]; fo.size = e[2]
            fo.fn = fr.fn.name; fo.pc = sb.pc; fo.scope = scope; fo.cx = self
            fo.at = lambda t, F=F: self.subst(F, [(k, self.zi(t))])
            self.folds.append(fo)
            post_facts += self.fold_facts(fo, sb, contg)
        # --- arrays
        self.cur_pc = sb.pc
        kfacts = self.facts[-1]
        newc = {}
        for oid, r in refs.items():
            if any(key[0] == 'arr' and key[1] == oid for key in carried): continue
            if Kterm is not None and header_only: Kr = Kterm
            else: Kr = Kc
            if oid in accS:
                newc[oid] = self.accum_post(oid, r, sb.objs[oid], accS[oid], k, Kc, Kr, sb, post_facts, fr)
                continue
            newc[oid] = self.array_post(oid, r, sb.objs[oid], scope, k, Kc, Kr, par, n0, carried)
        # --- close the scope
        self.scopes.pop()
        kf = [f for f in self.facts.pop() if f is not khint]
        out_facts = []
        for f in kf:
            if occurs(f, {k.get_id()}):
                out_facts.append(self.forall_k(k, band(k >= 0, k <= Kc), f))
                out_facts.append(z3.substitute(f, (k, Kc)))
            else: out_facts.append(f)
        out_facts += post_facts
        for f in out_facts: self.fact(f, guard=False)
        self.cur_pc = st0.pc
        if Kterm is not None and header_only:
            if tgoal is not True: self.oblige('loop terminates', tgoal, 'termination', st0.pc)
            self.fact(Kc == self.zi(Kterm), guard=True, pc=st0.pc)
            Ksub = self.zi(Kterm)
        else:
            if Kterm is not None:
                if tgoal is not True: self.oblige('loop terminates', tgoal, 'termination', st0.pc)
                self.fact(Kc <= self.zi(Kterm), guard=True, pc=st0.pc)
            else: self.assumptions.add('termination of the search loop in ' + dem(fr.fn.name).split('(')[0])
            Ksub = Kc
        self.fact(Kc >= 0, guard=False)
        if Kterm is not None:
            kf2 = Z(Kc == self.zi(Kterm)) if header_only else Z(Kc <= self.zi(Kterm))
            g = band(*st0.pc)
            if g is not True: kf2 = z3.Implies(Z(g), kf2)
            for o in self.obls[obl0:]:
                if o.status is None: o.hyps.append(kf2)
        if self.lemf:
            # lemmas about accumulators of this loop hold at every iteration: usable inside the body
            lf = list(self.lemf)
            for o in self.obls[obl0:]:
                if o.status is None: o.hyps = list(o.hyps) + lf
        if not header_only:
            cg = Z(contg)
            self.fact(self.forall_k(k, band(k >= 0, k < Kc), cg), guard=True, pc=st0.pc)
        pairs = [(k, Ksub)]
        res = {}
        for b, (s, e, rv) in ex.items():
            ns = State({}, st0.pc + tuple(self.subst(c, pairs) for c in (s.pc[n0:] if not (header_only and single) else ())))
            for oid, c in s.objs.items():
                c0 = st0.objs.get(oid)
                if isinstance(c, RecC):
                    if c0 is c: ns.objs[oid] = c; continue
                    ns.objs[oid] = RecC({o: (sz, self.subst(v, pairs), kd) for o, (sz, v, kd) in c.cells.items()})
                elif isinstance(c, ArrC):
                    if c0 is c or (c0 is not None and isinstance(c0, ArrC) and c0.c is c.c and c.c is not None): ns.objs[oid] = c; continue
                    if oid in refs:
                        if oid in newc:
                            if c.c is refs[oid]: nc = newc[oid]
                            else: nc = ASub(c.c, pairs, [(refs[o], newc[o]) for o in newc])
                        else:
                            nc = ASub(c.c, pairs, [])
                        ns.objs[oid] = ArrC(c.es, c.kind, nc)
                    else:
                        ns.objs[oid] = c if c.es is None else ArrC(c.es, c.kind, ASub(c.c, pairs, []))
                else: ns.objs[oid] = c
            ne = {}
            for i, v in e.items():
                ne[i] = v if env0.get(i) is v else self.subst(v, pairs)
            res[b] = (ns, ne, (self.subst(rv[0], pairs), rv[1]) if rv else None)
        return res
    def forall_k(self, k, rng, f):
        body = z3.Implies(Z(rng), f)
        pats = self.patterns(body, k)
        if pats: return z3.ForAll([k], body, patterns=pats)
        return z3.ForAll([k], body)
    def patterns(self, body, k):
        """uninterpreted applications with k as a direct argument (alternatives)"""
        kid = k.get_id(); out = {}; st = [body]; seen = set()
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                    if any(a.get_id() == kid for a in t.children()) and not any(has_var(a) for a in t.children()):
                        out[t.get_id()] = t
                st.extend(t.children())
        return list(out.values())[:4]
    # ------------------------------------------------------------ accumulators
    def fold_facts(self, fo, sb, contg):
        k, Kc, F, end = fo.k, fo.K, fo.F, fo.end
        kid = k.get_id()
        fname = F.decl().name()
        facts = []
        init0 = self.subst(F, [(k, z3.IntVal(0))]) == self.zv(fo.init, F) if not isinstance(fo.init, (Undef, Opaque)) else None
        if init0 is not None: facts.append(init0)
        endz = self.zv(end, F)
        fo.endz = endz
        if not occurs(endz, {fname}):
            km1 = k - 1
            facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 1, k <= Kc), F == z3.substitute(endz, (k, km1))), patterns=[F]))
            fo.cls = 'last'
        else:
            c = self.setflag(endz, F)
            if c is not None and c[1] is not None and not occurs(c[0], {fname}):
                cond, const = c
                cond = z3.And(Z(contg), cond) if False else cond
                fo.cls = 'flag'
                j = self.fresh_const('j', z3.IntSort())
                cj = z3.substitute(cond, (k, j))
                pats = self.patterns(cj, j)
                mp = [z3.MultiPattern(F, p) for p in pats]
                facts.append(z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < k, k <= Kc, cj), F == const), **({'patterns': mp} if mp else {})))
                sk = self.fresh('sk', z3.IntSort())   # depends on binders incl. k
                csk = z3.substitute(cond, (k, sk))
                if init0 is not None:
                    facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= Kc),
                        z3.Or(F == self.zv(fo.init, F), z3.And(0 <= sk, sk < k, csk, F == const))), patterns=[F]))
                kk = [(k, Kc)]
                facts.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Kc, cj), z3.substitute(F, *kk) == const), **({'patterns': pats} if pats else {})))
                if init0 is not None:
                    facts.append(z3.Or(z3.substitute(F, *kk) == self.zv(fo.init, F), z3.substitute(z3.And(0 <= sk, sk < k, csk, F == const), *kk)))
            else: fo.cls = 'rec'
        if fo.cls == 'rec':
            self.add_rec(F, k, Kc, endz, facts)
        cands = []
        for c in self.candidates:
            r = c(fo)
            if r: cands += r
        if self.dry == 0 and self.disc == 0:
            for P in cands:
                vs, P = P if isinstance(P, tuple) else ((), P)
                if self.prove_ind(fo, P):
                    facts.append(self.forall_k2(fo, P(k, F), vs)); self.lemf.append(facts[-1])
                    self.facts[-1].append(Z(P(k, F)) if not vs else z3.ForAll(list(vs), Z(P(k, F))))
        return facts
    def add_rec(self, F, k, Kc, endz, facts):
        """defining equation of an accumulator: quantified (triggered by the
        arrays it reads) and registered for ground unfolding in obligations"""
        outer = [a for a in F.children() if not a.eq(k)]
        self.recdefs.append((F, k, Kc, endz))
        pats = [p for p in self.patterns(endz, k) if p.decl().name() != F.decl().name() and not occurs(p, {F.decl().name()})]
        if pats:
            facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Kc), z3.substitute(F, (k, k + 1)) == endz), patterns=pats))
    def unfold(self, o, depth=2):
        """ground instances of accumulator definitions for the terms of an obligation"""
        if not self.recdefs: return
        done = set(); new = []
        frontier = [o.goal] + [h for h in o.hyps if not z3.is_quantifier(h)]
        for _ in range(depth):
            terms = []
            seen = set(); stk = list(frontier)
            while stk:
                t = stk.pop()
                if t.get_id() in seen or z3.is_quantifier(t): continue
                seen.add(t.get_id())
                if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: terms.append(t)
                stk.extend(t.children())
            frontier = []
            for t in terms:
                if t.get_id() in done: continue
                for F, k, Kc, endz in self.recdefs:
                    if t.decl().name() != F.decl().name(): continue
                    done.add(t.get_id()); self.keep.append(t)
                    pairs = []; tk = None
                    for a, b in zip(F.children(), t.children()):
                        if a.eq(k): tk = b
                        elif z3.is_const(a): pairs.append((a, b))
                    if tk is None: continue
                    km1 = z3.simplify(tk - 1)
                    inst = z3.Implies(z3.And(tk >= 1, tk <= z3.substitute(Kc, *pairs) if pairs else tk <= Kc), t == z3.substitute(endz, (k, km1), *pairs))
                    new.append(inst); frontier.append(inst)
        o.hyps = list(o.hyps) + new
    def forall_k2(self, fo, body, vs=()):
        k = fo.k
        if vs:
            n = fo.F.decl().name()
            pats = []
            for v in vs:
                st = [Z(body)]
                while st:
                    t = st.pop()
                    if z3.is_app(t) and t.num_args() and t.decl().name() == n and any(a.eq(v) for a in t.children()): pats.append(t); break
                    st.extend(t.children())
            kw = {'patterns': [z3.MultiPattern(fo.F, *pats)]} if len(pats) == len(vs) else {}
            return z3.ForAll([k] + list(vs), z3.Implies(z3.And(k >= 0, k <= fo.K), Z(body)), **kw)
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= fo.K), Z(body)), patterns=[fo.F])
    def prove_ind(self, fo, P):
        k, F = fo.k, fo.F
        base = P(z3.IntVal(0), self.zv(fo.init, F))
        pc0 = tuple(z3.substitute(Z(c), (k, z3.IntVal(0))) for c in ())
        s = fo.pc
        old = self.cur_pc
        okb = self.quick(Z(base), pc=tuple(), ms=5000)
        if not okb:
            okb = self.quick(Z(base), pc=fo.pc[:self.scopes[-1]['pcn']], ms=5000)
        if not okb: self.ind_failed += 1; return False
        step = z3.Implies(Z(P(k, F)), Z(P(k + 1, fo.endz)))
        ok = self.quick(step, pc=s, ms=10000)
        self.cur_pc = old
        if not ok: self.ind_failed += 1
        if ok:
            o = Obl('induction lemma on accumulator of ' + dem(fo.fn).split('(')[0][-60:], [], z3.BoolVal(True), 'lemma'); o.status = 'discharged'; o.by = 'z3'
            self.obls.append(o)
        return ok
    def zv(self, v, like):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v) if z3.is_int(like) else z3.BitVecVal(v, like.size()) if z3.is_bv(like) else self.zf(v)
        if isinstance(v, (Fraction, float)): return self.zf(v)
        return v
    def setflag(self, e, F):
        """e = F or const under conditions: (cond, const)"""
        if e.eq(F): return (z3.BoolVal(False), None)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.arg(0), e.arg(1), e.arg(2)
            ra, rb = self.setflag(a, F), self.setflag(b, F)
            if ra is None or rb is None: return None
            cs = [x for x in (ra[1], rb[1]) if x is not None]
            if len(cs) == 2 and not cs[0].eq(cs[1]): return None
            const = cs[0] if cs else None
            return (z3.Or(z3.And(c, ra[0]), z3.And(z3.Not(c), rb[0])), const)
        if z3.is_or(e) and z3.is_bool(e):
            cs = [x for x in e.children() if not x.eq(F)]
            if len(cs) < e.num_args(): return (z3.Or(*cs), z3.BoolVal(True))
        if z3.is_and(e) and z3.is_bool(e):
            cs = [x for x in e.children() if not x.eq(F)]
            if len(cs) < e.num_args(): return (z3.Not(z3.And(*cs)), z3.BoolVal(False))
        if z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e) or z3.is_rational_value(e) or z3.is_bv_value(e):
            return (z3.BoolVal(True), e)
        return None
    # ------------------------------------------------------------ array writes of a loop
    def note(self, kind, obj, idx, st, val=None):
        if not self.scopes: return
        fx = None
        for d, sc in enumerate(self.scopes):
            if fx is None: fx = self.all_facts()
            sc['log'].append((kind, obj, idx, st.pc, [(s['k'], s['K']) for s in self.scopes[d + 1:]], val, fx))
    def array_post(self, oid, ref, endc, scope, k, Kc, Kr, par, n0, carried):
        evs = [e for e in scope['log'] if e[1] == oid]
        ws = [e for e in evs if e[0] == 'w']; rs = [e for e in evs if e[0] == 'r']
        nm = self.meta[oid].name
        kind = 'race' if par else 'frame'
        own = self.infer_own(ws, k)
        if own is not None:
            for e in ws:
                self.cur_pc = e[3]
                c, o = own(e[2])
                self.obl2('writes to %s by different iterations are disjoint' % nm, band(c, self.eqi(o, k)), kind, e)
            for e in rs:
                self.cur_pc = e[3]
                c, o = own(e[2])
                g = bnot(band(c, self.lei(0, o), self.lti(o, Kc if par else k), bnot(self.eqi(o, k))))
                self.obl2('%s is not read where another iteration writes' % nm, g, kind, e)
            return APar(ref.t, endc.c, ref, k, Kr, own)
        # same constant value everywhere
        vals = [e[5] for e in ws]
        ids = {k.get_id()} | {b[0].get_id() for e in ws for b in e[4]}
        if all(same(v, vals[0]) for v in vals) and not occurs(vals[0], ids) and not rs:
            return self.const_writes(ws, ref.t, k, Kc, vals[0])
        # pairwise disjointness
        if self.atomic_arrays and oid in self.atomic_arrays:
            return self.atomic_arrays[oid](self, ws, ref, k, Kc)
        return self.pairwise(oid, ws, rs, ref, endc, k, Kc, kind, nm)
    def accum_post(self, oid, r, endc, d, k, Kc, Kr, sb, post_facts, fr):
        """array updated only by atomic additions: content after k iterations is
        initial + ACC(k, x) with ACC defined by the body (additions commute, so
        the final content does not depend on the schedule)"""
        b = self.binders(); outer = b[:-1]
        X = self.fresh_const('X', z3.IntSort())
        F = d(*b, X)
        end = endc.c.read(X, self)
        endz = self.zi(self.subi(end, r.base.read(X, self)))
        post_facts.append(z3.ForAll([X], z3.substitute(F, (k, z3.IntVal(0))) == 0, patterns=[z3.substitute(F, (k, z3.IntVal(0)))]))
        self.recdefs.append((F, k, Kc, endz))
        pats = [p for p in self.patterns(endz, k) if p.decl().name() != d.name() and not occurs(p, {d.name()}) and not occurs(p, {X.get_id()})]
        if pats:
            post_facts.append(z3.ForAll([k, X], z3.Implies(z3.And(k >= 0, k < Kc), z3.substitute(F, (k, k + 1)) == endz), patterns=[z3.MultiPattern(F, p) for p in pats]))
        fo = Fold(); fo.key = ('acc', oid); fo.F = F; fo.k = k; fo.K = Kc; fo.init = 0; fo.end = endz; fo.endz = endz; fo.kind = 'i'; fo.size = endc.es
        fo.fn = fr.fn.name; fo.pc = sb.pc; fo.scope = self.scopes[-1]; fo.cx = self; fo.X = X; fo.cls = 'acc'; fo.decl = d
        fo.at = lambda t, x, F=F: z3.substitute(F, (k, self.zi(t)), (X, self.zi(x)))
        self.folds.append(fo)
        for c in self.candidates:
            for P in (c(fo) or []):
                vs, P = P if isinstance(P, tuple) else ((), P)
                if self.dry == 0 and self.prove_ind(fo, P):
                    body = z3.ForAll([k, X] + list(vs), z3.Implies(z3.And(k >= 0, k <= Kc), Z(P(k, F))), **self.acc_pats(fo, vs, P))
                    post_facts.append(body); self.facts[-1].append(body); self.lemf.append(body)
        if len(fo.scope['log']) and self.fold_hook: self.fold_hook(fo)
        prev = r.base; pairs_outer = outer
        return AFun(lambda x: self.addi(prev.read(x, self), d(*outer, self.zi(Kr), self.zi(x))))
    def acc_pats(self, fo, vs, P):
        if not vs: return {'patterns': [fo.F]}
        pats = []
        n = fo.decl.name()
        for v in vs:
            st = [Z(P(fo.k, fo.F))]
            while st:
                t = st.pop()
                if z3.is_app(t) and t.num_args() and t.decl().name() == n and any(a.eq(v) for a in t.children()): pats.append(t); break
                st.extend(t.children())
        return {'patterns': [z3.MultiPattern(fo.F, *pats)]} if len(pats) == len(vs) else {}
    atomic_arrays = None
    @property
    def inst_reg(self):
        if not hasattr(self, '_ir'): self._ir = []
        return self._ir
    def reg_inst(self, bvs, body):
        """a write fact that specifications may instantiate, with the loops around it"""
        if self.dry or self.disc: return
        out = [(s['k'], s['K']) for s in self.scopes[:-1]]
        rng = [z3.And(k >= 0, k <= K) for k, K in out]
        self.inst_reg.append(([k for k, _ in out] + list(bvs), z3.Implies(z3.And(*rng), body) if rng else body))
    def obl2(self, name, goal, kind, e):
        if self.dry: return
        b = conc_bool(goal)
        if b is True:
            o = Obl(name, [], z3.BoolVal(True), kind); o.status = 'trivial'
        else:
            fx = list(e[6])
            cur = self.all_facts()
            if len(cur) > len(fx) and all(a is b for a, b in zip(fx, cur)): fx = cur
            else: fx = fx + [f for f in self.facts[-1] if not any(f is g for g in fx)]
            o = Obl(name, fx + [Z(p) for p in e[3]], Z(goal), kind)
        self.obls.append(o)
    def qbody(self, e, k, Kc):
        """(bound vars, guard) of a write event"""
        bvs = [k] + [b for b, _ in e[4]]
        return bvs, band(*[p for p in e[3]])
    def const_writes(self, ws, prev, k, Kc, val):
        d = z3.Function(self.fresh_name('W'), *([z3.IntSort()] * (len(self.scopes) - 1 + 1)), z3.BoolSort())
        outer = [s['k'] for s in self.scopes[:-1]]
        alts = []
        X = self.fresh_const('X', z3.IntSort())
        base = len(self.scopes[-1:]) and self.scopes[-1]['pcn']
        facts = []
        cases = []
        for e in ws:
            bvs, _ = self.qbody(e, k, Kc)
            g = band(*e[3][base:])
            g = band(g, k < Kc, *[b < kk for b, kk in e[4]])
            facts.append(z3.ForAll(bvs, z3.Implies(Z(g), d(*outer, self.zi(e[2])))))
            self.reg_inst(bvs, z3.Implies(Z(g), d(*outer, self.zi(e[2]))))
            sks = [(b, z3.Function(self.fresh_name('wk'), *([z3.IntSort()] * (len(outer) + 1)), z3.IntSort())(*outer, X)) for b in bvs]
            cases.append(z3.substitute(Z(band(g, self.eqi(e[2], X))), *sks))
        facts.append(z3.ForAll([X], z3.Implies(d(*outer, X), z3.Or(*cases)), patterns=[d(*outer, X)]))
        if not self.dry and not outer: self.witnesses = getattr(self, 'witnesses', []) + [(d, X, [s_ for _, s_ in sks], self.meta[ws[0][1]].name)]
        self.pending = getattr(self, 'pending', [])
        # these facts do not mention k free: add to the enclosing scope
        self.facts[-2].extend(facts)
        cx = self
        return AFun(lambda x: cx.ite(d(*outer, cx.zi(x)), val, prev.read(x, cx)))
    def pairwise(self, oid, ws, rs, ref, endc, k, Kc, kind, nm):
        k2 = self.fresh_const('k2', z3.IntSort())
        self.set_rng(k2, (0, None))
        outer = [s['k'] for s in self.scopes[:-1]]
        base = self.scopes[-1]['pcn']
        for a in ws:
            for b in ws + rs:
                ren = [(k, k2)] + [(v, self.fresh_const('b2', z3.IntSort())) for v, _ in b[4]]
                hy = list(a[6]) + [z3.substitute(Z(f), *ren) for f in b[6]] + [Z(p) for p in a[3]] + [z3.substitute(Z(p), *ren) for p in b[3]]
                hy += [z3.substitute(v < kk, *ren) if True else None for v, kk in b[4]] + [v < kk for v, kk in a[4]]
                idb = self.subst(b[2], ren)
                o = Obl('writes to %s by different iterations are disjoint' % nm, hy + [k != k2, k < Kc, k2 < Kc], Z(bnot(self.eqi(a[2], idb))), kind)
                self.obls.append(o)
        nA = z3.Function(self.fresh_name('scat'), *([z3.IntSort()] * (len(outer) + 1)), self.zv0(endc))
        W = z3.Function(self.fresh_name('W'), *([z3.IntSort()] * (len(outer) + 1)), z3.BoolSort())
        X = self.fresh_const('X', z3.IntSort())
        facts = []; cases = []
        if endc.kind == 'i': self.decl_rng[nA.name()] = (-(1 << (8 * endc.es - 1)), (1 << (8 * endc.es - 1)) - 1)
        for e in ws:
            bvs = [k] + [b for b, _ in e[4]]
            g = band(*e[3][base:]); g = band(g, k < Kc, *[b < kk for b, kk in e[4]])
            self.cur_pc = e[3]
            fin = endc.c.read(e[2], self)
            facts.append(z3.ForAll(bvs, z3.Implies(Z(g), z3.And(W(*outer, self.zi(e[2])), nA(*outer, self.zi(e[2])) == self.zvk(fin, endc)))))
            self.reg_inst(bvs, z3.Implies(Z(g), z3.And(W(*outer, self.zi(e[2])), nA(*outer, self.zi(e[2])) == self.zvk(fin, endc))))
            sks = [(b, z3.Function(self.fresh_name('wk'), *([z3.IntSort()] * (len(outer) + 1)), z3.IntSort())(*outer, X)) for b in bvs]
            cases.append(z3.substitute(Z(band(g, self.eqi(e[2], X))), *sks))
        facts.append(z3.ForAll([X], z3.Implies(W(*outer, X), z3.Or(*cases)), patterns=[W(*outer, X)]))
        self.facts[-2].extend(facts)
        prev = ref.t; cx = self
        return AFun(lambda x: cx.ite(W(*outer, cx.zi(x)), nA(*outer, cx.zi(x)), prev.read(x, cx)))
    def zv0(self, c):
        return self.fpsort() if c.kind == 'f' else z3.IntSort()
    def zvk(self, v, c):
        if isinstance(v, (int,)): return z3.IntVal(v) if c.kind == 'i' else self.zf(v)
        if isinstance(v, Fraction): return self.zf(v)
        return v
    # ------------------------------------------------------------ ownership inference
    def infer_own(self, ws, k):
        kid = k.get_id()
        for e in ws:
            for hint in self.owner_hints:
                f = hint(self, k, e)
                if f is not None: return f
        for e in ws:
            if not occurs(e[2], {kid}): return None
        e = ws[0]
        bv = {b.get_id() for b, _ in e[4]}
        probe = self.fresh_const('probe', z3.IntSort())
        if self.invert(e[2], k, bv, probe) is None: return None
        return lambda x: self.invert(e[2], k, bv, x)
    def invert(self, e, k, bv, x):
        kid = k.get_id()
        p = self.poly(e)
        km = {}; bm = {}; free = {}
        for m, c in p.items():
            if any(occurs(self.atoms[a], {kid}) for a in m): km[m] = c
            elif bv and any(occurs(self.atoms[a], bv) for a in m): bm[m] = c
            else: free[m] = c
        if not km: return None
        const = free.pop((), 0)
        fr = self.unpoly(free)
        x1 = self.subi(x, fr) if free else x
        if len(km) == 1:
            (m, c), = km.items()
            kat = [a for a in m if occurs(self.atoms[a], {kid})]
            oth = list(m); 
            for a in kat: oth.remove(a)
            if len(kat) == 1:
                at = self.atoms[kat[0]]
                if not oth and c == 1:
                    if kat[0] == kid:
                        if bm: return None
                        return True, self.addi(x1, -const)
                    # application
                    return self.inv_app(at, k, bv, self.addi(x1, -const) if not bm else x1, bm, const)
                if c >= 1:
                    mm = {tuple(sorted(oth)): c}
                    mt = self.unpoly(mm)
                    q = self.qdiv(x1, mt)
                    if kat[0] == kid: return True, q
                    return self.inv_app(at, k, set(), q, {}, 0)
            return None
        # several k-dependent monomials: common factor
        import math
        g = 0
        for c in km.values(): g = math.gcd(g, c)
        common = None
        for m in km:
            o = [a for a in m if not occurs(self.atoms[a], {kid})]
            common = o if common is None else [a for a in common if a in o]
        if (g > 1 or common):
            mt = self.unpoly({tuple(sorted(common)): g})
            Q = {}
            for m, c in km.items():
                mm = list(m)
                for a in common: mm.remove(a)
                Q[tuple(mm)] = c // g
            q = self.qdiv(x1, mt)
            return self.invert(self.unpoly(Q), k, set(), q)
        for rule in self.app_rules:
            r = rule(self, e, k, bv, x)
            if r is not None: return r
        return None
    app_rules = []
    def inv_app(self, at, k, bv, x, bm, const):
        n = at.decl().name()
        last = at.arg(at.num_args() - 1) if at.num_args() else None
        if n in self.mono:
            c, o = self.mono[n](x, at)
            r = self.invert(last, k, bv, o)
            return None if r is None else (band(c, r[0]), r[1])
        if n in self.inj:
            c, o = self.inj[n](x, at)
            r = self.invert(last, k, bv, o)
            return None if r is None else (band(c, r[0]), r[1])
        for rule in self.app_rules:
            r = rule(self, at, k, bv, x)
            if r is not None: return r
        return None

def has_var(t):
    return False
