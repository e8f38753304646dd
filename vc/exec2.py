from exec import *
import math

def has_q(e, _memo={}):
    i = e.get_id()
    if i in _memo: return _memo[i][0]
    r = z3.is_quantifier(e) or any(has_q(c) for c in e.children())
    _memo[i] = (r, e)
    return r
import exec as _ex
_ex.has_q = has_q

BITS = [False]      # fp='bits': floating-point values are their bit patterns (moved, never computed with)
def kindof(ty):
    if ty.kind == 'int': return 'i'
    if ty.kind == 'ptr': return 'p'
    if ty.kind in ('double', 'float'): return 'i' if BITS[0] else 'f'
    raise Unsupported('kind ' + ty.kind)
_ex.kindof = kindof

def occurs(v, ids, memo=None):
    """does any constant/app decl whose ast id/decl name in ids occur in v"""
    if is_sym(v):
        if memo is None: memo = {}
        st = [v]
        seen = set()
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen: continue
            seen.add(i)
            if i in ids: return True
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ids: return True
            st.extend(t.children())
        return False
    if isinstance(v, Ptr): return any(occurs(t, ids) for _, t in v.lin)
    if isinstance(v, PIte): return occurs(v.c, ids) or occurs(v.a, ids) or occurs(v.b, ids)
    if isinstance(v, Comp): return any(occurs(p[2], ids) for p in v.parts)
    if isinstance(v, Aggr): return any(occurs(x, ids) for x in v.v)
    if isinstance(v, PInt): return occurs(v.p, ids)
    return False

class VC(Cx):
    # ------------------------------------------------------------ arithmetic
    def asint(self, v, bits):
        if isinstance(v, Comp): return self.comp_int(v)
        if isinstance(v, Undef): return self.fresh_int('undef', bits)
        if isinstance(v, Opaque): return self.fresh_int('opq', bits)
        return v
    def binop(self, I, a, b, st):
        op = I.op; bits = I.ty.bits
        if I.ty.kind == 'vector':
            raise Unsupported('vector arithmetic')
        if op[0] == 'f': return self.fbin(op, a, b)
        if bits == 1:
            if isinstance(a, Undef): a = self.fresh('undef', z3.BoolSort())
            if isinstance(b, Undef): b = self.fresh('undef', z3.BoolSort())
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return bnot(a) if b else a
                if isinstance(a, bool): return bnot(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt): return self.ptrarith(op, a, b, bits, st)
        a = self.asint(a, bits); b = self.asint(b, bits)
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(op, a, b, bits, I, st)
        if self.mode == 'bv': return self.bvbin(op, a, b, bits, I, st)
        return self.ibin(op, a, b, bits, I, st)
    def ptrarith(self, op, a, b, bits, st):
        if isinstance(a, PInt) and isinstance(a.p, PIte): return self.ite(a.p.c, self.ptrarith(op, PInt(a.p.a), b, bits, st), self.ptrarith(op, PInt(a.p.b), b, bits, st))
        # an integer stored in a pointer (tag bits): no object behind it
        ti = lambda x: self.off_term2(x.p) if isinstance(x, PInt) and isinstance(x.p, Ptr) and x.p.obj is None and (x.p.c or x.p.lin) else x
        a2, b2 = ti(a), ti(b)
        if not isinstance(a2, PInt) and not isinstance(b2, PInt): return self.binop(op, a2, b2, bits, None, st) if False else (self.cbin(op, a2, b2, bits, None, st) if isinstance(a2, int) and isinstance(b2, int) else self.ibin(op, a2, b2, bits, None, st))
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and a.p.obj == b.p.obj:
            d = self.padd(a.p, -b.p.c, [(-s, t) for s, t in b.p.lin])
            # combine strides of opposite sign
            return self.off_term2(d)
        if op == 'and' and isinstance(a, PInt) and isinstance(b, int) and 0 <= b < 8 and isinstance(a.p, Ptr):
            if a.p.obj is None and a.p.c == 0 and not a.p.lin: return 0
            if not a.p.lin and a.p.c % 8 == 0: return 0
        raise Unsupported('pointer arithmetic %s %r %r' % (op, a.p if isinstance(a, PInt) else a, b.p if isinstance(b, PInt) else b))
    def off_term2(self, p):
        t = p.c
        for s, x in p.lin: t = self.addi(t, self.muli(s, x)) if self.mode == 'int' else (x * s + t)
        return t
    def cbin(self, op, a, b, bits, I, st):
        M = (1 << bits) - 1
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op == 'shl': r = a << (b & M) if (b & M) < bits else 0
        elif op == 'lshr': r = (a & M) >> (b & M) if (b & M) < bits else 0
        elif op == 'ashr': r = a >> (b & M) if (b & M) < bits else (-1 if a < 0 else 0)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0:
                self.oblige('division by zero', False, 'safety', st.pc); return 0
            if op == 'udiv': r = (a & M) // (b & M)
            elif op == 'urem': r = (a & M) % (b & M)
            else:
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == 'sdiv' else a - q * b
        else: raise Unsupported(op)
        if op in ('add', 'sub', 'mul') and I is not None and I.extra and I.extra[0] and r != wrap_const(r, bits):
            self.oblige('no signed overflow', False, 'overflow', st.pc)
        return wrap_const(r, bits)
    def bvbin(self, op, a, b, bits, I, st):
        a = sx(a, bits); b = sx(b, bits)
        if I is not None and op in ('add', 'sub', 'mul') and I.extra[0] and self.overflow == 'prove':
            ok = {'add': z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                  'sub': z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                  'mul': z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[op]
            self.oblige('no signed overflow', ok, 'overflow', st.pc)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige('division by zero', b != 0, 'safety', st.pc)
        if op in ('shl', 'lshr', 'ashr') and self.overflow == 'prove':
            self.oblige('shift amount in range', z3.ULT(b, bits), 'overflow', st.pc)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
             'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        r = z3.simplify(r)
        if z3.is_bv_value(r): return r.as_signed_long()
        return r
    def ibin(self, op, a, b, bits, I, st):
        nsw, nuw = I.extra if (I is not None and I.extra and op in ('add', 'sub', 'mul', 'shl')) else (False, False)
        if op in ('add', 'sub', 'mul'):
            r = self.addi(a, b) if op == 'add' else self.subi(a, b) if op == 'sub' else self.muli(a, b)
            if nsw:
                self.nooverflow(r, bits, st); return r
            return self.sgn(r, bits)
        if op == 'shl':
            if not isinstance(b, int): raise Unsupported('symbolic shift (int mode)')
            r = self.muli(1 << b, a)
            if nsw: return r
            return self.sgn(r, bits)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if op[0] == 'u': a = self.uns(a, bits); b = self.uns(b, bits)
            self.oblige('division by zero', bnot(self.eqi(b, 0)), 'safety', st.pc)
            old = self.cur_pc; self.cur_pc = st.pc
            try:
                if isinstance(b, int) and b > 0 or (not isinstance(b, int) and (self.rng(b)[0] or 0) > 0) or self.quick(self.lti(0, b), ms=1000):
                    la, ha = self.rng(a)
                    if (la is not None and la >= 0) or self.quick(self.lei(0, a), ms=1000):
                        q = self.qdiv(a, b)
                        if op.endswith('div'): return q
                        return self.subi(a, self.muli(q, b))
                    za = self.zi(a); zb = self.zi(b)
                    q = z3.If(za >= 0, za / zb, -((-za) / zb))
                    return q if op.endswith('div') else za - zb * q
            finally: self.cur_pc = old
            za = self.zi(a); zb = self.zi(b)
            absa = z3.If(za >= 0, za, -za); absb = z3.If(zb >= 0, zb, -zb)
            q = z3.If((za >= 0) == (zb >= 0), absa / absb, -(absa / absb))
            return q if op.endswith('div') else za - zb * q
        if op in ('lshr', 'ashr') and isinstance(b, int):
            x = self.uns(a, bits) if op == 'lshr' else a
            return self.sgn(self.qdiv(x, 1 << b), bits) if op == 'lshr' else self.qdiv(x, 1 << b)
        if op == 'and':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b == -1: return a
                if b >= 0 and (b & (b + 1)) == 0:
                    lo, hi = self.rng(a)
                    if lo is not None and hi is not None and 0 <= lo and hi <= b: return a
                    pm = {m: c % (b + 1) for m, c in self.poly(a).items() if c % (b + 1)}
                    if not pm: return 0
                    if list(pm) == [()]: return pm[()]
                    return self.zi(a) % (b + 1)
                if b < 0 and (-b & (-b - 1)) == 0:
                    # clears the low bits
                    m = -b; p = self.poly(a); rest = self.unpoly({x: c for x, c in p.items() if c % m}) if any(c % m for c in p.values()) else 0
                    lo, hi = self.rng(rest) if not isinstance(rest, int) else (rest, rest)
                    if lo is not None and hi is not None and 0 <= lo and hi < m: return self.unpoly({x: c for x, c in p.items() if c % m == 0})
                    return self.subi(a, self.zi(a) % m)
                # contiguous mask
                if b > 0:
                    s = (b & -b).bit_length() - 1; w = b >> s
                    if (w & (w + 1)) == 0:
                        return self.muli(1 << s, self.qdiv(self.uns(a, bits), 1 << s) % (w + 1))
        if op == 'or':
            # disjoint bits: one operand is a multiple of 2^k, the other in [0,2^k)
            for x, y in ((a, b), (b, a)):
                lo, hi = self.rng(y)
                if lo is not None and hi is not None and lo >= 0:
                    k = max(hi, 0).bit_length()
                    if k == 0: return x
                    if isinstance(x, int):
                        if x & ((1 << k) - 1) == 0: return self.addi(x, y)
                    elif all(c % (1 << k) == 0 for c in self.poly(x).values()): return self.addi(x, y)
        # general: through bit vectors
        if op in ('and', 'or', 'xor'):
            za = z3.Int2BV(self.zi(a), bits); zb = z3.Int2BV(self.zi(b), bits)
            r = {'and': za & zb, 'or': za | zb, 'xor': za ^ zb}[op]
            r = z3.BV2Int(r, True)
            self.set_rng(r, (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)) if False else None
            return r
        raise Unsupported('int op ' + op)
    def nooverflow(self, r, bits, st):
        if isinstance(r, int):
            if r != wrap_const(r, bits): self.oblige('no signed overflow', False, 'overflow', st.pc)
            return
        if self.overflow != 'prove':
            self.assumptions.add('signed index arithmetic does not overflow its machine width (treated as mathematical integers)')
            return
        L = -(1 << (bits - 1)); H = (1 << (bits - 1)) - 1
        lo, hi = self.rng(r)
        if lo is not None and hi is not None and L <= lo and hi <= H: return
        self.oblige('no signed overflow', band(self.lei(L, r), self.lei(r, H)), 'overflow', st.pc)
    def fbin(self, op, a, b):
        if self.fp == 'bits': raise Unsupported('floating-point arithmetic on bit patterns')
        if isinstance(a, Comp) and len(a.parts) == 1: a = a.parts[0][2]
        if isinstance(b, Comp) and len(b.parts) == 1: b = b.parts[0][2]
        if self.fp == 'real':
            if isinstance(a, Fraction) and isinstance(b, Fraction) and (op != 'fdiv' or b != 0):
                return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[op] if op != 'fdiv' else a / b
            a = self.zf(a); b = self.zf(b)
            return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
        a = self.zf(a); b = self.zf(b); rm = z3.RNE()
        return {'fadd': lambda: z3.fpAdd(rm, a, b), 'fsub': lambda: z3.fpSub(rm, a, b),
                'fmul': lambda: z3.fpMul(rm, a, b), 'fdiv': lambda: z3.fpDiv(rm, a, b), 'frem': lambda: z3.fpRem(a, b)}[op]()
    def icmp(self, pr, a, b, ty, st):
        if ty.kind == 'ptr' or isinstance(a, (Ptr, PIte, FnVal)) or isinstance(b, (Ptr, PIte, FnVal)): return self.pcmp(pr, a, b)
        if ty.kind == 'int' and ty.bits == 1:
            a = self.tobool(a); b = self.tobool(b)
            e = self.booleq(a, b)
            if pr == 'eq': return e
            if pr == 'ne': return bnot(e)
            raise Unsupported('i1 cmp')
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): return self.pcmp(pr, a.p, b.p)
            p, o = (a, b) if isinstance(a, PInt) else (b, a)
            if o == 0 and pr in ('eq', 'ne'): return self.pcmp(pr, p.p, NULL)
            raise Unsupported('ptr/int compare')
        a = self.asint(a, ty.bits); b = self.asint(b, ty.bits)
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 'u':
                M = (1 << ty.bits) - 1; a &= M; b &= M
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr if pr in ('eq', 'ne') else pr[1:]]
        if self.mode == 'bv':
            a = sx(a, ty.bits); b = sx(b, ty.bits)
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b)}[pr]()
            r = z3.simplify(r)
            c = conc_bool(r)
            return r if c is None else c
        if pr[0] == 'u':
            old = self.cur_pc; self.cur_pc = st.pc
            a = self.uns(a, ty.bits); b = self.uns(b, ty.bits); self.cur_pc = old
        p = pr if pr in ('eq', 'ne') else pr[1:]
        if p == 'eq': return self.eqi(a, b)
        if p == 'ne': return bnot(self.eqi(a, b))
        if p == 'lt': return self.lti(a, b)
        if p == 'le': return self._le2(a, b)
        if p == 'gt': return self.lti(b, a)
        return self._le2(b, a)
    def _le2(self, a, b):
        d = self.const_diff(a, b)
        if d is not None: return d <= 0
        return self._lei(a, b)
    def booleq(self, a, b):
        if isinstance(a, bool): return b if a else bnot(b)
        if isinstance(b, bool): return a if b else bnot(a)
        return a == b
    def tobool(self, a):
        if isinstance(a, Undef): return self.fresh('undef', z3.BoolSort())
        if isinstance(a, Opaque): return self.fresh('opq', z3.BoolSort())
        if isinstance(a, int) and not isinstance(a, bool): return bool(a & 1)
        return a
    def pcmp(self, pr, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, PIte): return self.bite(a.c, self.pcmp(pr, a.a, b), self.pcmp(pr, a.b, b))
        if isinstance(b, PIte): return self.bite(b.c, self.pcmp(pr, a, b.a), self.pcmp(pr, a, b.b))
        if isinstance(a, (Undef, Opaque)) or isinstance(b, (Undef, Opaque)): return self.fresh('ptrcmp', z3.BoolSort())
        if isinstance(a, FnVal) or isinstance(b, FnVal):
            e = isinstance(a, FnVal) and isinstance(b, FnVal) and a.name == b.name
            return e if pr == 'eq' else not e
        if a.obj != b.obj:
            if pr == 'eq': return False
            if pr == 'ne': return True
            raise Unsupported('pointer order across objects')
        x = self.off_term2(a); y = self.off_term2(b)
        if self.mode == 'int':
            return {'eq': lambda: self.eqi(x, y), 'ne': lambda: bnot(self.eqi(x, y)), 'ult': lambda: self.lti(x, y), 'ugt': lambda: self.lti(y, x),
                    'ule': lambda: self._le2(x, y), 'uge': lambda: self._le2(y, x)}[pr]()
        if isinstance(x, int) and isinstance(y, int):
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pr]
        x = sx(x, 64); y = sx(y, 64)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ugt': lambda: z3.UGT(x, y), 'ule': lambda: z3.ULE(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]()
    def bite(self, c, a, b):
        return self.ite(c, a, b)
    def fcmp(self, pr, a, b):
        if self.fp == 'real':
            if pr in ('ord', 'true'): return True
            if pr in ('uno', 'false'): return False
            p = pr[1:]
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
            a = self.zf(a); b = self.zf(b)
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[p]()
        a = self.zf(a); b = self.zf(b)
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b)}
        if pr == 'ord': return z3.Not(un)
        if pr == 'uno': return un
        if pr == 'une': return z3.Not(base['eq'])
        if pr == 'one': return z3.And(z3.Not(un), z3.Not(base['eq']))
        if pr[0] == 'o': return base[pr[1:]]
        return z3.Or(un, base[pr[1:]])
    def cast(self, I, v, st):
        op = I.op; src = I._txt; dst = I.ty
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, PInt): return v
            if src.bits == 1:
                v = self.tobool(v)
                if op == 'zext': return self.ite(v, 1, 0, dst.bits)
                return self.ite(v, -1, 0, dst.bits)
            v = self.asint(v, src.bits)
            if dst.bits == 1:
                if isinstance(v, int): return bool(v & 1)
                if self.mode == 'bv': 
                    r = z3.simplify(z3.Extract(0, 0, v) == 1); c = conc_bool(r); return r if c is None else c
                lo, hi = self.rng(v)
                if lo is not None and hi is not None and 0 <= lo and hi <= 1:
                    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                        return v.arg(0) if v.arg(1).as_long() == 1 else bnot(v.arg(0))
                    return v == 1
                return v % 2 == 1
            if isinstance(v, int):
                if op == 'zext': return v & ((1 << src.bits) - 1) if dst.bits > src.bits else v
                return wrap_const(v, dst.bits)
            if self.mode == 'bv':
                r = z3.simplify({'trunc': lambda: z3.Extract(dst.bits - 1, 0, v), 'zext': lambda: z3.ZeroExt(dst.bits - src.bits, v), 'sext': lambda: z3.SignExt(dst.bits - src.bits, v)}[op]())
                return r.as_signed_long() if z3.is_bv_value(r) else r
            old = self.cur_pc; self.cur_pc = st.pc
            try:
                if op == 'sext': return v
                if op == 'zext': return self.uns(v, src.bits)
                return self.sgn(v, dst.bits)
            finally: self.cur_pc = old
        if op == 'ptrtoint': return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, int): return Ptr(None, v)
            if is_sym(v) and self.mode == 'int' and self.quick(v % 8 != 0): return Ptr(None, 0, ((1, v),))
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if src.kind == dst.kind: return v
            if self.fp == 'bits' and {src.kind, dst.kind} <= {'int', 'double', 'float'}: return v
            if src.kind in ('double', 'float') and dst.kind == 'int':
                if self.fp == 'fp' and self.mode == 'bv': return z3.fpToIEEEBV(self.zf(v))
                return Comp([(0, 8, v, 'f')], 8)
            if src.kind == 'int' and dst.kind == 'double':
                if isinstance(v, Comp) and len(v.parts) == 1: return v.parts[0][2]
                if self.fp == 'fp' and self.mode == 'bv': return z3.fpBVToFP(sx(v, 64), z3.Float64())
            raise Unsupported('bitcast')
        if op in ('sitofp', 'uitofp'):
            if src.bits == 1:
                v = self.ite(self.tobool(v), 1, 0, 64)
                if op == 'sitofp': v = self.neg(v)
            v = self.asint(v, src.bits)
            if self.fp == 'real':
                if isinstance(v, int): return Fraction(v if op == 'sitofp' else v & ((1 << src.bits) - 1))
                if self.mode == 'int':
                    if op == 'uitofp': v = self.uns(v, src.bits)
                    return z3.ToReal(v)
                return z3.ToReal(z3.BV2Int(v, op == 'sitofp'))
            if self.mode == 'bv':
                v = sx(v, src.bits)
                return z3.fpSignedToFP(z3.RNE(), v, z3.Float64()) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), v, z3.Float64())
            raise Unsupported('sitofp')
        if op in ('fptosi', 'fptoui'):
            if self.fp == 'real':
                if isinstance(v, Fraction):
                    return wrap_const(int(v), dst.bits)
                if self.mode == 'int':
                    v = self.zf(v)
                    r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                    return self.nn(r)
            elif self.mode == 'bv':
                v = self.zf(v)
                return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(dst.bits)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(dst.bits))
            raise Unsupported(op)
        if op in ('fptrunc', 'fpext'):
            if self.fp == 'real': return v
        raise Unsupported('cast ' + op)
    def nn(self, r): return r
    def neg(self, v):
        return -v
    # ------------------------------------------------------------ functions
    def contract_for(self, name):
        if name in self.ccache: return self.ccache[name]
        d = dem(name)
        r = None
        for rx, h in self.contracts:
            if rx.search(d): r = h; break
        self.ccache[name] = r
        return r
    def call(self, name, args, st, I=None):
        """returns (state, value) or None when the call does not return"""
        h = self.contract_for(name)
        if h is not None:
            old = self.cur_pc; self.cur_pc = st.pc
            r = h(self, name, args, st, I)
            self.cur_pc = old
            if r != 'INLINE':
                self.used_contracts.add(dem(name))
                return r
        fn = self.mod.function(name)
        if fn is None:
            raise Unsupported('no body or contract for ' + dem(name))
        return self.run_body(fn, args, st)
    def run_body(self, fn, args, st):
        if not self.dry: self.used.add(fn.name)
        if self.depth > 120: raise Unsupported('recursion')
        env = {}
        for p, a in zip(fn.params, args): env[p] = a
        fr = Frame(fn, env)
        self.depth += 1
        try:
            arr = self.region(fr, fn.entry, env, st, frozenset([EXIT]), True)
        except Unsupported as ex:
            ex.stack = getattr(ex, 'stack', []) + [dem(fn.name)]
            raise
        finally: self.depth -= 1
        r = arr.get(EXIT)
        if r is None: return None
        s, e, rv = r
        # drop the frame's stack objects to keep states small
        return s, (rv[0] if rv else None)
    def enter(self, fr, pred, succ, env, st):
        B = fr.fn.blocks[succ]
        new = []
        for I in B.insts:
            if I.op != 'phi': break
            for b, o in I.ops:
                if b == pred:
                    new.append((I.id, self.operand(o, env, st)))
                    if I.ty.kind == 'int': self.inst_bits[I.id] = I.ty.bits
                    break
        if new:
            env = dict(env)
            for i, v in new: env[i] = v
        return env
    def region(self, fr, cur, env, st, stops, first):
        acc = {}
        fn = fr.fn
        while True:
            if cur in stops and not first:
                return self.merge_maps(acc, {cur: (st, env, None)})
            if cur in fn.loops and not (first and getattr(fr, 'inloop', None) == cur):
                res = self.loop(fr, cur, env, st, stops)
                if res is not None:
                    if not res: return acc
                    # continue from the loop exits
                    if len(res) == 1:
                        (b, (s, e, rv)), = res.items()
                        if b in stops: return self.merge_maps(acc, {b: (s, e, rv)})
                        cur, env, st = b, e, s; first = False
                        continue
                    P = fn.ipdom.get(cur)
                    # ipdom of the loop: climb until outside of the loop
                    while P in fn.loops[cur]: P = fn.ipdom.get(P)
                    out = {}
                    st2 = stops | ({P} if P else set())
                    for b, (s, e, rv) in res.items():
                        if b in st2: self.merge_maps(out, {b: (s, e, rv)})
                        else: self.merge_maps(out, self.region(fr, b, e, s, st2, False))
                    if P in out and P not in stops:
                        s, e, rv = out.pop(P)
                        self.merge_maps(acc, out)
                        cur, env, st = P, e, s; first = False
                        continue
                    return self.merge_maps(acc, out)
            first = False
            B = fn.blocks[cur]
            self.steps += len(B.insts)
            if self.steps > self.max_steps: raise Unsupported('step limit')
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            self.cur_pc = st.pc
            dead = False
            for I in B.insts[:-1]:
                if I.op in ('phi', 'nop'): continue
                r = self.step(fr, I, env, st)
                if r is False: dead = True; break
                if isinstance(r, State): st = r; self.cur_pc = st.pc
            if dead: return acc
            T = B.insts[-1]
            if T.op == 'ret':
                v = None
                if T.ops:
                    v = (self.operand(T.ops[0], env, st), T._txt.bits if T._txt else None)
                return self.merge_maps(acc, {EXIT: (st, env, v)})
            if T.op == 'unreachable': return acc
            if T.op == 'invoke':
                r = self.step(fr, T, env, st)
                if r is False: return acc
                if isinstance(r, State): st = r
                nxt = T.extra['normal']
                env = self.enter(fr, cur, nxt, env, st); cur = nxt
                continue
            if T.op == 'br':
                if len(T.ops) == 1:
                    nxt = T.ops[0][1]
                    env = self.enter(fr, cur, nxt, env, st); cur = nxt
                    continue
                c = self.tobool(self.operand(T.ops[0], env, st))
                # operands: cond, false, true
                tgt = [(c, T.ops[2][1]), (bnot(c), T.ops[1][1])]
            elif T.op == 'switch':
                v = self.operand(T.ops[0], env, st)
                bits = T._txt.bits
                v = self.tobool(v) if bits == 1 else self.asint(v, bits)
                tgt = []
                rest = True
                for n in range(2, len(T.ops), 2):
                    cv = self.operand(T.ops[n], env, st)
                    if self.mode == 'bv' and is_sym(v) and bits > 1: e = self.icmp('eq', v, cv, T._txt, st)
                    elif bits == 1: e = self.booleq(v, cv)
                    else: e = self.eqi(v, cv)
                    tgt.append((band(rest, e), T.ops[n + 1][1]))
                    rest = band(rest, bnot(e))
                tgt.append((rest, T.ops[1][1]))
            else: raise Unsupported('terminator ' + T.op)
            live = [(c, b) for c, b in tgt if conc_bool(c) is not False]
            if any(conc_bool(c) is True for c, b in live): live = [(c, b) for c, b in live if conc_bool(c) is True][:1]
            # group equal targets
            grp = {}
            for c, b in live: grp[b] = bor(grp[b], c) if b in grp else c
            if len(grp) == 1:
                b = next(iter(grp))
                env = self.enter(fr, cur, b, env, st); cur = b
                continue
            if not grp: return acc
            if self.forget_checks:
                # the contract does not speak about this check: continue without knowing that it passed
                g2 = [b for b in grp if b not in fn.noret]
                if len(g2) == 1 and len(grp) == 2:
                    env = self.enter(fr, cur, g2[0], env, st); cur = g2[0]
                    continue
            if getattr(fr, 'prune', 0):
                g2 = {b: c for b, c in grp.items() if self.feasible(st.pc + (c,))}
                if len(g2) == 1:
                    b, c = next(iter(g2.items()))
                    st = st.fork(c)
                    env = self.enter(fr, cur, b, env, st); cur = b
                    continue
                grp = g2
                if not grp: return acc
            P = fn.ipdom.get(cur)
            st2 = stops | ({P} if P else set())
            out = {}
            for b, c in grp.items():
                s = st.fork(c)
                e = self.enter(fr, cur, b, env, s)
                if e is env: e = dict(env)
                if b in st2: self.merge_maps(out, {b: (s, e, None)})
                else: self.merge_maps(out, self.region(fr, b, e, s, st2, False))
            if P in out and P not in stops:
                s, e, rv = out.pop(P)
                self.merge_maps(acc, out)
                cur, env, st = P, e, s
                continue
            return self.merge_maps(acc, out)
    def step(self, fr, I, env, st):
        op = I.op
        O = lambda k: self.operand(I.ops[k], env, st)
        if I.ty.kind == 'int': self.inst_bits[I.id] = I.ty.bits
        if op == 'alloca':
            env[I.id] = self.new_obj(st, 'local.' + self.short(fr.fn.name), I.extra.alloc)
        elif op == 'load': env[I.id] = self.toi1(self.load(O(0), I.ty, st), I.ty)
        elif op == 'store': self.store(O(1), O(0), I.extra, st)
        elif op == 'gep': env[I.id] = self.gep(I.extra, [self.operand(o, env, st) for o in I.ops], st)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[I.id] = self.binop(I, O(0), O(1), st)
        elif op == 'fneg':
            v = O(0)
            env[I.id] = -v if isinstance(v, Fraction) else (z3.fpNeg(self.zf(v)) if self.fp == 'fp' else -self.zf(v))
        elif op == 'icmp': env[I.id] = self.icmp(I.extra, O(0), O(1), I._txt, st)
        elif op == 'fcmp': env[I.id] = self.fcmp(I.extra, O(0), O(1))
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext'):
            env[I.id] = self.cast(I, O(0), st)
        elif op == 'select':
            c = self.tobool(O(0))
            env[I.id] = self.ite(c, O(1), O(2), I.ty.bits)
        elif op == 'extractvalue':
            v = O(0)
            for i in I.extra:
                if isinstance(v, Undef): break
                v = v.v[i]
            env[I.id] = v
        elif op == 'insertvalue':
            def ins(a, path, x, ty):
                if isinstance(a, Undef):
                    es = ty.elems if ty.kind == 'struct' else [ty.elem] * ty.n
                    a = Aggr([Undef(e) for e in es])
                l = list(a.v)
                et = ty.elems[path[0]] if ty.kind == 'struct' else ty.elem
                l[path[0]] = x if len(path) == 1 else ins(l[path[0]], path[1:], x, et)
                return Aggr(l)
            env[I.id] = ins(O(0), I.extra, O(1), I.ty)
        elif op in ('extractelement',):
            v = O(0); env[I.id] = v.v[O(1)]
        elif op == 'insertelement':
            v = O(0)
            if isinstance(v, Undef): v = Aggr([Undef(I.ty.elem)] * I.ty.n)
            l = list(v.v); l[O(2)] = O(1); env[I.id] = Aggr(l)
        elif op == 'freeze':
            v = O(0)
            env[I.id] = self.fresh_kind('frz', kindof(I.ty), I.ty.size) if isinstance(v, Undef) else v
        elif op in ('call', 'invoke'):
            cal = I.extra['callee']
            args = [self.operand(o, env, st) for o in I.ops]
            if cal[0] == 'fn': nm = cal[1]
            elif cal[0] == 'other': raise Unsupported('inline asm')
            else:
                f = self.operand(cal, env, st)
                if isinstance(f, FnVal): nm = f.name
                else:
                    return self.indirect(fr, I, f, args, env, st)
            r = self.intrinsic(nm, args, st, I)
            if r is NotImplemented: r = self.call(nm, args, st, I)
            if r is None: return False
            s, v = r
            if I.ty.kind != 'void': env[I.id] = self.toi1(v, I.ty)
            return s
        elif op == 'atomicrmw':
            p, v = O(0), O(1)
            kind = I.extra
            if isinstance(p, Ptr) and p.obj is not None and isinstance(st.objs.get(p.obj), ArrC) and self.mode == 'int' and kind in (1, 2):
                c = self.typed(p.obj, st.objs[p.obj], I.ty, st)
                idx = self.elem_index(p, c.es)
                self.bounds(p.obj, idx, c.es, st)
                old = c.c.read(idx, self)
                d = self.asint(v, I.ty.bits)
                new = self.addi(old, d) if kind == 1 else self.subi(old, d)
                self.note('a', p.obj, idx, st, d)
                st.objs[p.obj] = ArrC(c.es, c.kind, AStore(c.c, idx, new))
                env[I.id] = old
                return None
            old = self.load(p, I.ty, st)
            if kind == 1: new = self.addi(old, v) if self.mode == 'int' else old + v
            elif kind == 0: new = v
            elif kind == 2: new = self.subi(old, v)
            else: raise Unsupported('atomicrmw')
            self.store(p, new, I.ty, st)
            env[I.id] = old
        elif op in ('fence',): pass
        elif op == 'landingpad': env[I.id] = Opaque()
        else: raise Unsupported('instruction ' + op)
        return None
    atomic_hook = None
    def indirect(self, fr, I, f, args, env, st):
        raise Unsupported('indirect call')
    def toi1(self, v, ty):
        if ty.kind == 'int' and ty.bits == 1 and not isinstance(v, bool) and isinstance(v, int): return bool(v & 1)
        return v
    def short(self, n):
        d = dem(n)
        return d.split('(')[0][-40:]
    def bswap_fn(self, n):
        """byte reversal of n-bit numbers as a function: an involution (proved bit-precisely in mode bv)"""
        f = getattr(self, 'bsw%d' % n, None)
        if f is not None: return f
        f = z3.Function('bswap%d' % n, z3.IntSort(), z3.IntSort()); setattr(self, 'bsw%d' % n, f); self.keep.append(f); self.decl_rng[f.name()] = (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        x = z3.Int('x!'); inr = lambda t: z3.And(t >= -(1 << (n - 1)), t < 1 << (n - 1))
        self.fact(z3.ForAll([x], f(f(x)) == x, patterns=[f(f(x))]), guard=False); self.fact(z3.ForAll([x], z3.Implies(inr(x), inr(f(x))), patterns=[f(x)]), guard=False)
        return f
    def intrinsic(self, nm, a, st, I):
        if not nm.startswith('llvm.'):
            return NotImplemented
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            self.memcpy(a[0], a[1], a[2], st); return st, None
        if nm.startswith('llvm.memset'):
            self.memset(a[0], a[1], a[2], st); return st, None
        if nm.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.stackrestore', 'llvm.va_')): return st, None
        if nm.startswith('llvm.stacksave'): return st, NULL
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)', nm)
        if m:
            pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[m.group(1)]
            c = self.icmp(pr, a[0], a[1], I.ty, st)
            return st, self.ite(c, a[0], a[1], I.ty.bits)
        if nm.startswith('llvm.fabs'):
            v = a[0]
            if isinstance(v, Fraction): return st, abs(v)
            v = self.zf(v)
            return st, (z3.If(v >= 0, v, -v) if self.fp == 'real' else z3.fpAbs(v))
        if nm.startswith('llvm.abs'):
            v = a[0]; n = I.ty.bits
            if isinstance(v, int): return st, abs(v)
            return st, self.ite(self.icmp('slt', v, 0, I.ty, st), -v, v, n)
        if nm.startswith('llvm.trap') or nm.startswith('llvm.ubsantrap'):
            self.oblige('trap reached', False, 'safety', st.pc); return None
        if nm.startswith('llvm.fmuladd') or nm.startswith('llvm.fma'):
            return st, self.fbin('fadd', self.fbin('fmul', a[0], a[1]), a[2])
        m = re.match(r'llvm\.bswap\.i(\d+)', nm)
        if m:
            n = int(m.group(1)); v = a[0]
            if isinstance(v, int): return st, wrap_const(int.from_bytes((v & ((1 << n) - 1)).to_bytes(n // 8, 'little'), 'big'), n)
            if self.mode == 'bv':
                v = sx(v, n)
                return st, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)])
            return st, self.bswap_fn(n)(self.zi(v))
        if nm.startswith('llvm.is.constant'): return st, False
        if nm.startswith('llvm.expect'): return st, a[0]
        m = re.match(r'llvm\.(sqrt|floor|ceil|pow|exp|log|sin|cos)\.', nm)
        if m: return st, self.mathfn(m.group(1), a)
        if nm.startswith('llvm.copysign') and self.fp == 'real':
            x, y = self.zf(a[0]), self.zf(a[1]); ax = z3.If(x >= 0, x, -x)
            neg = self.fresh('signbit', z3.BoolSort())       # the sign of a zero is not modelled: either
            self.fact(z3.Implies(y > 0, z3.Not(neg)), guard=False); self.fact(z3.Implies(y < 0, neg), guard=False)
            return st, z3.If(neg, -ax, ax)
        raise Unsupported('intrinsic ' + nm)
    def mathfn(self, f, a):
        if self.fp != 'real':
            if f == 'sqrt': return z3.fpSqrt(z3.RNE(), self.zf(a[0]))
            if f == 'floor': return z3.fpRoundToIntegral(z3.RTN(), self.zf(a[0]))
            if f == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), self.zf(a[0]))
            raise Unsupported('fp ' + f)
        d = z3.Function('math_' + f, *([z3.RealSort()] * (len(a) + 1)))
        xs = [self.zf(x) for x in a]
        if f == 'floor': return z3.ToReal(z3.ToInt(xs[0]))
        if f == 'ceil': return -z3.ToReal(z3.ToInt(-xs[0]))
        r = d(*xs)
        if f == 'sqrt':
            self.fact(z3.Implies(xs[0] >= 0, z3.And(r >= 0, r * r == xs[0])), guard=False)
        return r
    def memcpy(self, d, s, n, st):
        if isinstance(n, Comp): n = self.comp_int(n)
        if isinstance(n, int) and n == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            if isinstance(d, Opaque) : return
            raise Unsupported('memcpy')
        if d.obj is None or s.obj is None:
            self.oblige('memcpy null', self.eqi(n, 0) if self.mode == 'int' else False, 'safety', st.pc); return
        cs = st.objs[s.obj]; cd = st.objs[d.obj]
        if isinstance(cs, Opaque) or isinstance(cd, Opaque): return
        if isinstance(cs, RecC) and isinstance(cd, RecC) and isinstance(n, int) and not s.lin and not d.lin:
            cells = dict(cd.cells)
            for o in [o for o in cells if o < d.c + n and d.c < o + cells[o][0]]:
                self.rec_clip(cells, o, d.c, n)
            for o, (sz, v, k) in cs.cells.items():
                if s.c <= o and o + sz <= s.c + n: cells[d.c + o - s.c] = (sz, v, k)
                elif o < s.c + n and s.c < o + sz:
                    class T: pass
                    for b in range(sz):
                        if s.c <= o + b < s.c + n:
                            t = T(); t.size = 1; t.bits = 8
                            cells[d.c + o + b - s.c] = (1, self.extract(v, k, sz, b, 1, 'i', t), 'i')
            st.objs[d.obj] = RecC(cells)
            return
        if isinstance(cs, ArrC) and isinstance(cd, ArrC):
            return self.arrcpy(d, s, n, st)
        if isinstance(cs, RecC) and isinstance(cd, RecC) and isinstance(n, int):
            # symbolic offset in a small object of equal cells: cell by cell
            ks = {(c[0], c[2]) for x in (cs, cd) for c in x.cells.values()}
            if len(ks) == 1 and n % next(iter(ks))[0] == 0 and n <= 64 and next(iter(ks))[1] in 'if':
                class T: pass
                sz, k = next(iter(ks)); t = T(); t.size = sz; t.bits = 8 * sz; t.elems = None; t.kind = 'double' if k == 'f' else 'int'
                vs = [self.load(self.padd(s, o), t, st) for o in range(0, n, sz)]
                for i, v in enumerate(vs): self.store(self.padd(d, i * sz), v, t, st)
                return
            raise Unsupported('memcpy at a symbolic offset %s' % sorted(ks))
        if isinstance(n, int) and n in (1, 2, 4, 8) :
            class T: pass
            t = T(); t.size = n; t.bits = 8 * n; t.elems = None
            src = cs if isinstance(cs, ArrC) else cd
            t.kind = 'double' if (src.kind == 'f') else 'int'
            if src.kind is None: t.kind = 'int'
            self.store(d, self.load(s, t, st), t, st)
            return
        raise Unsupported('memcpy between kinds (%s, %s)' % (type(cs).__name__, type(cd).__name__))
    def arrcpy(self, d, s, n, st):
        cs = st.objs[s.obj]; cd = st.objs[d.obj]
        if cs.es is None: raise Unsupported('memcpy untyped')
        class T: pass
        t = T(); t.size = cs.es; t.bits = 8 * cs.es; t.kind = 'double' if cs.kind == 'f' else 'int'
        cd = self.typed(d.obj, cd, t, st)
        i0 = self.elem_index(d, cs.es); j0 = self.elem_index(s, cs.es)
        cnt = self.divexact(n, cs.es)
        if cnt is None: raise Unsupported('memcpy size')
        if self.scopes: raise Unsupported('memcpy of arrays in a loop')
        src = cs.c; old = cd.c; cx = self
        if self.check_bounds:
            self.oblige('memcpy destination in bounds', band(self.lei(0, i0), self.lei(self.addi(i0, cnt), self.nelems(self.meta[d.obj], cs.es))), 'bounds', st.pc)
            self.oblige('memcpy source in bounds', band(self.lei(0, j0), self.lei(self.addi(j0, cnt), self.nelems(self.meta[s.obj], cs.es))), 'bounds', st.pc)
        def rd(x):
            inr = band(cx.lei(i0, x), cx.lti(x, cx.addi(i0, cnt)))
            return cx.ite(inr, src.read(cx.addi(cx.subi(x, i0), j0), cx), old.read(x, cx))
        st.objs[d.obj] = ArrC(cs.es, cs.kind, AFun(rd))
    def memset(self, d, v, n, st):
        if isinstance(d, Ptr) and isinstance(st.objs.get(d.obj), RecC) and isinstance(n, int) and not d.lin:
            c = st.objs[d.obj]; cells = dict(c.cells)
            for o in [o for o in cells if o < d.c + n and d.c < o + cells[o][0]]:
                self.rec_clip(cells, o, d.c, n)
            if isinstance(v, int):
                # store as one wide zero cell set lazily: use byte cells grouped
                o = d.c
                while o < d.c + n:
                    w = 8
                    while w > 1 and (o % w or o + w > d.c + n): w //= 2
                    cells[o] = (w, wrap_const(int.from_bytes(bytes([v & 255]) * w, 'little'), 8 * w), 'i')
                    o += w
            else: raise Unsupported('memset value')
            st.objs[d.obj] = RecC(cells)
            return
        if isinstance(d, Ptr) and isinstance(st.objs.get(d.obj), ArrC):
            c = st.objs[d.obj]
            if c.es and isinstance(v, int) and v in (0, -1, 255) and not self.scopes:
                i0 = self.elem_index(d, c.es); cnt = self.divexact(n, c.es); old = c.c; cx = self
                val = (0 if v == 0 else -1) if c.kind == 'i' else self.zf(Fraction(0))
                st.objs[d.obj] = ArrC(c.es, c.kind, AFun(lambda x: cx.ite(band(cx.lei(i0, x), cx.lti(x, cx.addi(i0, cnt))), val, old.read(x, cx))))
                return
        raise Unsupported('memset')
