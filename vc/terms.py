"""Term layer: machine integers either as mathematical integers (mode 'int',
signed canonical value, overflow obligations) or as bit vectors (mode 'bv').
Concrete values are Python ints/bools/Fractions, symbolic ones are z3 terms."""
import z3
from fractions import Fraction

def is_sym(v):
    return isinstance(v, z3.ExprRef)

def conc_bool(b):
    if isinstance(b, bool): return b
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return None

def bnot(b):
    if isinstance(b, bool): return not b
    if z3.is_not(b): return b.arg(0)
    if z3.is_true(b): return False
    if z3.is_false(b): return True
    return z3.Not(b)

def band(*bs):
    out = []
    for b in bs:
        if isinstance(b, bool):
            if not b: return False
            continue
        if z3.is_true(b): continue
        if z3.is_false(b): return False
        out.append(b)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)

def bor(*bs):
    out = []
    for b in bs:
        if isinstance(b, bool):
            if b: return True
            continue
        if z3.is_false(b): continue
        if z3.is_true(b): return True
        out.append(b)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)

def Z(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b

def wrap_const(v, bits):
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1): v -= 1 << bits
    return v

def sx(v, bits):
    """python int to z3 bitvector"""
    return z3.BitVecVal(v, bits) if isinstance(v, int) else v

_fp_rm = z3.RNE()

def same(a, b):
    if a is b: return True
    if is_sym(a) and is_sym(b): return a.eq(b)
    if is_sym(a) or is_sym(b): return False
    return type(a) == type(b) and a == b
# ---- quantifiers: a pattern the solver cannot use (an if-then-else inside) is
# dropped; patterns are only instantiation hints, so this never weakens a fact
_forall = z3.ForAll
def ForAll(vs, body, **kw):
    try: return _forall(vs, body, **kw)
    except z3.Z3Exception:
        pats = kw.get('patterns')
        if not pats: raise
        ok = []
        for p in pats:
            try: _forall(vs, body, patterns=[p]); ok.append(p)
            except z3.Z3Exception: pass
        return _forall(vs, body, **(dict(kw, patterns=ok) if ok else {}))
z3.ForAll = ForAll
