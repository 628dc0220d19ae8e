"""Value domain of the verifier: persistent (immutable) symbolic values.

Scalars are Python constants (bool / int / Fraction / float inf) or z3 terms.
f64 values are mathematical reals (see DESIGN.md, trusted base)."""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """A construct outside the engine's reach: always an error exit, never an alarm."""


class Unmergeable(Exception):
    pass


class StructV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return 'S' + repr(self.f)


class EnumV:
    """tag: variant index (int or z3 Int); pay: {variant: tuple of field values}"""
    __slots__ = ('tag', 'pay')

    def __init__(self, tag, pay):
        self.tag = tag
        self.pay = pay

    def __repr__(self):
        return 'E(%s,%s)' % (self.tag, self.pay)


class RefV:
    """Reference / raw pointer / Rc / Box content: a place."""
    __slots__ = ('alloc', 'path')

    def __init__(self, alloc, path=()):
        self.alloc = alloc
        self.path = tuple(path)

    def __repr__(self):
        return '&%s%s' % (self.alloc, list(self.path))


class SeqC:
    """Sequence of concrete length."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Seq%s' % (list(self.items),)


class SeqS:
    """Sequence of symbolic length n; elements given by base(i) overlaid with writes.
    writes: tuple of (index term, value), later entries win."""
    __slots__ = ('n', 'base', 'writes')

    def __init__(self, n, base, writes=()):
        self.n = n
        self.base = base
        self.writes = tuple(writes)

    def get(self, i):
        v = self.base(i)
        for (j, w) in self.writes:
            c = eq_int(i, j)
            if c is True:
                v = w
            elif c is False:
                continue
            else:
                v = ite(c, w, v)
        return v

    def __repr__(self):
        return 'SeqS(%s)' % (self.n,)


class MapC:
    """Slot map with a concrete set of keys (ints), in iteration order."""
    __slots__ = ('items', 'nextkey')

    def __init__(self, items, nextkey):
        self.items = tuple(items)
        self.nextkey = nextkey

    def keys(self):
        return [k for k, _ in self.items]

    def __repr__(self):
        return 'Map%s' % (dict(self.items),)


class MapS:
    """Slot map with any number n of entries, enumerated (in some fixed order) by the key function K
    with inverse P; vals is a sequence indexed by key."""
    __slots__ = ('n', 'K', 'P', 'vals')

    def __init__(self, n, K, P, vals):
        self.n, self.K, self.P, self.vals = n, K, P, vals

    def has(self, k):
        k = z3int(k)
        return band(le_int(0, self.P(k)), lt_int(self.P(k), self.n), eq_int(self.K(self.P(k)), k))

    def __repr__(self):
        return 'MapS(%s)' % (self.n,)


class FnV:
    __slots__ = ('sym',)

    def __init__(self, sym):
        self.sym = sym

    def __repr__(self):
        return 'fn:%s' % self.sym


class StrV:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class IterV:
    """Primitive iterators. kind: 'ref' (slice iter yielding refs), 'val' (by value, src is a
    SeqC), 'win' (windows of size w), 'map' (slot-map iteration; keys concrete),
    'chunk' (chunks_exact-like)"""
    __slots__ = ('kind', 'src', 'lo', 'hi', 'extra')

    def __init__(self, kind, src, lo, hi, extra=None):
        self.kind, self.src, self.lo, self.hi, self.extra = kind, src, lo, hi, extra

    def __repr__(self):
        return 'Iter(%s,%s,%s..%s)' % (self.kind, self.src, self.lo, self.hi)


class OpaqueV:
    """A value whose content is irrelevant (e.g. random generator)."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()
UNIT = StructV(())


# ---------------------------------------------------------------- bit vectors
class Bits:
    """Unsigned integer seen bit-wise: fn(i) -> Bool. support: indices that may be set
    (list of int / z3 Int) or None for the full width. val: original integer term if any."""
    __slots__ = ('w', 'fn', 'support', 'val')

    def __init__(self, w, fn, support=None, val=None):
        self.w, self.fn, self.support, self.val = w, fn, support, val

    def __repr__(self):
        return 'Bits(%s)' % (self.val,)


PROBE = z3.Int('bit!probe')
BIT = z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def to_bits(x, w):
    if isinstance(x, Bits):
        return x
    if isinstance(x, int):
        x &= (1 << w) - 1
        sup = [i for i in range(w) if (x >> i) & 1]

        def fn(i, sup=sup):
            if isinstance(i, int):
                return i in sup
            return bor(*[eq_int(i, s) for s in sup])
        return Bits(w, fn, sup, x)
    return Bits(w, lambda i: BIT(x, z3int(i)), None, x)


def bits_cands(b):
    return range(b.w) if b.support is None else b.support


def bits_nonzero(b):
    if isinstance(b.val, int):
        return b.val != 0
    return bor(*[band(in_width(s, b.w), b.fn(s)) for s in bits_cands(b)])


def in_width(s, w):
    if isinstance(s, int):
        return 0 <= s < w
    return z3.And(s >= 0, s < w)


def bits_int(b):
    """Integer value of b."""
    if b.val is not None:
        return b.val
    tot = 0
    for s in bits_cands(b):
        if isinstance(s, int):
            tot = i_add(tot, ite(b.fn(s), 1 << s, 0))
        else:
            if b.support is not None and len(b.support) == 1:
                return ite(band(in_width(s, b.w), b.fn(s)), POW2(s), 0)
            raise Unsupported('bit pattern with symbolic positions used as integer')
    return tot


def bits_eq(a, b):
    if isinstance(b.val, int) and b.val == 0:
        return bnot(bits_nonzero(a))
    if isinstance(a.val, int) and a.val == 0:
        return bnot(bits_nonzero(b))
    if a.val is not None and b.val is not None:
        return eq_int(a.val, b.val)
    cs = list(bits_cands(a)) + list(bits_cands(b))
    if all(isinstance(c, int) for c in cs):
        return band(*[beq(a.fn(i), b.fn(i)) for i in sorted(set(cs))])
    if isinstance(a.val, int) or isinstance(b.val, int) or (a.support and b.support):
        return band(*[bimp(in_width(i, a.w), beq(a.fn(i), b.fn(i))) for i in cs])
    raise Unsupported('bit pattern equality')


def bits_op(op, a, b):
    w = a.w
    if isinstance(a.val, int) and isinstance(b.val, int):
        v = {'and': a.val & b.val, 'or': a.val | b.val, 'xor': a.val ^ b.val}[op]
        return to_bits(v, w)
    if op == 'and':
        sup = a.support if a.support is not None else b.support
        if a.support is not None and b.support is not None and len(b.support) < len(a.support):
            sup = b.support
        return Bits(w, lambda i: band(a.fn(i), b.fn(i)), sup)
    sup = None if a.support is None or b.support is None else list(a.support) + list(b.support)
    if op == 'or':
        return Bits(w, lambda i: bor(a.fn(i), b.fn(i)), sup)
    return Bits(w, lambda i: bnot(beq(a.fn(i), b.fn(i))), sup)


def bits_not(a):
    if isinstance(a.val, int):
        return to_bits(~a.val, a.w)
    return Bits(a.w, lambda i: bnot(a.fn(i)), None)


def bits_shl(a, k):
    if isinstance(a.val, int) and isinstance(k, int):
        return to_bits(a.val << k, a.w)
    sup = None if a.support is None else [i_add(s, k) for s in a.support]
    return Bits(a.w, lambda i: band(ge0(i_sub(i, k)), a.fn(i_sub(i, k))), sup)


def bits_shr(a, k):
    if isinstance(a.val, int) and isinstance(k, int):
        return to_bits(a.val >> k, a.w)
    sup = None
    if a.support is not None:
        sup = [i_sub(s, k) for s in a.support]
    return Bits(a.w, lambda i: band(lt_int(i_add(i, k), a.w), ge0(i), a.fn(i_add(i, k))), sup)


# ---------------------------------------------------------------- scalar helpers
def z3int(x):
    if isinstance(x, Bits):
        x = bits_int(x)
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def z3real(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('infinite/NaN float in arithmetic')
        return z3.RealVal(str(Fraction(repr(x))))
    return x


def z3bool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def is_py(x):
    return isinstance(x, (bool, int, Fraction, float))


def eq_int(a, b):
    if isinstance(a, Bits) or isinstance(b, Bits):
        w = a.w if isinstance(a, Bits) else b.w
        return bits_eq(to_bits(a, w), to_bits(b, w))
    if is_py(a) and is_py(b):
        return a == b
    if a is b:
        return True
    r = z3.simplify(z3int(a) == z3int(b))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return z3int(a) == z3int(b)


def lt_int(a, b):
    if is_py(a) and is_py(b):
        return a < b
    return z3int(a) < z3int(b)


def le_int(a, b):
    if is_py(a) and is_py(b):
        return a <= b
    return z3int(a) <= z3int(b)


def ge0(a):
    if is_py(a):
        return a >= 0
    return a >= 0


def i_add(a, b):
    if is_py(a) and is_py(b):
        return a + b
    if is_py(a) and a == 0:
        return b
    if is_py(b) and b == 0:
        return a
    return z3.simplify(z3int(a) + z3int(b))


def i_sub(a, b):
    if is_py(a) and is_py(b):
        return a - b
    if is_py(b) and b == 0:
        return a
    return z3.simplify(z3int(a) - z3int(b))


def i_mul(a, b):
    if is_py(a) and is_py(b):
        return a * b
    if is_py(a) and a == 1:
        return b
    if is_py(b) and b == 1:
        return a
    return z3int(a) * z3int(b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bimp(a, b):
    return bor(bnot(a), b)


def beq(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a.eq(b):
        return True
    return a == b


# reals
def isinf(x):
    return isinstance(x, float)


def r_add(a, b):
    if is_py(a) and is_py(b):
        return a + b
    if isinf(a) or isinf(b):
        return a if isinf(a) else b
    if is_py(a) and a == 0:
        return b
    if is_py(b) and b == 0:
        return a
    return z3real(a) + z3real(b)


def r_sub(a, b):
    if is_py(a) and is_py(b):
        return a - b
    if isinf(a):
        return a
    if isinf(b):
        return -b
    if is_py(b) and b == 0:
        return a
    if is_py(a) and a == 0:
        return r_neg(b)
    return z3real(a) - z3real(b)


def r_neg(a):
    if is_py(a):
        return -a
    return -a


def r_mul(a, b):
    if is_py(a) and is_py(b):
        return a * b
    if isinf(a) or isinf(b):
        raise Unsupported('infinity times symbol')
    if is_py(a):
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
        if a == -1:
            return -b
    if is_py(b):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        if b == -1:
            return -a
    return z3real(a) * z3real(b)


ROOTS = {}  # name of the root of a constant -> the constant


def root(a):
    """the square of a constant or of the root of a constant, with its sign"""
    if is_py(a):
        return None if isinf(a) else Fraction(a) * abs(Fraction(a))
    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return ROOTS.get(a.decl().name())
    return None


def r_cmp(op, a, b):
    if is_py(a) and is_py(b):
        if a != a or b != b:
            return op == 'ne'
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
    if isinf(a) or isinf(b):
        if isinf(a):
            if a != a:
                return op == 'ne'
            big = a > 0
        else:
            if b != b:
                return op == 'ne'
            big = b < 0
        # big: a > b
        return {'lt': not big, 'le': not big, 'gt': big, 'ge': big, 'eq': False, 'ne': True}[op]
    p, q = root(a), root(b)
    if p is not None and q is not None:
        # roots of constants (and constants) compare as their squares do, up to sign
        return r_cmp(op, p, q)
    x, y = z3real(a), z3real(b)
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]


# ---------------------------------------------------------------- ite on values
def same(a, b):
    if a is b:
        return True
    if is_py(a) and is_py(b):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is StructV:
        return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if ta is RefV:
        return a.alloc == b.alloc and len(a.path) == len(b.path) and all(same_step(x, y) for x, y in zip(a.path, b.path))
    if ta is SeqC:
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if ta is EnumV:
        return same(a.tag, b.tag) and a.pay.keys() == b.pay.keys() and all(
            len(a.pay[k]) == len(b.pay[k]) and all(same(x, y) for x, y in zip(a.pay[k], b.pay[k])) for k in a.pay)
    if ta is MapC:
        return a.nextkey == b.nextkey and len(a.items) == len(b.items) and all(
            k1 == k2 and same(v1, v2) for (k1, v1), (k2, v2) in zip(a.items, b.items))
    if ta is MapS:
        return a.K.eq(b.K) and same(a.n, b.n) and same(a.vals, b.vals)
    if ta is FnV:
        return a.sym == b.sym
    if ta is StrV:
        return a.s == b.s
    if ta is IterV:
        return a.kind == b.kind and same(a.src, b.src) and same(a.lo, b.lo) and same(a.hi, b.hi) and a.extra == b.extra
    if ta is SeqS:
        return same(a.n, b.n) and a.base is b.base and len(a.writes) == len(b.writes) and all(
            same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.writes, b.writes))
    if ta is OpaqueV:
        return a.tag == b.tag
    if ta is Bits:
        return a.w == b.w and (a.fn is b.fn or same(a.fn(PROBE), b.fn(PROBE)))
    return False


def same_step(x, y):
    return len(x) == len(y) and x[0] == y[0] and all(same(p, q) for p, q in zip(x[1:], y[1:]))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if isinstance(a, Bits) or isinstance(b, Bits):
        w = a.w if isinstance(a, Bits) else b.w
        x, y = to_bits(a, w), to_bits(b, w)
        sup = None if x.support is None or y.support is None else list(x.support) + list(y.support)
        return Bits(w, lambda i: bor(band(c, x.fn(i)), band(bnot(c), y.fn(i))), sup)
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        if a is True:
            return bor(c, b)
        if a is False:
            return band(bnot(c), b)
        if b is True:
            return bor(bnot(c), a)
        if b is False:
            return band(c, a)
        return z3.If(c, a, b)
    if isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)) or \
            (isinstance(a, z3.ExprRef) and z3.is_real(a)) or (isinstance(b, z3.ExprRef) and z3.is_real(b)):
        if isinf(a) or isinf(b):
            raise Unmergeable()
        return z3.If(c, z3real(a), z3real(b))
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
        return z3.If(c, z3int(a), z3int(b))
    ta = type(a)
    if ta is not type(b):
        if ta in (SeqC, SeqS) and type(b) in (SeqC, SeqS):
            raise Unmergeable()
        raise Unmergeable()
    if ta is StructV:
        if len(a.f) != len(b.f):
            raise Unmergeable()
        return StructV([ite(c, x, y) for x, y in zip(a.f, b.f)])
    if ta is EnumV:
        pay = {}
        for k in set(a.pay) | set(b.pay):
            if k in a.pay and k in b.pay:
                pay[k] = tuple(ite(c, x, y) for x, y in zip(a.pay[k], b.pay[k]))
            else:
                pay[k] = a.pay.get(k, b.pay.get(k))
        return EnumV(ite(c, a.tag, b.tag), pay)
    if ta is SeqC:
        if len(a.items) != len(b.items):
            raise Unmergeable()
        return SeqC([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if ta is SeqS:
        if not same(a.n, b.n):
            return SeqS(ite(c, a.n, b.n), lambda i: ite(c, a.get(i), b.get(i)))
        if a.base is b.base and len(a.writes) == len(b.writes) and all(same(x[0], y[0]) for x, y in zip(a.writes, b.writes)):
            return SeqS(a.n, a.base, [(x[0], ite(c, x[1], y[1])) for x, y in zip(a.writes, b.writes)])
        if a.base is b.base:
            k = 0
            while k < len(a.writes) and k < len(b.writes) and same(a.writes[k][0], b.writes[k][0]) and same(a.writes[k][1], b.writes[k][1]):
                k += 1
            r = SeqS(a.n, a.base, a.writes[:k])
            for cc, rest in ((c, a.writes[k:]), (bnot(c), b.writes[k:])):
                for j, w in rest:
                    r = SeqS(a.n, a.base, r.writes + ((j, ite(cc, w, r.get(j))),))
            return r
        return SeqS(a.n, lambda i: ite(c, a.get(i), b.get(i)))
    if ta is MapC:
        if a.nextkey != b.nextkey or a.keys() != b.keys():
            raise Unmergeable()
        return MapC([(k, ite(c, v, w)) for (k, v), (_, w) in zip(a.items, b.items)], a.nextkey)
    if ta is MapS:
        if not a.K.eq(b.K):
            raise Unmergeable()
        return MapS(a.n, a.K, a.P, ite(c, a.vals, b.vals))
    raise Unmergeable()


def map_leaves(v, fn):
    """Apply fn to every z3 term inside v (used for substitution)."""
    if isinstance(v, z3.ExprRef):
        return fn(v)
    if is_py(v) or v is UNINIT:
        return v
    t = type(v)
    if t is StructV:
        return StructV([map_leaves(x, fn) for x in v.f])
    if t is EnumV:
        return EnumV(map_leaves(v.tag, fn), {k: tuple(map_leaves(x, fn) for x in p) for k, p in v.pay.items()})
    if t is SeqC:
        return SeqC([map_leaves(x, fn) for x in v.items])
    if t is RefV:
        return RefV(v.alloc, tuple((s[0],) + tuple(map_leaves(y, fn) if isinstance(y, z3.ExprRef) else y for y in s[1:]) for s in v.path))
    if t is Bits:
        if v.val is not None:
            return map_leaves(v.val, fn)
        raise Unsupported('substitution in bit pattern')
    if t in (FnV, StrV, OpaqueV):
        return v
    if t is SeqS:
        raise Unsupported('substitution in symbolic sequence')
    if t is IterV:
        return IterV(v.kind, map_leaves(v.src, fn), map_leaves(v.lo, fn), map_leaves(v.hi, fn), v.extra)
    raise Unsupported('map_leaves %s' % t)


def leaves(v, out):
    if isinstance(v, z3.ExprRef):
        out.append(v)
    elif is_py(v) or v is UNINIT:
        pass
    else:
        t = type(v)
        if t is StructV:
            for x in v.f:
                leaves(x, out)
        elif t is EnumV:
            leaves(v.tag, out)
            for p in v.pay.values():
                for x in p:
                    leaves(x, out)
        elif t is SeqC:
            for x in v.items:
                leaves(x, out)
        elif t is Bits:
            if v.val is not None:
                leaves(v.val, out)
            else:
                for s in bits_cands(v):
                    leaves(v.fn(s), out)
        elif t is RefV:
            for s in v.path:
                for y in s[1:]:
                    if isinstance(y, z3.ExprRef):
                        out.append(y)
        elif t is SeqS:
            for (i, w) in v.writes:
                leaves(i, out)
                leaves(w, out)
        elif t is MapC:
            for _, x in v.items:
                leaves(x, out)
        elif t is MapS:
            leaves(v.vals, out)
    return out


_occ_cache = {}


def occurs(term, names):
    """Does any uninterpreted constant/function whose name is in `names` occur in term?"""
    seen = set()
    stack = [term]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in names:
                return True
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return False


def const_names(term):
    seen = set()
    out = set()
    stack = [term]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return out
