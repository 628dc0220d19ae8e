"""Contract language: typed views of program values, fresh symbolic inputs, pre/postconditions.

A contract is a Python function taking an `Env`. It builds symbolic inputs, assumes the
precondition, calls functions of the crate, and states postconditions with `ensure`. The same
function is re-run in *replay* mode with the values of a counterexample; calls then go to the
compiled crate instead of the symbolic executor."""
import itertools
import time
import math
import z3
from fractions import Fraction
from values import *
import values as V
from machine import Machine, State, Dead, DynRef, int_range


class Tol:
    v = Fraction(0)


class ReplayInvalid(Exception):
    """the rounded counterexample does not satisfy the precondition"""


class ReplayPanic(Exception):
    def __init__(self, msg):
        self.msg = msg


# ---------------------------------------------------------------- formula helpers
def _num(x):
    return x


def absv(x):
    if is_py(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def margin(a, b):
    if Tol.v == 0:
        return Fraction(0)
    if is_py(a) and is_py(b) and not isinf(a) and not isinf(b):
        return Tol.v * (1 + abs(a) + abs(b))
    return Tol.v


def fle(a, b):
    """a <= b (up to the replay tolerance)"""
    if isinf(a) or isinf(b):
        return r_cmp('le', a, b)
    return r_cmp('le', a, r_add(b, margin(a, b)))


def fge(a, b):
    return fle(b, a)


def flt(a, b):
    if Tol.v == 0:
        return r_cmp('lt', a, b)
    return fle(a, b)


def feq(a, b):
    if isinf(a) or isinf(b):
        return r_cmp('eq', a, b)
    if Tol.v == 0:
        return r_cmp('eq', a, b)
    return band(fle(a, b), fle(b, a))


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return band(*xs)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return bor(*xs)


Not, Imp, Iff, Ite = bnot, bimp, beq, ite


def sq(x):
    return r_mul(x, x)


def fmin(a, b):
    return ite(r_cmp('le', a, b), a, b)


def fmax(a, b):
    return ite(r_cmp('ge', a, b), a, b)


def R(x):
    """exact rational constant"""
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


def bit(x, i):
    """bit i of an unsigned integer term"""
    return to_bits(x, 64).fn(i)


def real(x):
    """an integer as a number"""
    return Fraction(x) if isinstance(x, int) else z3.ToReal(x)


def whole(x):
    """the largest integer not above x"""
    return math.floor(x) if is_py(x) else z3.ToInt(x)


# ---------------------------------------------------------------- typed views
SCALAR = ('bool', 'int', 'float', 'char')


class TV:
    """A value of the program together with its type."""
    __slots__ = ('E', 'tid', 'v', 'st')

    def __init__(self, E, tid, v, st=None):
        object.__setattr__(self, 'E', E)
        object.__setattr__(self, 'tid', tid)
        object.__setattr__(self, 'v', v)
        object.__setattr__(self, 'st', st)

    def ty(self):
        return self.E.p.types[self.tid]

    def _w(self, tid, v):
        return self.E.wrap(tid, v, self.st)

    def field(self, name):
        t = self.ty()
        if t['k'] == 'adt' and t['adt'] == 'struct':
            for i, (n, ft) in enumerate(t['variants'][0]['fields']):
                if n == str(name):
                    return self._w(ft, self.v.f[i])
        elif t['k'] == 'tuple':
            return self._w(t['elems'][int(name)], self.v.f[int(name)])
        raise Unsupported('lost anchor: no field %s in %s' % (name, t['d']))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self.field(name.lstrip('_') if name[:1] == '_' and name[1:].isdigit() else name)

    def put(self, name, val):
        """functional update of a struct field"""
        t = self.ty()
        parts = name.split('.', 1)
        for i, (n, ft) in enumerate(t['variants'][0]['fields']):
            if n == parts[0]:
                if len(parts) > 1:
                    nv = TV(self.E, ft, self.v.f[i], self.st).put(parts[1], val)
                    nv = nv.v
                else:
                    nv = self.E.encode(ft, val)
                fs = list(self.v.f)
                fs[i] = nv
                return TV(self.E, self.tid, StructV(fs), self.st)
        raise Unsupported('lost anchor: no field %s in %s' % (name, t['d']))

    # enums
    def variant(self, name):
        for i, va in enumerate(self.ty()['variants']):
            if va['name'] == name:
                return i
        raise Unsupported('lost anchor: no variant %s in %s' % (name, self.ty()['d']))

    def is_(self, name):
        return eq_int(self.v.tag, self.variant(name))

    def payload(self, name, i=0):
        k = self.variant(name)
        fs = self.ty()['variants'][k]['fields']
        if isinstance(i, str):
            i = [n for n, _ in fs].index(i)
        if k not in self.v.pay:
            return self.E.default(fs[i][1])
        return self._w(fs[i][1], self.v.pay[k][i])

    @property
    def is_some(self):
        return self.is_('Some')

    @property
    def is_none(self):
        return self.is_('None')

    @property
    def some(self):
        return self.payload('Some')

    # references
    @property
    def deref(self):
        t = self.ty()
        v = self.v
        if t['k'] in ('ref', 'ptr'):
            et = t['elem']
        elif t['k'] == 'adt' and t['name'] in ('std::rc::Rc', 'std::boxed::Box'):
            et = t['args'][0]
            v = self.E.M.peel(v)
        else:
            raise Unsupported('deref of %s' % t['d'])
        if isinstance(v, RefV):
            return self.E.wrap(et, self.E.M.loadr(self.st, v), self.st)
        return self.E.wrap(et, v, self.st)

    # sequences
    def elem_ty(self):
        return self.E.elem_ty(self.tid)

    def __bool__(self):
        return True

    def __len__(self):
        n = self.n
        if not isinstance(n, int):
            raise Unsupported('symbolic length')
        return n

    @property
    def n(self):
        if isinstance(self.v, MapC):
            return len(self.v.items)
        if isinstance(self.v, MapS):
            return self.v.n
        return self.E.M.seq_len(self.v)

    def __getitem__(self, i):
        if isinstance(self.v, MapC):
            return self.at(i)
        if isinstance(i, int) and i < 0:
            i = len(self) + i
        return self._w(self.elem_ty(), self.E.M.seq_get(self.v, i, self.st or State()))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # slot maps
    def at(self, key):
        if isinstance(key, TV):
            key = key.v.f[0]
        v = self.E.M.map_get(self.v, key, self.st or State())
        if self.ty()['name'] == 'slotmap::SparseSecondaryMap' and isinstance(v, EnumV):
            v = v.pay[1][0]
        return self._w(self.elem_ty(), v)

    def keys(self):
        return self.v.keys()

    def has(self, key):
        if isinstance(key, TV):
            key = key.v.f[0]
        return self.E.M.B.has_key(self.v, key)

    @property
    def key(self):
        """integer identity of a slot-map key"""
        return self.v.f[0]


class Out:
    """One outcome of a call: a post-state with its return value."""

    def __init__(self, E, st, ret, ret_ty):
        self.E, self.st = E, st
        self.raw = ret
        self.ret = E.wrap(ret_ty, ret, st) if ret_ty is not None else None

    def read(self, h):
        return self.E.wrap(h.tid, self.E.M.load(self.st, h.alloc), self.st)

    def ensure(self, name, f):
        self.E.ensure(self.st, name, f)

    def call(self, fn, *args, **kw):
        return self.E.call_in(self.st, fn, args, **kw)

    def place(self, tv):
        h = self.E.place(tv)
        self.st.mem[h.alloc] = self.E.st.mem[h.alloc]
        return h

    def write(self, h, v):
        self.st.mem[h.alloc] = self.E.encode(h.tid, v)

    def assume(self, *cs):
        for c in cs:
            if self.E.mode == 'conc':
                if not self.E.truth(c):
                    raise ReplayInvalid()
            else:
                self.st.assume(c)


class Handle:
    """an allocated program value that can be passed by reference"""

    def __init__(self, alloc, tid):
        self.alloc, self.tid = alloc, tid


class Env:
    def __init__(self, prog, mode='sym', model=None, rpc=None, deadline=None):
        self.p = prog
        self.M = Machine(prog)
        self.M.deadline = deadline
        self.mode = mode
        self.model = model
        self.rpc = rpc
        self.st = State()
        self.pre = []
        self.obls = []          # (name, state pc, formula thunk)
        self.calls = []
        self.failed = []        # replay: names of violated postconditions
        self.inputs = {}
        self.names = set()
        self.no_panic = True
        self.panic_ok = []
        self.outcomes = []
        self.bounds = []
        self.notes = []
        self.abstracted = []
        self.assumed = []
        self.hints = []         # preferred shape of counterexamples (so that they can be replayed)

    # ------------------------------------------------------------ inputs
    def leaf(self, name, sort, idx=None):
        if idx is None:
            t = z3.Const(name, sort)
        elif isinstance(idx, tuple):
            t = z3.Function(name, *([z3.IntSort()] * len(idx)), sort)(*[z3int(i) for i in idx])
        else:
            t = z3.Function(name, z3.IntSort(), sort)(z3int(idx))
        if self.mode == 'sym':
            return t
        v = self.model(t)
        self.inputs[str(t)] = v
        return v

    def real(self, name):
        return self.leaf(name, z3.RealSort())

    def int(self, name, lo=None, hi=None):
        x = self.leaf(name, z3.IntSort())
        if lo is not None:
            self.assume(le_int(lo, x))
        if hi is not None:
            self.assume(le_int(x, hi))
        return x

    def bool(self, name):
        return self.leaf(name, z3.BoolSort())

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    if self.mode == 'conc':
                        raise ReplayInvalid('precondition')
                    raise Unsupported('false precondition')
                continue
            if self.mode == 'conc':
                if not self.truth(c):
                    raise ReplayInvalid('precondition')
            else:
                self.pre.append(c)
                self.st.assume(c)

    def forall(self, lo, hi, f):
        """f(i) for every lo <= i < hi"""
        if isinstance(lo, int) and isinstance(hi, int):
            return band(*[f(i) for i in range(lo, hi)])
        if self.mode == 'conc':
            raise ReplayInvalid('undetermined range')
        i = z3.Int(self.M.fresh_name('all'))
        return z3.ForAll([i], z3.Implies(z3bool(band(le_int(lo, i), lt_int(i, hi))), z3bool(f(i))))

    def truth(self, c):
        if isinstance(c, bool):
            return c
        r = z3.simplify(c)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise ReplayInvalid('undetermined formula %s' % str(r)[:200])

    def tid(self, ty):
        if isinstance(ty, int):
            return ty
        return self.p.adt_ty(ty)

    def elem_ty(self, tid):
        t = self.p.types[tid]
        if t['k'] in ('array', 'slice'):
            return t['elem']
        if t['k'] == 'adt':
            if t['name'] == 'slotmap::SlotMap':
                return t['args'][1]
            if t['name'] == 'slotmap::SparseSecondaryMap':
                return t['args'][1]
            if t['name'] == 'smallvec::SmallVec':
                return self.p.types[t['args'][0]]['elem']
            return [a for a in t['args'] if isinstance(a, int)][0]
        if t['k'] in ('ref', 'ptr'):
            return self.elem_ty(t['elem'])
        raise Unsupported('element type of %s' % t['d'])

    def new(self, ty, name, idx=None, **over):
        """fresh symbolic value of a crate type; `over` fixes (possibly nested: a__b) fields"""
        tid = self.tid(ty)
        ov = {k.replace('__', '.'): v for k, v in over.items()}
        return TV(self, tid, self.fresh(tid, name, idx, ov), None)

    def fresh(self, tid, name, idx=None, ov=None):
        ov = ov or {}
        if '' in ov:
            return self.encode(tid, ov[''], name)
        t = self.p.types[tid]
        k = t['k']
        asm = (lambda c: self.assume(c)) if idx is None else self.elem_assume(idx)
        if k == 'float':
            return self.leaf(name, z3.RealSort(), idx)
        if k == 'bool':
            return self.leaf(name, z3.BoolSort(), idx)
        if k == 'int' and t['bits'] == 64 and not t['signed'] and t['d'] == 'u64':
            return self.mask(name, 64, idx)
        if k == 'int':
            x = self.leaf(name, z3.IntSort(), idx)
            lo, hi = int_range(t)
            asm(band(le_int(lo, x), le_int(x, hi)))
            return x
        if k == 'tuple':
            return StructV([self.fresh(e, '%s.%d' % (name, i), idx, self.sub(ov, str(i))) for i, e in enumerate(t['elems'])])
        if k == 'array':
            return SeqC([self.fresh(t['elem'], '%s.%d' % (name, i), idx, self.sub(ov, str(i))) for i in range(t['len'])])
        if k == 'adt':
            n = t['name']
            if n == 'slotmap::KeyData':
                x = self.leaf(name, z3.IntSort(), idx)
                asm(le_int(0, x))
                return x
            if self.M.B.is_seq_ty(t) or n.startswith('slotmap::'):
                raise Unsupported('container %s needs an explicit value' % name)
            if n == 'std::marker::PhantomData':
                return UNIT
            if n in ('std::rc::Rc', 'std::boxed::Box'):
                raise Unsupported('pointer %s needs an explicit value' % name)
            if t['adt'] == 'struct':
                return StructV([self.fresh(ft, '%s.%s' % (name, fn), idx, self.sub(ov, fn)) for fn, ft in t['variants'][0]['fields']])
            if t['adt'] == 'enum':
                tag = self.leaf(name + '.tag', z3.IntSort(), idx)
                asm(band(le_int(0, tag), lt_int(tag, len(t['variants']))))
                pay = {}
                for i, va in enumerate(t['variants']):
                    pay[i] = tuple(self.fresh(ft, '%s.%s.%s' % (name, va['name'], fn), idx, self.sub(self.sub(ov, va['name']), fn))
                                   for fn, ft in va['fields'])
                return EnumV(tag, pay)
        raise Unsupported('fresh value of type %s' % t['d'])

    def mask(self, name, w, idx=None):
        """unsigned integer used as a bit set"""
        if idx is None:
            F = z3.Function(name + '.bit', z3.IntSort(), z3.BoolSort())
            fn = lambda i: F(z3int(i))
        else:
            F = z3.Function(name + '.bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
            fn = lambda i: F(z3int(idx), z3int(i))
        if self.mode == 'sym':
            return Bits(w, fn)
        v = sum(1 << i for i in range(w) if self.model(fn(i)))
        self.inputs[name if idx is None else '%s(%s)' % (name, idx)] = v
        return v

    def elem_assume(self, idx):
        return lambda c: None

    @staticmethod
    def sub(ov, f):
        r = {}
        for k, v in ov.items():
            if k == f:
                r[''] = v
            elif k.startswith(f + '.'):
                r[k[len(f) + 1:]] = v
        return r

    def encode(self, tid, x, name=None):
        """python / TV value -> engine value of type tid"""
        t = self.p.types[tid]
        opt = t['k'] == 'adt' and t['name'] == 'std::option::Option'
        if isinstance(x, TV):
            if opt and x.tid == t['args'][0]:
                return EnumV(1, {1: (x.v,)})
            return x.v
        if isinstance(x, Handle):
            r = RefV(x.alloc)
            return EnumV(1, {1: (r,)}) if opt else r
        k = t['k']
        if k == 'float':
            if isinstance(x, (int, float)) and not isinstance(x, bool) and not isinf(x) or isinstance(x, int):
                return R(x)
            return x
        if k in ('int', 'bool', 'char'):
            return x
        if isinstance(x, (StructV, EnumV, SeqC, SeqS, MapC, MapS, RefV, FnV, IterV, OpaqueV)):
            return x
        if k == 'array' or k == 'slice' or (k == 'adt' and self.M.B.is_seq_ty(t)):
            et = self.elem_ty(tid)
            if isinstance(x, int):
                return SeqC([self.fresh(et, '%s[%d]' % (name, i)) for i in range(x)])
            return SeqC([self.encode(et, y, '%s[%d]' % (name, i)) for i, y in enumerate(x)])
        if k == 'adt' and t['name'] == 'slotmap::SlotMap':
            et = self.elem_ty(tid)
            items = [(kk, self.encode(et, y)) for kk, y in x.items()]
            return MapC(items, max([kk for kk, _ in items] + [0]) + 1)
        if k == 'adt' and t['name'] == 'slotmap::SparseSecondaryMap':
            et = self.elem_ty(tid)
            return MapC([(kk, y if isinstance(y, EnumV) else EnumV(1, {1: (self.encode(et, y),)})) for kk, y in x.items()], -1)
        if k == 'tuple':
            return StructV([self.encode(e, y) for e, y in zip(t['elems'], x)])
        if k == 'adt' and t['name'] == 'std::cell::Cell':
            return StructV((StructV((self.encode(t['args'][0], x),)),))
        if k == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['fields']) == 1 and isinstance(x, (int, z3.ArithRef)):
            ft = t['variants'][0]['fields'][0][1]
            ftt = self.p.types[ft]
            if ftt['k'] == 'adt' and ftt['name'] == 'slotmap::KeyData':
                return StructV((x,))
        if k == 'adt' and t['adt'] == 'enum':
            if x is None and t['name'] == 'std::option::Option':
                return EnumV(0, {0: ()})
            if t['name'] == 'std::option::Option':
                if isinstance(x, tuple) and len(x) == 2 and x[0] == 'opt':
                    return EnumV(ite(x[1][0], 1, 0), {0: (), 1: (self.encode(t['args'][0], x[1][1]),)})
                return EnumV(1, {1: (self.encode(t['args'][0], x),)})
            if isinstance(x, str):
                for i, va in enumerate(t['variants']):
                    if va['name'] == x:
                        return EnumV(i, {i: ()})
        if k == 'adt' and t['name'] == 'std::rc::Rc' and isinstance(x, Handle):
            return RefV(x.alloc)
        raise Unsupported('cannot encode %r as %s' % (x, t['d']))

    def map_ty(self, tid):
        return next(i for i, t in self.p.types.items() if t['k'] == 'adt' and t['name'] == 'slotmap::SlotMap' and t['args'][1] == tid)

    def map_sym(self, ty, name, n, facts=None, nested=None):
        """slot map with n entries; values are uninterpreted functions of the key.
        nested: name of a container field -> function(key term) giving its value"""
        tid = self.tid(ty)
        mt = self.map_ty(tid)
        K = z3.Function(name + '@key', z3.IntSort(), z3.IntSort())
        P = z3.Function(name + '@rank', z3.IntSort(), z3.IntSort())
        if self.mode == 'conc':
            if n > 12 or any(self.model(K(z3.IntVal(i))) != i + 1 for i in range(n)):
                raise ReplayInvalid('key numbering not replayable')
            return TV(self, mt, MapC([(i + 1, self.fresh(tid, name, i + 1, {a: f(i + 1) for a, f in (nested or {}).items()})) for i in range(n)], n + 1))
        E = self
        self.M.symbolic = True
        self.M.inverse[K.name()] = P
        cache = {}

        def base(k):
            h = k if isinstance(k, int) else ('t', k.get_id())
            if h not in cache:
                v = E.fresh(tid, name, k, {a: f(k) for a, f in (nested or {}).items()})
                cache[h] = (k, v)
            return cache[h][1]
        i = z3.Int(name + '!i')
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3int(n)), z3.And(P(K(i)) == i, K(i) > 0)), patterns=[K(i)]))
        k = z3.Int(name + '!k')
        mp = MapS(n, K, P, SeqS(0, base))
        rng = self.type_facts(tid, base(k))
        if facts is not None:
            rng = band(rng, facts(TV(self, tid, base(k))))
        if rng is not True:
            self.assume(z3.ForAll([k], z3.Implies(mp.has(k), rng), patterns=[P(k)]))
        self.hints += [z3.Implies(n > j, K(j) == j + 1) for j in range(4)]
        return TV(self, mt, mp)

    def tail(self, ty, name, key, lo=0, hi=1 << 40):
        """list inside a map entry: length and elements are functions of the key"""
        tid = self.tid(ty)
        n = self.leaf('n_' + name, z3.IntSort(), key)
        if self.mode == 'conc':
            if not lo <= n <= 12:
                raise ReplayInvalid('list too long for replay')
            return SeqC([self.fresh(tid, name, (key, i)) for i in range(n)])
        return SeqS(n, lambda i: self.fresh(tid, name, (key, i)))

    def keys_sym(self, ty, name, n, within=None):
        """list of n distinct keys, all present in the map `within`"""
        seq = self.seq_sym(ty, name, n)
        if self.mode == 'conc':
            return seq
        K = seq[z3.Int(name + '!probe')].key.decl()
        P = z3.Function(name + '@rank', z3.IntSort(), z3.IntSort())
        self.M.inverse[K.name()] = P
        i = z3.Int(name + '!i')
        f = P(K(i)) == i
        if within is not None:
            f = z3.And(f, z3bool(within.v.has(K(i))))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3int(n)), f), patterns=[K(i)]))
        return seq

    def seq_sym(self, ty, name, n, facts=None):
        """sequence of symbolic length n whose elements are uninterpreted functions of the index"""
        tid = self.tid(ty)
        if self.mode == 'conc':
            if n > 72:
                raise ReplayInvalid('sequence too long for replay')
            return TVSeq(self, tid, SeqC([self.fresh(tid, name, i) for i in range(n)]))
        E = self
        self.M.symbolic = True

        def base(i):
            return E.fresh(tid, name, i)
        i = z3.Int(name + '!i')
        rng = self.type_facts(tid, base(i))
        if facts is not None:
            rng = band(rng, facts(TV(self, tid, base(i))))
        if rng is not True:
            self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3int(n)), rng)))
        return TVSeq(self, tid, SeqS(n, base))

    def type_facts(self, tid, v):
        t = self.p.types[tid]
        k = t['k']
        if isinstance(v, SeqS):
            j = z3.Int('tf!j')
            n = z3int(v.n)
            et = self.type_facts(self.elem_ty(tid), v.get(j))
            return band(n >= 0, n <= 1 << 40, True if et is True else z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), et)))
        if isinstance(v, (Bits, MapC, MapS, SeqC)):
            return True
        if k == 'int':
            lo, hi = int_range(t)
            return band(le_int(lo, v), le_int(v, hi))
        if k == 'tuple':
            return band(*[self.type_facts(e, x) for e, x in zip(t['elems'], v.f)])
        if k == 'array':
            return band(*[self.type_facts(t['elem'], x) for x in v.items])
        if k == 'adt':
            if t['name'] == 'slotmap::KeyData':
                return le_int(0, v)
            if t['adt'] == 'struct':
                return band(*[self.type_facts(f[1], x) for f, x in zip(t['variants'][0]['fields'], v.f)])
            if t['adt'] == 'enum':
                cs = [band(le_int(0, v.tag), lt_int(v.tag, len(t['variants'])))]
                for i, va in enumerate(t['variants']):
                    for f, x in zip(va['fields'], v.pay.get(i, ())):
                        cs.append(self.type_facts(f[1], x))
                return band(*cs)
        return True

    # ------------------------------------------------------------ views
    def wrap(self, tid, v, st=None):
        t = self.p.types[tid]
        if t['k'] in SCALAR:
            return v
        if t['k'] == 'adt' and t['name'] in ('std::cell::Cell',):
            return self.wrap(t['args'][0], v.f[0].f[0], st)
        return TV(self, tid, v, st)

    def default(self, tid):
        t = self.p.types[tid]
        if t['k'] == 'float':
            return Fraction(0)
        if t['k'] == 'int':
            return 0
        if t['k'] == 'bool':
            return False
        return TV(self, tid, self.blank(tid))

    def blank(self, tid):
        """placeholder for a payload that is absent (contracts only mention it under a guard)"""
        t = self.p.types[tid]
        k = t['k']
        if k in ('float', 'int', 'bool'):
            return self.default(tid)
        if k == 'tuple':
            return StructV([self.blank(e) for e in t['elems']])
        if k == 'array':
            return SeqC([self.blank(t['elem']) for _ in range(t['len'])])
        if k == 'adt':
            if t['name'] == 'slotmap::KeyData':
                return 0
            if self.M.B.is_seq_ty(t):
                return SeqC([])
            if t['adt'] == 'struct':
                return StructV([self.blank(ft) for _, ft in t['variants'][0]['fields']])
            if t['adt'] == 'enum' and self.mode == 'conc':
                return EnumV(0, {0: tuple(self.blank(ft) for _, ft in t['variants'][0]['fields'])})
        raise Unsupported('absent payload')

    def place(self, tv):
        return Handle(self.M.alloc(self.st, tv.v), tv.tid)

    def slice_of(self, ty, items):
        """handle usable as &[T]"""
        tid = self.tid(ty)
        return Handle(self.M.alloc(self.st, SeqC([self.encode(tid, x) for x in items])), ('slice', tid))

    # ------------------------------------------------------------ calls
    def modular(self, fn, post=None, pure=None, give=None, note=None, value=None):
        """callee `fn` (any instantiation) is represented by its contract: an arbitrary result of its
        type for which post(args, result) holds. Only for functions without &mut parameters.
        pure: picks from the arguments the numbers the result is a function of.
        give: the (arbitrary) result itself, where it contains lists.
        value: the result as an expression over the arguments.
        note: what post assumes and where it is proved, for the evidence."""
        short = fn.split('::')[-1]
        self.abstracted.append(fn)
        self.assumed.append('%s: represented by its contract, %s; that it returns at all (no panic, termination) is assumed here' % (fn, note or (
            'a function of the values its result depends on (no side effect), otherwise arbitrary' if pure else 'an arbitrary result' if post is None and value is None else 'assumed postcondition')))
        if self.mode != 'sym':
            if give is not None:
                raise ReplayInvalid('the result of %s is left open' % fn)
            return

        def ov(M, st, f, args):
            rt = f['locals'][0]
            if give is not None:
                return [(st, self.encode(rt, give))]
            if value is not None:
                ts = f['locals'][1:1 + f['argc']]
                return [(st, self.encode(rt, value([self.wrap(t, a, st) for t, a in zip(ts, args)])))]
            if pure is not None:
                ts = f['locals'][1:1 + f['argc']]
                v = self.app(short, rt, pure([self.wrap(t, a, st) for t, a in zip(ts, args)]))
                return [(st, v)]
            v = self.fresh(rt, M.fresh_name(short), 0)
            st = st.fork()
            st.assume(self.type_facts(rt, v))
            if post is not None:
                ts = f['locals'][1:1 + f['argc']]
                for c in post([self.wrap(t, a, st) for t, a in zip(ts, args)], self.wrap(rt, v, st)):
                    st.assume(c)
            return [(st, v)]
        for f in self.p.fns.values():
            if f['def'] == fn or f['def'].endswith('::' + fn):
                self.M.overrides[f['def']] = ov

    def app(self, name, ty, args):
        """result of the function `name`, left uninterpreted"""
        t = self.p.types[self.tid(ty)]
        k = t['k']
        if k == 'tuple':
            return StructV([self.app('%s.%d' % (name, i), e, args) for i, e in enumerate(t['elems'])])
        if k == 'array':
            return SeqC([self.app('%s.%d' % (name, i), self.elem_ty(self.tid(ty)), args) for i in range(t['len'])])
        if k == 'adt' and t['name'] == 'std::option::Option':
            return EnumV(ite(self.app(name + '.some', 'bool', args), 1, 0), {0: (), 1: (self.app(name + '.val', t['args'][0], args),)})
        if k == 'adt' and t['name'] == 'slotmap::KeyData':
            return z3.Function(name + '@', *[z3.IntSort() if isinstance(a, int) else a.sort() for a in args], z3.IntSort())(*args)
        if k == 'adt' and t['adt'] == 'enum' and len(t['variants']) == 2:
            pay = {i: tuple(self.app('%s.%d.%s' % (name, i, n), e, args) for n, e in [f[:2] for f in va['fields']]) for i, va in enumerate(t['variants'])}
            return EnumV(ite(self.app(name + '.tag', 'bool', args), 1, 0), pay)
        if k == 'adt' and t['adt'] == 'struct':
            return StructV([self.app('%s.%s' % (name, n), e, args) for n, e in [f[:2] for f in t['variants'][0]['fields']]])
        so = {'bool': z3.BoolSort(), 'float': z3.RealSort(), 'int': z3.IntSort()}[k]
        ts = [z3bool(a) if isinstance(a, (bool, z3.BoolRef)) else z3int(a) if isinstance(a, int) or (isinstance(a, z3.ExprRef) and z3.is_int(a)) else z3real(a) for a in args]
        return z3.Function(name + '@', *[x.sort() for x in ts], so)(*ts)

    def value(self, fn, key, *args):
        """what the function `fn`, represented by modular(fn, pure=...), returns where its result depends on `key`"""
        if self.mode == 'conc':
            sym = self.p.find(fn)
            tys = self.p.fns[sym]['locals'][1:]
            return self.call(fn, *[self.place(a) if isinstance(a, TV) and self.p.types[t]['k'] == 'ref' else
                                   self.place(TV(self, self.p.types[t]['to'], self.encode(self.p.types[t]['to'], a))) if self.p.types[t]['k'] == 'ref' else a
                                   for t, a in zip(tys, args)])[0].ret
        return self.app(fn.split('::')[-1], self.p.fns[self.p.find(fn)]['locals'][0], key)

    def map_of(self, ty, d):
        """the slot map with exactly these entries"""
        tid = self.tid(ty)
        mt = self.map_ty(tid)
        return TV(self, mt, self.encode(mt, d))

    def call(self, fn, *args, **kw):
        return self.call_in(self.st, fn, args, **kw)

    def call_in(self, st, fn, args, **kw):
        sym = self.p.find(fn)
        f = self.p.fns[sym]
        if f['name'] not in self.calls:
            self.calls.append(f['name'])
        tys = f['locals'][1:1 + f['argc']]
        vals = []
        for t, a in zip(tys, args):
            vals.append(RefV(a.alloc) if isinstance(a, Handle) else self.encode(t, a))
        if len(vals) != f['argc']:
            raise Unsupported('lost anchor: arity of %s changed' % f['name'])
        rt = f['locals'][0]
        if self.mode == 'conc':
            st2 = st.fork()
            ret = self.rpc(self, st2, sym, f, vals)
            return [Out(self, st2, ret, rt)]
        outs = []
        for s, r in self.M.call(st, sym, vals):
            outs.append(Out(self, s, r, rt))
        self.outcomes.extend(outs)
        return outs

    def ensure(self, st, name, f):
        """postcondition f (a thunk, so that it can be re-evaluated with a tolerance)"""
        if not callable(f):
            g = f
            f = lambda: g
        if self.mode == 'conc':
            if not self.truth(f()):
                self.failed.append(name)
            return
        self.obls.append((name, st.pc, f))


class TVSeq(TV):
    """sequence view with explicit element type"""
    __slots__ = ()

    def elem_ty(self):
        return self.tid


# ---------------------------------------------------------------- registry
class Theorem:
    def __init__(self, name, fn, bounded=None, args=(), panics=True, tier='quick', weight=1):
        self.name, self.fn, self.bounded, self.args, self.panics, self.tier, self.weight = name, fn, bounded, args, panics, tier, weight


class Registry:
    def __init__(self):
        self.items = []


REG = Registry()


def theorem(name, bounded=None, params=None, panics=True, tier='quick', weight=1):
    """register a contract. bounded: text naming the bound (then it is not counted as proved)."""
    def deco(fn):
        if params is None:
            REG.items.append(Theorem(name, fn, bounded, (), panics, tier, weight))
        else:
            for p in params:
                p = p if isinstance(p, tuple) else (p,)
                REG.items.append(Theorem('%s[%s]' % (name, ','.join(str(x) for x in p)), fn, bounded, p, panics, tier, weight))
        return fn
    return deco
