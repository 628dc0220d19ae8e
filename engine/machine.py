"""Symbolic executor / verification-condition generator over the MIR that rustc produced
from the current source tree (see driver/mirdump.rs)."""
import re
import json
import struct
import itertools
import time
from fractions import Fraction
import z3
from values import *
import values as V

MAXVISIT = 400


SQRT = z3.Function('sqrt@', z3.RealSort(), z3.RealSort())


class ForkOn(Exception):
    """Ask the executor to case-split the current state on term == each candidate."""

    def __init__(self, term, cands):
        self.term, self.cands = term, cands


class Decline(Exception):
    """raised by a library model that leaves the call to the compiled body"""


class Dead(Exception):
    """The current path is infeasible."""


class State:
    __slots__ = ('mem', 'pc', 'concr', 'notes')

    def __init__(self, mem=None, pc=(), concr=None, notes=()):
        self.mem = mem if mem is not None else {}
        self.pc = tuple(pc)
        self.concr = concr if concr is not None else {}
        self.notes = tuple(notes)

    def fork(self):
        return State(dict(self.mem), self.pc, dict(self.concr), self.notes)

    def assume(self, *conds):
        add = []
        for c in conds:
            if isinstance(c, bool):
                if not c:
                    raise Dead()
                continue
            add.append(c)
        if add:
            self.pc = self.pc + tuple(add)
        return self


class Frame:
    __slots__ = ('f', 'loc', 'sym')

    def __init__(self, f, loc, sym):
        self.f, self.loc, self.sym = f, loc, sym


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {int(k): v for k, v in d['types'].items()}
        self.fns = d['fns']
        self.allocs = d['allocs']
        self.nexts = {int(k): v for k, v in d.get('nexts', {}).items()}
        self.items = d['items']
        self.byname = {}
        for n, s in self.items:
            self.byname.setdefault(n, s)
        for s, f in self.fns.items():
            self.byname.setdefault(f['name'], s)
        self.cfg = {}

    def find(self, name):
        """Find the symbol of a function by full name or unambiguous suffix."""
        if name in self.byname:
            return self.byname[name]
        c = [s for n, s in self.byname.items() if n.endswith('::' + name) or n == name]
        if not c:
            c = [s for n, s in self.byname.items() if n.endswith(name)]
        c = list(dict.fromkeys(c))
        if len(c) == 1:
            return c[0]
        if not c:
            raise Unsupported('lost anchor: function %s not found' % name)
        raise Unsupported('ambiguous function name %s' % name)

    def find_ty(self, pred):
        for i, t in self.types.items():
            if pred(t):
                return i
        return None

    def adt_ty(self, name):
        """type id of a non-generic ADT by name suffix, or by its displayed form"""
        c = [i for i, t in self.types.items() if t['k'] == 'adt' and (t['d'] == name or t['name'] == name)]
        if not c:
            c = [i for i, t in self.types.items() if t['k'] == 'adt' and (t['name'].endswith('::' + name) or t['d'].endswith('::' + name))]
        if not c:
            c = [i for i, t in self.types.items() if t['k'] in ('tuple', 'ref', 'array', 'slice', 'int', 'float', 'bool') and re.sub(r'(\w+::)+', '', t['d']) == name]
        if not c:
            raise Unsupported('lost anchor: type %s not found' % name)
        return c[0]

    # ---- loop structure
    def loops(self, sym):
        """{header: set(blocks)} natural loops of the function."""
        c = self.cfg.get(sym)
        if c is not None:
            return c
        f = self.fns[sym]
        n = len(f['blocks'])
        succ = [self.succs(b[1]) for b in f['blocks']]
        # dominators (simple iterative)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        preds = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                preds[s].append(i)
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(succ[x])
        order = sorted(reach)
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in preds[b] if p in reach]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w.extend(p for p in preds[x] if p in reach)
        self.cfg[sym] = loops
        return loops

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []


INT_RANGE = {}


def int_range(t):
    b, s = t['bits'], t['signed']
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class Machine:
    def __init__(self, prog, budget=None):
        self.p = prog
        self.counter = itertools.count(1)
        self.fresh_ctr = itertools.count(1)
        self.defs = {}         # name of defined constant -> axiom
        self.sqrt_cache = {}
        self.panics = []       # (state, msg)
        self.divs = []         # (state pc, denominator)
        self.fs = z3.SolverFor('ALL') if False else z3.Solver()
        self.fs.set('timeout', 300)
        self.slow = 0
        self.fstack = []
        self.feas_cache = {}
        self.stats = {'feas': 0, 'feas_s': 0.0, 'paths': 0, 'calls': 0}
        self.trace_calls = None
        self.depth = 0
        self.merge = True
        self.overrides = {}    # def name -> python builtin (contracts used at call sites)
        self.visited = set()   # def names of functions executed from MIR
        self.models_used = set()
        self.loop_rules = []
        self.maxvisit = MAXVISIT
        self.deadline = None
        self.dyn = {}
        self.inverse = {}      # enumeration of distinct keys -> inverse function
        self.havoc_loops = {}  # function suffix -> policy
        import builtins_rs
        self.B = builtins_rs.Builtins(self)

    # ------------------------------------------------------------ fresh
    def fresh_name(self, p):
        return '%s!%d' % (p, next(self.fresh_ctr))

    def alloc(self, st, v):
        a = next(self.counter)
        st.mem[a] = v
        return a

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.p.types[i]

    def is_union(self, t):
        return t['k'] == 'adt' and t.get('adt') == 'union'

    # ------------------------------------------------------------ feasibility
    def feasible(self, pc, cond):
        if isinstance(cond, bool):
            return cond
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')
        want = list(pc) + [cond]
        t0 = time.time()
        # sync stack
        k = 0
        while k < len(self.fstack) and k < len(want) and self.fstack[k] is want[k]:
            k += 1
        if len(self.fstack) > k:
            self.fs.pop(len(self.fstack) - k)
            del self.fstack[k:]
        for e in want[k:]:
            self.fs.push()
            if not has_quant(e):
                self.fs.add(e)
            self.fstack.append(e)
        r = self.fs.check()
        if r == z3.unknown:
            # hard arithmetic in the path condition: stop spending time on pruning
            self.slow += 1
            if self.slow == 6:
                self.fs.set('timeout', 60)
        self.stats['feas'] += 1
        self.stats['feas_s'] += time.time() - t0
        return r != z3.unsat

    # ------------------------------------------------------------ memory
    def step_get(self, v, s, st):
        k = s[0]
        if v is UNINIT:
            return UNINIT
        if k == 'f':
            if isinstance(v, StructV):
                if s[1] < len(v.f):
                    return v.f[s[1]]
                return UNINIT
            raise Unsupported('field of %r' % type(v))
        if k == 'v':
            if isinstance(v, EnumV):
                if s[1] in v.pay:
                    return StructV(v.pay[s[1]])
                return UNINIT
            raise Unsupported('downcast of %r' % type(v))
        if k == 'i':
            return self.seq_get(v, s[1], st)
        if k == 'sub':
            return self.seq_sub(v, s[1], s[2], st)
        if k == 'k':
            return self.map_get(v, s[1], st)
        raise Unsupported('path step %r' % (s,))

    def conc(self, st, t):
        if isinstance(t, Bits):
            t = bits_int(t)
        if isinstance(t, z3.ExprRef):
            c = st.concr.get(t.get_id())
            if c is not None:
                return c[1]
            if z3.is_int_value(t):
                return t.as_long()
        return t

    def seq_get(self, v, i, st):
        i = self.conc(st, i)
        if isinstance(v, SeqC):
            if isinstance(i, int):
                if not (0 <= i < len(v.items)):
                    raise Dead()
                return v.items[i]
            if not v.items:
                raise Dead()
            try:
                r = v.items[-1]
                for j in range(len(v.items) - 2, -1, -1):
                    r = ite(eq_int(i, j), v.items[j], r)
                return r
            except Unmergeable:
                raise ForkOn(i, list(range(len(v.items))))
        if isinstance(v, SeqS):
            return v.get(i)
        raise Unsupported('index of %r' % type(v))

    def seq_sub(self, v, lo, hi, st):
        lo, hi = self.conc(st, lo), self.conc(st, hi)
        if isinstance(v, SeqC):
            if not isinstance(lo, int):
                raise ForkOn(lo, list(range(len(v.items) + 1)))
            if not isinstance(hi, int):
                raise ForkOn(hi, list(range(len(v.items) + 1)))
            if not (0 <= lo <= hi <= len(v.items)):
                raise Dead()
            return SeqC(v.items[lo:hi])
        if isinstance(v, SeqS):
            return SeqS(i_sub(hi, lo), lambda i: v.get(i_add(i, lo)))
        raise Unsupported('slice of %r' % type(v))

    def map_get(self, v, key, st):
        key = self.conc(st, key)
        if isinstance(v, MapC):
            if isinstance(key, int):
                for k, x in v.items:
                    if k == key:
                        return x
                raise Dead()
            try:
                r = None
                for k, x in reversed(v.items):
                    r = x if r is None else ite(eq_int(key, k), x, r)
                if r is None:
                    raise Dead()
                return r
            except Unmergeable:
                raise ForkOn(key, v.keys())
        if isinstance(v, MapS):
            return v.vals.get(key)
        raise Unsupported('map access on %r' % type(v))

    def load(self, st, alloc, path=()):
        if alloc not in st.mem:
            if alloc < 0:
                st.mem[alloc] = self.const_alloc(-alloc)
            elif ('sv', alloc) in self.dyn:
                st.mem[alloc] = self.dyn[('sv', alloc)]
            else:
                raise Unsupported('dangling allocation')
        v = st.mem[alloc]
        for s in path:
            v = self.step_get(v, s, st)
        return v

    def loadr(self, st, r):
        return self.load(st, r.alloc, r.path)

    def store(self, st, alloc, path, val):
        if not path:
            st.mem[alloc] = val
            return
        if alloc not in st.mem and alloc < 0:
            st.mem[alloc] = self.const_alloc(-alloc)
        st.mem[alloc] = self.put(st.mem.get(alloc, UNINIT), path, val, st)

    def storer(self, st, r, val):
        self.store(st, r.alloc, r.path, val)

    def put(self, v, path, val, st):
        if not path:
            return val
        s = path[0]
        rest = path[1:]
        k = s[0]
        if k == 'f':
            if v is UNINIT:
                v = StructV(())
            if not isinstance(v, StructV):
                raise Unsupported('store to field of %r' % type(v))
            f = list(v.f)
            while len(f) <= s[1]:
                f.append(UNINIT)
            f[s[1]] = self.put(f[s[1]], rest, val, st)
            return StructV(f)
        if k == 'v':
            if v is UNINIT:
                v = EnumV(s[1], {})
            pay = dict(v.pay)
            cur = StructV(pay.get(s[1], ()))
            nv = self.put(cur, rest, val, st)
            pay[s[1]] = nv.f
            return EnumV(v.tag, pay)
        if k == 'i':
            i = self.conc(st, s[1])
            if isinstance(v, SeqC):
                if isinstance(i, int):
                    if not (0 <= i < len(v.items)):
                        raise Dead()
                    it = list(v.items)
                    it[i] = self.put(it[i], rest, val, st)
                    return SeqC(it)
                try:
                    it = []
                    for j, old in enumerate(v.items):
                        it.append(ite(eq_int(i, j), self.put(old, rest, val, st), old))
                    return SeqC(it)
                except Unmergeable:
                    raise ForkOn(i, list(range(len(v.items))))
            if isinstance(v, SeqS):
                nv = self.put(v.get(i), rest, val, st) if rest else val
                w = [x for x in v.writes if eq_int(x[0], i) is not True]
                w.append((i, nv))
                return SeqS(v.n, v.base, w)
            raise Unsupported('indexed store to %r' % type(v))
        if k == 'sub':
            lo, hi = self.conc(st, s[1]), self.conc(st, s[2])
            if rest and rest[0][0] == 'i':
                return self.put(v, (('i', i_add(rest[0][1], lo)),) + rest[1:], val, st)
            if rest and rest[0][0] == 'sub':
                return self.put(v, (('sub', i_add(lo, rest[0][1]), i_add(lo, rest[0][2])),) + rest[1:], val, st)
            if isinstance(v, SeqC) and isinstance(lo, int) and isinstance(hi, int) and isinstance(val, SeqC):
                return SeqC(v.items[:lo] + val.items + v.items[hi:])
            raise Unsupported('store through slice')
        if k == 'k':
            key = self.conc(st, s[1])
            if isinstance(v, MapC):
                if isinstance(key, int):
                    if key not in v.keys():
                        raise Dead()
                    return MapC([(kk, self.put(x, rest, val, st) if kk == key else x) for kk, x in v.items], v.nextkey)
                try:
                    return MapC([(kk, ite(eq_int(key, kk), self.put(x, rest, val, st), x)) for kk, x in v.items], v.nextkey)
                except Unmergeable:
                    raise ForkOn(key, v.keys())
            if isinstance(v, MapS):
                return MapS(v.n, v.K, v.P, self.put(v.vals, (('i', key),) + tuple(rest), val, st))
            raise Unsupported('map store on %r' % type(v))
        raise Unsupported('store step %r' % (s,))

    # ------------------------------------------------------------ constants
    def const_alloc(self, aid):
        tid = self.dyn.get(('alloc', aid))
        a = self.p.allocs.get(str(aid))
        if a is None or a['k'] != 'mem':
            raise Unsupported('constant allocation kind')
        if tid is None:
            raise Unsupported('untyped constant allocation')
        if isinstance(tid, tuple):
            es = self.ty(tid[1])['lay']['size']
            return SeqC([self.decode(a['a'], i * es, tid[1]) for i in range(tid[2])])
        return self.decode(a['a'], 0, tid)

    def scalar_bytes(self, a, off, n):
        bs = a['bytes'][off:off + n]
        if any(b is None for b in bs) or len(bs) != n:
            return None
        return int.from_bytes(bytes(bs), 'little')

    def decode(self, a, off, tid):
        t = self.ty(tid)
        k = t['k']
        if k == 'bool':
            x = self.scalar_bytes(a, off, 1)
            return UNINIT if x is None else bool(x)
        if k == 'char':
            return self.scalar_bytes(a, off, 4)
        if k == 'int':
            x = self.scalar_bytes(a, off, t['bits'] // 8)
            if x is None:
                return UNINIT
            if t['signed'] and x >= 1 << (t['bits'] - 1):
                x -= 1 << t['bits']
            return x
        if k == 'float':
            x = self.scalar_bytes(a, off, 8 if t['f'] == 'F64' else 4)
            if x is None:
                return UNINIT
            if t['f'] == 'F64':
                fl = struct.unpack('<d', x.to_bytes(8, 'little'))[0]
            elif t['f'] == 'F32':
                fl = struct.unpack('<f', x.to_bytes(4, 'little'))[0]
            else:
                raise Unsupported('float kind')
            if fl != fl or fl in (float('inf'), float('-inf')):
                return fl
            return Fraction(repr(fl))
        if k in ('ref', 'ptr'):
            for (o, aid) in a['prov']:
                if o == off:
                    et = self.ty(t['elem'])
                    tgt = self.p.allocs.get(str(aid))
                    if tgt is None:
                        raise Unsupported('const pointer')
                    if tgt['k'] == 'static':
                        return OpaqueV('static')
                    if tgt['k'] != 'mem':
                        return OpaqueV('const ptr')
                    if et['k'] == 'str':
                        n = self.scalar_bytes(a, off + 8, 8)
                        return StrV(bytes(b or 0 for b in tgt['a']['bytes'][:n]).decode('utf8', 'replace'))
                    if et['k'] == 'slice':
                        n = self.scalar_bytes(a, off + 8, 8)
                        self.dyn[('slice', aid)] = (t['elem'], n)
                        at = ('arr', et['elem'], n)
                        self.dyn[('alloc', aid)] = at
                        return RefV(-aid)
                    if et['k'] in ('dyn', 'fnptr', 'other'):
                        return OpaqueV('dyn const')
                    if ('alloc', aid) in self.dyn and self.dyn[('alloc', aid)] != t['elem']:
                        raise Unsupported('constant allocation viewed at two types')
                    self.dyn[('alloc', aid)] = t['elem']
                    return RefV(-aid)
            et = self.ty(t['elem'])
            if et['k'] == 'slice':
                n = self.scalar_bytes(a, off + 8, 8)
                if n == 0:
                    return RefV(self.empty_seq())
            if et['k'] == 'str':
                return StrV('')
            if self.is_zst(t['elem']):
                return RefV(self.zst_alloc(t['elem']))
            raise Unsupported('integer constant as pointer to %s' % et['d'])
        if k == 'tuple':
            if not t['elems']:
                return UNIT
            return StructV([self.decode(a, off + o, e) for o, e in zip(t['lay']['offs'], t['elems'])])
        if k == 'array':
            st = t['lay']['offs'] if isinstance(t['lay']['offs'], int) else 0
            return SeqC([self.decode(a, off + i * st, t['elem']) for i in range(t['len'])])
        if k == 'adt':
            if t['name'] == 'slotmap::KeyData':
                idx = self.scalar_bytes(a, off, 4)
                return 0 if idx in (None, 0xffffffff) else idx
            if self.B.is_seq_ty(t):
                # only empty containers occur as constants
                return SeqC(())
            if t['adt'] == 'union':
                raise Unsupported('union constant')
            if t['adt'] == 'struct':
                fs = t['variants'][0]['fields']
                if not fs:
                    return UNIT
                offs = t['lay']['offs']
                if not isinstance(offs, list) or len(offs) != len(fs):
                    raise Unsupported('layout of %s' % t['d'])
                return StructV([self.decode(a, off + o, f[1]) for o, f in zip(offs, fs)])
            lay = t['lay']['var']
            if lay == 'empty':
                return UNINIT
            if isinstance(lay, int):
                v = lay
                offs = t['lay']['offs']
            else:
                tag = self.scalar_bytes(a, off + lay['tagoff'], lay['tagsize'])
                if lay['enc'] == 'direct':
                    if tag is None:
                        raise Unsupported('enum tag')
                    v = None
                    for i, va in enumerate(t['variants']):
                        if va['discr'] & ((1 << (8 * lay['tagsize'])) - 1) == tag:
                            v = i
                    if v is None:
                        raise Unsupported('enum tag value')
                else:
                    unt, s, e, ns = lay['enc']
                    prov = [1 for (o, _) in a['prov'] if o == off + lay['tagoff']]
                    if prov or tag is None:
                        v = unt
                    else:
                        d = (tag - ns) & ((1 << (8 * lay['tagsize'])) - 1)
                        v = s + d if d <= e - s else unt
                offs = lay['vs'][v]
            fs = t['variants'][v]['fields']
            return EnumV(v, {v: tuple(self.decode(a, off + o, f[1]) for o, f in zip(offs, fs))})
        if k in ('fndef',):
            return FnV(t['sym'])
        if k == 'closure':
            up = self.ty(t['upvars'])['elems'] if t['upvars'] is not None else []
            if not up:
                return UNIT
        raise Unsupported('constant of type %s' % t['d'])

    def is_zst(self, tid):
        t = self.ty(tid)
        return t.get('lay', {}).get('size') == 0 or t['k'] in ('fndef',) or (t['k'] == 'tuple' and not t['elems'])

    def empty_seq(self):
        return self.static_alloc('empty', SeqC(()))

    def static_alloc(self, key, v):
        k = ('static', key)
        if k not in self.dyn:
            a = 10 ** 9 + len(self.dyn)
            self.dyn[k] = a
            self.dyn[('sv', a)] = v
        return self.dyn[k]

    def zst_alloc(self, tid):
        return self.static_alloc(('zst', tid), self.zst(tid))

    def zst(self, tid):
        t = self.ty(tid)
        k = t['k']
        if k == 'fndef':
            return FnV(t['sym'])
        if k == 'adt':
            if t['adt'] == 'struct':
                return StructV([self.zst(f[1]) for f in t['variants'][0]['fields']])
            if t['adt'] == 'enum':
                v = t['lay']['var'] if isinstance(t['lay']['var'], int) else 0
                return EnumV(v, {v: tuple(self.zst(f[1]) for f in t['variants'][v]['fields'])})
            return UNINIT
        if k == 'tuple':
            return StructV([self.zst(e) for e in t['elems']])
        if k == 'closure':
            return UNIT
        if k == 'array':
            return SeqC([self.zst(t['elem'])] * (t['len'] or 0))
        if k == 'never':
            return UNINIT
        return UNIT

    # ------------------------------------------------------------ places / operands
    def place_ty(self, f, p):
        t = f['locals'][p[0]]
        for e in p[1]:
            k = e[0]
            tt = self.ty(t)
            if k == 'deref':
                if tt['k'] in ('ref', 'ptr'):
                    t = tt['elem']
                elif tt['k'] == 'adt' and tt['name'].endswith('Box'):
                    t = tt['args'][0]
                else:
                    raise Unsupported('deref type %s' % tt['d'])
            elif k == 'field':
                t = e[2]
            elif k in ('index', 'cidx'):
                t = tt['elem']
            elif k == 'downcast':
                pass
            elif k == 'subslice':
                pass
            elif k == 'opaque':
                t = e[1]
        return t

    def place(self, st, fr, p):
        alloc, path = fr.loc[p[0]], ()
        if not p[1]:
            return alloc, path
        t = fr.f['locals'][p[0]]
        for e in p[1]:
            k = e[0]
            tt = self.ty(t)
            if k == 'deref':
                v = self.load(st, alloc, path)
                while isinstance(v, StructV) and len(v.f) >= 1:   # Box / NonNull wrappers
                    v = v.f[0]
                if not isinstance(v, RefV):
                    if isinstance(v, StrV):
                        raise Unsupported('string data')
                    raise Unsupported('deref of %r' % (v,))
                alloc, path = v.alloc, v.path
                if tt['k'] in ('ref', 'ptr'):
                    t = tt['elem']
                else:
                    t = tt['args'][0]
            elif k == 'field':
                if tt['k'] == 'adt' and tt['adt'] == 'union':
                    pass
                elif tt['k'] == 'adt' and tt['name'] in self.B.TRANSPARENT:
                    pass
                else:
                    path = path + (('f', e[1]),)
                t = e[2]
            elif k == 'index':
                i = self.load(st, fr.loc[e[1]])
                path = path + (('i', i),)
                t = tt['elem']
            elif k == 'cidx':
                if e[3]:
                    n = self.seq_len(self.load(st, alloc, path))
                    path = path + (('i', i_sub(n, e[1])),)
                else:
                    path = path + (('i', e[1]),)
                t = tt['elem']
            elif k == 'subslice':
                v = self.load(st, alloc, path)
                n = self.seq_len(v)
                hi = i_sub(n, e[2]) if e[3] else e[2]
                path = path + (('sub', e[1], hi),)
            elif k == 'downcast':
                path = path + (('v', e[1]),)
            elif k == 'opaque':
                t = e[1]
        return alloc, path

    def seq_len(self, v):
        if isinstance(v, SeqC):
            return len(v.items)
        if isinstance(v, SeqS):
            return v.n
        raise Unsupported('length of %r' % type(v))

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('copy', 'move'):
            a, p = self.place(st, fr, o[1])
            return self.load(st, a, p)
        if k == 'const':
            if o[2] == 'zst':
                return self.zst(o[1])
            if o[2] == 'alloc':
                return self.decode(o[3], 0, o[1])
            raise Unsupported('unevaluated constant')
        if k == 'rtcheck':
            return False
        raise Unsupported('operand %s' % k)

    def op_ty(self, f, o):
        if o[0] in ('copy', 'move'):
            return self.place_ty(f, o[1])
        if o[0] == 'const':
            return o[1]
        return None

    # ------------------------------------------------------------ arithmetic
    def wrap(self, x, t):
        lo, hi = int_range(t)
        if isinstance(x, Bits):
            return x
        if isinstance(x, int):
            m = 1 << t['bits']
            x %= m
            if t['signed'] and x > hi:
                x -= m
            return x
        m = 1 << t['bits']
        w = (x - lo) % m + lo
        return z3.If(z3.And(x >= lo, x <= hi), x, w)

    def in_range(self, x, t):
        lo, hi = int_range(t)
        if isinstance(x, Bits):
            return True
        if isinstance(x, int):
            return lo <= x <= hi
        return z3.And(x >= lo, x <= hi)

    def divide(self, st, a, b):
        if is_py(a) and is_py(b) and not isinf(a) and not isinf(b):
            if b == 0:
                return float('nan') if a == 0 else (float('inf') if a > 0 else float('-inf'))
            return Fraction(a) / Fraction(b)
        if isinf(b):
            return Fraction(0)
        if isinf(a):
            raise Unsupported('infinity / symbol')
        if is_py(b):
            if b == 0:
                raise Unsupported('division by constant zero')
            return r_mul(a, Fraction(1) / Fraction(b))
        self.divs.append((st.pc, b))
        return z3real(a) / z3real(b)

    def sqrt(self, st, x):
        if is_py(x):
            if x < 0:
                return float('nan')
            import math
            n, d = Fraction(x).numerator, Fraction(x).denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return Fraction(rn, rd)
            # the root of a constant is named after it, so that comparisons fold
            name = 'sqrt!of!%d!%d' % (n, d)
            s = z3.Real(name)
            if name not in self.defs:
                ROOTS[name] = Fraction(x)
                q = z3real(Fraction(x))
                self.defs[name] = z3.And(s > 0, s * s == q, s == SQRT(q))
            return s
        x = z3.simplify(x)
        k = x.get_id()
        if k in self.sqrt_cache:
            return self.sqrt_cache[k][0]
        n = self.fresh_name('sqrt')
        s = z3.Real(n)
        self.defs[n] = z3.And(s >= 0, z3.Implies(x >= 0, s * s == x), z3.Implies(x > 0, s > 0), s == SQRT(x))
        self.sqrt_cache[k] = (s, x)
        return s

    def float_to_int(self, x, t):
        lo, hi = int_range(t)
        if is_py(x):
            if isinf(x):
                if x != x:
                    return 0
                return hi if x > 0 else lo
            import math
            i = math.trunc(x)
            return max(lo, min(hi, i))
        # truncation towards zero, saturating
        fl = z3.ToInt(x)
        tr = fl if not t['signed'] else z3.If(x >= 0, fl, -z3.ToInt(-x))
        return z3.If(x <= lo, z3.IntVal(lo), z3.If(x >= hi, z3.IntVal(hi), tr))

    def binop(self, st, op, a, b, t, tb=None, checked=False):
        k = t['k']
        if k == 'float':
            if op == 'Add':
                return r_add(a, b)
            if op == 'Sub':
                return r_sub(a, b)
            if op == 'Mul':
                return r_mul(a, b)
            if op == 'Div':
                return self.divide(st, a, b)
            m = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}
            if op in m:
                return r_cmp(m[op], a, b)
            if op == 'Rem':
                if is_py(a) and is_py(b) and b != 0:
                    import math
                    return Fraction(a) - Fraction(b) * math.trunc(Fraction(a) / Fraction(b))
            raise Unsupported('float op %s' % op)
        if k == 'bool':
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return bnot(beq(a, b))
            if op == 'Eq':
                return beq(a, b)
            if op == 'Lt':
                return band(bnot(a), b)
            if op == 'Le':
                return bor(bnot(a), b)
            if op == 'Gt':
                return band(a, bnot(b))
            if op == 'Ge':
                return bor(a, bnot(b))
            if op == 'Cmp':
                lt = band(bnot(a), b)
                gt = band(a, bnot(b))
                return self.ordering(lt, gt)
            raise Unsupported('bool op %s' % op)
        if k in ('int', 'char'):
            if k == 'char':
                t = {'bits': 32, 'signed': False, 'k': 'int'}
            w = t['bits']
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                if isinstance(a, int) and isinstance(b, int):
                    return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
                if t['signed']:
                    raise Unsupported('signed bit op')
                r = bits_op({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], to_bits(a, w), to_bits(b, w))
                return r.val if isinstance(r.val, int) else r
            if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
                if isinstance(b, Bits):
                    b = bits_int(b)
                if isinstance(a, int) and isinstance(b, int):
                    b %= w
                    r = a << b if op.startswith('Shl') else a >> b
                    return self.wrap(r, t)
                if t['signed']:
                    # only used for small constants
                    if isinstance(a, int) and a >= 0 and op.startswith('Shl'):
                        r = bits_shl(to_bits(a, w), b)
                        return r
                    raise Unsupported('signed shift')
                if isinstance(a, int) or not op.startswith('Shl') or True:
                    r = (bits_shl if op.startswith('Shl') else bits_shr)(to_bits(a, w), b)
                    return r.val if isinstance(r.val, int) else r
            if op in ('Eq', 'Ne'):
                e = eq_int(a, b)
                return e if op == 'Eq' else bnot(e)
            if isinstance(a, Bits):
                a = bits_int(a)
            if isinstance(b, Bits):
                b = bits_int(b)
            if op == 'Lt':
                return lt_int(a, b)
            if op == 'Le':
                return le_int(a, b)
            if op == 'Gt':
                return lt_int(b, a)
            if op == 'Ge':
                return le_int(b, a)
            if op == 'Cmp':
                return self.ordering(lt_int(a, b), lt_int(b, a))
            if op in ('Add', 'AddUnchecked'):
                r = i_add(a, b)
            elif op in ('Sub', 'SubUnchecked'):
                r = i_sub(a, b)
            elif op in ('Mul', 'MulUnchecked'):
                r = i_mul(a, b)
            elif op == 'Div':
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                if not t['signed']:
                    return z3int(a) / z3int(b)
                raise Unsupported('signed division')
            elif op == 'Rem':
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) % abs(b)
                    return q if a >= 0 else -q
                if not t['signed']:
                    return z3int(a) % z3int(b)
                raise Unsupported('signed remainder')
            else:
                raise Unsupported('int op %s' % op)
            if checked or op.endswith('Unchecked'):
                return r
            return self.wrap(r, t)
        if k in ('ref', 'ptr') and op in ('Eq', 'Ne'):
            if isinstance(a, RefV) and isinstance(b, RefV):
                e = same(a, b)
                if not e and a.alloc == b.alloc:
                    raise Unsupported('pointer comparison')
                return e if op == 'Eq' else not e
        if k == 'tuple' and not t['elems']:
            return op == 'Eq'
        raise Unsupported('binop %s on %s' % (op, t['d']))

    def ordering(self, lt, gt):
        # std::cmp::Ordering: variants Less(0) Equal(1) Greater(2)
        if lt is True:
            return EnumV(0, {0: ()})
        if gt is True:
            return EnumV(2, {2: ()})
        if lt is False and gt is False:
            return EnumV(1, {1: ()})
        return EnumV(ite(lt, 0, ite(gt, 2, 1)), {0: (), 1: (), 2: ()})

    def discr(self, v, t):
        if isinstance(v, EnumV):
            vs = t['variants']
            if isinstance(v.tag, int):
                return self.sdiscr(vs[v.tag]['discr'], t)
            if all(x['discr'] == i for i, x in enumerate(vs)):
                return v.tag
            r = self.sdiscr(vs[-1]['discr'], t)
            for i in range(len(vs) - 2, -1, -1):
                r = ite(eq_int(v.tag, i), self.sdiscr(vs[i]['discr'], t), r)
            return r
        if v is UNINIT:
            if isinstance(t.get('lay', {}).get('var'), int):
                return self.sdiscr(t['variants'][t['lay']['var']]['discr'], t)
            raise Unsupported('discriminant of uninitialised value')
        raise Unsupported('discriminant of %r' % type(v))

    @staticmethod
    def sdiscr(d, t):
        """the dump prints discriminants unsigned; those of signed types are read back as negative"""
        if t['d'].endswith('cmp::Ordering'):
            return d - 256 if d >= 128 else d
        return d - (1 << 64) if d >= 1 << 63 else d

    def peel(self, v):
        while isinstance(v, StructV):
            fs = [x for x in v.f if not (isinstance(x, StructV) and not x.f)]
            if len(fs) != 1:
                break
            v = fs[0]
        return v

    def rewrap(self, v, tid):
        t = self.ty(tid)
        if t['k'] == 'adt' and t['adt'] == 'struct' and not self.B.opaque_ty(t):
            fs = t['variants'][0]['fields']
            out = []
            used = False
            for f in fs:
                if not used and not self.is_zst(f[1]):
                    out.append(self.rewrap(v, f[1]))
                    used = True
                else:
                    out.append(self.zst(f[1]))
            return StructV(out)
        return v

    def cast(self, st, kind, v, tfrom, tto_id):
        tto = self.ty(tto_id)
        if kind.startswith('IntToInt'):
            if isinstance(v, EnumV):
                v = self.discr(v, tfrom)
            if tfrom['k'] == 'bool':
                return ite(v, 1, 0)
            if tfrom['k'] == 'char':
                tfrom = {'k': 'int', 'bits': 32, 'signed': False}
            if tto['k'] == 'char':
                return v
            if isinstance(v, Bits):
                if not tto['signed'] and tto['bits'] >= v.w:
                    return Bits(tto['bits'], lambda i: band(lt_int(i, v.w), v.fn(i)), v.support if v.support is not None else list(range(v.w)), v.val)
                v = bits_int(v)
            if tfrom['k'] == 'int':
                a, b = int_range(tfrom), int_range(tto)
                if b[0] <= a[0] and a[1] <= b[1]:
                    return v
            return self.wrap(v, tto)
        if kind.startswith('FloatToInt'):
            return self.float_to_int(v, tto)
        if kind.startswith('IntToFloat'):
            if isinstance(v, Bits):
                v = bits_int(v)
            if isinstance(v, int):
                return Fraction(v)
            return z3.ToReal(v)
        if kind.startswith('FloatToFloat'):
            return v
        if kind.startswith('Transmute'):
            if tfrom['d'] == tto['d']:
                return v
            p = self.peel(v)
            if isinstance(p, RefV) or isinstance(p, (int, z3.ArithRef, Fraction, bool, FnV)):
                if isinstance(p, (Fraction,)) != (tto['k'] == 'float') and tto['k'] in ('int', 'float'):
                    raise Unsupported('bit cast between float and int')
                return self.rewrap(p, tto_id)
            if tto['k'] == 'adt' and tto['name'].endswith('MaybeUninit'):
                return v
            if tfrom['k'] == 'adt' and tfrom['name'].endswith('MaybeUninit'):
                return v
            raise Unsupported('transmute %s to %s' % (tfrom['d'][:60], tto['d'][:60]))
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            return v
        if 'Unsize' in kind:
            if tto['k'] in ('ref', 'ptr') and self.ty(tto['elem'])['k'] == 'dyn':
                if isinstance(v, RefV):
                    return DynRef(v.alloc, v.path, tfrom['elem'])
                raise Unsupported('dyn coercion')
            return v
        if kind.startswith('PtrToPtr') or 'MutToConstPointer' in kind or 'ArrayToPointer' in kind:
            return v
        raise Unsupported('cast %s' % kind)

    def rvalue(self, st, fr, r):
        k = r[0]
        f = fr.f
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'addrof'):
            # reborrow of a dyn/str reference keeps the fat value
            pl = r[2]
            if pl[1] and pl[1][-1][0] == 'deref':
                base = [pl[0], pl[1][:-1]]
                a, p = self.place(st, fr, base)
                v = self.load(st, a, p)
                if isinstance(v, (DynRef, StrV, OpaqueV, RefV)):
                    return v
                while isinstance(v, StructV) and v.f:
                    v = v.f[0]
                if isinstance(v, RefV):
                    return v
            a, p = self.place(st, fr, pl)
            return RefV(a, p)
        if k in ('bin', 'cbin'):
            t = self.ty(self.op_ty(f, r[2]))
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            op = r[1]
            if k == 'cbin':
                v = self.binop(st, op, a, b, t, checked=True)
                if op in ('Shl', 'Shr'):
                    return StructV((v, bnot(band(le_int(0, b), lt_int(b, t['bits'])))))
                return StructV((v, bnot(self.in_range(v, t))))
            return self.binop(st, op, a, b, t)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            t = self.ty(self.op_ty(f, r[2]))
            if r[1] == 'Not':
                if t['k'] == 'bool':
                    return bnot(v)
                if isinstance(v, int):
                    return ~v if t['signed'] else (~v) & ((1 << t['bits']) - 1)
                if t['signed']:
                    return i_sub(-1, v)
                return bits_not(to_bits(v, t['bits']))
            if r[1] == 'Neg':
                if t['k'] == 'float':
                    return r_neg(v)
                return i_sub(0, v)
            if r[1] == 'PtrMetadata':
                if isinstance(v, RefV):
                    return self.seq_len(self.loadr(st, v))
                if isinstance(v, StrV):
                    return len(v.s)
            raise Unsupported('unary %s' % r[1])
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute':
                # pointer inside a box: boxes are represented by the reference itself
                return self.load(st, *self.place(st, fr, [r[2][1][0], []]))
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, self.ty(self.op_ty(f, r[2])), r[3])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'array':
                return SeqC(ops)
            if kk[0] in ('tuple', 'closure'):
                return StructV(ops)
            if kk[0] == 'adt':
                t = self.ty(kk[1])
                if t['adt'] == 'union':
                    return ops[0]
                if t['adt'] == 'struct':
                    if t['name'] in self.B.TRANSPARENT:
                        return ops[0]
                    return StructV(ops)
                return EnumV(kk[2], {kk[2]: tuple(ops)})
            if kk[0] == 'rawptr':
                return ops[0]
            raise Unsupported('aggregate %s' % kk[0])
        if k == 'discr':
            a, p = self.place(st, fr, r[1])
            t = self.ty(self.place_ty(f, r[1]))
            return self.discr(self.load(st, a, p), t)
        if k == 'len':
            a, p = self.place(st, fr, r[1])
            return self.seq_len(self.load(st, a, p))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return SeqC([v] * r[2])
        raise Unsupported('rvalue %s' % k)

    # ------------------------------------------------------------ execution
    def do_stmts(self, st, fr, stmts, start=0):
        for i in range(start, len(stmts)):
            s = stmts[i]
            try:
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2])
                    a, p = self.place(st, fr, s[1])
                    self.store(st, a, p, v)
                elif s[0] == 'setd':
                    a, p = self.place(st, fr, s[1])
                    old = self.load(st, a, p)
                    pay = dict(old.pay) if isinstance(old, EnumV) else {}
                    pay.setdefault(s[2], ())
                    self.store(st, a, p, EnumV(s[2], pay))
                elif s[0] == 'assume':
                    pass
                else:
                    raise Unsupported('statement %s' % s[0])
            except ForkOn as fo:
                fo.at = i
                raise

    def split(self, st, term, cands):
        """states in which term equals each feasible candidate"""
        out = []
        for c in cands:
            cond = eq_int(term, c)
            if cond is False:
                continue
            if self.feasible(st.pc, cond):
                s2 = st.fork()
                if cond is not True:
                    s2.assume(cond)
                s2.concr[term.get_id()] = (term, c)
                out.append(s2)
        return out

    def call(self, st, sym, args, argtys=None, declared=None):
        """Execute function `sym`; returns list of (state, return value)."""
        self.stats['calls'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')
        f = self.p.fns.get(sym)
        if f is None:
            raise Unsupported('no such function %s' % sym)
        name = f['def']
        if name in self.overrides:
            return self.overrides[name](self, st, f, args)
        b = self.B.lookup(f)
        if b is not None:
            try:
                r = self.with_forks(st, lambda s: b(s, f, args))
                self.models_used.add(name)
                return r
            except Decline:
                pass
        if declared and declared.startswith('std::ops::Fn') and '{closure' in f['name'].split('::')[-1] and f['kind'] == 'Item':
            # closure body: untuple the arguments
            tup = args[1]
            args = [args[0]] + list(tup.f)
        if 'blocks' not in f:
            raise Unsupported('no body and no model for %s' % name)
        self.visited.add(name)
        self.depth += 1
        if self.depth > 150:
            raise Unsupported('call depth')
        try:
            return self.run_body(st, sym, f, args)
        except Unsupported as e:
            if len(e.args) < 8:
                e.args = e.args + (f['name'],)
            raise
        finally:
            self.depth -= 1

    def with_forks(self, st, fn):
        """Run fn(state), case-splitting whenever it asks for it."""
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                s2 = s.fork()
                out.extend(fn(s2))
            except ForkOn as fo:
                work.extend(self.split(s, fo.term, fo.cands))
            except Dead:
                pass
        return out

    def panic(self, st, msg, fr=None):
        self.panics.append((st, msg, fr.f['name'] if fr is not None else ''))

    def run_body(self, st, sym, f, args):
        if f.get('spread') is not None:
            # "rust-call" functions taking a tuple spread
            pass
        loc = []
        nloc = len(f['locals'])
        if len(args) != f['argc']:
            raise Unsupported('arity of %s' % f['name'])
        st = st.fork()
        base_pc = len(st.pc)
        for i in range(nloc):
            a = next(self.counter)
            loc.append(a)
            st.mem[a] = UNINIT
        for i, v in enumerate(args):
            st.mem[loc[i + 1]] = v
        fr = Frame(f, loc, sym)
        loops = self.p.loops(sym)
        outs = self.run_from(st, fr, 0, None, loops)
        res = []
        for kind, s, x in outs:
            assert kind == 'ret', kind
            for a in loc:
                s.mem.pop(a, None)
            res.append((s, x))
        if self.merge and len(res) > 1:
            res = self.merge_outs(res, base_pc)
        return res

    def merge_outs(self, res, base):
        groups = []
        for s, r in res:
            cond = band(*s.pc[base:])
            done = False
            for g in groups:
                try:
                    m = self.merge_two(g, (s, r, cond), base)
                except Unmergeable:
                    continue
                g[0], g[1], g[2] = m
                done = True
                break
            if not done:
                groups.append([s, r, cond])
        return [(g[0], g[1]) for g in groups]

    def merge_two(self, g, n, base):
        gs, gr, gc = g
        ns, nr, nc = n
        ret = ite(nc, nr, gr) if not same(gr, nr) else gr
        mem = {}
        for a in gs.mem.keys() | ns.mem.keys():
            if a in gs.mem and a in ns.mem:
                x, y = gs.mem[a], ns.mem[a]
                mem[a] = x if x is y else ite(nc, y, x)
            else:
                mem[a] = gs.mem.get(a, ns.mem.get(a))
        cond = bor(gc, nc)
        if not isinstance(cond, bool):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
        st = State(mem, gs.pc[:base], {k: v for k, v in gs.concr.items() if k in ns.concr and ns.concr[k][1] == v[1]}, gs.notes)
        if cond is not True:
            st.assume(cond)
        return st, ret, cond

    def run_from(self, st, fr, bb, region, loops):
        """Explore from block bb. region: None (whole function) or (header, blocks) for one
        loop iteration: reaching header ends the path with ('cont', state, None), leaving
        blocks ends it with ('exit', state, target)."""
        outs = []
        work = [(bb, st, None, {}, True)]
        blocks = fr.f['blocks']
        while work:
            bb, st, at, visits, first = work.pop()
            while True:
                if region is not None and not first and at is None:
                    if bb == region[0]:
                        outs.append(('cont', st, None))
                        break
                    if bb not in region[1]:
                        outs.append(('exit', st, bb))
                        break
                first = False
                if at is None and bb in loops and (region is None or bb != region[0]):
                    # entering or re-entering a loop header
                    r = None
                    if not visits.get(('in', bb)):
                        r = self.try_loop_rule(st, fr, bb, loops[bb], loops)
                    if r is not None:
                        for s2, tgt in r:
                            work.append((tgt, s2, None, visits, False))
                        break
                    visits = dict(visits)
                    visits[('in', bb)] = True
                    visits[bb] = visits.get(bb, 0) + 1
                    if visits[bb] > self.maxvisit:
                        raise Unsupported('loop bound exceeded in %s' % fr.f['name'])
                blk = blocks[bb]
                try:
                    self.do_stmts(st, fr, blk[0], at or 0)
                except ForkOn as fo:
                    for s2 in self.split(st, fo.term, fo.cands):
                        work.append((bb, s2, fo.at, visits, False))
                    break
                except Dead:
                    break
                try:
                    nxt = self.terminator(st, fr, blk[1], blk[2])
                except ForkOn as fo:
                    for s2 in self.split(st, fo.term, fo.cands):
                        work.append((bb, s2, len(blk[0]), visits, False))
                    break
                except Dead:
                    break
                if isinstance(nxt, tuple):      # ('ret', value)
                    outs.append(('ret', st, nxt[1]))
                    break
                if not nxt:
                    break
                # leaving an inner loop resets its visit info
                for s2, tgt in nxt[1:]:
                    work.append((tgt, s2, None, self.leave(visits, loops, bb, tgt), False))
                st, tgt = nxt[0]
                visits = self.leave(visits, loops, bb, tgt)
                bb, at = tgt, None
        return outs

    def leave(self, visits, loops, bb, tgt):
        rm = None
        for h, body in loops.items():
            if bb in body and tgt not in body and ('in', h) in visits:
                rm = rm or []
                rm.append(h)
        if not rm:
            return visits
        v = dict(visits)
        for h in rm:
            v.pop(('in', h), None)
            v.pop(h, None)
        return v

    def terminator(self, st, fr, t, line):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            return ('ret', self.load(st, fr.loc[0]))
        if k == 'drop':
            return [(st, t[2])]
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            v = self.conc(st, v)
            if isinstance(v, bool):
                v = 1 if v else 0
            if isinstance(v, int):
                m = v & ((1 << 128) - 1)
                for val, tgt in t[2]:
                    if val == v or val == m:
                        return [(st, tgt)]
                ty = self.ty(self.op_ty(fr.f, t[1]))
                if ty['k'] == 'int' and ty['signed'] and v < 0:
                    mm = v & ((1 << ty['bits']) - 1)
                    for val, tgt in t[2]:
                        if val == mm:
                            return [(st, tgt)]
                return [(st, t[3])]
            out = []
            isb = z3.is_bool(v)
            ty = self.ty(self.op_ty(fr.f, t[1]))
            rest = []
            for val, tgt in t[2]:
                if ty['k'] == 'int' and ty['signed'] and val >= 1 << (ty['bits'] - 1):
                    val -= 1 << ty['bits']
                c = (v if val else bnot(v)) if isb else eq_int(v, val)
                if c is False:
                    continue
                rest.append(bnot(c))
                if self.feasible(st.pc, c):
                    s2 = st.fork()
                    s2.assume(c)
                    out.append((s2, tgt))
            other = t[3]
            c = band(*rest)
            if fr.f['blocks'][other][1][0] == 'unreachable' and not fr.f['blocks'][other][0]:
                if c is not False and self.feasible(st.pc, c):
                    s2 = st.fork()
                    s2.assume(c)
                    self.panic(s2, 'unreachable code (line %s)' % line, fr)
                return out
            if self.feasible(st.pc, c):
                s2 = st.fork()
                s2.assume(c)
                out.append((s2, other))
            return out
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = bnot(c)
            if c is True:
                return [(st, t[4])]
            if self.feasible(st.pc, bnot(c)):
                s2 = st.fork()
                s2.assume(bnot(c)) if c is not False else None
                self.panic(s2, '%s (line %s)' % (t[3], line), fr)
            if c is False:
                return []
            if not self.feasible(st.pc, c):
                return []
            st.assume(c)
            return [(st, t[4])]
        if k == 'call':
            if t[1][0] == 'sym':
                sym, declared = t[1][1], t[1][2]
            elif t[1][0] == 'dynop':
                fv = self.operand(st, fr, t[1][1])
                if not isinstance(fv, FnV):
                    raise Unsupported('call through %r' % (fv,))
                sym, declared = fv.sym, None
            else:
                raise Unsupported('unresolved call %s' % t[1][1])
            args = [self.operand(st, fr, o) for o in t[2]]
            f = self.p.fns[sym]
            if t[4] is None or self.B.is_panic(f):
                if self.B.is_panic(f):
                    self.panic(st, 'panic via %s (line %s)' % (f['def'], line), fr)
                    return []
            outs = self.call(st, sym, args, declared=declared)
            if t[4] is None:
                return []
            res = []
            for s2, r in outs:
                try:
                    a, p = self.place(s2, fr, t[3])
                    self.store(s2, a, p, r)
                    res.append((s2, t[4]))
                except Dead:
                    pass
            return res
        if k == 'unreachable':
            self.panic(st, 'unreachable code (line %s)' % line, fr)
            return []
        if k == 'resume':
            return []
        raise Unsupported('terminator %s' % k)

    # ------------------------------------------------------------ loop rules
    def try_loop_rule(self, st, fr, header, body, loops):
        import loops as L
        return L.try_rule(self, st, fr, header, body, loops)

    def call_fn_checked(self, st, ca, tid, arg):
        return self.B.call_fn(st, RefV(ca), tid, [arg])

    # ------------------------------------------------------------ closures
    def call_closure(self, st, fv, tid, args):
        """Call a callable value of static type tid with positional args.
        fv may be a closure value, a reference to one, or a fn item."""
        t = self.ty(tid)
        while t['k'] == 'ref':
            if t['k'] == 'ref':
                inner = self.ty(t['elem'])
                if inner['k'] in ('closure',):
                    if inner['kind'] == 'FnOnce':
                        fv = self.loadr(st, fv)
                        return self.call(st, inner['sym'], [fv] + list(args))
                    return self.call(st, inner['sym'], [fv] + list(args))
                fv = self.loadr(st, fv)
                t = inner
        if t['k'] == 'fndef':
            return self.call(st, t['sym'], list(args))
        if t['k'] == 'fnptr':
            return self.call(st, fv.sym, list(args))
        if t['k'] == 'closure':
            if t['kind'] == 'FnOnce':
                return self.call(st, t['sym'], [fv] + list(args))
            a = self.alloc(st, fv)
            return self.call(st, t['sym'], [RefV(a)] + list(args))
        raise Unsupported('call of %s' % t['d'])


class DynRef(RefV):
    __slots__ = ('tid',)

    def __init__(self, alloc, path, tid):
        RefV.__init__(self, alloc, path)
        self.tid = tid


_hq = {}


def has_quant(e):
    i = e.get_id()
    r = _hq.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    stack = [e]
    res = False
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(t):
            res = True
            break
        stack.extend(t.children())
    _hq[i] = (e, res)
    return res
