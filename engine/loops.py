"""Loops of symbolic length.

A loop is summarised from one generic iteration: every memory leaf the body changes becomes an
induction variable (affine in the iteration number q), an element-wise rewritten sequence, or a
havocked leaf constrained by automatically checked invariants. Exits happen at a fresh q with
'every earlier iteration continued'. Everything here is checked, not assumed: the generic
iteration is re-executed until the classification is stable and inductive."""
import z3
from fractions import Fraction
from values import *
import values as V


class NoRule(Exception):
    pass


# ---------------------------------------------------------------- tree locations
def tget(v, path):
    for s in path:
        k = s[0]
        if k == 's':
            v = v.f[s[1]]
        elif k == 't':
            v = v.tag
        elif k == 'p':
            v = v.pay[s[1]][s[2]]
        elif k == 'q':
            v = v.items[s[1]]
        elif k == 'm':
            v = dict(v.items)[s[1]]
        elif k == 'lo':
            v = v.lo
        elif k == 'hi':
            v = v.hi
        elif k == 'r':
            v = v.path[s[1]][s[2]]
        elif k == 'n':
            v = v.n
        elif k == 'mv':
            v = v.vals
        else:
            raise NoRule('path')
    return v


def tset(v, path, x):
    if not path:
        return x
    s, rest = path[0], path[1:]
    k = s[0]
    if k == 's':
        f = list(v.f)
        f[s[1]] = tset(f[s[1]], rest, x)
        return StructV(f)
    if k == 't':
        return EnumV(x, v.pay)
    if k == 'p':
        pay = dict(v.pay)
        fs = list(pay[s[1]])
        fs[s[2]] = tset(fs[s[2]], rest, x)
        pay[s[1]] = tuple(fs)
        return EnumV(v.tag, pay)
    if k == 'q':
        it = list(v.items)
        it[s[1]] = tset(it[s[1]], rest, x)
        return SeqC(it)
    if k == 'm':
        return MapC([(kk, tset(y, rest, x) if kk == s[1] else y) for kk, y in v.items], v.nextkey)
    if k == 'lo':
        return IterV(v.kind, v.src, x, v.hi, v.extra)
    if k == 'hi':
        return IterV(v.kind, v.src, v.lo, x, v.extra)
    if k == 'r':
        p = [list(st) for st in v.path]
        p[s[1]][s[2]] = x
        r = RefV(v.alloc, tuple(tuple(st) for st in p))
        if type(v) is not RefV:
            from machine import DynRef
            r = DynRef(r.alloc, r.path, v.tid)
        return r
    if k == 'n':
        return SeqS(x, v.base, v.writes)
    if k == 'mv':
        return MapS(v.n, v.K, v.P, tset(v.vals, rest, x))
    raise NoRule('path')


def is_scalar(v):
    return is_py(v) or isinstance(v, z3.ExprRef)


def diff(a, b, path, out):
    """changed locations between values a (before) and b (after)"""
    if a is b or same(a, b):
        return
    if is_scalar(a) and is_scalar(b):
        out.append((path, 'leaf'))
        return
    ta, tb = type(a), type(b)
    if ta is StructV and tb is StructV and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diff(x, y, path + (('s', i),), out)
        return
    if ta is EnumV and tb is EnumV:
        if a.pay.keys() >= b.pay.keys():
            if not same(a.tag, b.tag):
                out.append((path + (('t',),), 'leaf'))
            for k in b.pay:
                if len(a.pay[k]) != len(b.pay[k]):
                    out.append((path, 'any'))
                    return
                for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                    diff(x, y, path + (('p', k, i),), out)
            return
        out.append((path, 'enum'))
        return
    if ta is SeqC and tb is SeqC:
        if len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                diff(x, y, path + (('q', i),), out)
            return
        out.append((path, 'len'))
        return
    if ta is MapC and tb is MapC and a.keys() == b.keys():
        for (k, x), (_, y) in zip(a.items, b.items):
            diff(x, y, path + (('m', k),), out)
        return
    if ta is MapS and tb is MapS and a.K.eq(b.K):
        diff(a.vals, b.vals, path + (('mv',),), out)
        return
    if ta is IterV and tb is IterV and a.kind == b.kind and same(a.src, b.src):
        if not same(a.lo, b.lo):
            out.append((path + (('lo',),), 'leaf'))
        if not same(a.hi, b.hi):
            out.append((path + (('hi',),), 'leaf'))
        return
    if isinstance(a, RefV) and isinstance(b, RefV) and a.alloc == b.alloc and len(a.path) == len(b.path) and all(
            x[0] == y[0] and len(x) == len(y) for x, y in zip(a.path, b.path)):
        for i, (x, y) in enumerate(zip(a.path, b.path)):
            for j in range(1, len(x)):
                if not same(x[j], y[j]):
                    if not (is_scalar(x[j]) and is_scalar(y[j])):
                        out.append((path, 'any'))
                        return
                    out.append((path + (('r', i, j),), 'leaf'))
        return
    if ta is SeqS and tb is SeqS:
        out.append((path, 'seq'))
        return
    if ta in (SeqS, SeqC) and tb in (SeqS, SeqC):
        out.append((path, 'len'))
        return
    out.append((path, 'any'))


def leaf_paths(v, path, out):
    """all scalar leaves of an element value"""
    if is_scalar(v) or isinstance(v, Bits):
        out.append(path)
    elif isinstance(v, StructV):
        for i, x in enumerate(v.f):
            leaf_paths(x, path + (('s', i),), out)
    elif isinstance(v, EnumV):
        out.append(path + (('t',),))
        for k, fs in v.pay.items():
            for i, x in enumerate(fs):
                leaf_paths(x, path + (('p', k, i),), out)
    elif isinstance(v, SeqC):
        for i, x in enumerate(v.items):
            leaf_paths(x, path + (('q', i),), out)
    return out


def sort_of(v):
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
        return z3.BoolSort()
    if isinstance(v, int):
        return z3.IntSort()
    if isinstance(v, (Fraction, float)):
        return z3.RealSort()
    if isinstance(v, z3.ExprRef):
        return v.sort()
    raise NoRule('sort of %r' % type(v))


def zterm(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3real(v)
    if isinstance(v, z3.ExprRef):
        return v
    raise NoRule('term of %r' % type(v))


def enum_union(a, b):
    """enum value with the payload shapes of both"""
    pay = dict(b.pay)
    pay.update(a.pay)
    return EnumV(a.tag, pay)


# ---------------------------------------------------------------- liveness
def liveness(prog, sym):
    key = ('live', sym)
    if key in prog.cfg:
        return prog.cfg[key]
    f = prog.fns[sym]
    nb = len(f['blocks'])
    use, deff, borrowed = [set() for _ in range(nb)], [set() for _ in range(nb)], set()

    def place_use(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for e in p[1]:
            if e[0] == 'index' and e[1] not in d:
                u.add(e[1])

    def op_use(o, u, d):
        if o and o[0] in ('copy', 'move'):
            place_use(o[1], u, d)

    def rv(r, u, d):
        k = r[0]
        if k in ('use',):
            op_use(r[1], u, d)
        elif k in ('bin', 'cbin'):
            op_use(r[2], u, d)
            op_use(r[3], u, d)
        elif k in ('un', 'cast'):
            op_use(r[2], u, d)
        elif k in ('ref', 'addrof'):
            place_use(r[2], u, d)
            if not any(e[0] == 'deref' for e in r[2][1]):
                borrowed.add(r[2][0])
        elif k == 'agg':
            for o in r[2]:
                op_use(o, u, d)
        elif k in ('discr', 'len'):
            place_use(r[1], u, d)
        elif k == 'repeat':
            op_use(r[1], u, d)

    for i, b in enumerate(f['blocks']):
        u, d = use[i], deff[i]
        for s in b[0]:
            if s[0] == '=':
                rv(s[2], u, d)
                if not s[1][1]:
                    d.add(s[1][0])
                else:
                    place_use(s[1], u, d)
            elif s[0] == 'setd':
                place_use(s[1], u, d)
            elif s[0] == 'assume':
                op_use(s[1], u, d)
        t = b[1]
        if t[0] == 'switch':
            op_use(t[1], u, d)
        elif t[0] == 'assert':
            op_use(t[1], u, d)
        elif t[0] == 'call':
            if t[1][0] == 'dynop':
                op_use(t[1][1], u, d)
            for o in t[2]:
                op_use(o, u, d)
            if not t[3][1]:
                d.add(t[3][0])
            else:
                place_use(t[3], u, d)
        elif t[0] == 'return':
            u.add(0)
    livein = [set() for _ in range(nb)]
    ch = True
    while ch:
        ch = False
        for i in range(nb - 1, -1, -1):
            lo = set()
            for s in prog.succs(f['blocks'][i][1]):
                lo |= livein[s]
            li = use[i] | (lo - deff[i])
            if li != livein[i]:
                livein[i] = li
                ch = True
    prog.cfg[key] = (livein, borrowed)
    return prog.cfg[key]


# ---------------------------------------------------------------- generalisation of fresh symbols
def fresh_no(name):
    i = name.rfind('!')
    if i < 0:
        return None
    t = name[i + 1:]
    return int(t) if t.isdigit() else None


def fresh_syms(m, terms, n0, skip, extra=()):
    """declarations of fresh symbols numbered >= n0 (or named in extra) occurring in terms (closed under defs)"""
    out = {}
    seen = set()
    stack = [t for t in terms if isinstance(t, z3.ExprRef)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                no = fresh_no(n)
                if no is not None and (no >= n0 or n in extra) and n not in skip and n not in out:
                    out[n] = d
                    if n in m.defs:
                        stack.append(m.defs[n])
            stack.extend(t.children())
    return out


class Gen:
    """substitution q -> i together with lifting of iteration-dependent fresh symbols"""

    def __init__(self, m, q, n0, terms, skip, extra=()):
        self.m, self.q = m, q
        self.lift = {}
        ds = fresh_syms(m, terms, n0, skip | {q.decl().name()}, extra)
        for n, d in ds.items():
            doms = [d.domain(i) for i in range(d.arity())]
            nn = m.fresh_name(n.split('!')[0] + '.of')
            self.lift[n] = (d, z3.Function(nn, z3.IntSort(), *doms, d.range()), nn)
        for n, (d, F, nn) in self.lift.items():
            if n in m.defs:
                j = z3.Int(m.fresh_name('j'))
                ax = self.inst(m.defs[n], j)
                if z3.is_app(ax) or z3.is_quantifier(ax):
                    m.defs[nn] = z3.ForAll([j], ax)

    def inst(self, t, i):
        if not isinstance(t, z3.ExprRef):
            return t
        i = z3int(i)
        cs, fs = [(self.q, i)], []
        for n, (d, F, nn) in self.lift.items():
            if d.arity() == 0:
                cs.append((d(), F(i)))
            else:
                fs.append((d, F(i, *[z3.Var(k, d.domain(k)) for k in range(d.arity())])))
        if fs:
            t = z3.substitute_funs(t, *fs)
        t = z3.substitute(t, *cs)
        return t

    def value(self, v, i):
        return map_leaves(v, lambda t: self.inst(t, i))


def named_forall(m, lo, hi, P):
    """Boolean symbol standing for 'P(j) for all lo <= j < hi' (definition in m.defs)"""
    nm = m.fresh_name('every')
    b = z3.Bool(nm)
    j, w = z3.Int(m.fresh_name('j')), z3.Int(m.fresh_name('wit'))

    def body(x):
        return z3.Implies(z3bool(band(le_int(lo, x), lt_int(x, hi))), z3bool(P(x)))
    m.defs[nm] = z3.And(z3.Implies(b, z3.ForAll([j], body(j))), z3.Or(b, z3.Not(body(w))))
    return b


# ---------------------------------------------------------------- the rule
class SeqClass:
    def __init__(self, kind):
        self.kind = kind        # 'elem' | 'hav'
        self.a = None           # index at q = 0
        self.c = None           # +-1
        self.F = None           # the index is F(a + c*q) for an injective F with known inverse
        self.Finv = None
        self.changed = None     # changed leaf paths of the element
        self.G = {}
        self.W = None           # element value written at iteration q


def unwrap(m, idx):
    """idx = F(t) for an enumeration F of distinct keys -> (t, F, inverse of F)"""
    if isinstance(idx, z3.ExprRef) and z3.is_app(idx) and idx.num_args() == 1 and idx.decl().name() in m.inverse:
        return idx.arg(0), idx.decl(), m.inverse[idx.decl().name()]
    return idx, None, None


def affine(idx, q):
    """idx = a + c*q with constant c -> (a, c)"""
    if not isinstance(idx, z3.ExprRef):
        return None
    d = z3.simplify(z3.substitute(idx, (q, q + 1)) - idx)
    if not z3.is_int_value(d):
        return None
    a = z3.simplify(z3.substitute(idx, (q, z3.IntVal(0))))
    if z3.is_int_value(a):
        a = a.as_long()
    return a, d.as_long()


def summarise(m, st0, step, live_allocs, invariants=None, tag='loop'):
    """step(state) -> [('cont'|'exit', state, payload)]. Returns exit list [(state, payload)]."""
    st0 = st0.fork()
    q = z3.Int(m.fresh_name('q'))
    qn = q.decl().name()
    classes = {}
    dead = set()
    skipnames = {qn}
    cands = None
    init_vals = {}
    base_pc = len(st0.pc)

    def loc_get(mem, loc):
        return tget(mem[loc[0]], loc[1])

    for rnd in range(14):
        n0 = next(m.fresh_ctr)
        g = st0.fork()
        g.assume(q >= 0)
        for a in dead:
            g.mem[a] = UNINIT
        for loc, c in classes.items():
            if c[0] == 'ind':
                init = loc_get(st0.mem, loc)
                g.mem[loc[0]] = tset(g.mem[loc[0]], loc[1], i_add(init, i_mul(c[1], q)))
            elif c[0] == 'hav':
                g.mem[loc[0]] = tset(g.mem[loc[0]], loc[1], c[1])
            elif c[0] == 'push':
                g.mem[loc[0]] = tset(g.mem[loc[0]], loc[1], push_at(loc_get(st0.mem, loc), q))
            elif c[0] == 'seq':
                sc = c[1]
                old = loc_get(st0.mem, loc)
                g.mem[loc[0]] = tset(g.mem[loc[0]], loc[1], seq_at(m, old, sc, q))
        if invariants:
            for cond in invariants(g, q):
                g.assume(cond)
        if cands:
            for loc, kind in cands:
                g.assume(cand_formula(kind, loc_get(g.mem, loc), loc_get(st0.mem, loc), q))
        gmem = dict(g.mem)
        np = len(m.panics)
        nd = len(m.divs)
        outs = step(g.fork())
        conts = [s for k, s, _ in outs if k == 'cont']
        exits = [(s, p) for k, s, p in outs if k == 'exit']
        changed = leafchange = False
        seqinfo, pushed = {}, {}
        for s in conts:
            for a in list(gmem):
                if a not in s.mem:
                    continue
                x, y = gmem[a], s.mem[a]
                if x is y or a in dead:
                    continue
                # (a local without a value at the loop head is assigned before it is read)
                if a in live_allocs['locals'] and (a not in live_allocs['live'] or st0.mem.get(a) is UNINIT):
                    dead.add(a)
                    changed = True
                    continue
                ds = []
                diff(x, y, (), ds)
                for path, kind in ds:
                    loc = (a, path)
                    if kind == 'leaf':
                        before, after = tget(x, path), tget(y, path)
                        cl = classes.get(loc)
                        if cl is None:
                            cl2 = None
                            if sort_of(before) == z3.IntSort() and sort_of(after) == z3.IntSort():
                                d = delta(m, s.pc, before, after)
                                if d is not None:
                                    cl2 = ('ind', d)
                            if cl2 is None:
                                so = sort_of(after)
                                nm = m.fresh_name('hav')
                                cl2 = ('hav', z3.Const(nm, so))
                            classes[loc] = cl2
                            changed = leafchange = True
                        elif cl[0] == 'ind':
                            d = delta(m, s.pc, before, after, cl[1])
                            if d != cl[1]:
                                classes[loc] = ('hav', z3.Int(m.fresh_name('hav')))
                                changed = True
                    elif kind == 'seq':
                        b, af = tget(x, path), tget(y, path)
                        cl = classes.get(loc)
                        if cl is None:
                            classes[loc] = ('push', None) if not same(b.n, af.n) else ('seq', SeqClass('elem'))
                            changed = True
                            continue
                        if af.base is not b.base or b.writes:
                            raise NoRule('sequence rewritten')
                        if cl[0] == 'push':
                            if len(af.writes) != 1 or not same(af.writes[0][0], b.n) or not same(z3.simplify(z3int(af.n) - z3int(b.n)), z3.IntVal(1)):
                                raise NoRule('irregular push')
                            pushed.setdefault(loc, []).append((s, af.writes[0][1]))
                            continue
                        if not same(b.n, af.n):
                            raise NoRule('sequence length changes')
                        seqinfo.setdefault(loc, []).append((s, b, af))
                    elif kind == 'len' and loc not in classes:
                        classes[loc] = ('push', None)
                        changed = True
                    elif kind == 'enum':
                        b, af = tget(x, path), tget(y, path)
                        st0.mem[a] = tset(st0.mem[a], path, enum_union(tget(st0.mem[a], path), af))
                        changed = True
                    else:
                        raise NoRule('change of kind %s at %s: %s -> %s' % (kind, loc, str(tget(x, path))[:80], str(tget(y, path))[:80]))
        import os
        if os.environ.get('LDBG'): print('LOOP',tag,'rnd',rnd,{(k[0],k[1]):(v[0], (v[1].kind,v[1].a,v[1].c,v[1].changed) if v[0]=='seq' else v[1]) for k,v in classes.items()}, [[str(w[0]) for w in i[2].writes] for l in seqinfo.values() for i in l], len(conts), len(exits))
        # sequences: affine index and changed leaves
        for loc, infos in seqinfo.items():
            sc = classes[loc][1]
            for s, b, af in infos:
                if sc.kind == 'hav':
                    pass
                for (idx, val) in af.writes:
                    if sc.kind == 'elem':
                        t, F, Finv = unwrap(m, idx)
                        an = affine(t, q)
                        if leafchange:
                            changed = True
                        elif an is None or an[1] not in (1, -1):
                            sc.kind = 'hav'
                            changed = True
                        elif sc.a is None:
                            sc.a, sc.c = an
                            sc.F, sc.Finv = F, Finv
                            changed = True
                        elif (F is None) != (sc.F is None) or (F is not None and not F.eq(sc.F)):
                            sc.kind = 'hav'
                            changed = True
                        elif not (same(zterm(sc.a), zterm(an[0])) or z3.is_true(z3.simplify(zterm(sc.a) == zterm(an[0])))) or sc.c != an[1]:
                            sc.kind = 'hav'
                            changed = True
                    old = b.get(idx)
                    ds = []
                    diff(old, val, (), ds)
                    ch = set(sc.changed or ())
                    for p, kk in ds:
                        if kk != 'leaf':
                            raise NoRule('element change of kind %s' % kk)
                        if p not in ch:
                            ch.add(p)
                            changed = True
                    sc.changed = tuple(sorted(ch, key=str))
                if len(af.writes) > 1 and sc.kind == 'elem':
                    sc.kind = 'hav'
                    changed = True
        for loc, c in classes.items():
            if c[0] == 'push' and not changed and len(pushed.get(loc, ())) != len(conts):
                raise NoRule('push on some iterations only')
        if not changed:
            # independence of element updates
            gnames = set()
            for loc, c in classes.items():
                if c[0] == 'seq' and c[1].kind == 'elem':
                    gnames |= {F.name() for F in c[1].G.values()}
            if gnames:
                for s in conts:
                    terms = [t for t in s.pc[base_pc:]]
                    for loc, infos in seqinfo.items():
                        for s2, b, af in infos:
                            if s2 is s:
                                for idx, val in af.writes:
                                    sc = classes[loc][1]
                                    terms += [tget(val, p) for p in sc.changed]
                    if any(isinstance(t, z3.ExprRef) and occurs(t, gnames) for t in terms):
                        for loc, c in classes.items():
                            if c[0] == 'seq' and c[1].kind == 'elem':
                                c[1].kind = 'hav'
                        changed = True
                        break
        if not changed and cands is None:
            cands = []
            for loc, c in classes.items():
                if c[0] == 'hav':
                    x0 = loc_get(st0.mem, loc)
                    so = sort_of(c[1])
                    if isinf(x0):
                        continue
                    if so == z3.BoolSort():
                        cands += [(loc, 'imp'), (loc, 'pmi')]
                    else:
                        cands += [(loc, 'le'), (loc, 'ge')]
                        if so == z3.IntSort():
                            cands.append((loc, 'grow'))
            if cands:
                changed = True
        elif not changed and cands:
            keep = []
            for loc, kind in cands:
                ok = True
                for s in conts:
                    f = cand_formula(kind, loc_get(s.mem, loc), loc_get(st0.mem, loc), q + 1)
                    if f is True:
                        continue
                    if f is False or not m_valid(m, s.pc, f):
                        ok = False
                        break
                if ok:
                    keep.append((loc, kind))
            if len(keep) != len(cands):
                cands = keep
                changed = True
        if not changed and invariants:
            for s in conts:
                for cond in invariants(s, i_add(q, 1)):
                    if cond is True:
                        continue
                    if cond is False or not m_valid(m, s.pc, cond):
                        raise NoRule('supplied loop invariant not inductive: %s' % str(cond)[:200])
            z = st0.fork()
            for cond in invariants(z, 0):
                if cond is True:
                    continue
                if cond is False or not m_valid(m, z.pc, cond):
                    raise NoRule('supplied loop invariant does not hold initially: %s' % str(cond)[:200])
        if changed:
            del m.panics[np:]
            del m.divs[nd:]
            continue
        break
    else:
        raise NoRule('classification does not stabilise')

    # ---- final: build exits
    contcond = bor(*[band(*s.pc[base_pc:]) for s in conts])
    simple = len(exits) <= 1
    gterms = [contcond] if isinstance(contcond, z3.ExprRef) else []
    for loc, infos in seqinfo.items():
        sc = classes[loc][1]
        if sc.kind == 'elem':
            for s, b, af in infos:
                for idx, val in af.writes:
                    gterms += [t for t in (tget(val, p) for p in sc.changed) if isinstance(t, z3.ExprRef)]
                gterms += [t for t in s.pc[base_pc:]]
    for loc, infos in pushed.items():
        for s, val in infos:
            lv = []
            leaves(val, lv)
            gterms += [t for t in lv if isinstance(t, z3.ExprRef)] + [t for t in s.pc[base_pc:]]
    # state carried from iteration to iteration has a value of its own in each of them
    havs = {c[1].decl().name(): c[1] for c in classes.values() if c[0] == 'hav'}
    # (everything named since the iteration variable may depend on the iteration, also if it was named in an earlier round)
    gen = Gen(m, q, fresh_no(qn), gterms, skipnames, havs)
    facts = [gen.lift[n][1](q) == t for n, t in havs.items() if n in gen.lift]
    for loc, c in classes.items():
        if c[0] == 'hav' and c[1].decl().name() in gen.lift:
            x0 = loc_get(st0.mem, loc)
            if not isinf(x0):
                facts.append(gen.lift[c[1].decl().name()][1](z3.IntVal(0)) == zterm(x0))
    if isinstance(contcond, z3.ExprRef):
        prev = gen.inst(contcond, q - 1)
        facts.append(z3.Or(q == 0, prev))
        if not simple or gen.lift:
            facts.append(named_forall(m, 0, q, lambda j: gen.inst(contcond, j)))
    elif contcond is False:
        facts.append(q == 0)
    seqfinal = {}
    for loc, c in classes.items():
        if c[0] == 'seq':
            sc = c[1]
            if sc.kind == 'elem':
                # value written at iteration q, merged over the continuing outcomes
                parts = []
                for s, b, af in seqinfo.get(loc, []):
                    idx, val = af.writes[-1]
                    parts.append((band(*s.pc[base_pc:]), val))
                others = [s for s in conts if not any(s is i[0] for i in seqinfo.get(loc, []))]
                W = {}
                for p in sc.changed:
                    b0 = seqinfo[loc][0][1]
                    idx0 = seqinfo[loc][0][2].writes[-1][0]
                    t = zterm(tget(b0.get(idx0), p))
                    if not others:
                        # every iteration before the exit took one of these
                        t = zterm(tget(parts[-1][1], p))
                    for cnd, val in (parts if others else parts[:-1]):
                        t = ite(cnd, zterm(tget(val, p)), t)
                    W[p] = t
                seqfinal[loc] = (sc, W)
    pushfinal = {}
    for loc, infos in pushed.items():
        W = infos[-1][1]
        for s, val in infos[:-1]:
            W = ite(band(*s.pc[base_pc:]), val, W)
        pushfinal[loc] = W
    res = []
    for s, p in exits:
        s = s.fork()
        s.pc = s.pc + tuple(facts)
        for loc, W in pushfinal.items():
            cur = tget(s.mem[loc[0]], loc[1])
            if not isinstance(cur, SeqS):
                raise NoRule('pushed sequence replaced on exit')
            s.mem[loc[0]] = tset(s.mem[loc[0]], loc[1], SeqS(cur.n, push_base(tget(st0.mem[loc[0]], loc[1]), W, gen), cur.writes))
        for loc, (sc, W) in seqfinal.items():
            cur = tget(s.mem[loc[0]], loc[1])
            old = tget(st0.mem[loc[0]], loc[1])
            if not isinstance(cur, SeqS):
                raise NoRule('sequence replaced on exit')
            s.mem[loc[0]] = tset(s.mem[loc[0]], loc[1], SeqS(cur.n, final_base(old, sc, W, gen, q), cur.writes))
        res.append((s, p))
    # definitional axioms for stray reads of already processed elements
    for loc, (sc, W) in seqfinal.items():
        for p, F in sc.G.items():
            if p in W:
                i = z3.Int(m.fresh_name('i'))
                qi = z3int(inv_q(sc, i))
                m.defs[F.name()] = z3.ForAll([i], F(i) == gen.inst(W[p], qi))
    m.last_havs = havs
    m.loop_rules.append((tag, len(classes), len(exits), len(cands or [])))
    return res


def inv_q(sc, i):
    if sc.F is not None:
        i = sc.Finv(z3int(i))
    return i_sub(i, sc.a) if sc.c == 1 else i_sub(sc.a, i)


def is_image(sc, i):
    return True if sc.F is None else eq_int(sc.F(sc.Finv(z3int(i))), i)


def final_base(old, sc, W, gen, q):
    cache = {}

    def base(i):
        k = i if isinstance(i, int) else ('t', i.get_id())
        if k in cache:
            return cache[k][1]
        o = old.get(i)
        qi = inv_q(sc, i)
        c = band(le_int(0, qi), lt_int(qi, q), is_image(sc, i))
        v = o
        if c is not False:
            for p, t in W.items():
                nv = gen.inst(t, qi)
                v = tset(v, p, ite(c, nv, zterm(tget(o, p))))
        cache[k] = (i, v)
        return v
    return base


def seq_at(m, old, sc, q):
    """sequence at the start of iteration q"""
    for p in (sc.changed or ()):
        if p not in sc.G:
            so = sort_of(tget(old.get(z3.Int('!probe')), p))
            sc.G[p] = z3.Function(m.fresh_name('elem'), z3.IntSort(), so)
    if sc.changed is None or (sc.kind == 'elem' and sc.a is None):
        return SeqS(old.n, old.base, old.writes) if not old.writes else SeqS(old.n, old.get)

    def base(i):
        o = old.get(i)
        v = o
        if sc.kind == 'elem':
            qi = inv_q(sc, i)
            c = band(le_int(0, qi), lt_int(qi, q), is_image(sc, i))
            # the element being processed now is untouched
            if sc.F is not None and z3.is_app(z3int(i)) and z3int(i).num_args() == 1 and z3int(i).decl().eq(sc.F):
                t = z3int(i).arg(0)
                qi = i_sub(t, sc.a) if sc.c == 1 else i_sub(sc.a, t)
            if not isinstance(c, bool) and z3.is_true(z3.simplify(z3int(qi) == q)):
                return o
        else:
            c = True
        for p in sc.changed:
            v = tset(v, p, ite(c, sc.G[p](z3int(i)), zterm(tget(o, p))))
        return v
    return SeqS(old.n, base)


def push_at(old, q):
    n0 = len(old.items) if isinstance(old, SeqC) else old.n
    get = (lambda i: old.items[i]) if isinstance(old, SeqC) else old.get

    def base(i):
        if isinstance(i, int) and isinstance(n0, int) and i < n0:
            return get(i)
        raise Unsupported('loop reads the sequence it is building')
    return SeqS(i_add(n0, q), base)


def push_base(old, W, gen):
    n0 = len(old.items) if isinstance(old, SeqC) else old.n

    def base(i):
        if isinstance(old, SeqC):
            if isinstance(i, int) and i < n0:
                return old.items[i]
            v = gen.value(W, i_sub(i, n0))
            for k in range(n0 - 1, -1, -1):
                v = ite(eq_int(i, k), old.items[k], v)
            return v
        c = lt_int(i, n0)
        return ite(c, old.get(i), gen.value(W, i_sub(i, n0)))
    return base


def delta(m, pc, before, after, guess=None):
    """constant difference of two integer terms (under the path condition), or None"""
    d = z3.simplify(z3int(after) - z3int(before))
    if z3.is_int_value(d):
        return d.as_long()
    if 'if' in d.sexpr()[:4000] or 'ite' in d.sexpr()[:4000]:
        for g in ((1, -1, 2) if guess is None else (guess,)):
            if m_valid(m, pc, d == g):
                return g
    return None


def cand_formula(kind, x, x0, q):
    if kind == 'grow':
        return le_int(x, i_add(x0, q))
    if kind == 'le':
        return r_cmp('le', x, x0) if sort_of(x0) == z3.RealSort() or sort_of(x) == z3.RealSort() else le_int(x, x0)
    if kind == 'ge':
        return r_cmp('ge', x, x0) if sort_of(x0) == z3.RealSort() or sort_of(x) == z3.RealSort() else le_int(x0, x)
    if kind == 'imp':
        return bimp(x0, x)
    return bimp(x, x0)


def m_valid(m, pc, f):
    import solve
    fs = solve.with_defs(m, list(pc) + [bnot(f)])
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*fs)
    return s.check() == z3.unsat


# ---------------------------------------------------------------- entry points
def symbolic_iter(m, st, v, ty_d, depth=0, seen=None):
    """does value v contain an iterator of symbolic extent?"""
    if isinstance(v, IterV):
        lo, hi = m.conc(st, v.lo), m.conc(st, v.hi)
        if isinstance(lo, int) and isinstance(hi, int):
            return False
        if v.kind == 'map':
            return False
        if v.kind == 'maps':
            return True
        src = v.src
        if isinstance(src, IterV):
            return symbolic_iter(m, st, src, '')
        if isinstance(src, RefV):
            try:
                sv = m.loadr(st, src)
            except Exception:
                return False
            return isinstance(sv, SeqS)
        return isinstance(src, SeqS)
    if depth > 6:
        return False
    if isinstance(v, StructV):
        return any(symbolic_iter(m, st, x, '', depth + 1) for x in v.f)
    if isinstance(v, EnumV):
        return any(symbolic_iter(m, st, x, '', depth + 1) for fs in v.pay.values() for x in fs)
    if isinstance(v, RefV) and depth < 4:
        if v.alloc in st.mem and all(x[0] == 'f' for x in v.path):
            try:
                w = m.loadr(st, v)
            except Exception:
                return False
            if isinstance(w, (IterV, StructV)):
                return symbolic_iter(m, st, w, '', depth + 2)
    return False


def symbolic_range(m, st, v):
    return isinstance(v, StructV) and len(v.f) == 2 and any(isinstance(x, z3.ArithRef) and x.is_int() for x in v.f) and all(
        isinstance(x, int) or (isinstance(x, z3.ArithRef) and x.is_int()) for x in v.f)


def try_rule(m, st, fr, header, body, loops, force=False):
    livein, borrowed = liveness(m.p, fr.sym)
    live = {fr.loc[i] for i in (livein[header] | borrowed)}
    trig = force
    if not trig:
        for i in livein[header] | borrowed:
            v = st.mem.get(fr.loc[i])
            if v is None or v is UNINIT:
                continue
            d = m.ty(fr.f['locals'][i])['d']
            if symbolic_iter(m, st, v, d):
                trig = True
                break
            if 'Range<' in d and 'IndexRange' not in d and contains_sym_range(m, st, v) and getattr(m, 'symbolic', False):
                trig = True
                break
    if not trig:
        return None
    inv = None
    for suf, fn in getattr(m, 'invariants', {}).items():
        if fr.f['name'].endswith(suf):
            inv = (lambda fn: lambda s, q: fn(m, s, fr, q))(fn)

    def step(s):
        outs = m.run_from(s, fr, header, (header, body), loops)
        merged = []
        conts = [(x, UNIT) for k, x, _ in outs if k == 'cont']
        if len(conts) > 1 and m.merge:
            # drop dead locals before merging so that temporaries do not block it
            for x, _ in conts:
                for a in fr.loc:
                    if a not in live:
                        x.mem[a] = UNINIT
            conts = m.merge_outs(conts, len(s.pc))
        merged += [('cont', x, None) for x, _ in conts]
        rets = [o for o in outs if o[0] == 'ret']
        if rets:
            raise NoRule('return inside loop region')
        ex = {}
        for k, x, t in outs:
            if k == 'exit':
                ex.setdefault(t, []).append((x, UNIT))
        for t, xs in ex.items():
            li = {fr.loc[i] for i in (livein[t] | borrowed)}
            for x, _ in xs:
                for a in fr.loc:
                    if a not in li:
                        x.mem[a] = UNINIT
            if len(xs) > 1 and m.merge:
                xs = m.merge_outs(xs, len(s.pc))
            merged += [('exit', x, t) for x, _ in xs]
        return merged
    try:
        res = summarise(m, st, step, {'locals': set(fr.loc), 'live': live}, inv, fr.f['name'])
    except NoRule as e:
        raise Unsupported('loop rule: %s in %s' % (e, fr.f['name']))
    return res


def contains_sym_range(m, st, v, depth=0):
    if symbolic_range(m, st, v):
        return True
    if depth > 3:
        return False
    if isinstance(v, StructV):
        return any(contains_sym_range(m, st, x, depth + 1) for x in v.f)
    return False


def fold_symbolic(m, st, it, init, fv, tid):
    ia = m.alloc(st, it)
    aa = m.alloc(st, init)
    ca = m.alloc(st, fv)
    from builtins_rs import none

    def step(s):
        outs = []
        for s2, o in m.B.it_next(s, None, [RefV(ia)]):
            if isinstance(o.tag, int) and o.tag == 0:
                outs.append(('exit', s2, None))
                continue
            for s3, r in m.B.call_fn(s2, RefV(ca), tid, [s2.mem[aa], o.pay[1][0]]):
                s3.mem[aa] = r
                outs.append(('cont', s3, None))
        return merge_step(m, s, outs)
    try:
        res = summarise(m, st, step, {'locals': set(), 'live': set()}, None, 'fold')
    except NoRule as e:
        raise Unsupported('loop rule: %s in fold' % e)
    return [(s, s.mem[aa]) for s, _ in res]


def merge_step(m, s, outs):
    conts = [(x, UNIT) for k, x, _ in outs if k == 'cont']
    if len(conts) > 1:
        conts = m.merge_outs(conts, len(s.pc))
    return [('cont', x, None) for x, _ in conts] + [o for o in outs if o[0] == 'exit']


def for_each_symbolic(m, st, it, fv, tid):
    ia = m.alloc(st, it)
    ca = m.alloc(st, fv)

    def step(s):
        outs = []
        for s2, o in m.B.it_next(s, None, [RefV(ia)]):
            if isinstance(o.tag, int) and o.tag == 0:
                outs.append(('exit', s2, None))
                continue
            for s3, r in m.B.call_fn(s2, RefV(ca), tid, [o.pay[1][0]]):
                outs.append(('cont', s3, None))
        return merge_step(m, s, outs)
    try:
        res = summarise(m, st, step, {'locals': set(), 'live': set()}, None, 'for_each')
    except NoRule as e:
        raise Unsupported('loop rule: %s in for_each' % e)
    return [(s, UNIT) for s, _ in res]


def predicate_at(m, st, ref, v, fv, tid):
    """-> (P, writes): the predicate as a formula of the index, None if it has side effects"""
    n0 = next(m.fresh_ctr)
    j = z3.Int(m.fresh_name('j'))
    s = st.fork()
    ca = m.alloc(s, fv)
    base = len(s.pc)
    s.assume(le_int(0, j), lt_int(j, m.seq_len(v)))
    before = dict(s.mem)
    conds, always = [], True
    for s2, b in m.call_fn_checked(s, ca, tid, RefV(ref.alloc, ref.path + (('i', j),))):
        for a, x in before.items():
            if a in s2.mem and s2.mem[a] is not x and not same(s2.mem[a], x):
                conds = None
        if conds is not None:
            conds.append(band(*s2.pc[base + 2:], b))
        always = always and (b is True or m_valid(m, s2.pc, b))
    if conds is None:
        return None, always
    P = bor(*conds)
    gen = Gen(m, j, n0, [P] if isinstance(P, z3.ExprRef) else [], {j.decl().name()})
    return (lambda i: gen.inst(P, i) if isinstance(P, z3.ExprRef) else P), always


def retain_symbolic(m, st, ref, v, fv, tid):
    """the predicate runs on every element in order; what is left is the subsequence of those it accepts
    (some subsequence if the predicate has side effects)"""
    n = m.seq_len(v)
    P, always = predicate_at(m, st, ref, v, fv, tid)
    outs = [(st, UNIT)] if P is not None else for_each_symbolic(m, st, IterV('ref', ref, 0, n), fv, tid)
    res = []
    for s, _ in outs:
        if m.loadr(s, ref) is not v:
            raise Unsupported('retain over a sequence that changes')
        if P is not None and always:
            # every element is accepted whatever the index
            res.append((s, UNIT))
            continue
        k = z3.Int(m.fresh_name('kept'))
        at = z3.Function(m.fresh_name('kept_at'), z3.IntSort(), z3.IntSort())
        i, j = z3.Ints('ri rj')
        s.assume(band(le_int(0, k), le_int(k, n)))
        ok = z3.And(0 <= at(i), at(i) < z3int(n))
        if P is not None:
            ok = z3.And(ok, z3bool(P(at(i))))
            rank = z3.Function(m.fresh_name('kept_rank'), z3.IntSort(), z3.IntSort())
            s.assume(named_forall(m, 0, n, lambda x: bor(bnot(P(x)), z3.And(0 <= rank(z3int(x)), rank(z3int(x)) < k, at(rank(z3int(x))) == z3int(x)))))
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), ok), patterns=[at(i)]))
        s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), at(i) < at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))
        m.storer(s, ref, SeqS(k, lambda x, at=at: v.get(at(z3int(x)))))
        res.append((s, UNIT))
    return res


def search_symbolic(m, st, ref, it, fv, tid, rev, test, found, missing, byref):
    """all/any/position/find over a symbolic-length primitive iterator with a pure predicate"""
    n0 = next(m.fresh_ctr)
    j = z3.Int(m.fresh_name('j'))
    ca = m.alloc(st, fv)
    s = st.fork()
    base = len(s.pc)
    s.assume(le_int(it.lo, j), lt_int(j, it.hi))
    item = m.B.it_item(s, it, j)
    arg = RefV(m.alloc(s, item)) if byref else item
    before = dict(s.mem)
    outs = m.call_fn_checked(s, ca, tid, arg)
    conds = []
    for s2, b in outs:
        for a, v in before.items():
            if a in s2.mem and s2.mem[a] is not v and not same(s2.mem[a], v):
                raise Unsupported('impure predicate over symbolic sequence')
        c = band(*s2.pc[base + 2:], b if test else bnot(b))
        conds.append(c)
    P = bor(*conds)        # predicate "stops here" at index j
    gen = Gen(m, j, n0, [P] if isinstance(P, z3.ExprRef) else [], {j.decl().name()})

    def Pi(i):
        return gen.inst(P, i) if isinstance(P, z3.ExprRef) else P
    i = z3.Int(m.fresh_name('i'))
    res = []
    # boolean results stay a single outcome
    f0, mz = found(s, it, it.lo) if isinstance(missing, bool) else None, missing
    if isinstance(missing, bool):
        b = named_forall(m, it.lo, it.hi, lambda x: bnot(Pi(x)))
        if not missing:
            b = z3.Not(b)
        s3 = st.fork()
        m.storer(s3, ref, m.B.with_lo(it, it.hi))
        return [(s3, b)]
    w = z3.Int(m.fresh_name('at'))
    s3 = st.fork()
    s3.assume(band(le_int(it.lo, w), lt_int(w, it.hi)))
    pw = Pi(w)
    if m.feasible(s3.pc, pw):
        s3.assume(pw)
        if rev:
            s3.assume(named_forall(m, i_add(w, 1), it.hi, lambda x: bnot(Pi(x))))
            m.storer(s3, ref, m.B.with_hi(it, w))
        else:
            s3.assume(named_forall(m, it.lo, w, lambda x: bnot(Pi(x))))
            m.storer(s3, ref, m.B.with_lo(it, i_add(w, 1)))
        res.append((s3, found(s3, it, w)))
    s4 = st.fork()
    s4.assume(named_forall(m, it.lo, it.hi, lambda x: bnot(Pi(x))))
    m.storer(s4, ref, m.B.with_lo(it, it.hi))
    res.append((s4, missing))
    return res


def extend_symbolic(m, st, ref, v, it, tid):
    return None


def collect_symbolic(m, st, it, tid):
    if isinstance(it, SeqS):
        return [(st, it)]
    if not symbolic_iter(m, st, it, '') and not (getattr(m, 'symbolic', False) and contains_sym_range(m, st, it)):
        return None
    # element i of the result is whatever one `next` yields at iteration i
    ia = m.alloc(st, it)
    slot = m.alloc(st, UNINIT)
    n0 = next(m.fresh_ctr)

    items = []

    def step(s):
        outs = []
        for s2, x in m.B.pull(s, RefV(ia), tid):
            if x is None:
                outs.append(('exit', s2, None))
            else:
                s2.mem[slot] = x[0]
                outs.append(('cont', s2, None))
        outs = merge_step(m, s, outs)
        items.append((s, outs))
        return outs
    try:
        res = summarise(m, st, step, {'locals': {slot}, 'live': set()}, None, 'collect')
    except NoRule as e:
        raise Unsupported('loop rule: %s in collect' % e)
    s_in, outs = items[-1]
    conts = [s for k, s, _ in outs if k == 'cont']
    if len(conts) != 1 or len(res) != 1:
        raise Unsupported('collect over symbolic filter')
    # iteration variable: the fresh q introduced last by summarise
    val = conts[0].mem[slot]
    qs = [t for t in s_in.pc if z3.is_app_of(t, z3.Z3_OP_GE) and t.arg(0).decl().name().startswith('q!')]
    q = qs[-1].arg(0)
    lv = []
    leaves(val, lv)
    gen = Gen(m, q, n0, lv, {q.decl().name()}, m.last_havs)
    s = res[0][0]
    return [(s, SeqS(q_exit(s, q), lambda i: gen.value(val, i)))]


def q_exit(s, q):
    return q
