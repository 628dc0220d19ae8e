"""Discharging verification conditions."""
import subprocess
import tempfile
import os
import time
import z3
from values import *
from machine import has_quant


def const_syms(e, seen, out):
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())


def plain(ax):
    """without the conjuncts that name a square root as a function of its argument"""
    if z3.is_quantifier(ax):
        b = plain(ax.body())
        if b is ax.body():
            return ax
        vs = [z3.FreshConst(ax.var_sort(i)) for i in range(ax.num_vars())]
        return z3.ForAll(vs, z3.substitute_vars(b, *reversed(vs)))
    if z3.is_and(ax):
        cs = [c for c in ax.children() if not (z3.is_eq(c) and z3.is_app(c.arg(1)) and c.arg(1).decl().name() == 'sqrt@')]
        if len(cs) < ax.num_args():
            return z3.And(*cs)
        ds = [plain(c) for c in cs]
        if any(a is not b for a, b in zip(cs, ds)):
            return z3.And(*ds)
    return ax


MUL = z3.Function('mul@', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIV = z3.Function('div@', z3.RealSort(), z3.RealSort(), z3.RealSort())


def opaque(forms):
    """products and quotients of unknowns replaced by uninterpreted functions (a weaker set of facts), or
    None if there are none"""
    memo = {}
    hit = [False]

    def isnum(t):
        return z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_algebraic_value(t)

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t):
            r = go(t.body())
            if not r.eq(t.body()):
                vs = [z3.FreshConst(t.var_sort(i), t.var_name(i)) for i in range(t.num_vars())]
                b = z3.substitute_vars(r, *reversed(vs))
                r = z3.ForAll(vs, b) if t.is_forall() else z3.Exists(vs, b)
            else:
                r = t
        elif z3.is_app(t) and t.num_args():
            cs = [go(c) for c in t.children()]
            kd = t.decl().kind()
            if kd == z3.Z3_OP_MUL and z3.is_real(t):
                nums = [c for c in cs if isnum(c)]
                rest = sorted([c for c in cs if not isnum(c)], key=lambda c: shape(c, 4))
                if len(rest) > 1:
                    hit[0] = True
                    r = rest[0]
                    for c in rest[1:]:
                        r = MUL(r, c)
                    for c in nums:
                        r = c * r
                else:
                    r = t.decl()(*cs)
            elif kd == z3.Z3_OP_DIV and not isnum(cs[1]):
                hit[0] = True
                r = DIV(cs[0], cs[1])
            elif any(not a.eq(b) for a, b in zip(cs, t.children())):
                r = t.decl()(*cs)
            else:
                r = t
        else:
            r = t
        memo[k] = (t, r)
        return r
    out = [go(f) for f in forms]
    x, y = z3.Reals('mx my')
    out.append(z3.ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]))
    return out if hit[0] else None


def shape(t, d):
    if not z3.is_app(t) or d == 0:
        return '_'
    if not t.num_args():
        return str(t)
    return '%s(%s)' % (t.decl().name(), ','.join(shape(c, d - 1) for c in t.children()))


def shifts(body, j):
    """the terms c such that body applies some function to j + c or c - j, as [(sign, c)]"""
    out = []
    seen = set()
    stack = [body]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        stack.extend(t.children())
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        for a in t.children():
            if not z3.is_app(a) or not z3.is_int(a) or a.eq(j):
                continue
            if a.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                continue
            c = z3.simplify(z3.substitute(a, (j, z3.IntVal(0))))
            d = z3.simplify(z3.substitute(a, (j, z3.IntVal(1))) - c)
            if z3.is_int_value(d) and abs(d.as_long()) == 1 and not open_term(c) and z3.is_true(z3.simplify(a == c + d * j)):
                if not any(sg == d.as_long() and c.eq(e) for sg, e in out):
                    out.append((d.as_long(), c))
    return out


def open_term(t):
    """mentions a bound variable"""
    stack = [t]
    while stack:
        u = stack.pop()
        if z3.is_var(u):
            return True
        if z3.is_quantifier(u):
            return True
        stack.extend(u.children())
    return False


def normal(forms):
    """equivalent formulas in which functions are applied to the quantified variable itself where possible,
    so that the solver finds the instances"""
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        r = t
        if z3.is_quantifier(t):
            if t.is_forall() and t.num_vars() == 1 and t.var_sort(0) == z3.IntSort():
                j = z3.FreshConst(z3.IntSort(), 'nj')
                b = go(z3.substitute_vars(t.body(), j))
                sh = shifts(b, j)[:4]
                if sh:
                    cs = [z3.ForAll([j], b)]
                    for sg, c in sh:
                        cs.append(z3.ForAll([j], z3.simplify(z3.substitute(b, (j, sg * (j - c))))))
                    r = z3.And(*cs)
        elif z3.is_app(t) and t.num_args() and z3.is_bool(t):
            cs = [go(c) for c in t.children()]
            if any(not a.eq(b) for a, b in zip(cs, t.children())):
                r = t.decl()(*cs)
        memo[k] = (t, r)
        return r
    return [go(f) for f in forms]


def with_defs(M, forms, uf=False):
    """formulas plus the axioms of every defined symbol they mention"""
    out = [f for f in forms if not isinstance(f, bool)]
    if any(f is False for f in forms):
        return [z3.BoolVal(False)]
    seen, names = set(), set()
    for f in out:
        const_syms(f, seen, names)
    done = set()
    while True:
        new = [n for n in names if n in M.defs and n not in done]
        if not new:
            break
        for n in new:
            done.add(n)
            ax = M.defs[n] if uf else plain(M.defs[n])
            out.append(ax)
            const_syms(ax, seen, names)
    return out


def has_int(forms):
    for f in forms:
        seen = set()
        stack = [f]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_int(t) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0):
                return True
            if z3.is_quantifier(t):
                return True
            stack.extend(t.children())
    return False


CVC5 = None
for p in ('/usr/bin/cvc5', '/usr/local/bin/cvc5', '/opt/vt/bin/cvc5'):
    if os.path.exists(p):
        CVC5 = p


def run_cvc5(forms, timeout):
    try:
        import shutil
        exe = CVC5 or shutil.which('cvc5')
        if not exe:
            return 'unknown'
        s = z3.Solver()
        s.add(*forms)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run([exe, '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', '--nl-cov', f.name] if not has_quant_any(forms) else
                               [exe, '--tlimit=%d' % int(timeout * 1000), f.name],
                               capture_output=True, text=True, timeout=timeout + 5)
            o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
            return o if o in ('sat', 'unsat') else 'unknown'
        finally:
            os.unlink(f.name)
    except Exception:
        return 'unknown'


def has_quant_any(forms):
    return any(has_quant(f) for f in forms)


def real_core(forms):
    """the facts without quantifiers and integers, every function application an unknown of its own (a weaker set of
    facts, so only `unsat` means anything); None if nothing is left out or nothing nonlinear remains"""
    memo, out, nl = {}, [], [False]

    class Skip(Exception):
        pass

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(t) or z3.is_var(t):
            raise Skip()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and (z3.is_real(t) or z3.is_bool(t)):
            r = z3.FreshConst(t.sort(), 'app')
        elif z3.is_int(t):
            raise Skip()
        elif z3.is_app(t) and t.num_args():
            cs = [go(c) for c in t.children()]
            if t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                nl[0] = True
            r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else t.decl()(*cs)
        else:
            r = t
        memo[k] = (t, r)
        return r
    todo = list(forms)
    while todo:
        f = todo.pop(0)
        if z3.is_and(f):
            todo = list(f.children()) + todo
            continue
        try:
            out.append(go(f))
        except Skip:
            pass
    return out if out and nl[0] else None


NLSAT = ('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'purify-arith', 'tseitin-cnf', 'qfnra-nlsat')


def check(forms, scale=1.0, want_model=True, uf=None):
    """-> (result, model or None, backend, seconds). uf: the same facts with square roots as functions"""
    t0 = time.time()
    forms = [f for f in forms if not z3.is_true(f)]
    if any(z3.is_false(f) for f in forms):
        return 'unsat', None, 'simplifier', 0.0
    if has_quant_any(forms):
        nf = normal(forms if uf is None else uf)
        ab = opaque(nf) or nf
        if ab is not None:
            for mbqi in (False, True):
                s = z3.Solver()
                s.set('timeout', int(4000 * scale))
                s.set('smt.mbqi', mbqi)
                s.add(*ab)
                if s.check() == z3.unsat:
                    return 'unsat', None, 'z3 (products opaque)' if ab is not nf else 'z3', time.time() - t0
    s = z3.Solver()
    s.set('timeout', int(3000 * scale))
    s.add(*forms)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None, 'z3', time.time() - t0
    if r == z3.sat:
        return 'sat', s.model(), 'z3', time.time() - t0
    if has_int(forms):
        core = real_core(forms)
        if core is not None:
            for g, to in ((z3.Then(*NLSAT).solver(), 6000), (z3.Solver(), 3000)):
                try:
                    g.set('timeout', int(to * scale))
                    g.add(*core)
                    if g.check() == z3.unsat:
                        return 'unsat', None, 'z3-nlsat', time.time() - t0
                except z3.Z3Exception:
                    pass
    if not has_quant_any(forms):
        if not has_int(forms):
            for tac, to in (('nlsat', 15),):
                try:
                    g = z3.Then(*NLSAT).solver()
                    g.set('timeout', int(1000 * to * scale))
                    g.add(*forms)
                    r = g.check()
                    if r == z3.unsat:
                        return 'unsat', None, 'z3-nlsat', time.time() - t0
                    if r == z3.sat:
                        return 'sat', g.model(), 'z3-nlsat', time.time() - t0
                except z3.Z3Exception:
                    pass
        for kw in ({'smt.arith.solver': 2}, {'smt.arith.nl.order': False, 'smt.random_seed': 7}):
            s = z3.Solver()
            try:
                for k, v in kw.items():
                    s.set(k, v)
            except z3.Z3Exception:
                continue
            s.set('timeout', int(8000 * scale))
            s.add(*forms)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None, 'z3', time.time() - t0
            if r == z3.sat:
                return 'sat', s.model(), 'z3', time.time() - t0
    else:
        s = z3.Solver()
        s.set('timeout', int(10000 * scale))
        s.set('smt.mbqi', False)
        s.add(*forms)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None, 'z3', time.time() - t0
    r = run_cvc5(forms, 20 * scale)
    if r == 'unsat':
        return 'unsat', None, 'cvc5', time.time() - t0
    s = z3.Solver()
    s.set('timeout', int(20000 * scale))
    s.add(*forms)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None, 'z3', time.time() - t0
    if r == z3.sat:
        return 'sat', s.model(), 'z3', time.time() - t0
    return 'unknown', None, '-', time.time() - t0
