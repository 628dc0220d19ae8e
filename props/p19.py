"""Curves: lines and Bezier curves."""
from spec import *


def pt(E, name):
    return E.new('Point2', name)


def same(p, q, n=2):
    return And(feq(p.x, q[0]), feq(p.y, q[1]))


def comb(ws, ps):
    return [sum([w * c for w, c in zip(ws, [getattr(p, k) for p in ps])][1:], ws[0] * getattr(ps[0], k)) for k in ('x', 'y')]


def bern(n, t):
    s = 1 - t
    return [s * s, 2 * s * t, t * t] if n == 2 else [s * s * s, 3 * s * s * t, 3 * s * t * t, t * t * t]


@theorem('Bezier curves are the blend of their control points', params=[2, 3])
def blend(E, n):
    ps = [pt(E, 'p%d' % i) for i in range(n + 1)]
    t = E.real('t')
    h = E.place(E.new('QuadraticBezier2d' if n == 2 else 'CubicBezier2d', 'c', points=ps))
    f = 'rvh::quad_' if n == 2 else 'rvh::cubic_'
    for o in E.call(f + 'sample', h, t):
        o.ensure('point', lambda o=o: same(o.ret, comb(bern(n, t), ps)))
    for o in E.call(f + 'bounds', h):
        o.ensure('from 0 to 1', lambda o=o: And(o.ret.min == 0, o.ret.max == 1))


@theorem('derivatives of a Bezier curve', params=[2, 3])
def derivative(E, n):
    ps = [pt(E, 'p%d' % i) for i in range(n + 1)]
    t, d = E.real('t'), E.real('d')
    h = E.place(E.new('QuadraticBezier2d' if n == 2 else 'CubicBezier2d', 'c', points=ps))
    f = 'rvh::quad_' if n == 2 else 'rvh::cubic_'
    for a in E.call(f + 'sample', h, t):
        for b in a.call(f + 'sample', h, t + d):
            for c in b.call(f + 'dt', h, t):
                second = comb([R(2), R(-4), R(2)], ps) if n == 2 else comb([6 * (1 - t), 6 * (3 * t - 2), 6 * (1 - 3 * t), 6 * t], ps)
                third = [0, 0] if n == 2 else comb([R(-1), R(3), R(-3), R(1)], ps)

                def taylor(k, i):
                    g = lambda o: getattr(o.ret, k)
                    return feq(g(b), g(a) + d * g(c) + d * d / 2 * second[i] + d * d * d * third[i])
                c.ensure('first derivative', lambda: And(taylor('x', 0), taylor('y', 1)))
                if n == 2:
                    for e in c.call(f + 'dt2', h, t):
                        e.ensure('second derivative', lambda e=e: same(e.ret, second))


@theorem('line segments')
def line(E):
    a, b = pt(E, 'a'), pt(E, 'b')
    dx, dy = b.x - a.x, b.y - a.y
    t = E.real('t')
    E.assume(Not(And(dx == 0, dy == 0)))
    for o in E.call('LineSegment2d::from_ends', a, b):
        h = E.place(o.ret)
        o.st.mem[h.alloc] = E.st.mem[h.alloc]
        for q in o.call('LineSegment2d::end', h):
            q.ensure('ends where it should', lambda q=q: same(q.ret, [b.x, b.y]))
        for q in o.call('LineSegment2d::start', h):
            q.ensure('starts where it should', lambda q=q: same(q.ret, [a.x, a.y]))
        for q in o.call('rvh::line_bounds', h):
            L = q.ret.max
            q.ensure('parameter is the length along the line', lambda q=q, L=L: And(q.ret.min == 0, L > 0, feq(L * L, sq(dx) + sq(dy))))
            for s in q.call('rvh::line_sample', h, t):
                s.ensure('points along the line', lambda s=s, L=L: And(feq(L * (s.ret.x - a.x), t * dx), feq(L * (s.ret.y - a.y), t * dy)))
            for s in q.call('rvh::line_dt', h, t):
                s.ensure('direction', lambda s=s, L=L: And(feq(L * s.ret.x, dx), feq(L * s.ret.y, dy)))


@theorem('raising the degree keeps the curve')
def raised(E):
    ps = [pt(E, 'p%d' % i) for i in range(3)]
    t = E.real('t')
    for o in E.call('rvh::raised', *ps):
        h = E.place(o.ret)
        o.st.mem[h.alloc] = E.st.mem[h.alloc]
        for q in o.call('rvh::cubic_sample', h, t):
            q.ensure('same point', lambda q=q: same(q.ret, comb(bern(2, t), ps)))


@theorem('a straight Bezier curve')
def straight(E):
    a, b = pt(E, 'a'), pt(E, 'b')
    t = E.real('t')
    for o in E.call('CubicBezier2d::line', a, b):
        h = E.place(o.ret)
        o.st.mem[h.alloc] = E.st.mem[h.alloc]
        for q in o.call('rvh::cubic_sample', h, t):
            q.ensure('runs evenly from one end to the other', lambda q=q: same(q.ret, [a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)]))


@theorem('splitting a curve')
def split(E):
    ps = [pt(E, 'p%d' % i) for i in range(4)]
    t, u = E.real('t'), E.real('u')
    h = E.place(E.new('CubicBezier2d', 'c', points=ps))
    for o in E.call('CubicBezier2d::subdivide', h, t):
        for i, at in ((0, u * t), (1, t + u * (1 - t))):
            g = E.place(o.ret[i])
            o.st.mem[g.alloc] = E.st.mem[g.alloc]
            for q in o.call('rvh::cubic_sample', g, u):
                q.ensure('part %d traces its share of the curve' % i, lambda q=q, at=at: same(q.ret, comb(bern(3, at), ps)))


@theorem('reversing a curve')
def reverse(E):
    ps = [pt(E, 'p%d' % i) for i in range(4)]
    t = E.real('t')
    for c in E.call('rvh::from_points', *ps):
        h = E.place(c.ret)
        c.st.mem[h.alloc] = E.st.mem[h.alloc]
        for o in c.call('CubicBezier2d::reverse', h):
            for q in o.call('rvh::cubic_sample', h, t):
                q.ensure('runs the other way', lambda q=q: same(q.ret, comb(bern(3, 1 - t), ps)))
