"""Changing lanes smoothly."""
from spec import *
from simlib import *


@theorem('the course joins two points with given slopes')
def fit(E):
    x1, y1, s1, x2, y2, s2 = [E.real(n) for n in ('x1', 'y1', 's1', 'x2', 'y2', 's2')]
    E.assume(flt(x1, x2))
    for o in E.call('CubicFn::fit', x1, y1, s1, x2, y2, s2):
        h = E.place(o.ret)
        o.st.mem[h.alloc] = E.st.mem[h.alloc]
        for x, y, s in ((x1, y1, s1), (x2, y2, s2)):
            for q in o.call('CubicFn::y', h, x):
                q.ensure('passes through the point', lambda q=q, y=y: feq(q.ret, y))
            for q in o.call('CubicFn::dy', h, x):
                q.ensure('with the slope', lambda q=q, s=s: feq(q.ret, s))


@theorem('the slope is the derivative of the course')
def slope(E):
    h = E.place(E.new('CubicFn', 'f'))
    x, d = E.real('x'), E.real('d')
    for a in E.call('CubicFn::y', h, x):
        for b in a.call('CubicFn::y', h, x + d):
            for c in b.call('CubicFn::dy', h, x):
                for e in c.call('CubicFn::dy', h, x + d):
                    for m in e.call('CubicFn::dy', h, x + d / 2):
                        m.ensure("Simpson's rule is exact for a cubic", lambda m=m, a=a, b=b, c=c, e=e: feq(6 * (b.ret - a.ret), d * (c.ret + 4 * m.ret + e.ret)))
            for c in b.call('rvh::both', h, x):
                for e in c.call('CubicFn::dy', h, x):
                    e.ensure('evaluated together or apart', lambda e=e, c=c, a=a: And(feq(c.ret.field('0'), a.ret), feq(c.ret.field('1'), e.ret)))


@theorem('shifting the origin')
def shift(E):
    f = E.new('CubicFn', 'f')
    h = E.place(f)
    x, d, y = E.real('x'), E.real('d'), E.real('y')
    for o in E.call('CubicFn::translate_x', h, d):
        g = E.place(o.ret)
        o.st.mem[g.alloc] = E.st.mem[g.alloc]
        for a in o.call('CubicFn::y', g, x):
            for b in a.call('CubicFn::y', h, x + d):
                b.ensure('same course seen from further on', lambda a=a, b=b: feq(a.ret, b.ret))
    for o in E.call('CubicFn::constant', y):
        g = E.place(o.ret)
        o.st.mem[g.alloc] = E.st.mem[g.alloc]
        for a in o.call('CubicFn::y', g, x):
            a.ensure('a constant course', lambda a=a: feq(a.ret, y))


def scene(E):
    v = car(E, 1, route=[1])
    a, b = road(E, 1, vehicles=[1]), road(E, 2)
    return sim(E, links={1: a, 2: b}, vehicles={1: v}), v, a, b


@theorem('starting a lane change', bounded='a road with one vehicle and an empty neighbour')
def start(E):
    s, v, a, b = scene(E)
    dist = E.real('distance')
    E.assume(dist > 0)
    at, off, sl = E.real('at'), E.real('offset'), E.real('slope')
    E.modular('LinkCurve::inverse_sample', lambda a, r: [r.is_some, r.some.field('0') == at, r.some.field('1') == off, r.some.field('2') == sl], note='the vehicle is assumed to have a place on the neighbouring lane (not proved), which is otherwise arbitrary')
    h = E.place(s)
    for o in E.call('Simulation::do_lane_change', h, 1, 2, dist):
        w = o.read(h).vehicles.at(1)
        if E.mode == 'conc':
            got = E.call('LinkCurve::inverse_sample', E.place(b.curve), v.world_pos, v.world_dir)[0].ret.some
            at, off, sl = got.field('0'), got.field('1'), got.field('2')
        o.ensure('position on the new road', lambda w=w: feq(w.pos, at))
        o.ensure('ends after the given distance', lambda w=w: And(w.lane_change.is_some, feq(w.lane_change.some.end_pos, at + dist)))
        o.ensure('speed and place in the world are kept', lambda w=w: And(feq(w.vel, v.vel), feq(w.world_pos.x, v.world_pos.x), feq(w.world_pos.y, v.world_pos.y),
                                                                           feq(w.world_dir.x, v.world_dir.x), feq(w.world_dir.y, v.world_dir.y)))
        g = E.place(w.lane_change.some.offset)
        o.st.mem[g.alloc] = E.st.mem[g.alloc]
        for q in o.call('CubicFn::y', g, at):
            q.ensure('starts at the present offset', lambda q=q: feq(q.ret, off))
        for q in o.call('CubicFn::dy', g, at):
            q.ensure('starts in the present direction', lambda q=q: feq(q.ret, sl))
        for q in o.call('CubicFn::y', g, at + dist):
            q.ensure('ends on the centre line', lambda q=q: feq(q.ret, R(0)))
        for q in o.call('CubicFn::dy', g, at + dist):
            q.ensure('ends along the centre line', lambda q=q: feq(q.ret, R(0)))


@theorem('a lane change is over exactly at its end')
def over(E):
    v = sane(E, vehicle(E, 1, route=[1]))
    lc = E.new('LaneChange', 'lc')
    v = v.put('lane_change', lc)
    E.assume(v.will_queue_or_enter <= 2)
    dt = E.real('dt')
    E.assume(dt >= 0)
    h, q = E.place(v), E.place(TV(E, E.p.adt_ty('usize'), E.int('seq', 0, 1 << 60)))
    for o in E.call('Vehicle::integrate', h, dt, q):
        w = o.read(h)
        o.ensure('kept until then', lambda w=w: Iff(w.lane_change.is_some, lc.end_pos > w.pos))
        o.ensure('on the same course', lambda w=w: Imp(w.lane_change.is_some, And(w.lane_change.some.end_pos == lc.end_pos, *[w.lane_change.some.offset.coeffs[i] == lc.offset.coeffs[i] for i in range(4)])))


@theorem('the offset used to judge passing')
def judged(E):
    v = sane(E, vehicle(E, 1, route=[1]))
    lc = E.new('LaneChange', 'lc')
    p = E.real('p')
    h = E.place(v.put('lane_change', lc))
    g = E.place(lc.offset)
    for o in E.call('Vehicle::offset_at', h, p):
        for y in o.call('CubicFn::y', g, p):
            y.ensure('follows the course, then the centre line', lambda o=o, y=y: And(Imp(p < lc.end_pos, feq(o.ret, y.ret)), Imp(p >= lc.end_pos, feq(o.ret, R(0)))))
    for o in E.call('Vehicle::offset_at', E.place(v.put('lane_change', None)), p):
        o.ensure('zero without a lane change', lambda o=o: o.ret == 0)


def seen(E, pts, at=None):
    """where a point p, moving in direction d, lies relative to a road of one piece"""
    q = E.new('QuadraticBezier2d', 'q', **({} if pts is None else {'points': pts}))
    h = E.place(E.new('LinkCurve', 'c', segments=[q], scale=R(1), length=R(1)))
    p, d = E.new('Point2', 'p'), E.new('Vector2', 'd')
    at = E.real('at') if at is None else at
    E.assume(at >= 0, at <= 1)
    E.modular('project_point_onto_curve', lambda a, r: [r.is_some, r.some == at], note='the point is assumed to have a projection within the road (not proved), which is otherwise arbitrary')
    for q in E.call('LinkCurve::inverse_sample', h, p, d):
        q.ensure('found', lambda q=q: q.ret.is_some if E.mode == 'sym' else True)
        if E.mode == 'conc' and not q.ret.is_some:
            raise ReplayInvalid('no projection')
        t, off, sl = [q.ret.some.field(str(i)) for i in range(3)]
        for o in q.call('rvh::derivatives', h, t):
            pos, d1, d2 = [o.ret.field(str(i)) for i in range(3)]
            o.assume(sq(d1.x) + sq(d1.y) > 0)
            yield o, p, d, pos, d1, d2, off, sl


def cross(u, v):
    return u[0] * v.y - u[1] * v.x


@theorem('where a point lies relative to a road')
def relative(E):
    for o, p, d, pos, d1, d2, off, sl in seen(E, None):
        for m in o.call('rvh::norm', d1):
            m.ensure('offset is measured to the left of the road', lambda off=off, n=m.ret, p=p, pos=pos, d1=d1: feq(off * n, -(p.x - pos.x) * d1.y + (p.y - pos.y) * d1.x))


@theorem('direction of travel relative to a straight road')
def heading_straight(E):
    x, y, a, b = [E.real(k) for k in ('x0', 'y0', 'ux', 'uy')]
    E.assume(a * a + b * b == 1)
    pts = [E.new('cgmath::Point2', 'c%d' % k, x=x + a * R(k) / 2, y=y + b * R(k) / 2) for k in (0, 1, 2)]
    for o, p, d, pos, d1, d2, off, sl in seen(E, pts):
        o.ensure('slope of the direction of travel', lambda d=d, sl=sl: Imp(a * d.x + b * d.y != 0, feq(sl * (a * d.x + b * d.y), a * d.y - b * d.x)))


@theorem('direction of travel relative to a curved road', bounded='the start of a curved piece, two headings', params=[('1.5', '2'), ('-2', '1.5')])
def heading_curved(E, u, v):
    end = E.new('cgmath::Point2', 'c2')
    pts = [E.new('cgmath::Point2', 'c0', x=R(0), y=R(0)), E.new('cgmath::Point2', 'c1', x=R(u), y=R(v)), end]
    if E.mode == 'sym':
        E.hints += [end.x >= -9, end.x <= 9, end.y >= -9, end.y <= 9]
    for o, p, d, pos, d1, d2, off, sl in seen(E, pts, R(0)):
        for m in o.call('rvh::norm', d1):
            n = m.ret
            dd = d1.x * d2.x + d1.y * d2.y
            turn = (-(d2.y * n * n - d1.y * dd), d2.x * n * n - d1.x * dd)
            # (centre line + normal * offset)' = d1 + normal' * offset + normal * slope, all times n^3
            m.ensure('the course starts in the direction of travel', lambda off=off, sl=sl, n=n, turn=turn, d=d, d1=d1: Imp(
                cross((-d1.y, d1.x), d) != 0, feq(n * n * n * cross((d1.x, d1.y), d) + off * cross(turn, d) + sl * n * n * cross((-d1.y, d1.x), d), R(0))))
