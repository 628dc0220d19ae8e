"""Passing and following vehicles on neighbouring lanes."""
from spec import *
from simlib import *


def drawn(E, *rs):
    """roads drawn for trial runs have a course (the contracts do not need to know it)"""
    if E.mode == 'sym':
        for r in rs:
            for k in (0, 1, 2):
                q = r.curve.segments[0].points[k]
                E.hints += [q.x == 10 * k, q.y == 0]
            E.hints.append(r.curve.scale * 20 == 1)
    return rs[0]


def hindrance(E):
    lat = E.new('util::Interval', 'lat')
    vel = E.real('vel')
    E.assume(lat.min <= lat.max, vel >= 0)
    E.modular('CubicFn::y', pure=lambda a: [a[1]])
    return E.real('pos'), lat, vel


def gap(lo, hi, y):
    return fmax(y - hi, lo - y)


def clear(o, h, v, pos, lo, hi):
    """[(outcome, the course of the vehicle leaves enough room)]"""
    return [(q, gap(lo, hi, q.ret) > v.half_wid + R('0.5')) for q in o.call('Vehicle::offset_at', h, pos - v.half_len)]


@theorem('an obstacle that leaves room is passed')
def room_enough(E):
    v = sane(E, vehicle(E, 1))
    pos, lat, vel = hindrance(E)
    rc = [E.new('cgmath::Point2', 'rc%d' % k) for k in (0, 1)]
    h, hr = E.place(v), E.place(drawn(E, road(E, 1)))
    for q, ok in clear(E, h, v, pos, lat.min, lat.max):
        q.assume(ok)
        for o in q.call('rvh::held', h, pos, lat, rc, vel, hr):
            o.ensure('passes', lambda o=o: o.ret.is_none)


def verdict(E, o, h, v, pos, lat, q, lo, hi, vel):
    r = o.ret
    for a, ok1 in clear(o, h, v, pos, lat.min, lat.max):
        for b, ok2 in clear(a, h, v, q, lo, hi):
            if r.is_some is not True:
                b.ensure('passes only if there is room', lambda r=r, ok1=ok1, ok2=ok2: Imp(r.is_none, Or(ok1, ok2)))
            if r.is_some is not False:
                b.ensure('follows only if there is none', lambda r=r, ok1=ok1, ok2=ok2: Imp(r.is_some, And(Not(ok1), Not(ok2))))
                b.ensure('follows its rear end', lambda r=r: Imp(r.is_some, And(feq(r.some.field('0'), q), feq(r.some.field('1'), vel))))


def same(p, q):
    import z3
    return isinstance(p, z3.ExprRef) and isinstance(q, z3.ExprRef) and p.eq(q)


def straight_road(E, x, y, a, b, s):
    """a road of one piece of length 2s from (x, y) in direction (a, b)"""
    pt = [E.new('cgmath::Point2', 'c%d' % k, x=x + a * s * k, y=y + b * s * k) for k in (0, 1, 2)]
    r = road(E, 1, curve__segments=[E.new('QuadraticBezier2d', 'seg', points=pt)])
    E.assume(r.curve.scale * s * 2 == 1)
    return r


@theorem('coordinates along a straight road')
def frame(E):
    x, y, a, b, m, n, t = [E.real(k) for k in ('px', 'py', 'ux', 'uy', 'along', 'side', 't')]
    E.assume(a * a + b * b == 1)
    pt = lambda k, u, v: E.new('cgmath::Point2', k, x=u, y=v)
    vec = lambda k, u, v: E.new('cgmath::Vector2', k, x=u, y=v)
    for o in E.call('project_local', pt('p', x + a * m - b * n, y + b * m + a * n), pt('o', x + a * t, y + b * t), vec('i', -b, a), vec('j', a, b)):
        o.ensure('along', lambda o=o: feq(o.ret.y, m - t))
        o.ensure('sideways', lambda o=o: feq(o.ret.x, n))


@theorem('a straight road is sampled along a line')
def line(E):
    x, y, a, b, s = E.real('px'), E.real('py'), E.real('ux'), E.real('uy'), E.real('step')
    E.assume(a * a + b * b == 1, s > 0)
    n, k = E.int('n_segments', 1, 1 << 30), E.real('scale')
    t = E.real('t')
    sg = E.seq_sym('QuadraticBezier2d', 'seg', n)
    E.assume(k * s * 2 == 1)
    i = piece(E, n, t * k)
    E.assume(*[And(feq(sg[i].points[j].x, x + a * s * (2 * i + j)), feq(sg[i].points[j].y, y + b * s * (2 * i + j))) for j in (0, 1, 2)])
    r = road(E, 1, curve__segments=sg, curve__scale=k)
    for o in E.call('rvh::centre', E.place(r), t):
        p, d = o.ret.field('0'), o.ret.field('1')
        o.ensure('point', lambda p=p: And(feq(p.x, x + a * t), feq(p.y, y + b * t)))
        o.ensure('heading', lambda d=d: And(feq(d.x, a), feq(d.y, b)))


@theorem('an obstacle on a straight road', params=[False, True])
def straight(E, changing):
    v = sane(E, vehicle(E, 1, **({} if changing else {'lane_change': None})))
    pos, lat, vel = hindrance(E)
    x, y, a, b, s = E.real('px'), E.real('py'), E.real('ux'), E.real('uy'), E.real('step')
    E.assume(a * a + b * b == 1, s > 0)
    ps = [(E.real('side%d' % k), E.real('along%d' % k)) for k in (0, 1)]
    rc = [E.new('cgmath::Point2', 'rc%d' % k, x=x + a * m - b * n, y=y + b * m + a * n) for k, (n, m) in enumerate(ps)]
    r = straight_road(E, x, y, a, b, s)
    # contracts of the two callees on a straight road: `on` is the position of a point of the centre line
    on = lambda p: E.app('on', 'f64', [p.x, p.y])
    E.modular('LinkCurve::sample_centre', post=lambda g, w: [on(w.pos) == g[1]], note='a position on a straight road is recovered from its sample (proved: a straight road is sampled along a line)')
    E.modular('project_local', post=lambda g, w: [c for k in (0, 1) if g[0].x is rc[k].x or same(g[0].x, rc[k].x) for c in (w.x == ps[k][0], w.y == ps[k][1] - on(g[1]))], note='local coordinates on a straight road (proved: coordinates along a straight road)')
    h, hr = E.place(v), E.place(r)
    for o in E.call('rvh::held', h, pos, lat, rc, vel, hr):
        verdict(E, o, h, v, pos, lat, fmin(ps[0][1], ps[1][1]), ps[0][0], ps[1][0], vel)


@theorem('an obstacle on a road along the x axis', bounded='a road of one piece along the x axis, one slope of the course')
def axis(E):
    f = E.new('CubicFn', 'f', coeffs=[R(0), R(0), R('0.1'), E.real('y0')], offset=R(0))
    v = sane(E, vehicle(E, 1, lane_change=E.new('LaneChange', 'lc', offset=f)))
    lat = E.new('util::Interval', 'lat')
    vel, pos = E.real('vel'), E.real('pos')
    E.assume(lat.min <= lat.max, vel >= 0)
    rc = [E.new('cgmath::Point2', 'rc%d' % k) for k in (0, 1)]
    pt = [E.new('cgmath::Point2', 'c%d' % k, x=R(10 * k), y=R(0)) for k in (0, 1, 2)]
    h, hr = E.place(v), E.place(road(E, 1, curve__segments=[E.new('QuadraticBezier2d', 'seg', points=pt)], curve__scale=R('0.05')))
    E.modular('LinkCurve::sample_centre', post=lambda g, w: [w.pos.x == g[1], w.pos.y == 0, w.tan.x == 1, w.tan.y == 0], note='samples of a road along the x axis (instance of: a straight road is sampled along a line)')
    for o in E.call('rvh::held', h, pos, lat, rc, vel, hr):
        verdict(E, o, h, v, pos, lat, fmin(rc[0].x, rc[1].x), rc[0].y, rc[1].y, vel)


def local(p, s, t):
    """(sideways, along) of the point p seen from the point s of a road with heading t"""
    dx, dy = p.x - s.x, p.y - s.y
    return -dx * t.y + dy * t.x, dx * t.x + dy * t.y


@theorem('an obstacle at the place it was looked up')
def near(E):
    v = sane(E, vehicle(E, 1))
    pos, lat, vel = hindrance(E)
    rc = [E.new('cgmath::Point2', 'rc%d' % k) for k in (0, 1)]
    hr, h = E.place(drawn(E, road(E, 1))), E.place(v)
    E.modular('LinkCurve::sample_centre', pure=lambda g: [g[1]])
    for c in E.call('rvh::centre', hr, pos):
        ps = [local(p, c.ret.field('0'), c.ret.field('1')) for p in rc]
        d = fmin(ps[0][1], ps[1][1])
        c.assume(d < R('0.1'))
        for o in c.call('rvh::held', h, pos, lat, rc, vel, hr):
            verdict(E, o, h, v, pos, lat, pos + d, ps[0][0], ps[1][0], vel)


B = 'two lanes with at most two vehicles each, a lane table of two entries'


def lanes(E, us, vs):
    """vehicles us on lane 1 and vs on lane 2, in this order from the front"""
    q = {k: [E.new('ProjectedSample', 'q%d_%d' % (k, i)) for i in (0, 1)] for k in (1, 2)}
    pr = [E.new('LinkProjection', 'to%d' % d, dst=d, samples=q[d], inv_segment_len=R('0.5')) for d in (2, 1)]
    g = E.place(E.new('LinkGroup', 'g', links=[1, 2], projections=pr))
    cs = {k: car(E, k, route=[1 if k in us else 2]) for k in us + vs}
    for l in (us, vs):
        ahead(E, *[cs[k] for k in reversed(l)])
    ls = {1: road(E, 1, vehicles=us[::-1], group=g, active=True), 2: road(E, 2, vehicles=vs[::-1], group=g, active=True)}
    drawn(E, *ls.values())
    E.modular('AccelerationModel::idm', pure=lambda a: [a[0].deref.max_acc, a[0].deref.comf_dec, a[0].deref.headway, a[1], a[2], a[3]])
    E.modular('Vehicle::can_pass', pure=lambda a: [a[0].deref.pos, a[0].deref.half_len, a[0].deref.half_wid, a[1].pos, a[1].vel, a[1].lat.min, a[1].lat.max])
    return cs, ls, E.place(pr[0]), {k: E.place(v) for k, v in cs.items()}, E.place(E.map_of('Vehicle', cs)), E.place(E.map_of('Link', ls)), {k: E.place(l) for k, l in ls.items()}


@theorem('vehicles on the other lane', bounded=B, params=[([1], [2]), ([1], [2, 3]), ([1, 2], [3]), ([1, 2], [3, 4])])
def other_lane(E, us, vs):
    cs, ls, pr, hs, hv, hl, hr = lanes(E, us, vs)
    todo = [(E, {})]
    for u in us:
        for v in vs:
            todo = [(b, {**rs, (u, v): b.ret}) for a, rs in todo for b in a.call('rvh::held_by', hs[v], hs[u], pr, hr[2])]
    for a, rs in todo:
        x = {u: rs[u, vs[0]].field('0') for u in us}
        for i, j in zip(us, us[1:]):
            a.assume(x[i] >= x[j])
        behind = {(u, v): cs[v].pos < x[u] for u in us for v in vs}
        sight = {(u, v): front(cs[v]) >= x[u] - 5 * ls[2].speed_limit for u in us for v in vs}
        stuck = {(u, v): rs[u, v].field('1').is_some for u in us for v in vs}
        # the first vehicle behind the obstacle that cannot pass follows it, unless one in between is out of sight
        holds = {(u, v): And(behind[u, v], stuck[u, v], sight[u, v], *[Or(Not(behind[u, f]), And(Not(stuck[u, f]), sight[u, f])) for f in vs[:vs.index(v)]]) for u in us for v in vs}
        for o in a.call('rvh::heed', hr[1], hl, hv):
            w = o.read(hv)
            for v in vs:
                for m in range(1 << len(us)):
                    on = [u for i, u in enumerate(us) if m >> i & 1]
                    if any(stuck[u, v] is False for u in on):
                        continue
                    case = And(*[holds[u, v] if u in on else Not(holds[u, v]) for u in us])
                    for p, d in after(E, o, cs[v], *[('follow_vehicle', rs[u, v].field('1').some.field('0'), rs[u, v].field('1').some.field('1')) for u in on]):
                        p.ensure('%d follows %s' % (v, on), lambda w=w, v=v, d=d, case=case: Imp(case, feq(w.at(v).acc.acc, d)))
            for p, d in after(E, o, cs[us[0]], ('apply_current_speed_limit', ls[1].speed_limit)):
                p.ensure('the first vehicle of the lane itself is not held up', lambda w=w, d=d: feq(w.at(us[0]).acc.acc, d))
