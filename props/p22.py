"""A vehicle's place, heading and outline in the world."""
from spec import *
from simlib import *


def place(E, lc):
    n = E.int('n_segments', 1, 1 << 30)
    l = road(E, 1, curve__segments=E.seq_sym('QuadraticBezier2d', 'seg', n))
    v = car(E, 1, lane_change=lc)
    E.assume(v.wheel_base > 0)
    # inputs to try on the compiled code: a road of one piece that does not degenerate at the vehicle
    if E.mode == 'sym':
        d = dt(l.curve.segments[0], v.pos * l.curve.scale)
        E.hints += [n == 1, sq(d[0]) + sq(d[1]) > 1]
    return l, v


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def xy(p):
    return (p.x, p.y)


def same(p, q):
    return And(feq(p.x, q[0]), feq(p.y, q[1]))


def updated(E, lc, moving):
    l, v = place(E, lc)
    if moving:
        E.assume(feq(sq(v.world_dir.x) + sq(v.world_dir.y), 1))
    else:
        E.assume(v.world_dir.x == 0, v.world_dir.y == 0)
    # a sample of the centre line is a point and a unit vector that depend on the position only (P20)
    f = lambda k, a: E.app('centre_' + k, 'f64', [a[1]])
    E.modular('LinkCurve::sample_centre', lambda a, r: [r.pos.x == f('px', a), r.pos.y == f('py', a), r.tan.x == f('tx', a), r.tan.y == f('ty', a),
                                                        sq(r.tan.x) + sq(r.tan.y) == 1], note='place and heading are functions of the position and the heading has unit length (P20: centre line and heading)')
    hl, h, hc = E.place(E.map_of('Link', {1: l})), E.place(v), E.place(l.curve)
    ho = None if lc is None else E.place(v.lane_change.some.offset)
    for a in E.call('rvh::centre', hc, v.pos):
        c, t = xy(a.ret.field('0')), xy(a.ret.field('1'))
        a.assume(feq(sq(t[0]) + sq(t[1]), 1))
        offs = [(a, R(0))] if lc is None else [(y, y.ret) for y in a.call('CubicFn::y', ho, v.pos)]
        for y, off in offs:
            p = (c[0] - off * t[1], c[1] + off * t[0])
            if moving:
                d = (p[0] - v.world_pos.x + v.wheel_base * v.world_dir.x, p[1] - v.world_pos.y + v.wheel_base * v.world_dir.y)
                y.assume(dot(d, d) > 0)
            else:
                d = t
            for o in y.call('Vehicle::update_coords', h, hl):
                yield v, o, o.read(h), c, t, off, p, d


@theorem('place and heading', params=[(lc, m) for lc in (False, True) for m in (False, True)])
def heading(E, *q):
    for v, o, w, c, t, off, p, d in updated(E, E.new('LaneChange', 'lc') if q[0] else None, q[1]):
        o.ensure('on the course', lambda w=w, p=p: same(w.world_pos, p))
        o.ensure('heading is a unit vector', lambda w=w: feq(sq(w.world_dir.x) + sq(w.world_dir.y), 1))
        if q[1]:
            o.ensure('the rear axle is drawn along', lambda w=w, d=d: And(feq(cross(xy(w.world_dir), d), R(0)), fge(dot(xy(w.world_dir), d), R(0))))
        elif not q[0]:
            o.ensure('a new vehicle is aligned with the road', lambda w=w, t=t: same(w.world_dir, t))
        o.ensure('nothing else changes', lambda w=w, v=v: And(w.pos == v.pos, w.vel == v.vel, w.half_len == v.half_len, w.half_wid == v.half_wid, w.wheel_base == v.wheel_base, w.entered == v.entered))


@theorem('outline of the rear', params=[(lc, m) for lc in (False, True) for m in (False, True)])
def outline(E, *q):
    for v, o, w, c, t, off, p, d in updated(E, E.new('LaneChange', 'lc') if q[0] else None, q[1]):
        a, b = w.rear_lats.min, w.rear_lats.max
        tilt = -cross(t, xy(w.world_dir)) * v.half_len
        o.ensure('covers the lane position of the vehicle', lambda a=a, b=b: And(fle(a, -v.half_wid), fge(b, v.half_wid)))
        o.ensure('covers its rear end', lambda a=a, b=b, off=off, tilt=tilt: And(fle(a, off + tilt - v.half_wid), fge(b, off + tilt + v.half_wid)))
        o.ensure('and no more', lambda a=a, b=b, off=off, tilt=tilt: And(feq(a, fmin(off + tilt, R(0)) - v.half_wid), feq(b, fmax(off + tilt, R(0)) + v.half_wid)))
        for i, lat in ((0, a), (1, b)):
            o.ensure('end %d of the line behind the vehicle' % i, lambda i=i, lat=lat, w=w, c=c, t=t: same(w.rear_coords[i], (
                c[0] - v.half_len * t[0] - lat * t[1], c[1] - v.half_len * t[1] + lat * t[0])))


@theorem('every vehicle of a fleet is placed', bounded='two roads, two vehicles')
def fleet_placed(E):
    ls = {k: road(E, k) for k in (1, 2)}
    vs = {k: car(E, k, route=[k]) for k in (1, 2)}
    for v in vs.values():
        E.assume(v.wheel_base > 0)
    s = sim(E, links=ls, vehicles=vs)
    h = E.place(s)
    c1, c2 = E.place(ls[1].curve), E.place(ls[2].curve)
    for a in E.call('rvh::centre', c1, vs[1].pos):
        for b in a.call('rvh::centre', c2, vs[2].pos):
            for o in b.call('Simulation::update_vehicle_coords', h):
                w = o.read(h).vehicles
                o.ensure('each on its own road', lambda w=w, a=a, b=b: And(same(w.at(1).world_pos, xy(a.ret.field('0'))), same(w.at(2).world_pos, xy(b.ret.field('0')))))


@theorem('a vehicle that has just been added', bounded='one road without traffic')
def added(E):
    n = E.int('n_segments', 1, 1 << 30)
    l = road(E, 1, curve__segments=E.seq_sym('QuadraticBezier2d', 'seg', n))
    a = E.new('VehicleAttributes', 'att')
    E.assume(a.wheel_base > 0)
    if E.mode == 'sym':
        d = dt(l.curve.segments[0], R(0))
        E.hints += [n == 1, sq(d[0]) + sq(d[1]) > 1]
    f = lambda k, a: E.app('centre_' + k, 'f64', [a[1]])
    E.modular('LinkCurve::sample_centre', lambda a, r: [r.pos.x == f('px', a), r.pos.y == f('py', a), r.tan.x == f('tx', a), r.tan.y == f('ty', a),
                                                        sq(r.tan.x) + sq(r.tan.y) == 1], note='place and heading are functions of the position and the heading has unit length (P20: centre line and heading)')
    h, g, hc = E.place(sim(E, links={1: l})), E.place(a), E.place(l.curve)
    for q in E.call('rvh::centre', hc, R(0)):
        c, t = xy(q.ret.field('0')), xy(q.ret.field('1'))
        for o in q.call('Simulation::add_vehicle', h, g, 1):
            v = o.read(h).vehicles.at(o.ret.key)
            o.ensure('stands at the start of the road', lambda v=v, c=c: same(v.world_pos, c))
            o.ensure('is aligned with the road', lambda v=v, t=t: same(v.world_dir, t))
            o.ensure('the line behind it is straight across', lambda v=v, c=c, t=t: And(*[same(v.rear_coords[i], (
                c[0] - a.length / 2 * t[0] - lat * t[1], c[1] - a.length / 2 * t[1] + lat * t[0])) for i, lat in ((0, -a.width / 2), (1, a.width / 2))]))


@theorem('after a step every vehicle is drawn where it has got to', bounded='a road of 10 m to the east and one of 10 m to the north, one vehicle')
def stepped(E):
    def straight(k, x, dx, dy):
        p = [E.new('cgmath::Point2', 'p%d%d' % (k, i), x=x + R(dx) * i / 2, y=R(dy) * i / 2) for i in range(3)]
        return link(E, k, vehicles=[1] if k == 1 else [], curve=E.new('LinkCurve', 'c%d' % k, scale=R(1), length=R(10), segments=[E.new('QuadraticBezier2d', 's%d' % k, points=p)]))
    ls = {1: straight(1, R(0), 1, 0), 2: straight(2, R(10), 0, 1)}
    v = car(E, 1, route=[1, 2], world_dir__x=R(0), world_dir__y=R(0), wheel_base=R(3), pathfind__src=0, pathfind__matrix={}, pathfind__paths=[], will_queue_or_enter=0)
    t = E.real('dt')
    E.assume(v.pos >= 0, v.pos <= 10, v.vel <= 40, t > 0, t <= R('0.2'))
    h = E.place(sim(E, links=ls, vehicles={1: v}, acc_update=R(0), lc_update=R(0)))
    for o in E.call('Simulation::step', h, t):
        w = o.read(h).vehicles.at(1)
        o.ensure('on the first road', lambda w=w: Imp(w.route[0].key == 1, And(fle(w.pos, R(10)), same(w.world_pos, (w.pos, R(0))), same(w.world_dir, (R(1), R(0))))))
        o.ensure('on the second road', lambda w=w: Imp(w.route[0].key == 2, same(w.world_pos, (R(10), w.pos))))
