"""The car-following law: brake hard when too close, react in the right direction."""
from spec import *
from simlib import *


def setup(E, n=1):
    """a vehicle (with a free throttle) and n leaders"""
    v = sane(E, vehicle(E, 1))
    E.assume(v.acc.acc == v.acc.max_acc)
    ls = []
    for i in range(n):
        p, u = E.real('leader%d.pos' % i), E.real('leader%d.vel' % i)
        E.assume(u >= 0)
        ls.append((p, u))
    return v, ls


def front(v):
    return v.pos + v.half_len


@theorem('emergency braking when the gap is used up')
def close(E):
    v, [(p, u)] = setup(E)
    h = E.place(v)
    E.assume(p - front(v) <= 2)
    for o in E.call('Vehicle::follow_vehicle', h, p, u):
        w = o.read(h)
        o.ensure('demands ten times full throttle as braking', lambda w=w: feq(w.acc.acc, -10 * v.acc.max_acc))


@theorem('the demand never exceeds full throttle')
def capped(E):
    v, [(p, u)] = setup(E)
    h = E.place(v)
    for o in E.call('Vehicle::follow_vehicle', h, p, u):
        w = o.read(h)
        o.ensure('at most full throttle', lambda w=w: flt(w.acc.acc, v.acc.max_acc))


@theorem('a shorter gap never means less braking')
def gap(E):
    v, [(p, u), (q, _)] = setup(E, 2)
    h1, h2 = E.place(v), E.place(v)
    E.assume(p <= q, q - front(v) > 2)
    for o in E.call('Vehicle::follow_vehicle', h1, p, u):
        for r in o.call('Vehicle::follow_vehicle', h2, q, u):
            # (at the two-metre threshold the law jumps to emergency braking; see 'close')
            r.ensure('monotone in the gap', lambda r=r: Imp(p - front(v) > 2, fle(r.read(h1).acc.acc, r.read(h2).acc.acc)))


@theorem('a slower leader never means less braking')
def leader(E):
    v, [(p, u), (_, x)] = setup(E, 2)
    h1, h2 = E.place(v), E.place(v)
    E.assume(u <= x)
    for o in E.call('Vehicle::follow_vehicle', h1, p, u):
        for r in o.call('Vehicle::follow_vehicle', h2, p, x):
            r.ensure('monotone in the leader speed', lambda r=r: fle(r.read(h1).acc.acc, r.read(h2).acc.acc))


@theorem('driving faster never means less braking')
def own(E):
    v, [(p, u)] = setup(E)
    s = E.real('faster')
    E.assume(s >= v.vel)
    h1, h2 = E.place(v), E.place(v.put('vel', s))
    for o in E.call('Vehicle::follow_vehicle', h1, p, u):
        for r in o.call('Vehicle::follow_vehicle', h2, p, u):
            r.ensure('monotone in the own speed', lambda r=r: fge(r.read(h1).acc.acc, r.read(h2).acc.acc))


@theorem('keeping the time gap behind an equally fast leader')
def equilibrium(E):
    v, [(p, u)] = setup(E)
    E.assume(u == v.vel)
    d = p - front(v)
    want = 2 + v.vel * v.acc.headway
    E.assume(d > 2)
    h = E.place(v)
    for o in E.call('Vehicle::follow_vehicle', h, p, u):
        w = o.read(h)
        o.ensure('no acceleration at the desired gap', lambda w=w: Imp(d == want, feq(w.acc.acc, 0)))
        o.ensure('brakes when closer', lambda w=w: Imp(d < want, flt(w.acc.acc, 0)))
        o.ensure('accelerates when further', lambda w=w: Imp(d > want, flt(0, w.acc.acc)))
        o.ensure('strength', lambda w=w: feq(w.acc.acc, v.acc.max_acc * (1 - sq(want / d))))


@theorem('closing in demands a larger gap')
def closing(E):
    v, [(p, u)] = setup(E)
    d = p - front(v)
    want = 2 + v.vel * v.acc.headway
    E.assume(d > 2, u < v.vel, d <= want)
    h = E.place(v)
    for o in E.call('Vehicle::follow_vehicle', h, p, u):
        w = o.read(h)
        o.ensure('brakes', lambda w=w: flt(w.acc.acc, 0))


@theorem('a stop line is followed like a standing vehicle')
def line(E):
    v, [(p, u)] = setup(E)
    h1, h2 = E.place(v), E.place(v)
    for o in E.call('Vehicle::follow_vehicle', h1, p, R(0)):
        for r in o.call('Vehicle::stop_at_line', h2, p):
            r.ensure('same demand', lambda r=r: feq(r.read(h1).acc.acc, r.read(h2).acc.acc))


@theorem('an obstacle is followed at its nearest end')
def obstacle(E):
    v, [(p, u)] = setup(E)
    c = E.fresh(E.p.adt_ty('[Point2<f64>; 2]'), 'coords')
    ct = TV(E, E.p.adt_ty('[Point2<f64>; 2]'), c)
    def along(k):
        return (ct[k].x - v.world_pos.x) * v.world_dir.x + (ct[k].y - v.world_pos.y) * v.world_dir.y
    a, b = along(0), along(1)
    near = E.real('near')
    E.assume(Or(near == a, near == b), near <= a, near <= b)
    h1, h2 = E.place(v), E.place(v)
    for o in E.call('Vehicle::follow_vehicle', h1, v.pos + near, u):
        for r in o.call('Vehicle::follow_obstacle', h2, c, u):
            r.ensure('same demand', lambda r=r: feq(r.read(h1).acc.acc, r.read(h2).acc.acc))
