"""Passing from one road to the next is seamless."""
from spec import *
from simlib import *


def journey(E, nroads, lane=False, entered=None, queued=None):
    rs = list(range(1, nroads + 1))
    ent = E.int('entered', 1, nroads) if entered is None else entered
    q = queued
    v = car(E, 1, route=rs, entered=ent)
    if lane:
        lc = E.new('LaneChange', 'lc')
        v = v.put('lane_change', lc)
    if queued is not None:
        v = v.put('queued', queued)
    ls = {r: road(E, r, vehicles=[1] if r == 1 else [], links_out=[r + 1] if r < nroads else [], links_in=[r - 1] if r > 1 else []) for r in rs}
    s = sim(E, links=ls, vehicles={1: v}, lc_update=R(0), acc_update=R(0))
    E.assume(v.pos >= 0)
    return s, v, ls


def moved(v, dt):
    u = fmax(v.vel + dt * fmax(v.acc.acc, R(-6)), R(0))
    return v.pos + (v.vel + u) / 2 * dt, u


B = 'one vehicle, routes of at most three roads'


@theorem('position and speed carry over', bounded=B, params=[2, 3])
def carry(E, n):
    s, v, ls = journey(E, n)
    dt = E.real('dt')
    E.assume(dt >= 0)
    p, u = moved(v, dt)
    L = ls[1].curve.length
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        w = o.read(h).vehicles.at(1)
        on = w.route.n < n
        o.ensure('moves on exactly past the end', lambda on=on: Iff(on, p > L))
        o.ensure('the distance covered is the same', lambda w=w, on=on: feq(w.pos, p - L if on is True else p if on is False else Ite(on, p - L, p)))
        o.ensure('same speed', lambda w=w: feq(w.vel, u))
        for i in range(w.route.n):
            o.ensure('route keeps its order (%d)' % i, lambda w=w, i=i: w.route[i].key == n - w.route.n + 1 + i)
        o.ensure('admissions carry over', lambda w=w, on=on: w.entered == (Ite(v.entered > 1, v.entered - 1, 1) if on else v.entered))


@theorem('a place in the queue', bounded=B)
def queue(E):
    t = E.int('ticket', 1, 1 << 60)
    s, v, ls = journey(E, 3, queued=t)
    E.assume(v.entered <= 2)
    dt = E.real('dt')
    E.assume(dt >= 0)
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        w = o.read(h).vehicles.at(1)
        on = w.route.n < 3
        if on:
            o.ensure('is kept for a road further on', lambda w=w: Imp(v.entered > 1, And(w.queued.is_some, w.queued.some == t)))
            o.ensure('is given up when the road was entered regardless', lambda w=w: Imp(v.entered == 1, w.queued.is_none))
        else:
            o.ensure('is kept meanwhile', lambda w=w: And(w.queued.is_some, w.queued.some == t))


def course(o, c, x):
    """[(outcome, lateral offset at x)]"""
    return [(p, p.ret) for p in o.call('CubicFn::y', o.place(c), x)]


@theorem('a lane change in progress', bounded=B, params=[2])
def lane(E, n):
    s, v, ls = journey(E, n, lane=True)
    dt = E.real('dt')
    E.assume(dt >= 0)
    p, u = moved(v, dt)
    L = ls[1].curve.length
    lc = v.lane_change.some
    x = E.real('ahead')
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        w = o.read(h).vehicles.at(1)
        d = L if w.route.n < n else R(0)
        o.ensure('ends exactly at its end', lambda w=w: Iff(w.lane_change.is_some, lc.end_pos > p))
        if w.lane_change.is_some is False:
            continue
        lw = w.lane_change.some
        o.ensure('the end does not move', lambda w=w, lw=lw, d=d: Imp(w.lane_change.is_some, lw.end_pos == lc.end_pos - d))
        for a, y in course(o, lc.offset, x + d):
            for b, z in course(a, lw.offset, x):
                b.ensure('the course does not move', lambda w=w, y=y, z=z: Imp(w.lane_change.is_some, feq(y, z)))


@theorem('hand-over on any route in any network')
def handover(E):
    n, ls = network(E)
    m = E.int('n_route', 1, 1 << 40)
    route = E.seq_sym('LinkId', 'route', m)
    E.assume(E.forall(0, m, lambda i: ls.has(route[i])))
    v = sane(E, vehicle(E, 1, route=route, entered=E.int('entered', 1, 1 << 40), pathfind__dst=0))
    E.assume(v.entered <= m)
    h = E.place(v)
    L = ls.at(route[0]).curve.length
    i = E.int('i', 0)
    x = E.real('ahead')
    for o in E.call('Vehicle::advance', h, E.place(ls)):
        w = o.read(h)
        on = v.pos > L
        o.ensure('exactly past the end', lambda o=o: Iff(o.ret, on))
        o.ensure('distance', lambda w=w: feq(w.pos, Ite(on, v.pos - L, v.pos)))
        o.ensure('speed', lambda w=w: w.vel == v.vel)
        o.ensure('one road less', lambda w=w: w.route.n == Ite(on, m - 1, m))
        o.ensure('same roads in the same order', lambda w=w: Imp(i < w.route.n, w.route[i].key == Ite(on, route[i + 1].key, route[i].key)))
        o.ensure('admissions', lambda w=w: w.entered == Ite(And(on, v.entered > 1), v.entered - 1, v.entered))
        o.ensure('queue place', lambda w=w: And(Imp(Not(And(on, v.entered == 1)), And(Iff(w.queued.is_some, v.queued.is_some), Imp(v.queued.is_some, w.queued.some == v.queued.some))),
                                               Imp(And(on, v.entered == 1), w.queued.is_none)))
        o.ensure('lane change goes on', lambda w=w: Iff(w.lane_change.is_some, v.lane_change.is_some))
        o.ensure('to the same end', lambda w=w: Imp(v.lane_change.is_some, feq(w.lane_change.some.end_pos, v.lane_change.some.end_pos - Ite(on, L, R(0)))))
        for a, y in course(o, v.lane_change.some.offset, x + Ite(on, L, R(0))):
            for b, z in course(a, w.lane_change.some.offset, x):
                b.ensure('on the same course', lambda y=y, z=z: Imp(v.lane_change.is_some, feq(y, z)))
