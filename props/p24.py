"""Decisions are refreshed on schedule."""
from spec import *
from simlib import *

B = 'two roads, two vehicles'


def world(E, **over):
    vs = {1: car(E, 1), 2: car(E, 2)}
    ahead(E, vs[1], vs[2])
    ls = {1: road(E, 1, vehicles=[1, 2], links_out=[2]), 2: road(E, 2, links_in=[1])}
    s = sim(E, links=ls, vehicles=vs, **over)
    dt = E.real('dt')
    E.assume(dt >= 0)
    return s, vs, ls, dt


@theorem('one step, one frame', bounded=B)
def frame(E):
    s, vs, ls, dt = world(E, acc_update=R(0), lc_update=R(0))
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        o.ensure('frame', lambda o=o: o.read(h).frame == s.frame + 1)
        for q in o.call('Simulation::frame', h):
            q.ensure('reported', lambda q=q: q.ret == s.frame + 1)
        o.ensure('time since the last updates', lambda o=o: And(feq(o.read(h).acc_update, s.acc_update + dt), feq(o.read(h).lc_update, s.lc_update + dt)))


@theorem('between updates accelerations are kept', bounded=B)
def kept(E):
    s, vs, ls, dt = world(E, lc_update=R(0), frozen=[1])
    E.assume(s.acc_update < R('0.1'))
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        for k in (1, 2):
            w = o.read(h).vehicles
            if w.has(k) is not False:
                o.ensure('vehicle %d' % k, lambda w=w, k=k: Imp(w.has(k), w.at(k).acc.acc == vs[k].acc.acc))
        o.ensure('time since the last update', lambda o=o: feq(o.read(h).acc_update, s.acc_update + dt))


@theorem('an update starts afresh', bounded=B)
def afresh(E):
    s, vs, ls, dt = world(E, lc_update=R(0))
    E.assume(s.acc_update >= R('0.1'))
    old = E.real('old')
    h = E.place(s)
    t = s.put('vehicles', E.map_of('Vehicle', {k: v.put('acc.acc', E.real('other%d' % k)) for k, v in vs.items()}))
    g = E.place(t)
    for o in E.call('Simulation::apply_accelerations', h):
        o.ensure('time since the last update', lambda o=o: o.read(h).acc_update == 0)
        for q in o.call('Simulation::apply_accelerations', g):
            for k in (1, 2):
                q.ensure('vehicle %d: nothing of the last round is left' % k, lambda o=o, q=q, k=k: feq(o.read(h).vehicles.at(k).acc.acc, q.read(g).vehicles.at(k).acc.acc))


@theorem('between updates nobody reconsiders its accelerations or its route')
def any_fleet(E):
    n, vs = fleet(E)
    m, ls = network(E)
    s = sim(E, vehicles=vs, links=ls)
    E.assume(s.acc_update < R('0.1'), s.lc_update < R('0.3'))
    h = E.place(s)
    k = E.new('VehicleId', 'x')
    E.assume(vs.has(k))
    v = vs.at(k)
    for o in E.call('Simulation::apply_accelerations', h):
        w = o.read(h).vehicles.at(k)
        o.ensure('acceleration', lambda w=w: And(w.acc.acc == v.acc.acc, w.will_queue_or_enter == v.will_queue_or_enter))
        o.ensure('clock', lambda o=o: o.read(h).acc_update == s.acc_update)
    for o in E.call('Simulation::calculate_lane_changes', h):
        w = o.read(h).vehicles.at(k)
        o.ensure('route', lambda w=w: And(w.route.n == v.route.n, w.entered == v.entered, w.route[0].key == v.route[0].key))
        o.ensure('clock of the route', lambda o=o: o.read(h).lc_update == s.lc_update)
