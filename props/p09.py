"""Frozen vehicles brake to a halt and stay there until released."""
from spec import *
from simlib import *

def frozen_sim(E):
    n = E.int('n_frozen', 0, 1 << 40)
    seq = E.seq_sym('VehicleId', 'fr', n)
    s = sim(E, frozen_vehs=seq)
    E.assume(E.forall(0, n, lambda i: E.forall(0, n, lambda j: Imp(i < j, Not(seq[i].key == seq[j].key)))))
    return s, n, seq


@theorem('freezing and releasing')
def toggles(E):
    s, n, seq = frozen_sim(E)
    v, w = E.new('VehicleId', 'v'), E.new('VehicleId', 'w')
    E.assume(Not(v.key == w.key))
    f = E.bool('freeze')
    h = E.place(s)
    for a in E.call('Simulation::get_vehicle_frozen', h, w):
        for o in a.call('Simulation::set_vehicle_frozen', h, v, f):
            for b in o.call('Simulation::get_vehicle_frozen', h, v):
                b.ensure('as set', lambda b=b: Iff(b.ret, f))
            for b in o.call('Simulation::get_vehicle_frozen', h, w):
                b.ensure('others keep their state', lambda a=a, b=b: Iff(a.ret, b.ret))
            q = o.read(h).frozen_vehs
            i, j = E.int('i', 0), E.int('j', 0)
            o.ensure('no vehicle listed twice', lambda q=q: Imp(And(i < j, j < q.n), Not(q[i].key == q[j].key)))


@theorem('a frozen vehicle brakes fully at every update', bounded='one road, two vehicles')
def brakes(E):
    vs = {k: sane(E, vehicle(E, k, lane_change=None, entered=1, route=[1])) for k in (1, 2)}
    l = link(E, 1, vehicles=[1, 2])
    E.assume(l.curve.scale > 0, l.curve.length > 0, l.speed_limit > 0)
    s = sim(E, links={1: l}, vehicles=vs, frozen=[1], lc_update=R(0), acc_update=R('0.1'))
    dt = E.real('dt')
    E.assume(dt >= 0)
    for v in vs.values():
        E.assume(v.pos + v.vel * dt + v.acc.max_acc * dt * dt < l.curve.length, v.pos>=0)
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        a, b = s.vehicles.at(1), o.read(h).vehicles.at(1)
        o.ensure('full braking', lambda a=a, b=b: feq(b.vel, fmax(a.vel - 6 * dt, R(0))))
        q = o.read(h).frozen_vehs
        o.ensure('still frozen', lambda q=q: q.n == 1 and q[0].key == 1)


def any_frozen(E):
    """any number of frozen vehicles out of any fleet, after all other rules"""
    k, vs = fleet(E)
    n = E.int('n_frozen', 0, 1 << 40)
    seq = E.keys_sym('VehicleId', 'fr', n, vs)
    s = sim(E, vehicles=vs, links={}, frozen_vehs=seq)
    # no vehicle is listed twice (see above)
    E.assume(E.forall(0, n, lambda i: E.forall(0, n, lambda j: Imp(i < j, Not(seq[i].key == seq[j].key)))))
    x = E.new('VehicleId', 'x')
    E.assume(vs.has(x))
    return vs, n, seq, E.place(s), x


@theorem('any number of frozen vehicles: each brakes fully')
def all_brake(E):
    vs, n, seq, h, x = any_frozen(E)
    i = E.int('i', 0)
    E.assume(i < n, seq[i].key == x.key)
    for o in E.call('Simulation::apply_frozen_vehicles', h):
        o.ensure('full braking', lambda o=o: feq(o.read(h).vehicles.at(x).acc.acc, R(-6)))


@theorem('any number of frozen vehicles: the others drive on')
def others_free(E):
    vs, n, seq, h, x = any_frozen(E)
    E.assume(E.forall(0, n, lambda i: Not(seq[i].key == x.key)))
    for o in E.call('Simulation::apply_frozen_vehicles', h):
        w = o.read(h).vehicles.at(x)
        o.ensure('not held back', lambda w=w: w.acc.acc == vs.at(x).acc.acc)
        o.ensure('not moved', lambda w=w: And(w.pos == vs.at(x).pos, w.vel == vs.at(x).vel))


@theorem('a halted vehicle stays where it is', bounded='one road, two vehicles', params=[True, False])
def stays(E, update):
    vs = {k: sane(E, vehicle(E, k, lane_change=None, entered=1, route=[1], **({'vel': R(0)} if k == 1 else {}))) for k in (1, 2)}
    l = link(E, 1, vehicles=[1, 2])
    E.assume(l.curve.scale > 0, l.curve.length > 0, l.speed_limit > 0)
    s = sim(E, links={1: l}, vehicles=vs, frozen=[1], lc_update=R(0), acc_update=R('0.1') if update else R(0))
    dt = E.real('dt')
    E.assume(dt >= 0)
    if not update:
        # braking since the last update, which is not due again
        E.assume(vs[1].acc.acc == -6, dt < R('0.05'))
    for v in vs.values():
        E.assume(v.pos + v.vel * dt + v.acc.max_acc * dt * dt < l.curve.length, v.pos >= 0)
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        w = o.read(h).vehicles.at(1)
        o.ensure('stands', lambda w=w: And(feq(w.vel, R(0)), feq(w.pos, vs[1].pos)))


@theorem('vehicles that are gone are no longer frozen', bounded='two frozen vehicles')
def gone(E):
    v = sane(E, vehicle(E, 1, lane_change=None, entered=1, route=[1]))
    s = sim(E, links={}, vehicles={1: v}, frozen=[2, 1])
    h = E.place(s)
    for o in E.call('Simulation::apply_frozen_vehicles', h):
        q = o.read(h).frozen_vehs
        o.ensure('only the one that is there', lambda q=q: q.n == 1 and q[0].key == 1)
        o.ensure('which brakes', lambda o=o: feq(o.read(h).vehicles.at(1).acc.acc, R(-6)))
