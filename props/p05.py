"""Vehicles move by their speed: no reversing, no teleporting."""
from spec import *
from simlib import *


def accel(v):
    """the acceleration a vehicle will actually use: never harder than 6 m/s^2 braking"""
    return fmax(v.acc.acc, R(-6))


def car(E, **kw):
    v = sane(E, vehicle(E, 1, **kw))
    dt = E.real('dt')
    E.assume(dt >= 0)
    return v, dt


@theorem('one time step of motion', params=['idle', 'queues', 'enters'])
def integrate(E, how):
    v, dt = car(E, will_queue_or_enter={'idle': 0, 'queues': 1, 'enters': 2}[how])
    seq = E.int('seq', 0, 1 << 60)
    h, hs = E.place(v), E.place(TV(E, E.p.adt_ty('usize'), seq))
    for o in E.call('Vehicle::integrate', h, dt, hs):
        w = o.read(h)
        nv = v.vel + dt * accel(v)
        o.ensure('speed follows the acceleration and stops at zero', lambda w=w: feq(w.vel, fmax(nv, R(0))))
        o.ensure('moves by the mean speed', lambda w=w: feq(w.pos, v.pos + (v.vel + w.vel) * dt / 2))
        o.ensure('never reverses', lambda w=w: And(fge(w.vel, 0), fge(w.pos, v.pos)))
        o.ensure('braking is at most 6 m/s2', lambda w=w: fge(w.vel, fmax(v.vel - 6 * dt, R(0))))
        o.ensure('never faster than full throttle', lambda w=w: Imp(fle(v.acc.acc, v.acc.max_acc), fle(w.vel, v.vel + v.acc.max_acc * dt)))
        o.ensure('stop counter counts frames at a standstill', lambda w=w: w.stop_cnt == Ite(w.vel < R('0.1'), v.stop_cnt + 1, 0))
        o.ensure('size and driver unchanged', lambda w=w: And(feq(w.half_len, v.half_len), feq(w.half_wid, v.half_wid), feq(w.acc.max_acc, v.acc.max_acc),
                                                             feq(w.acc.comf_dec, v.acc.comf_dec), feq(w.acc.headway, v.acc.headway), feq(w.acc.vel_adj, v.acc.vel_adj)))


@theorem('standing vehicles stay put')
def standing(E):
    v, dt = car(E, vel=R(0))
    E.assume(v.acc.acc <= 0)
    h, hs = E.place(v), E.place(TV(E, E.p.adt_ty('usize'), E.int('seq', 0, 1 << 60)))
    for o in E.call('Vehicle::integrate', h, dt, hs):
        w = o.read(h)
        o.ensure('does not move', lambda w=w: And(feq(w.vel, 0), feq(w.pos, v.pos)))


@theorem('reported front, rear, length and speed agree')
def reported(E):
    v, dt = car(E)
    h = E.place(v)
    r = {}
    for fn in ('pos_front', 'pos_rear', 'pos_mid', 'length', 'width', 'vel'):
        outs = E.call('Vehicle::' + fn, h)
        o = outs[0]
        r[fn] = o.ret
    o.ensure('front', lambda: feq(r['pos_front'], r['pos_mid'] + r['length'] / 2))
    o.ensure('rear', lambda: feq(r['pos_rear'], r['pos_mid'] - r['length'] / 2))
    o.ensure('stored values', lambda: And(feq(r['pos_mid'], v.pos), feq(r['vel'], v.vel), feq(r['length'], 2 * v.half_len), feq(r['width'], 2 * v.half_wid)))


@theorem('a new vehicle has the attributes it was given')
def fresh(E):
    a = E.new('VehicleAttributes', 'att')
    h = E.place(a)
    for o in E.call('Vehicle::new', E.new('VehicleId', 'id'), h):
        v = o.ret
        o.ensure('size', lambda v=v: And(feq(2 * v.half_wid, a.width), feq(2 * v.half_len, a.length), feq(v.wheel_base, a.wheel_base)))
        o.ensure('driver', lambda v=v: And(feq(v.acc.headway, a.headway), feq(v.acc.max_acc, a.max_acc), feq(v.acc.comf_dec, a.comf_dec), feq(v.acc.vel_adj, 1)))
        o.ensure('at rest', lambda v=v: And(feq(v.vel, 0), v.stop_cnt == 0, v.queued.is_none, v.lane_change.is_none))


@theorem('every vehicle of any fleet moves by its own law')
def fleet_moves(E):
    n, vs = fleet(E)
    dt = E.real('dt')
    E.assume(dt >= 0)
    s = sim(E, vehicles=vs)
    h = E.place(s)
    k = E.new('VehicleId', 'x')
    E.assume(vs.has(k))
    for o in E.call('Simulation::integrate', h, dt):
        w, v = o.read(h).vehicles.at(k), vs.at(k)
        o.ensure('speed', lambda w=w, v=v: feq(w.vel, fmax(v.vel + dt * accel(v), R(0))))
        o.ensure('position', lambda w=w, v=v: feq(w.pos, v.pos + (v.vel + w.vel) / 2 * dt))
        o.ensure('size and driver unchanged', lambda w=w, v=v: And(feq(w.half_len, v.half_len), feq(w.half_wid, v.half_wid), feq(w.acc.max_acc, v.acc.max_acc),
                                                                  feq(w.acc.comf_dec, v.acc.comf_dec), feq(w.acc.headway, v.acc.headway), feq(w.acc.vel_adj, v.acc.vel_adj)))
        o.ensure('nobody appears or vanishes', lambda o=o: o.read(h).vehicles.n == n)
