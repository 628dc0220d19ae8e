"""Arrival-time and stopping-distance predictions are kinematically right."""
from spec import *
from simlib import *


def setup(E, tag=''):
    v = sane(E, vehicle(E, 1))
    p, m = E.real('pos' + tag), E.real('max_vel' + tag)
    E.assume(m > 0)
    return v, p, m


def travelled(v, vm, t):
    """distance covered after time t at full throttle up to speed vm (vm >= current speed)"""
    ta = (vm - v.vel) / v.acc.max_acc
    return Ite(t <= ta, v.vel * t + v.acc.max_acc * sq(t) / 2, (sq(vm) - sq(v.vel)) / (2 * v.acc.max_acc) + vm * (t - ta))


@theorem('earliest arrival')
def reach(E):
    v, p, m = setup(E)
    h = E.place(v)
    a = v.acc.max_acc
    for o in E.call('Vehicle::min_reach_time', h, p, m):
        T = o.ret
        vm = fmax(m, v.vel)
        d = fmax(p - v.pos, R(0))
        ta = (vm - v.vel) / a
        o.ensure('never negative', lambda T=T: fge(T, 0))
        o.ensure('while accelerating', lambda T=T: Imp(2 * a * d < sq(vm) - sq(v.vel), feq(v.vel * T + a * sq(T) / 2, d)))
        o.ensure('after reaching top speed', lambda T=T: Imp(2 * a * d >= sq(vm) - sq(v.vel), feq(vm * (T - ta), d - (sq(vm) - sq(v.vel)) / (2 * a))))
        o.ensure('already there', lambda T=T: Imp(p <= v.pos, feq(T, 0)))


@theorem('further away is never sooner')
def monotone(E):
    v, p, m = setup(E)
    q = E.real('pos2')
    E.assume(q >= p)
    h = E.place(v)
    for o in E.call('Vehicle::min_reach_time', h, p, m):
        for r in o.call('Vehicle::min_reach_time', h, q, m):
            r.ensure('monotone', lambda a=o.ret, b=r.ret: fle(a, b))


@theorem('it is a lower bound at any achievable speed')
def bound(E):
    v, p, m = setup(E)
    h = E.place(v)
    for o in E.call('Vehicle::min_reach_time', h, p, m):
        vm = fmax(m, v.vel)
        o.ensure('not faster than driving at top speed throughout', lambda T=o.ret, vm=vm: fge(T * vm, p - v.pos))


@theorem('stopping distance')
def stop(E):
    v = sane(E, vehicle(E, 1))
    p = E.real('pos')
    h = E.place(v)
    for o in E.call('Vehicle::stopping_distance', h):
        o.ensure('comfortable braking distance plus 2.5 m', lambda d=o.ret: feq(d, sq(v.vel) / (2 * v.acc.comf_dec) + R('2.5')))
    for o in E.call('Vehicle::can_stop', h, p):
        room = p - (v.pos + v.half_len)
        o.ensure('exactly when there is room', lambda r=o.ret: Iff(r, room >= sq(v.vel) / (2 * v.acc.comf_dec) + R('2.5')))
