"""Speed limits are respected, ahead of time and in force."""
from spec import *
from simlib import *


def setup(E):
    v = sane(E, vehicle(E, 1))
    E.assume(v.acc.acc == v.acc.max_acc)
    s = E.real('limit')
    E.assume(s > 0)
    return v, s, v.acc.vel_adj * s


@theorem('the limit in force')
def current(E):
    v, s, t = setup(E)
    h = E.place(v)
    for o in E.call('Vehicle::apply_current_speed_limit', h, s):
        w = o.read(h)
        o.ensure('no acceleration at the limit', lambda w=w: Imp(v.vel == t, feq(w.acc.acc, 0)))
        o.ensure('slows down above it', lambda w=w: Imp(v.vel > t, flt(w.acc.acc, 0)))
        o.ensure('may speed up below it', lambda w=w: Imp(v.vel < t, flt(0, w.acc.acc)))
        o.ensure('full throttle from rest', lambda w=w: Imp(v.vel == 0, feq(w.acc.acc, v.acc.max_acc)))


@theorem('faster vehicles accelerate less under the same limit')
def monotone(E):
    v, s, t = setup(E)
    x = E.real('faster')
    E.assume(x >= v.vel)
    h1, h2 = E.place(v), E.place(v.put('vel', x))
    for o in E.call('Vehicle::apply_current_speed_limit', h1, s):
        for r in o.call('Vehicle::apply_current_speed_limit', h2, s):
            r.ensure('monotone', lambda r=r: fge(r.read(h1).acc.acc, r.read(h2).acc.acc))


@theorem('a vehicle within the limit stays within it')
def stays(E):
    v, s, t = setup(E)
    dt = E.real('dt')
    E.assume(v.vel <= t, dt >= 0, 4 * v.acc.max_acc * dt <= t)
    h, hs = E.place(v), E.place(TV(E, E.p.adt_ty('usize'), E.int('seq', 0, 1 << 60)))
    for o in E.call('Vehicle::apply_current_speed_limit', h, s):
        for r in o.call('Vehicle::integrate', h, dt, hs):
            r.ensure('within the limit after the step', lambda r=r: fle(r.read(h).vel, t))


@theorem('a coming limit')
def coming(E):
    v, s, t = setup(E)
    p = E.real('pos')
    d = p - v.pos
    c = v.acc.comf_dec
    h, h2 = E.place(v), E.place(v)
    for o in E.call('Vehicle::apply_speed_limit', h, s, p):
        w = o.read(h)
        need = (sq(v.vel) - sq(t)) / (2 * d)
        o.ensure('ignored while comfortable braking suffices', lambda w=w: Imp(And(d > 0, need < c), feq(w.acc.acc, v.acc.max_acc)))
        o.ensure('brakes as hard as needed, at most twice comfortable', lambda w=w: Imp(And(d > 0, need >= c), feq(w.acc.acc, -fmin(need, 2 * c))))
    for o in E.call('Vehicle::apply_speed_limit', h, s, p):
        for r in o.call('Vehicle::apply_current_speed_limit', h2, s):
            r.ensure('in force once reached', lambda r=r: Imp(d <= 0, feq(r.read(h).acc.acc, r.read(h2).acc.acc)))


@theorem('the braking demand reaches the limit in time')
def reaches(E):
    """constant braking with the demanded strength arrives at the position with the limit speed"""
    v, s, t = setup(E)
    p = E.real('pos')
    d = p - v.pos
    c = v.acc.comf_dec
    E.assume(d > 0, sq(v.vel) - sq(t) >= 2 * d * c, sq(v.vel) - sq(t) <= 4 * d * c)
    h = E.place(v)
    for o in E.call('Vehicle::apply_speed_limit', h, s, p):
        w = o.read(h)
        o.ensure('v^2 + 2 a d = limit^2', lambda w=w: feq(sq(v.vel) + 2 * w.acc.acc * d, sq(t)))


@theorem('the adjustment factor scales the limit')
def adjust(E):
    v, s, t = setup(E)
    f = E.real('factor')
    E.assume(f > 0)
    h = E.place(v)
    for o in E.call('Vehicle::set_velocity_adjust', h, f):
        w = o.read(h)
        o.ensure('stored', lambda w=w: feq(w.acc.vel_adj, f))
        for r in o.call('Vehicle::apply_current_speed_limit', h, s):
            x = r.read(h)
            r.ensure('balance speed is the scaled limit', lambda x=x: And(Imp(v.vel == f * s, feq(x.acc.acc, 0)), Imp(v.vel > f * s, flt(x.acc.acc, 0)), Imp(v.vel < f * s, flt(0, x.acc.acc))))
