"""Driving rules can only slow a vehicle down, in any order."""
from spec import *
from simlib import *

RULES = ['current limit', 'coming limit', 'stop line', 'follow', 'obstacle']


def model(E):
    v = sane(E, vehicle(E, 1))
    return v


def demand(E, v, rule, tag):
    """arguments of one rule application"""
    if rule == 'current limit':
        s = E.real(tag + '.limit')
        E.assume(s > 0)
        return 'Vehicle::apply_current_speed_limit', [s]
    if rule == 'coming limit':
        s, p = E.real(tag + '.limit'), E.real(tag + '.pos')
        E.assume(s > 0)
        return 'Vehicle::apply_speed_limit', [s, p]
    if rule == 'stop line':
        return 'Vehicle::stop_at_line', [E.real(tag + '.pos')]
    if rule == 'follow':
        s = E.real(tag + '.vel')
        E.assume(s >= 0)
        return 'Vehicle::follow_vehicle', [E.real(tag + '.pos'), s]
    if rule == 'obstacle':
        s = E.real(tag + '.vel')
        E.assume(s >= 0)
        c = E.fresh(E.p.adt_ty('[Point2<f64>; 2]'), tag + '.coords')
        return 'Vehicle::follow_obstacle', [c, s]


@theorem('a rule never raises the acceleration', params=RULES)
def lowers(E, rule):
    v = model(E)
    fn, args = demand(E, v, rule, 'r')
    h = E.place(v)
    for o in E.call(fn, h, *args):
        w = o.read(h)
        o.ensure('not raised', lambda w=w: fle(w.acc.acc, v.acc.acc))
        o.ensure('nothing else changed', lambda w=w: And(feq(w.vel, v.vel), feq(w.pos, v.pos), w.entered == v.entered, feq(w.acc.max_acc, v.acc.max_acc),
                                                        feq(w.acc.comf_dec, v.acc.comf_dec), feq(w.acc.headway, v.acc.headway), feq(w.acc.vel_adj, v.acc.vel_adj),
                                                        w.will_queue_or_enter == v.will_queue_or_enter))


@theorem('a rule takes the minimum', params=RULES)
def minimum(E, rule):
    """the outcome is min(previous, demand) with a demand that does not depend on what was there before"""
    v = model(E)
    b = E.real('other_acc')
    fn, args = demand(E, v, rule, 'r')
    h1, h2 = E.place(v), E.place(v.put('acc.acc', b))
    for o in E.call(fn, h1, *args):
        for p in o.call(fn, h2, *args):
            x, y = p.read(h1).acc.acc, p.read(h2).acc.acc
            a = v.acc.acc
            p.ensure('same demand', lambda x=x, y=y: Or(And(feq(x, a), feq(y, b)), And(flt(x, a), feq(y, fmin(b, x))), And(flt(y, b), feq(x, fmin(a, y)))))


def pairs():
    return [(RULES[i], RULES[j]) for i in range(len(RULES)) for j in range(i, len(RULES))]


@theorem('rules commute', params=pairs())
def commute(E, r1, r2):
    v = model(E)
    f1, a1 = demand(E, v, r1, 'r')
    f2, a2 = demand(E, v, r2, 's')
    h1, h2 = E.place(v), E.place(v)
    for o in E.call(f1, h1, *a1):
        for p in o.call(f2, h1, *a2):
            for q in p.call(f2, h2, *a2):
                for z in q.call(f1, h2, *a1):
                    z.ensure('either order gives the same acceleration', lambda z=z: feq(z.read(h1).acc.acc, z.read(h2).acc.acc))


@theorem('a round starts from full throttle')
def reset(E):
    v = model(E)
    h = E.place(v)
    for o in E.call('Vehicle::reset', h):
        w = o.read(h)
        o.ensure('full throttle', lambda w=w: feq(w.acc.acc, v.acc.max_acc))
        o.ensure('nothing else changed', lambda w=w: And(feq(w.vel, v.vel), feq(w.pos, v.pos), w.will_queue_or_enter == v.will_queue_or_enter))
