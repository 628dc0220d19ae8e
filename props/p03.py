"""The phase programme runs in cyclic order and every phase gets its green time."""
from spec import *
from lightlib import *


def next_phase(t, k):
    return Ite(t.phase + 1 == k, 0, t.phase + 1)


@theorem('phase advances exactly when it has been served')
def advance(E):
    t, n, k, dt = controller(E)
    h = E.place(t)
    ph = t.phases[t.phase]
    served = E.forall(0, n, lambda i: Imp(bit(ph.mask, i), And(green(t.movements[i]), fge(t.movements[i].since, ph.duration))))
    i = index(E, 'i', n)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        o.ensure('stays or moves to the next, wrapping round', lambda l2=l2: Or(l2.phase == t.phase, l2.phase == next_phase(t, k)))
        o.ensure('moves on once served', lambda l2=l2: Imp(served, l2.phase == next_phase(t, k)))
        o.ensure('does not move on early', lambda l2=l2: Imp(And(k > 1, l2.phase == next_phase(t, k)), Imp(
            bit(ph.mask, i), And(green(t.movements[i]), fge(t.movements[i].since, ph.duration)))))
        o.ensure('phase index stays valid', lambda l2=l2: And(l2.phase >= 0, l2.phase < k))


@theorem('only the current phase is called')
def called(E):
    t, n, k, dt = controller(E)
    i = index(E, 'i', n)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        a, b = t.movements[i], l2.movements[i]
        c = bit(t.phases[l2.phase].mask, i)
        o.ensure('a movement becomes green only in its phase', lambda a=a, b=b, c=c: Imp(And(Not(green(a)), green(b)), c))
        o.ensure('green is held through its phase', lambda a=a, b=b, c=c: Imp(And(green(a), c), green(b)))
        o.ensure('green is withdrawn outside its phase', lambda a=a, b=b, c=c: Imp(And(green(a), Not(c)), amber(b)))
        o.ensure('an interrupted amber returns to green', lambda a=a, b=b, c=c: Imp(And(amber(a), c), green(b)))


@theorem('a called movement turns green as soon as it is clear')
def progress(E):
    t, n, k, dt = controller(E)
    i = index(E, 'i', n)
    clear = E.forall(0, n, lambda j: Imp(conflicts_with(t.movements[j], i), And(red(t.movements[j]), flt(t.movements[j].red_time, t.movements[j].since))))
    E.assume(red(t.movements[i]), clear)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        o.ensure('turns green', lambda l2=l2: Imp(bit(t.phases[l2.phase].mask, i), green(l2.movements[i])))


@theorem('a controller without phases is harmless')
def no_phases(E):
    t, n, k, dt = controller(E, phases=False)
    i = index(E, 'i', n)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        o.ensure('everything stays red', lambda l2=l2: And(red(l2.movements[i]), Not(l2.movements[i].active)))


@theorem('phases are appended in order')
def add(E):
    t, n, k, dt = controller(E)
    p = index(E, 'p', k)
    m, d = E.mask('m', 64), E.real('d')
    i = E.int('b', 0, 63)
    h = E.place(t)
    for o in E.call('TrafficLight::add_phase', h, m, d):
        l2 = o.read(h)
        o.ensure('one more phase', lambda l2=l2: l2.phases.n == k + 1)
        o.ensure('as given', lambda l2=l2: And(feq(l2.phases[k].duration, d), Iff(bit(l2.phases[k].mask, i), bit(m, i))))
        o.ensure('others untouched', lambda l2=l2: And(feq(l2.phases[p].duration, t.phases[p].duration), Iff(bit(l2.phases[p].mask, i), bit(t.phases[p].mask, i))))
        o.ensure('current phase untouched', lambda l2=l2: l2.phase == t.phase)
