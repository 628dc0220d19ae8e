"""Signals change in the order green, amber, red and hold amber for its full time."""
from spec import *
from lightlib import *


@theorem('aspect sequence')
def sequence(E):
    t, n, k, dt = controller(E)
    i = index(E, 'i', n)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        a, b = t.movements[i], l2.movements[i]
        called = bit(t.phases[l2.phase].mask, i)
        o.ensure('never straight from green to red', lambda a=a, b=b: Imp(green(a), Not(red(b))))
        o.ensure('amber ends in red only after the full amber time', lambda a=a, b=b: Imp(And(amber(a), red(b)), fle(a.amber_time, a.since)))
        o.ensure('amber follows green only', lambda a=a, b=b: Imp(amber(b), Or(green(a), amber(a))))
        o.ensure('amber returns to green only if its phase calls for it', lambda a=a, b=b, c=called: Imp(And(amber(a), green(b)), c))
        o.ensure('amber does not outstay its time', lambda a=a, b=b, c=called: Imp(And(amber(a), fle(a.amber_time, a.since), Not(c)), red(b)))
        o.ensure('time in aspect counted from the change', lambda a=a, b=b: And(
            Imp(And(green(a), amber(b)), feq(b.since, dt)),
            Imp(And(amber(a), amber(b)), feq(b.since, a.since + dt)),
            Imp(And(red(a), red(b)), feq(b.since, a.since + dt)),
            Imp(And(green(a), green(b)), feq(b.since, a.since + dt)),
            Imp(And(Not(red(a)), red(b)), feq(b.since, dt)),
            Imp(And(Not(green(a)), green(b)), feq(b.since, dt))))
        o.ensure('amber time unchanged', lambda a=a, b=b: feq(a.amber_time, b.amber_time))


@theorem('reported aspects', bounded='3 movements')
def reported(E):
    t = E.new('TrafficLight', 'light', movements=3, phases=[], links=[])
    h = E.place(t)
    for o in E.call('rvh::states', h):
        r = o.ret
        o.ensure('one per movement', lambda r=r: r.n == 3)
        for i in range(3):
            o.ensure('reports movement %d' % i, lambda r=r, i=i: And(r[i].field('0') == i, *[
                Iff(r[i].field('1').is_(s), t.movements[i].state.is_(s)) for s in ('Red', 'Amber', 'Green')]))
