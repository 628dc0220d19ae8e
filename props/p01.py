"""Conflicting signals are never open together."""
from spec import *
from lightlib import *


@theorem('a signal leaves red only when everything conflicting has cleared')
def leave_red(E):
    t, n, k, dt = controller(E)
    i, j = index(E, 'i', n), index(E, 'j', n)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        a, b, c = t.movements[i], o.read(h).movements[i], t.movements[j]
        o.ensure('conflicting movement is red past its clearance time',
                 lambda a=a, b=b, c=c: Imp(And(red(a), Not(red(b)), conflicts_with(c, i)), And(red(c), flt(c.red_time, c.since))))
        o.ensure('red goes to green only', lambda a=a, b=b: Imp(And(red(a), Not(red(b))), green(b)))


@theorem('mutual exclusion is preserved by every step')
def exclusion(E):
    t, n, k, dt = controller(E)
    i, j = index(E, 'i', n), index(E, 'j', n)
    mi, mj = t.movements[i], t.movements[j]
    E.assume(Not(i == j), conflicts_with(mi, j), conflicts_with(mj, i))
    # no phase calls for both; and they are not both showing a non-red aspect now
    E.assume(E.forall(0, k, lambda p: Not(And(bit(t.phases[p].mask, i), bit(t.phases[p].mask, j)))))
    E.assume(Or(red(mi), red(mj)))
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        a, b = l2.movements[i], l2.movements[j]
        o.ensure('not both non-red', lambda a=a, b=b: Or(red(a), red(b)))
        o.ensure('declared conflicts unchanged', lambda a=a, b=b: And(conflicts_with(a, j), conflicts_with(b, i)))


@theorem('step keeps the installation unchanged')
def frame(E):
    t, n, k, dt = controller(E)
    i, j = index(E, 'i', n), index(E, 'j', n)
    p = index(E, 'p', k)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        a, b = t.movements[i], l2.movements[i]
        o.ensure('same movements', lambda l2=l2: And(l2.movements.n == n, l2.phases.n == k))
        o.ensure('clearance, amber times and conflicts unchanged',
                 lambda a=a, b=b: And(feq(a.red_time, b.red_time), feq(a.amber_time, b.amber_time), Iff(bit(a.conflict, j), bit(b.conflict, j))))
        o.ensure('phase table unchanged', lambda l2=l2: And(feq(l2.phases[p].duration, t.phases[p].duration),
                                                            Iff(bit(l2.phases[p].mask, i), bit(t.phases[p].mask, i))))


@theorem('the data invariant is kept by every step', params=['phases', 'no phases'])
def invariant(E, how):
    ph = how == 'phases'
    t, n, k, dt = controller(E, ph)
    i = index(E, 'i', n)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        o.ensure('consistent', lambda l2=l2: consistent(l2, i, ph))


@theorem('the first phase can be added to a controller that never had one')
def first_phase(E):
    t, n, k, dt = controller(E, False)
    i = index(E, 'i', n)
    h = E.place(t)
    E.assume(t.phase == 0)
    for o in E.call('TrafficLight::add_phase', h, E.mask('m', 64), E.real('d')):
        l2 = o.read(h)
        o.ensure('consistent', lambda l2=l2: And(l2.phase == 0, l2.phases.n == 1, consistent(l2, i)))


@theorem('time in state is counted')
def clock(E):
    t, n, k, dt = controller(E)
    i = index(E, 'i', n)
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        a, b = t.movements[i], o.read(h).movements[i]
        same = Or(And(red(a), red(b)), And(amber(a), amber(b)), And(green(a), green(b)))
        o.ensure('clock runs while the aspect is held', lambda a=a, b=b, same=same: Imp(same, feq(b.since, a.since + dt)))
        o.ensure('clock restarts on a change', lambda a=a, b=b, same=same: Imp(Not(same), feq(b.since, dt)))


@theorem('new movements start red', bounded='at most 3 links per movement')
def added(E):
    n = E.int('n_movements', 0, 63)
    t = E.new('TrafficLight', 'light', links=[], phases=[], movements=E.seq_sym('light::Movement', 'mv', n))
    i = index(E, 'i', n)
    amber_t, red_t = E.real('amber'), E.real('clear')
    mask = E.mask('mask', 64)
    h = E.place(t)
    for o in E.call('rvh::add_movement', h, mask, amber_t, red_t, [E.new('LinkId', 'l%d' % x) for x in range(3)]):
        l2 = o.read(h)
        b = l2.movements[n]
        o.ensure('appended', lambda l2=l2: l2.movements.n == n + 1)
        o.ensure('starts red', lambda b=b: red(b))
        o.ensure('not yet red for any time', lambda b=b: fle(b.since, 0))
        o.ensure('keeps what it was given', lambda b=b: And(feq(b.amber_time, amber_t), feq(b.red_time, red_t),
                                                           E.forall(0, 64, lambda x: Iff(bit(b.conflict, x), bit(mask, x)))))
        a, c = t.movements[i], l2.movements[i]
        o.ensure('others untouched', lambda a=a, c=c: And(Iff(red(a), red(c)), feq(a.since, c.since)))


@theorem('small controllers, movement by movement', bounded='two movements, two phases', params=[(0, 1), (1, 0)])
def small(E, i, j):
    t = E.new('TrafficLight', 'light', links=[], movements=2, phases=2)
    E.assume(t.phase >= 0, t.phase < 2)
    dt = E.real('dt')
    E.assume(dt >= 0)
    for p in (0, 1):
        for x in (0, 1):
            E.assume(Imp(t.phase == p, And(t.movements[x].since >= 0, Not(And(bit(t.phases[p].mask, x), amber(t.movements[x]))))))
    for x in (0, 1):
        # between steps the aspect to come is the aspect that is shown
        E.assume(*[Iff(t.movements[x].next_state.is_(s), t.movements[x].state.is_(s)) for s in ('Red', 'Amber', 'Green')])
    h = E.place(t)
    for o in E.call('TrafficLight::step', h, dt):
        l2 = o.read(h)
        a, b, c = t.movements[i], l2.movements[i], t.movements[j]
        o.ensure('conflicting movement is red past its clearance time',
                 lambda a=a, b=b, c=c: Imp(And(red(a), Not(red(b)), conflicts_with(c, i)), And(red(c), flt(c.red_time, c.since))))
        o.ensure('not both non-red', lambda b=b, c=l2.movements[j]: Imp(And(conflicts_with(a, j), conflicts_with(t.movements[j], i), *[Not(And(bit(t.phases[p].mask, i), bit(t.phases[p].mask, j))) for p in (0, 1)], Or(red(a), red(t.movements[j]))), Or(red(b), red(c))))
