"""Stop-line discipline."""
from spec import *
from simlib import *

B = 'one road leading into another, at most two vehicles on it'


def crossing(E, nveh=1, **ctl):
    """road 1 leads into road 2; vehicles 1.. stand on road 1 in this order, none has been admitted to road 2"""
    vs = {k: car(E, k, route=[1, 2]) for k in range(1, nveh + 1)}
    a = road(E, 1, links_out=[2], vehicles=list(vs))
    b = road(E, 2, links_in=[1], **ctl)
    E.assume(Or(a.active, True))
    ahead(E, *vs.values())
    for v in vs.values():
        E.assume(v.pos >= 0, v.pos <= a.curve.length)
    s = sim(E, links={1: a, 2: b}, vehicles=vs, lc_update=R(0), acc_update=R('0.1'))
    return s, a, b, vs


def looked_at(v, a):
    """within the five-second look-ahead of the stop line"""
    return front(v) >= a.curve.length - 5 * a.speed_limit


def step0(E, s):
    """one step of zero length: decisions are taken, nothing moves"""
    h = E.place(s)
    return h, E.call('Simulation::step', h, R(0))


@theorem('closed road', bounded=B, params=[1, 2])
def closed(E, n):
    s, a, b, vs = crossing(E, n, control='Closed')
    h, outs = step0(E, s)
    for o in outs:
        s2 = o.read(h)
        for k, v in vs.items():
            o.ensure('vehicle %d is not admitted' % k, lambda s2=s2, k=k: s2.vehicles.at(k).entered == 1)
        w = s2.vehicles.at(n)
        for p, d in stop_demand(E, o, vs[n], a.curve.length):
            p.ensure('the first vehicle brakes for the line', lambda w=w, d=d: Imp(looked_at(vs[n], a), fle(w.acc.acc, d)))


@theorem('open road', bounded=B, params=[1, 2])
def open_(E, n):
    s, a, b, vs = crossing(E, n, control='Open')
    h, outs = step0(E, s)
    L = a.curve.length

    def commits(v):
        return room(v, L - 5) < braking(v)
    for o in outs:
        s2 = o.read(h)
        v = vs[n]
        o.ensure('the first vehicle is admitted exactly when it can no longer stop 5 m before the line',
                 lambda s2=s2, v=v: Imp(looked_at(v, a), Iff(s2.vehicles.at(n).entered == 2, commits(v))))
        if n == 2:
            w = vs[1]
            o.ensure('the next one likewise, once the first is admitted', lambda s2=s2, v=v, w=w: Imp(
                And(looked_at(w, a), looked_at(v, a), commits(v)), Iff(s2.vehicles.at(1).entered == 2, commits(w))))
            o.ensure('and not before', lambda s2=s2, v=v, w=w: Imp(And(looked_at(v, a), Not(commits(v))), s2.vehicles.at(1).entered == 1))
        o.ensure('out of sight nothing is decided', lambda s2=s2, v=v: Imp(Not(looked_at(v, a)), s2.vehicles.at(n).entered == 1))


@theorem('admission is final', bounded=B)
def final(E):
    s, a, b, vs = crossing(E, 1, control='Closed')
    v = vs[1].put('entered', 2)
    s = s.put('vehicles', {1: v})
    h, outs = step0(E, s)
    for o in outs:
        w = o.read(h).vehicles.at(1)
        o.ensure('stays admitted', lambda w=w: w.entered == 2)
        far = a.curve.length + b.curve.length
        for p, d in demands(E, o, v, ('apply_current_speed_limit', a.speed_limit), ('apply_speed_limit', b.speed_limit, a.curve.length), ('stop_at_line', far)):
            p.ensure('does not brake for the line', lambda w=w, d=d: fge(w.acc.acc, fmin(d[0], fmin(d[1], d[2]))))


@theorem('end of the road', bounded=B)
def dead_end(E):
    can = E.bool('may_exit')
    v = car(E, 1, route=[1], can_exit=can)
    a = road(E, 1, vehicles=[1])
    E.assume(v.pos >= 0, v.pos <= a.curve.length)
    s = sim(E, links={1: a}, vehicles={1: v}, lc_update=R(0), acc_update=R('0.1'))
    h, outs = step0(E, s)
    for o in outs:
        w = o.read(h).vehicles.at(1)
        for p, d in stop_demand(E, o, v, a.curve.length):
            p.ensure('stops unless it may leave', lambda w=w, d=d: Imp(And(Not(can), looked_at(v, a)), fle(w.acc.acc, d)))
        for p, d in limit_demand(E, o, v, a.speed_limit):
            p.ensure('otherwise only the limit holds it', lambda w=w, d=d: Imp(can, feq(w.acc.acc, d)))


@theorem('a line is also obeyed by vehicles admitted to the road before it', bounded='three roads in a row, one vehicle')
def upstream(E):
    v = car(E, 1, route=[1, 2, 3], entered=2)
    z = road(E, 1, links_out=[2], vehicles=[1])
    a = road(E, 2, links_in=[1], links_out=[3])
    b = road(E, 3, links_in=[2], control='Closed')
    E.assume(v.pos >= 0, v.pos <= z.curve.length)
    s = sim(E, links={1: z, 2: a, 3: b}, vehicles={1: v}, lc_update=R(0), acc_update=R('0.1'))
    h, outs = step0(E, s)
    line = z.curve.length + a.curve.length
    near = And(a.curve.length < 5 * a.speed_limit, front(v) >= line - 5 * z.speed_limit)
    for o in outs:
        w = o.read(h).vehicles.at(1)
        o.ensure('not admitted to the closed road', lambda w=w: w.entered == 2)
        for p, d in stop_demand(E, o, v, line):
            p.ensure('brakes for the far line', lambda w=w, d=d: Imp(near, fle(w.acc.acc, d)))


def queue(E):
    """a road with any number of vehicles out of any fleet, in any network; nothing has been decided yet this round"""
    n, ls = network(E)
    k, vs = fleet(E, facts=lambda v: And(v.route.n >= 1, v.will_queue_or_enter == 0, v.entered <= v.route.n, Imp(v.route.n > 1, ls.has(v.route[1]))))
    m = E.int('n_list', 0, 1 << 40)
    ids = E.keys_sym('VehicleId', 'listed', m, vs)
    me = road(E, 1, vehicles=ids)
    E.assume(E.forall(0, m, lambda i: vs.at(ids[i]).route[0].key == 1))
    # whether a gap is sufficient is P12; here the answer is arbitrary
    E.modular('can_enter')
    hv = E.place(vs)
    return ls, vs, m, ids, me, hv


def waiting(v):
    """has a next road it has not been admitted to"""
    return And(v.route.n > 1, v.entered == 1)


@theorem('any queue: nobody passes a closed line')
def any_closed(E):
    ls, vs, m, ids, me, hv = queue(E)
    i = E.int('i', 0)
    E.assume(i < m)
    v = vs.at(ids[i])
    for o in E.call('Link::apply_stoplines', E.place(me), E.place(ls), hv):
        w = o.read(hv).at(ids[i])
        o.ensure('not admitted', lambda w=w: Imp(And(waiting(v), ls.at(v.route[1]).control.is_('Closed')), w.will_queue_or_enter == 0))


@theorem('any queue: admission is in order')
def any_order(E):
    ls, vs, m, ids, me, hv = queue(E)
    i, j = E.int('i', 0), E.int('j', 0)
    E.assume(j < i, i < m)
    v = vs.at(ids[i])
    for o in E.call('Link::apply_stoplines', E.place(me), E.place(ls), hv):
        w, u = o.read(hv).at(ids[i]), o.read(hv).at(ids[j])
        o.ensure('nobody is admitted before the one in front', lambda w=w, u=u: Imp(And(waiting(v), Not(w.will_queue_or_enter == 2)), Not(u.will_queue_or_enter == 2)))
        o.ensure('nor queued', lambda w=w, u=u: Imp(And(waiting(v), Not(w.will_queue_or_enter == 2)), u.will_queue_or_enter == 0))


@theorem('any queue: the first vehicle')
def any_first(E):
    ls, vs, m, ids, me, hv = queue(E)
    E.assume(m > 0, me.active)
    v = vs.at(ids[m - 1])
    L = me.curve.length
    ctl = ls.at(v.route[1]).control
    for o in E.call('Link::apply_stoplines', E.place(me), E.place(ls), hv):
        w = o.read(hv).at(ids[m - 1])
        near = And(looked_at(v, me), waiting(v))
        o.ensure('open: admitted exactly when it can no longer stop', lambda w=w: Imp(And(near, ctl.is_('Open')), Iff(w.will_queue_or_enter == 2, room(v, L - 5) < braking(v))))
        o.ensure('give way: takes a place in the queue', lambda w=w: Imp(And(near, ctl.is_('Yield'), v.queued.is_none), Iff(w.will_queue_or_enter == 1, And(
            front(v) > L - ctl.payload('Yield', 'distance'), Or(Not(ctl.payload('Yield', 'must_stop')), v.vel < R('0.1'))))))
        o.ensure('give way: not admitted without a place', lambda w=w: Imp(And(near, ctl.is_('Yield'), v.queued.is_none), Not(w.will_queue_or_enter == 2)))
        for p, d in stop_demand(E, o, v, L):
            p.ensure('not admitted: brakes for the line', lambda w=w, d=d: Imp(And(near, Not(ctl.is_('Open')), Not(w.will_queue_or_enter == 2)), feq(w.acc.acc, fmin(v.acc.acc, d))))
            p.ensure('end of the route', lambda w=w, d=d: Imp(And(looked_at(v, me), v.route.n == 1, Not(v.can_exit)), feq(w.acc.acc, fmin(v.acc.acc, d))))


@theorem('any queue: only the ones addressed are affected')
def any_frame(E):
    ls, vs, m, ids, me, hv = queue(E)
    k = E.new('VehicleId', 'x')
    E.assume(vs.has(k))
    v = vs.at(k)
    for o in E.call('Link::apply_stoplines', E.place(me), E.place(ls), hv):
        w = o.read(hv).at(k)
        o.ensure('stop lines never speed anyone up', lambda w=w: w.acc.acc <= v.acc.acc)
        o.ensure('nothing else changes', lambda w=w: And(w.pos == v.pos, w.vel == v.vel, w.entered == v.entered, Iff(w.queued.is_some, v.queued.is_some), w.route.n == v.route.n))
        o.ensure('vehicles on other roads are left alone', lambda w=w: Imp(E.forall(0, m, lambda i: Not(ids[i].key == k.key)), And(w.acc.acc == v.acc.acc, w.will_queue_or_enter == 0)))
