"""Giving way: who may enter a road that conflicts with another."""
from spec import *
from simlib import *

GAP = R('0.5')


def reach(E, outs, v, pos, cap):
    """[(outcome, values so far + earliest arrival)]: the vehicle's own prediction, whose meaning is contract P10"""
    res = []
    for o, ts in outs:
        h = E.place(v)
        o.st.mem[h.alloc] = E.st.mem[h.alloc]
        res += [(p, ts + [p.ret]) for p in o.call('Vehicle::min_reach_time', h, pos, cap)]
    return res


def scene(E, nother=1, other_state='entered', ctl2=None, where='on', myprio=None):
    """vehicle 1 waits on road 1 to enter road 2, which conflicts with road 3; road 4 leads into road 3.
    The other vehicles are on road 3 (where='on') or on road 4 heading for road 3 (where='before')."""
    prio = E.int('priority', -128, 127) if myprio is None else myprio
    ticket = E.int('ticket', 1, 1 << 60)
    dist = E.real('distance')
    must = E.bool('must_stop')
    ctl = E.new('TrafficControl', 'mine')
    E.assume(ctl.is_('Yield'), ctl.payload('Yield', 'priority') == prio, ctl.payload('Yield', 'distance') == dist, Iff(ctl.payload('Yield', 'must_stop'), must))
    v = car(E, 1, route=[1, 2], queued=ticket)
    others = {}
    for k in range(2, 2 + nother):
        if where == 'on':
            o = car(E, k, route=[3], entered=1)
        else:
            o = car(E, k, route=[4, 3], entered=2 if other_state == 'entered' else 1,
                    queued=E.int('ticket%d' % k, 1, 1 << 60) if other_state == 'queued' else None)
        others[k] = o
    c = E.new('conflict::LinkConflict', 'cf', link_id=3)
    E.assume(c.own_max_pos > 0, c.min_pos < c.max_pos)
    a = road(E, 1, links_out=[2], vehicles=[1])
    b = road(E, 2, links_in=[1], conflicts=[c], control=ctl, last_conflict=0)
    ks = list(others)
    r3 = road(E, 3, links_in=[4], vehicles=ks if where == 'on' else [], **({'control': ctl2} if ctl2 is not None else {}))
    r4 = road(E, 4, links_out=[3], vehicles=ks if where == 'before' else [])
    for k, o in others.items():
        E.assume(o.pos >= 0, o.pos <= (r3 if where == 'on' else r4).curve.length)
    E.assume(v.pos >= 0, v.pos <= a.curve.length)
    ahead(E, *others.values())
    vs = {1: v}
    vs.update(others)
    s = sim(E, links={1: a, 2: b, 3: r3, 4: r4}, vehicles=vs, lc_update=R(0), acc_update=R('0.1'))
    return s, v, others, c, (a, b, r3, r4), prio, ticket


def in_view(v, a):
    return front(v) >= a.curve.length - 5 * a.speed_limit


B1 = 'one conflict, one or two other vehicles'


def queueing():
    pass


@theorem('taking a place in the queue', bounded='one waiting vehicle')
def ticket(E):
    s, v, others, c, (a, b, r3, r4), prio, t = scene(E, 0)
    s = s.put('vehicles', {1: v.put('queued', None)})
    ctl = b.control
    h = E.place(s)
    for o in E.call('Simulation::step', h, R(0)):
        w = o.read(h).vehicles.at(1)
        d, must = ctl.payload('Yield', 'distance'), ctl.payload('Yield', 'must_stop')
        o.ensure('exactly when close enough and, if required, stopped', lambda w=w: Imp(in_view(v, a), Iff(
            w.queued.is_some, And(front(v) > a.curve.length - d, Or(Not(must), v.vel < R('0.1'))))))
        o.ensure('not admitted in the same round', lambda w=w: w.entered == 1)
        o.ensure('tickets are handed out in increasing order', lambda w=w, o=o: Imp(w.queued.is_some, And(
            w.queued.some > s.seq, o.read(h).seq == w.queued.some)))
        for p, dd in stop_demand(E, o, v, a.curve.length):
            p.ensure('brakes for the line meanwhile', lambda w=w, dd=dd: Imp(in_view(v, a), fle(w.acc.acc, dd)))


@theorem('crossing traffic on the road decides', bounded=B1, params=[1])
def on_road(E, n):
    s, v, others, c, (a, b, r3, r4), prio, t = scene(E, n, 'entered', 'Open', 'on')
    h = E.place(s)
    u = others[2]
    passed = rear(u) > c.max_pos
    for o in E.call('Simulation::step', h, R(0)):
        w = o.read(h).vehicles.at(1)
        ts = reach(E, reach(E, [(o, [])], v, a.curve.length + c.own_max_pos, b.speed_limit), u, c.min_pos, r3.speed_limit)
        for p, (T, U) in ts:
            p.ensure('enters only if the gap is long enough', lambda w=w, T=T, U=U: Imp(And(Not(passed), w.entered == 2), U > T + GAP))
            p.ensure('enters when it is', lambda w=w, T=T, U=U: Imp(And(in_view(v, a), Not(passed), U > T + GAP), w.entered == 2))
            p.ensure('traffic that has passed does not count', lambda w=w: Imp(And(in_view(v, a), passed), w.entered == 2))


@theorem('approaching traffic counts by right of way', bounded=B1, params=[(st, ct) for st in ('not admitted', 'queued', 'entered') for ct in ('Open', 'Closed', 'lower', 'equal', 'higher')])
def approach(E, state, other):
    ctl2 = other if other in ('Open', 'Closed') else E.new('TrafficControl', 'theirs')
    s, v, others, c, (a, b, r3, r4), prio, t = scene(E, 1, state, ctl2, 'before')
    if other in ('lower', 'equal', 'higher'):
        p2 = ctl2.payload('Yield', 'priority')
        E.assume(ctl2.is_('Yield'), {'lower': p2 < prio, 'equal': p2 == prio, 'higher': p2 > prio}[other])
    h = E.place(s)
    u = others[2]
    L4 = r4.curve.length
    cap = fmax(r3.speed_limit, r4.speed_limit)
    # does the other vehicle have to wait for us?
    theirs_waits = {'Open': False, 'higher': False, 'Closed': True, 'lower': True, 'equal': True}[other]
    for o in E.call('Simulation::step', h, R(0)):
        w = o.read(h).vehicles.at(1)
        ts = reach(E, reach(E, [(o, [])], v, a.curve.length + c.own_max_pos, b.speed_limit), u, c.min_pos + L4, cap)
        for p, (T, U) in ts:
            far = c.min_pos > (T + GAP) * r3.speed_limit
            gap = Or(far, U > T + GAP, rear(u) > c.max_pos + L4)
            if state == 'entered' or not theirs_waits:
                yields = False
            elif state == 'not admitted':
                yields = True
            elif other == 'equal':
                yields = u.queued.some > t
            else:
                yields = True
            # a queued vehicle of lower priority: its ticket is compared with 0
            p.ensure('enters only if nobody with right of way is in the way', lambda w=w, gap=gap: Imp(w.entered == 2, Or(gap, yields)))
            p.ensure('does not wait for those who must wait', lambda w=w, gap=gap: Imp(And(in_view(v, a), Or(gap, yields)), w.entered == 2))


def crossing(E):
    """a crossing road with any number of vehicles and no road leading into it"""
    n, ls = network(E)
    k, vs = fleet(E, facts=lambda v: And(v.route.n >= 1, v.entered >= 1, v.entered <= v.route.n))
    m = E.int('n_list', 0, 1 << 40)
    ids = E.keys_sym('VehicleId', 'listed', m, vs)
    me = road(E, 3, vehicles=ids)
    E.assume(E.forall(0, m, lambda i: vs.at(ids[i]).route[0].key == 3))
    return ls, vs, m, ids, me


@theorem('any traffic on the crossing road: the nearest vehicle decides')
def nearest(E):
    ls, vs, m, ids, me = crossing(E)
    lo, hi, T = E.real('from'), E.real('to'), E.real('time')
    E.assume(lo < hi, T >= 0)
    i = E.int('i', 0)
    E.assume(i < m)
    v = vs.at(ids[i])
    E.assume(rear(v) <= hi, E.forall(0, m, lambda j: Imp(j > i, rear(vs.at(ids[j])) > hi)))
    mine = E.new('VehicleId', 'any')
    q = E.bool('others may have to wait')
    qa = ('opt', (q, E.int('ticket', 0, 1 << 60)))
    pos = E.new('[f64; 2]', 'pos')
    E.assume(pos[0] == lo, pos[1] == hi)
    for o in E.call('Link::check_gap', E.place(me), E.place(ls), E.place(vs), pos, T, qa, (0, 3), R(0)):
        for p, (U,) in reach(E, [(o, [])], v, lo, me.speed_limit):
            p.ensure('its arrival is compared', lambda o=o, U=U: Iff(o.ret, U > T))


@theorem('no traffic left on the crossing road')
def nobody(E):
    ls, vs, m, ids, me = crossing(E)
    lo, hi, T = E.real('from'), E.real('to'), E.real('time')
    E.assume(lo < hi, T >= 0)
    E.assume(E.forall(0, m, lambda j: rear(vs.at(ids[j])) > hi))
    pos = E.new('[f64; 2]', 'pos')
    E.assume(pos[0] == lo, pos[1] == hi)
    qa = ('opt', (E.bool('others may have to wait'), E.int('ticket', 0, 1 << 60)))
    for o in E.call('Link::check_gap', E.place(me), E.place(ls), E.place(vs), pos, T, qa, (0, 3), R(0)):
        o.ensure('there is a gap', lambda o=o: o.ret)


def verdicts(E):
    """a road with any number of conflicts, and the verdict of each as a function of what it depends on"""
    n, ls = network(E)
    v = car(E, 1, route=[1, 2])
    cs = E.int('n_conflicts', 0, 1 << 40)
    conf = E.seq_sym('conflict::LinkConflict', 'cf', cs)
    E.assume(E.forall(0, cs, lambda k: ls.has(conf[k].link_id)))
    me = road(E, 2, conflicts=conf)
    E.assume(Imp(cs > 0, me.last_conflict < cs), me.last_conflict < 1 << 40)
    off = E.real('offset')
    rv = E.new('RelativeVehicle', 'rv', vehicle=E.place(v), route_idx=1, pos=off)
    prio, tk = E.int('priority', -128, 127), E.int('ticket', 0, 1 << 60)
    E.modular('Link::check_gap', pure=lambda a: [a[0].deref.id.key, a[3][0], a[3][1], a[4], a[5].is_some, Ite(a[5].is_some, a[5].some, 0), a[6].field('0'), a[6].field('1').key, a[7]])
    E.modular('Vehicle::min_reach_time', pure=lambda a: [a[1], a[2]])

    def gap(k):
        c = conf[k]
        l = ls.at(c.link_id)
        p2 = l.control.payload('Yield', 'priority')
        lower = Or(l.control.is_('Closed'), And(l.control.is_('Yield'), prio > p2))
        level = And(l.control.is_('Yield'), prio == p2)
        T = E.value('Vehicle::min_reach_time', [off + c.own_max_pos, me.speed_limit], v, off + c.own_max_pos, me.speed_limit) + GAP
        some, q = Or(lower, level), Ite(level, tk, 0)
        return E.value('Link::check_gap', [c.link_id.key, c.min_pos, c.max_pos, T, some, Ite(some, q, 0), 0, c.link_id.key, R(0)],
                       l, ls, {}, [c.min_pos, c.max_pos], T, ('opt', (some, q)), (0, c.link_id.key), R(0))
    return ls, me, rv, prio, tk, cs, gap


@theorem('any number of conflicts: each must leave a gap')
def each(E):
    ls, me, rv, prio, tk, cs, gap = verdicts(E)
    k = E.int('k', 0)
    E.assume(k < cs)
    h = E.place(me)
    for o in E.call('Link::can_enter', h, E.place(ls), E.place(E.map_of('Vehicle', {})), E.place(rv), tk, prio):
        o.ensure('no conflict is left out', lambda o=o: Imp(o.ret, gap(k)))
        o.ensure('remembers a conflict of the list', lambda o=o: Imp(cs > 0, o.read(h).last_conflict < cs))


@theorem('any number of conflicts: gaps everywhere suffice')
def suffices(E):
    ls, me, rv, prio, tk, cs, gap = verdicts(E)
    E.assume(E.forall(0, cs, gap))
    for o in E.call('Link::can_enter', E.place(me), E.place(ls), E.place(E.map_of('Vehicle', {})), E.place(rv), tk, prio):
        o.ensure('may enter', lambda o=o: o.ret)


@theorem('a new vehicle has no place in a queue and is admitted nowhere else')
def newcomer(E):
    a = E.new('VehicleAttributes', 'att')
    g, t, s = E.place(a), E.real('dt'), E.int('seq', 0, 1 << 60)
    E.assume(t >= 0)
    hs = E.place(TV(E, E.p.adt_ty('usize'), s))
    for o in E.call('Vehicle::new', E.new('VehicleId', 'id'), g):
        h = o.place(o.ret)
        for q in o.call('Vehicle::integrate', h, t, hs):
            q.ensure('not queued', lambda q=q: q.read(h).queued.is_none)
            q.ensure('not admitted', lambda q=q, o=o: q.read(h).entered == o.ret.entered)
