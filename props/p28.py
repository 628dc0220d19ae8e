"""Merging and crossing: who gives way inside a conflict zone."""
from spec import *
from simlib import *

LEVEL = 'other'
B = 'at most two vehicles on each of the two roads'


def zone(E, same=None):
    z = {k: E.new('conflict::ConflictPointLink', 'zone%d' % k, link_id=k) for k in (1, 2)}
    for k in z:
        E.assume(z[k].min_pos < z[k].max_pos)
    c = E.new('conflict::ConflictPoint', 'cp', links=[z[1], z[2]], **({} if same is None else {'same_dir': same}))
    return z, c


def scene(E, on, same, **over):
    """vehicles on[k] (from back to front) on the roads 1 and 2"""
    z, c = zone(E, same)
    vs, ls = {}, {}
    for k in (1, 2):
        for i in on[k]:
            vs[i] = car(E, i, route=[k], **over)
        ahead(E, *[vs[i] for i in on[k]])
        ls[k] = road(E, k, vehicles=list(on[k]), active=True)
    hc, hl, hv = E.place(c), E.place(E.map_of('Link', ls)), E.place(E.map_of('Vehicle', vs))
    return z, c, vs, ls, hc, hl, hv


def rel(z, v):
    return front(v) - z.min_pos


def concerned(z, l, v):
    """close to the zone and not yet clear of it"""
    return And(front(v) >= z.min_pos - 5 * l.speed_limit, rear(v) < z.max_pos)


def run(E, hc, hl, hv):
    return E.call('conflict::ConflictPoint::apply_accelerations', hc, hl, hv)


def expect(E, o, z, same, lead, foll, zl, zf):
    """[(outcome, condition under which it is this rule, what the follower must do)]"""
    res = [(q, rear(lead) <= zl.min_pos if same else True, d) for q, d in after(E, o, foll, ('stop_at_line', zf.min_pos))]
    if same:
        res += [(q, rear(lead) > zl.min_pos, d) for q, d in after(E, o, foll, ('follow_obstacle', lead.rear_coords, lead.vel))]
    return res


@theorem('one vehicle from each side', bounded=B, params=[True, False])
def pair(E, same):
    z, c, vs, ls, hc, hl, hv = scene(E, {1: [1], 2: [2]}, same)
    a, b = vs[1], vs[2]
    both = And(concerned(z[1], ls[1], a), concerned(z[2], ls[2], b))
    for o in run(E, hc, hl, hv):
        w = o.read(hv)
        for i, j in ((1, 2), (2, 1)):
            me, he = vs[i], vs[j]
            o.ensure('the one further along has the zone %d' % i, lambda w=w, i=i, j=j: Imp(Or(Not(both), rel(z[i], vs[i]) > rel(z[j], vs[j])), w.at(i).acc.acc == vs[i].acc.acc))
            for q, when, d in expect(E, o, z, same, he, me, z[j], z[i]):
                q.ensure('the other holds back %d' % i, lambda w=w, i=i, j=j, when=when, d=d: Imp(And(both, when, rel(z[i], vs[i]) < rel(z[j], vs[j])), feq(w.at(i).acc.acc, d)))
            o.ensure('nothing else changes %d' % i, lambda w=w, i=i: And(w.at(i).vel == vs[i].vel, w.at(i).pos == vs[i].pos, w.at(i).will_queue_or_enter == vs[i].will_queue_or_enter))
        o.ensure('one of them gives way when they are level', lambda w=w: Imp(And(both, rel(z[1], a) == rel(z[2], b), a.acc.acc == a.acc.max_acc, b.acc.acc == b.acc.max_acc),
                 Or(w.at(1).acc.acc == a.acc.acc, w.at(2).acc.acc == b.acc.acc)))


@theorem('a road without traffic is no conflict', bounded=B, params=[([1, 2], []), ([], [1, 2]), ([1], []), ([], [2])])
def alone(E, one, two):
    z, c, vs, ls, hc, hl, hv = scene(E, {1: one, 2: two}, None)
    for o in run(E, hc, hl, hv):
        for k in vs:
            o.ensure('vehicle %d' % k, lambda o=o, k=k: o.read(hv).at(k).acc.acc == vs[k].acc.acc)


@theorem('three vehicles', bounded=B, params=[(w, s) for w in ('ahead', 'between', 'behind') for s in (True, False)])
def three(E, where, same):
    z, c, vs, ls, hc, hl, hv = scene(E, {1: [1, 2], 2: [3]}, same)
    r = {1: rel(z[1], vs[1]), 2: rel(z[1], vs[2]), 3: rel(z[2], vs[3])}
    E.assume(*[concerned(z[2 if k == 3 else 1], ls[2 if k == 3 else 1], vs[k]) for k in vs])
    E.assume(r[1] < r[2])
    order = {'ahead': (3, 2, 1), 'between': (2, 3, 1), 'behind': (2, 1, 3)}[where]
    for i, j in zip(order, order[1:]):
        E.assume(r[i] > r[j])
    on = lambda k: z[2 if k == 3 else 1]
    for o in run(E, hc, hl, hv):
        w = o.read(hv)
        for n, k in enumerate(order):
            lead = order[n - 1] if n else None
            if lead is None or on(lead) is on(k):
                o.ensure('vehicle %d follows its own road' % k, lambda w=w, k=k: w.at(k).acc.acc == vs[k].acc.acc)
                continue
            for q, when, d in expect(E, o, z, same, vs[lead], vs[k], on(lead), on(k)):
                q.ensure('vehicle %d gives way to the vehicle next ahead' % k, lambda w=w, k=k, when=when, d=d: Imp(when, feq(w.at(k).acc.acc, d)))


@theorem('approaching the zone from the road before', bounded='one vehicle on each side', params=[(True, 1), (False, 1), (True, 2), (False, 2)])
def before(E, same, entered):
    """vehicle 1 is still on road 3, which leads into road 1"""
    z, c = zone(E, same)
    a, b = car(E, 1, route=[3, 1], entered=entered), car(E, 2, route=[2])
    ls = {1: road(E, 1, links_in=[3], active=True), 2: road(E, 2, vehicles=[2], active=True), 3: road(E, 3, vehicles=[1], links_out=[1], active=True)}
    E.assume(z[1].min_pos >= 0)
    L = ls[3].curve.length
    E.assume(z[1].min_pos > 0)
    r1, r2 = front(a) - L - z[1].min_pos, rel(z[2], b)
    near = And(z[1].min_pos < 5 * ls[1].speed_limit, front(a) >= L + z[1].min_pos - 5 * ls[3].speed_limit, rear(a) < L + z[1].max_pos)
    both = And(near, concerned(z[2], ls[2], b))
    hc, hl, hv = E.place(c), E.place(E.map_of('Link', ls)), E.place(E.map_of('Vehicle', {1: a, 2: b}))
    for o in run(E, hc, hl, hv):
        w = o.read(hv)
        if entered == 1:
            o.ensure('not admitted, so not concerned', lambda w=w: And(w.at(1).acc.acc == a.acc.acc, w.at(2).acc.acc == b.acc.acc))
            continue
        for p, d in after(E, o, a, ('stop_at_line', L + z[1].min_pos)):
            p.ensure('waits before the zone', lambda w=w, d=d: Imp(And(both, r1 < r2, Or(not same, rear(b) <= z[2].min_pos)), feq(w.at(1).acc.acc, d)))
        if same:
            for p, d in after(E, o, a, ('follow_obstacle', b.rear_coords, b.vel)):
                p.ensure('follows the one that is in', lambda w=w, d=d: Imp(And(both, r1 < r2, rear(b) > z[2].min_pos), feq(w.at(1).acc.acc, d)))
        o.ensure('is let in', lambda w=w: Imp(And(both, r1 > r2), w.at(1).acc.acc == a.acc.acc))
        for p, d in after(E, o, b, ('stop_at_line', z[2].min_pos)):
            p.ensure('the other waits', lambda w=w, d=d: Imp(And(both, r2 < r1, Or(not same, rear(a) <= L + z[1].min_pos)), feq(w.at(2).acc.acc, d)))


@theorem('idle roads are no conflict', bounded=B)
def idle(E):
    z, c = zone(E)
    vs = {k: car(E, k, route=[k]) for k in (1, 2)}
    ls = {k: road(E, k, vehicles=[k]) for k in (1, 2)}
    E.assume(Or(Not(ls[1].active), Not(ls[2].active)))
    hc, hl, hv = E.place(c), E.place(E.map_of('Link', ls)), E.place(E.map_of('Vehicle', vs))
    for o in run(E, hc, hl, hv):
        for k in vs:
            o.ensure('vehicle %d' % k, lambda o=o, k=k: o.read(hv).at(k).acc.acc == vs[k].acc.acc)


@theorem('an idle road leaves any traffic on the other alone')
def idle_any(E):
    n, ls = network(E)
    k, vs = fleet(E)
    z, c = zone(E)
    one, two = z[1].link_id, z[2].link_id
    x = E.new('VehicleId', 'x')
    E.assume(ls.has(one), ls.has(two), Not(ls.at(one).active), vs.has(x))
    v = vs.at(x)
    hc, hl, hv = E.place(c), E.place(ls), E.place(vs)
    for o in run(E, hc, hl, hv):
        w = o.read(hv).at(x)
        o.ensure('nothing changes', lambda w=w: And(w.acc.acc == v.acc.acc, w.pos == v.pos, w.vel == v.vel, w.will_queue_or_enter == v.will_queue_or_enter))
