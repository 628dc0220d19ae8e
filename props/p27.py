"""Who follows whom along a road."""
from spec import *
from simlib import *

B = 'three roads, at most two vehicles per road'


def lane(E):
    """a road with any number of vehicles of any fleet on it, nobody coming in from behind"""
    k, vs = fleet(E, facts=lambda v: v.route.n >= 1)
    m = E.int('n_list', 0, 1 << 40)
    ids = E.keys_sym('VehicleId', 'listed', m, vs)
    E.assume(E.forall(0, m, lambda i: E.forall(0, m, lambda j: Imp(i < j, Not(ids[i].key == ids[j].key)))))
    me = road(E, 1, vehicles=ids)
    E.assume(E.forall(0, m, lambda i: vs.at(ids[i]).route[0].key == 1))
    return vs, m, ids, me, E.place(vs), E.place(E.map_of('Link', {1: me})), E.place(me)


@theorem('everybody follows the vehicle directly ahead')
def chain(E):
    vs, m, ids, me, hv, hl, hm = lane(E)
    i = E.int('i', 0)
    E.assume(i + 1 < m)
    v, u = vs.at(ids[i]), vs.at(ids[i + 1])
    for o in E.call('Link::apply_accelerations', hm, hl, hv):
        w = o.read(hv).at(ids[i])
        for p, d in after(E, o, v, ('follow_vehicle', rear(u), u.vel), ('apply_current_speed_limit', me.speed_limit)):
            p.ensure('obeys the leader and the limit', lambda w=w, d=d: feq(w.acc.acc, d))


@theorem('the first vehicle of a road is bound by the limit only')
def head(E):
    vs, m, ids, me, hv, hl, hm = lane(E)
    E.assume(m > 0)
    v = vs.at(ids[m - 1])
    for o in E.call('Link::apply_accelerations', hm, hl, hv):
        w = o.read(hv).at(ids[m - 1])
        for p, d in after(E, o, v, ('apply_current_speed_limit', me.speed_limit)):
            p.ensure('obeys the limit', lambda w=w, d=d: feq(w.acc.acc, d))


@theorem('vehicles elsewhere are left alone')
def others(E):
    vs, m, ids, me, hv, hl, hm = lane(E)
    k = E.new('VehicleId', 'x')
    E.assume(vs.has(k), E.forall(0, m, lambda i: Not(ids[i].key == k.key)))
    v = vs.at(k)
    for o in E.call('Link::apply_accelerations', hm, hl, hv):
        w = o.read(hv).at(k)
        o.ensure('acceleration', lambda w=w: w.acc.acc == v.acc.acc)
        o.ensure('nothing else', lambda w=w: And(w.pos == v.pos, w.vel == v.vel, w.will_queue_or_enter == v.will_queue_or_enter))


def junction(E, there, turns):
    """vehicles 1 and 2 on road 1 (2 in front) going on to the roads `turns`; vehicles `there` on road 2"""
    vs = {k: car(E, k, route=[1, t], entered=E.int('entered%d' % k, 1, 2)) for k, t in zip((1, 2), turns)}
    vs.update({k: car(E, k, route=[2]) for k in there})
    ahead(E, vs[1], vs[2])
    ahead(E, *[vs[k] for k in there])
    ls = {1: road(E, 1, vehicles=[1, 2], links_out=[2, 3], active=True), 2: road(E, 2, vehicles=there, links_in=[1]), 3: road(E, 3, links_in=[1], active=True)}
    E.assume(Imp(len(there) > 0, ls[2].active))
    hv, hl, hb = E.place(E.map_of('Vehicle', vs)), E.place(E.map_of('Link', ls)), E.place(ls[2])
    return vs, ls, hv, hl, hb


@theorem('entering a road', bounded=B, params=[(t, r) for t in ((), (3,), (3, 4)) for r in ((2, 2), (2, 3), (3, 2), (3, 3))])
def entering(E, there, turns):
    vs, ls, hv, hl, hb = junction(E, list(there), turns)
    a, b = ls[1], ls[2]
    L = a.curve.length
    sight = lambda v: front(v) >= L - 5 * a.speed_limit
    first = 2 if turns[1] == 2 else 1 if turns[0] == 2 else None
    for o in E.call('Link::apply_accelerations', hb, hl, hv):
        w = o.read(hv)
        for k in (1, 2):
            v = vs[k]
            if k != first:
                o.ensure('vehicle %d is not affected' % k, lambda w=w, k=k, v=v: w.at(k).acc.acc == v.acc.acc)
                continue
            rules = [('apply_speed_limit', b.speed_limit, L)] + ([('follow_vehicle', L + rear(vs[3]), vs[3].vel)] if there else [])
            for p, d in after(E, o, v, *rules):
                p.ensure('vehicle %d heeds the coming limit and the last vehicle there' % k, lambda w=w, k=k, v=v, d=d: Imp(And(sight(v), sight(vs[2]), b.active), feq(w.at(k).acc.acc, d)))


@theorem('far ahead', bounded='three roads in a row, one vehicle on the first and one on the last', params=[1, 2, 3])
def far(E, entered):
    """the vehicle is admitted to the first `entered` roads of its route"""
    v, u = car(E, 1, route=[1, 2, 3], entered=entered), car(E, 2, route=[3])
    ls = {1: road(E, 1, vehicles=[1], links_out=[2], active=True), 2: road(E, 2, links_in=[1], links_out=[3]), 3: road(E, 3, vehicles=[2], links_in=[2], active=True)}
    E.assume(Iff(ls[2].active, entered > 1))
    hv, hl, hb = E.place(E.map_of('Vehicle', {1: v, 2: u})), E.place(E.map_of('Link', ls)), E.place(ls[3])
    D = ls[1].curve.length + ls[2].curve.length
    near = And(ls[2].curve.length < 5 * ls[2].speed_limit, front(v) >= D - 5 * ls[1].speed_limit)
    for o in E.call('Link::apply_accelerations', hb, hl, hv):
        w = o.read(hv).at(1)
        if entered < 3:
            o.ensure('a road it is not admitted to does not concern it', lambda w=w: w.acc.acc == v.acc.acc)
            continue
        for p, d in after(E, o, v, ('apply_speed_limit', ls[3].speed_limit, D), ('follow_vehicle', D + rear(u), u.vel)):
            p.ensure('heeds what is two roads ahead', lambda w=w, d=d: Imp(near, feq(w.acc.acc, d)))


@theorem('a whole update', bounded='two roads, three vehicles')
def whole(E):
    vs = {1: car(E, 1, route=[1, 2]), 2: car(E, 2, route=[1, 2], entered=2), 3: car(E, 3, route=[2])}
    E.assume(vs[2].can_exit, vs[3].can_exit)
    ahead(E, vs[1], vs[2])
    ls = {1: road(E, 1, vehicles=[1, 2], links_out=[2], control='Open'), 2: road(E, 2, vehicles=[3], links_in=[1], control='Open')}
    h = E.place(sim(E, links=ls, vehicles=vs, lc_update=R(0), acc_update=R('0.1'), frozen=[]))
    for v in vs.values():
        E.assume(v.pos >= 0)
    L = ls[1].curve.length
    E.assume(vs[2].pos <= L, vs[3].pos <= ls[2].curve.length)
    sight = front(vs[2]) >= L - 5 * ls[1].speed_limit
    for o in E.call('Simulation::apply_accelerations', h):
        w = o.read(h).vehicles
        fresh = lambda v: v.put('acc.acc', v.acc.max_acc)
        for p, d in after(E, o, fresh(vs[3]), ('apply_current_speed_limit', ls[2].speed_limit)):
            p.ensure('the first is bound by its limit', lambda w=w, d=d: feq(w.at(3).acc.acc, d))
        for p, d in after(E, o, fresh(vs[2]), ('apply_current_speed_limit', ls[1].speed_limit), ('apply_speed_limit', ls[2].speed_limit, L), ('follow_vehicle', L + rear(vs[3]), vs[3].vel)):
            p.ensure('the second follows onto the next road', lambda w=w, d=d: Imp(sight, feq(w.at(2).acc.acc, d)))
        for p, d in after(E, o, fresh(vs[1]), ('follow_vehicle', rear(vs[2]), vs[2].vel), ('apply_current_speed_limit', ls[1].speed_limit)):
            p.ensure('the third follows the second', lambda w=w, d=d: feq(w.at(1).acc.acc, d))
