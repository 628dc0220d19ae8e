"""Every vehicle is listed on exactly the road it is on."""
from spec import *
from simlib import *

B = 'two roads, at most three vehicles'


def listed(s, road, key):
    """how often the vehicle is listed on the road"""
    return sum([Ite(x.key == key, 1, 0) for x in s.links.at(road).vehicles], 0)


def world(E, lists, **over):
    vs, ls = {}, {}
    for r, ks in lists.items():
        for k in ks:
            vs[k] = car(E, k, route=[r] + over.get('then', {}).get(k, []))
        ls[r] = road(E, r, vehicles=ks)
        ahead(E, *[vs[k] for k in ks])
    s = sim(E, links=ls, vehicles=vs, lc_update=R(0), acc_update=R(0), frozen=[])
    return s, vs, ls


def wellformed(o, s, roads, keys):
    for k in keys:
        v = s.vehicles.at(k)
        for r in roads:
            o.ensure('vehicle %d is on the list of road %d exactly if it is there, once' % (k, r),
                     lambda s=s, v=v, r=r, k=k: listed(s, r, k) == Ite(v.route[0].key == r, 1, 0))


def ordered(s, r):
    l = [x.key for x in s.links.at(r).vehicles]
    return [(s.vehicles.at(a), s.vehicles.at(b)) for a, b in zip(l, l[1:])]


@theorem('adding a vehicle', bounded=B)
def add(E):
    s, vs, ls = world(E, {1: [1, 2], 2: [3]})
    a = E.new('VehicleAttributes', 'at')
    h = E.place(s)
    for o in E.call('Simulation::add_vehicle', h, E.place(a), 1):
        s2 = o.read(h)
        k = o.ret.key
        o.ensure('a new identity', lambda k=k: And(Not(k == 1), Not(k == 2), Not(k == 3)))
        v = s2.vehicles.at(k)
        o.ensure('starts at the beginning of the road', lambda v=v: And(v.pos == 0, v.vel == 0, v.route.n == 1, v.route[0].key == 1, v.entered == 1))
        o.ensure('knows its identity', lambda v=v, k=k: v.id.key == k)
        wellformed(o, s2, [1, 2], [1, 2, 3, k])
        for x, y in ordered(s2, 1):
            o.ensure('the list stays in order of position', lambda x=x, y=y: x.pos <= y.pos)


@theorem('removing a vehicle', bounded=B, params=[1, 2, 3, 9])
def remove(E, k):
    s, vs, ls = world(E, {1: [1, 2], 2: [3]})
    h = E.place(s)
    for o in E.call('Simulation::remove_vehicle', h, k):
        s2 = o.read(h)
        left = [x for x in (1, 2, 3) if x != k]
        o.ensure('only that vehicle is gone', lambda s2=s2: sorted(s2.vehicles.keys()) == left)
        wellformed(o, s2, [1, 2], left)
        for r in (1, 2):
            o.ensure('not listed on road %d any more' % r, lambda s2=s2, r=r: listed(s2, r, k) == 0)
            o.ensure('the others keep their order on road %d' % r, lambda s2=s2, r=r: [x.key for x in s2.links.at(r).vehicles] == [x for x in {1: [1, 2], 2: [3]}[r] if x != k])


@theorem('moving on to the next road', bounded=B, params=[((1, 2), (3,)), ((2, 1), (3,)), ((1,), (3, 2)), ((1, 2, 3), ())])
def drive(E, first, second):
    then = {k: [2] for k in first}
    s, vs, ls = world(E, {1: list(first), 2: list(second)}, then=then)
    dt = E.real('dt')
    E.assume(dt >= 0)
    for v in vs.values():
        E.assume(v.pos >= 0)
    h = E.place(s)
    for o in E.call('Simulation::step', h, dt):
        s2 = o.read(h)
        here = s2.vehicles.keys()
        wellformed(o, s2, [1, 2], here)
        for k in (1, 2, 3):
            v, L = vs[k], ls[1 if k in first else 2].curve.length
            u = fmax(v.vel + dt * fmax(v.acc.acc, R(-6)), R(0))
            past = v.pos + (v.vel + u) / 2 * dt > L
            if k in here:
                w = s2.vehicles.at(k)
                if k in first:
                    o.ensure('vehicle %d moves on exactly when past the end of its road' % k, lambda w=w, past=past: Iff(w.route[0].key == 2, past))
                else:
                    o.ensure('vehicle %d stays while on its road' % k, lambda past=past: Not(past))
            else:
                o.ensure('vehicle %d leaves only from its last road, past the end' % k, lambda past=past, k=k: And(past, k in second))
                for r in (1, 2):
                    o.ensure('vehicle %d is not listed on road %d any more' % (k, r), lambda s2=s2, r=r, k=k: listed(s2, r, k) == 0)


@theorem('changing lanes', bounded=B, params=[((1, 2), (3,), 1), ((1, 2), (), 2), ((1,), (2, 3), 1)])
def change(E, first, second, k):
    s, vs, ls = world(E, {1: list(first), 2: list(second)})
    E.modular('project_point_onto_curve')
    E.panic_ok.append('unwrap')
    d = E.real('distance')
    h = E.place(s)
    for o in E.call('Simulation::do_lane_change', h, k, 2, d):
        s2 = o.read(h)
        wellformed(o, s2, [1, 2], [1, 2, 3][:len(first) + len(second)])
        o.ensure('it is on the other road', lambda s2=s2: And(s2.vehicles.at(k).route[0].key == 2, s2.vehicles.at(k).route.n == 1))
        for x, y in ordered(s2, 2):
            o.ensure('the list stays in order of position', lambda x=x, y=y: x.pos <= y.pos)


def lane(E):
    """a road with any number of vehicles out of any fleet, in order of position"""
    n, vs = fleet(E)
    m = E.int('n_list', 0, 1 << 40)
    ids = E.keys_sym('VehicleId', 'listed', m, vs)
    l = road(E, 1, vehicles=ids)
    k = E.new('VehicleId', 'x')
    return vs, m, ids, l, k


@theorem('a vehicle is inserted in order of position')
def insert(E):
    vs, m, ids, l, k = lane(E)
    E.assume(vs.has(k), E.forall(0, m, lambda i: E.forall(0, m, lambda j: Imp(i < j, vs.at(ids[i]).pos <= vs.at(ids[j]).pos))))
    h = E.place(l)
    for o in E.call('Link::insert_vehicle', h, E.place(vs), k):
        q = o.read(h).vehicles
        o.ensure('one more', lambda q=q: q.n == m + 1)
        i, j, t = E.int('i', 0), E.int('j', 0), E.int('t', 0)
        o.ensure('the order stays by position', lambda q=q: Imp(And(i < j, j < q.n), vs.at(q[i]).pos <= vs.at(q[j]).pos))
        o.ensure('the others keep their order', lambda q=q: Imp(i < m, Or(q[i].key == ids[i].key, q[i + 1].key == ids[i].key)))
        o.ensure('nobody else is added', lambda q=q: Imp(i < q.n, Or(q[i].key == k.key, And(i < m, q[i].key == ids[i].key), And(i > 0, q[i].key == ids[i - 1].key))))
        o.ensure('it is listed before exactly those ahead of it', lambda q=q: Imp(And(i < q.n, q[i].key == k.key, E.forall(0, m, lambda j: Not(ids[j].key == k.key))), And(
            Imp(And(j < i), vs.at(q[j]).pos <= vs.at(k).pos), Imp(And(j > i, j < q.n), vs.at(q[j]).pos >= vs.at(k).pos))))


@theorem('a vehicle is removed from the list of its road')
def delist(E):
    vs, m, ids, l, k = lane(E)
    h = E.place(l)
    i = E.int('i', 0)
    for o in E.call('Link::remove_vehicle', h, k):
        q = o.read(h).vehicles
        o.ensure('not listed any more', lambda q=q: Imp(i < q.n, Not(q[i].key == k.key)))
        o.ensure('only it goes', lambda q=q: Imp(And(i < m, Not(ids[i].key == k.key)), Or(And(i < q.n, q[i].key == ids[i].key), And(i > 0, q[i - 1].key == ids[i].key))))
        o.ensure('nobody is added', lambda q=q: Imp(i < q.n, Or(And(i < m, q[i].key == ids[i].key), And(i + 1 < m, q[i].key == ids[i + 1].key))))
