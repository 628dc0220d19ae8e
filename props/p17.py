"""Planned paths can be driven and lead towards the destination."""
from spec import *
from simlib import *

MAX = (1 << 32) - 1
B = 'networks of at most five roads'


def dists(E, name):
    return E.new('LaneDists', name)


def net(E, outs, changes=(), src=1):
    ls = {}
    for k in outs:
        ls[k] = road(E, k, links_out=list(outs[k]), links_in=[j for j in outs if k in outs[j]], lane_changes=list(changes) if k == src else [])
        E.assume(ls[k].curve.length <= 100000)
    return ls


NETS = {
    'line': ({1: (2,), 2: (3,), 3: ()}, ()),
    'fork': ({1: (2, 3), 2: (4,), 3: (4,), 4: ()}, ()),
    'lanes': ({1: (3,), 2: (4,), 3: (), 4: ()}, (2,)),
    'ring': ({1: (2,), 2: (1,)}, ()),
}


def tenths(x):
    """a distance in the unit the planner counts in"""
    return Ite(x < 0, 0, Ite(x * 10 >= MAX, MAX, whole(x * 10)))


def plus(d, x):
    return [Ite(d[i] + tenths(x) >= MAX, MAX, d[i] + tenths(x)) for i in range(4)]


def planned(ls, listed, starts, most=8):
    """{path: (condition under which it is planned, distance before its last road)}"""
    res = {}

    def go(path, dist, cond):
        last = path[-1]
        nxt = [k for k in ls_out(ls, last) if k in listed]
        far = dist >= 200
        stop = True if not nxt or len(path) == most else far
        if stop is not False:
            res[path] = (And(cond, stop), dist)
        if nxt and len(path) < most:
            for k in nxt:
                go(path + (k,), dist + ls[last].curve.length, And(cond, Not(far)))
    for s in starts:
        if s in listed:
            go((s,), R(0), True)
    return res


def ls_out(ls, k):
    o = ls[k].links_out
    return [concrete(o[i].key) for i in range(o.n)]


def concrete(x):
    return x if isinstance(x, int) else x.as_long()


@theorem('paths from the present lane and those next to it', bounded=B, params=[('line', (1, 2, 3), 3), ('line', (1, 2), 3), ('fork', (1, 2, 3, 4), 4), ('fork', (1, 3, 4), 4), ('fork', (1,), 1), ('lanes', (1, 2, 4), 4), ('lanes', (1, 3), 3)])
def paths(E, which, listed, dst):
    outs, changes = NETS[which]
    ls = net(E, outs, changes)
    m = {k: dists(E, 'd%d' % k) for k in listed}
    h = E.place(E.new('PathfindingModel', 'pf', src=E.int('before', 0, 5), dst=dst, matrix=m, paths=[E.new('vehicle::pathfinding::Path', 'stale', links=[2])]))
    want = planned(ls, listed, (1,) + changes)
    for o in E.call('PathfindingModel::set_origin', h, 1, E.place(E.map_of('Link', ls))):
        ps = o.read(h).paths
        got = {}
        for i in range(ps.n):
            got.setdefault(tuple(concrete(ps[i].links[j].key) for j in range(ps[i].links.n)), []).append(ps[i])
        o.ensure('each once', lambda got=got: all(len(x) == 1 for x in got.values()))
        for path, (cond, dist) in want.items():
            o.ensure('%s planned exactly when it should be' % (path,), lambda got=got, path=path, cond=cond: Iff(cond, path in got))
            if path in got:
                q = got[path][0]
                o.ensure('%s may leave only at the destination' % (path,), lambda q=q, path=path: Iff(q.can_exit, path[-1] == dst))
                d = plus(m[path[-1]].field('0'), dist)
                o.ensure('%s distances left' % (path,), lambda q=q, d=d: And(*[q.dists.field('0')[i] == d[i] for i in range(4)]))
        for path in got:
            if path not in want:
                o.ensure('%s can be driven' % (path,), lambda: False)
        o.ensure('origin', lambda o=o: And(o.read(h).src.key == 1, o.read(h).dst.key == dst))


@theorem('taking a path', bounded='routes and paths of at most three roads', params=[(r, p) for r in ((1,), (1, 2), (1, 2, 3)) for p in ((1, 2, 3), (1, 3), (4, 2), (1, 2))])
def take(E, route, path):
    v = sane(E, vehicle(E, 1, route=list(route), entered=E.int('entered', 1, 4), lane_change=None))
    p = E.new('vehicle::pathfinding::Path', 'p', links=list(path))
    hv, hp = E.place(v), E.place(p)
    same = 0
    while same < min(len(route), len(path)) and route[same] == path[same]:
        same += 1
    for o in E.call('Vehicle::set_path', hv, hp):
        w = o.read(hv)
        o.ensure('is the route', lambda w=w: And(w.route.n == len(path), *[w.route[i].key == k for i, k in enumerate(path)]))
        o.ensure('admissions hold for the common part', lambda w=w: w.entered == Ite(v.entered < same, v.entered, same))
        o.ensure('a place in a queue holds for the same road', lambda w=w: And(Imp(v.entered >= same, w.queued.is_none), Imp(v.entered < same, And(Iff(w.queued.is_some, v.queued.is_some), Imp(v.queued.is_some, w.queued.some == v.queued.some)))))
        o.ensure('leaves as planned', lambda w=w: Iff(w.can_exit, p.can_exit))
        o.ensure('nothing else', lambda w=w: And(w.pos == v.pos, w.vel == v.vel, w.acc.acc == v.acc.acc))


@theorem('taking a path of any length')
def take_any(E):
    n, m = E.int('n_route', 1, 1 << 40), E.int('n_path', 1, 8)
    rs, ps = E.seq_sym('LinkId', 'route', n), E.seq_sym('LinkId', 'link', m)
    v = sane(E, vehicle(E, 1, route=rs, lane_change=None))
    E.assume(v.entered >= 1)
    p = E.new('vehicle::pathfinding::Path', 'p', links=ps)
    same, i = E.int('same', 0), E.int('i', 0)
    E.assume(same <= n, same <= m, E.forall(0, same, lambda k: rs[k].key == ps[k].key), Or(same == n, same == m, Not(rs[same].key == ps[same].key)), i < m)
    hv, hp = E.place(v), E.place(p)
    for o in E.call('Vehicle::set_path', hv, hp):
        w = o.read(hv)
        o.ensure('is the route', lambda w=w: And(w.route.n == m, w.route[i].key == ps[i].key))
        o.ensure('admissions hold for the common part', lambda w=w: w.entered == Ite(v.entered < same, v.entered, same))
        o.ensure('a place in a queue holds for the same road', lambda w=w: And(Imp(v.entered >= same, w.queued.is_none), Imp(v.entered < same, And(Iff(w.queued.is_some, v.queued.is_some), Imp(v.queued.is_some, w.queued.some == v.queued.some)))))
        o.ensure('leaves as planned', lambda w=w: Iff(w.can_exit, p.can_exit))
        o.ensure('nothing else', lambda w=w: And(w.pos == v.pos, w.vel == v.vel, w.acc.acc == v.acc.acc))


@theorem('the cheapest path is taken', bounded='three paths', params=[((1, 2), (1, 3), (1, 4), (1, 2)), ((1, 2), (1, 3), (1, 4), (1,)), ((1, 2), (1, 3), (1, 4), (1, 3)), ((1, 2), (5, 3), (5, 4), (1, 2))])
def choose(E, a, b, c, route):
    ps = [E.new('vehicle::pathfinding::Path', 'p%d' % i, links=list(l)) for i, l in enumerate((a, b, c))]
    v = car(E, 1, route=list(route), pathfind__paths=ps)
    q, g = two_lanes(E)
    ls = {k: road(E, k, **({'group': g} if k in (1, 5) else {})) for k in (1, 2, 3, 4, 5)}
    E.assume(v.pos >= 0)
    E.modular('Vehicle::evaluate_path', pure=lambda a: [a[1].deref.links[0].key, a[1].deref.links[1].key])
    hv, hl, hp = E.place(v), E.place(E.map_of('Link', ls)), [E.place(p) for p in ps]
    todo = [(E, [])]
    for h in hp:
        todo = [(q, cs + [q.ret]) for o, cs in todo for q in o.call('Vehicle::evaluate_path', hv, h, hl)]
    for q, cs in todo:
        for o in q.call('rvh::choice', hv, hl):
            r = o.ret
            for i, p in enumerate((a, b, c)):
                best = And(*[cs[i] < cs[j] for j in range(3) if j != i])
                if tuple(p) == tuple(route):
                    o.ensure('path %d: nothing to change' % i, lambda r=r, best=best: Imp(best, r.is_none))
                else:
                    o.ensure('path %d' % i, lambda r=r, best=best, p=p: Imp(best, And(r.is_some, r.some.n == len(p), r.some[0].key == p[0], r.some[1].key == p[1]) if r.is_some is not False else False))


def cost(d, pos):
    """what it costs to be at pos with distances d left for 0, 1, 2, 3 lane changes"""
    x = [R(i + 1) / (R('0.1') * real(d[i]) - pos) for i in range(4)]
    return 1000 * fmax(fmax(x[0], x[1]), fmax(x[2], x[3]))


@theorem('the less distance is left, the more a path costs')
def costs(E):
    p = E.new('vehicle::pathfinding::Path', 'p', links=[1, 2])
    v = car(E, 1, route=[1])
    d = p.dists.field('0')
    E.assume(v.pos >= 0)
    for i in range(4):
        E.assume(R('0.1') * real(d[i]) > v.pos + R('0.001'))
    for o in E.call('Vehicle::evaluate_path', E.place(v), E.place(p), E.place(E.map_of('Link', {1: road(E, 1)}))):
        o.ensure('cost', lambda o=o: And(fle(real(o.ret), cost(d, v.pos)), fle(cost(d, v.pos), real(o.ret) + 1)))


@theorem('no new path during a lane change', bounded='one path')
def busy(E):
    p = E.new('vehicle::pathfinding::Path', 'p', links=[1, 2])
    v = car(E, 1, route=[1], lane_change=E.new('LaneChange', 'lc'), pathfind__paths=[p])
    for o in E.call('Vehicle::choose_path', E.place(v), E.place(E.map_of('Link', {1: road(E, 1)}))):
        o.ensure('none', lambda o=o: o.ret.is_none)


@theorem('distances along a route', bounded=B, params=[('line', (1, 2, 3), 3), ('fork', (1, 3, 4), 4), ('line', (1, 2), 2)])
def matrix(E, which, route, dst):
    outs, _ = NETS[which]
    ls = net(E, outs)
    h = E.place(E.new('PathfindingModel', 'pf', src=1, dst=dst, matrix={2: dists(E, 'stale')}, paths=[]))
    hl = E.place(E.map_of('Link', ls))
    for o in E.call('PathfindingModel::calc_lane_matrix', h, E.slice_of('LinkId', list(route)), hl):
        m = o.read(h).matrix
        for k in outs:
            if k in route:
                o.ensure('road %d leads to the destination' % k, lambda m=m, k=k: m.has(k))
                if m.has(k) is not False:
                    o.ensure('road %d needs no lane change' % k, lambda m=m, k=k: And(*[m.at(k).field('0')[i] == MAX for i in range(4)]))
            else:
                o.ensure('road %d is not on the way' % k, lambda m=m, k=k: Not(m.has(k)))


def full(E, ls):
    """further roads so that the numbers have no gap"""
    return {k: ls[k] if k in ls else road(E, k) for k in range(1, max(ls) + 1)}


def two_lanes(E, mask=None, **over):
    """lanes 1 and 5 of one road"""
    q = {k: E.new('ProjectedSample', 'q%d' % k) for k in (1, 5)}
    g = E.new('LinkGroup', 'g', links=[1, 5], lc_mask=E.mask('mask', 32) if mask is None else mask,
              projections=[E.new('LinkProjection', 'to%d' % d, dst=d, samples=[q[d]], inv_segment_len=R('0.5')) for d in (5, 1)])
    return q, E.place(g)


@theorem('changing lanes costs a little more', bounded='two lanes, a lane table of one entry')
def other_lane(E):
    q, g = two_lanes(E)
    p = E.new('vehicle::pathfinding::Path', 'p', links=[5, 2])
    v = car(E, 1, route=[1])
    d, x = p.dists.field('0'), q[5].pos
    E.assume(v.pos >= 0)
    for i in range(4):
        E.assume(R('0.1') * real(d[i]) > x + R('0.001'))
    for o in E.call('Vehicle::evaluate_path', E.place(v), E.place(p), E.place(E.map_of('Link', {1: road(E, 1, group=g)}))):
        o.ensure('cost where it would be on the other lane', lambda o=o: And(fle(real(o.ret), cost(d, x) + 5), fle(cost(d, x) + 5, real(o.ret) + 1)))


@theorem('distances across lanes', bounded='two lanes', params=[True, False])
def across(E, change):
    """lane 1 ends; lane 5 leads to the destination 6; only changes from 1 to 5 can be permitted"""
    q, g = two_lanes(E, mask=2 if change else 0)
    ls = full(E, {1: road(E, 1, group=g), 5: road(E, 5, group=g, links_out=[6]), 6: road(E, 6, links_in=[5])})
    L = ls[1].curve.length
    E.assume(L <= 100000)
    h = E.place(E.new('PathfindingModel', 'pf', src=1, dst=6, matrix={}, paths=[]))
    hl = E.place(E.map_of('Link', ls))
    for o in E.call('PathfindingModel::calc_lane_matrix', h, E.slice_of('LinkId', [1, 6]), hl):
        m = o.read(h).matrix
        for k in (5, 6):
            o.ensure('lane %d leads to the destination' % k, lambda m=m, k=k: m.has(k))
            if m.has(k) is not False:
                o.ensure('lane %d without a change' % k, lambda m=m, k=k: And(*[m.at(k).field('0')[i] == MAX for i in range(4)]))
        o.ensure('lane 1 only if it can be left', lambda m=m: Iff(m.has(1), change))
        if change and m.has(1) is not False:
            d = m.at(1).field('0')
            o.ensure('lane 1 has to be left before its end', lambda d=d: And(d[0] == tenths(L), *[d[i] == MAX for i in (1, 2, 3)]))


@theorem('the chosen path is driven', bounded='one vehicle, two lanes, one path', params=[(1, 2), (5, 6)])
def driven(E, a, b):
    q, g = two_lanes(E)
    p = E.new('vehicle::pathfinding::Path', 'p', links=[a, b])
    v = car(E, 1, route=[1], pathfind__paths=[p], pathfind__matrix={1: dists(E, 'd1'), 5: dists(E, 'd5')})
    E.assume(v.pos >= 0)
    E.modular('LinkCurve::inverse_sample', lambda a, r: [r.is_some], note='the vehicle is assumed to have a place on the neighbouring lane (not proved)')
    E.modular('Vehicle::evaluate_path')
    ls = full(E, {1: road(E, 1, group=g, vehicles=[1], links_out=[2], lane_changes=[5]), 2: road(E, 2, links_in=[1]), 5: road(E, 5, group=g, links_out=[6]), 6: road(E, 6, links_in=[5])})
    h = E.place(sim(E, links=ls, vehicles={1: v}, lc_update=R('0.3')))
    for o in E.call('Simulation::calculate_lane_changes', h):
        w, l = o.read(h).vehicles.at(1), o.read(h).links
        o.ensure('route', lambda w=w: And(w.route.n == 2, w.route[0].key == a, w.route[1].key == b))
        o.ensure('leaves as planned', lambda w=w: Iff(w.can_exit, p.can_exit))
        o.ensure('changes lane if needed', lambda w=w: w.lane_change.is_some if a == 5 else w.lane_change.is_none)
        for k in (1, 5):
            o.ensure('listed with lane %d' % k, lambda l=l, k=k: Iff(among(l.at(k).vehicles, 1), k == a))
        o.ensure('clock', lambda o=o: o.read(h).lc_update == 0)


def walks(outs, src, dst):
    """all simple walks"""
    res = []

    def go(p):
        if p[-1] == dst:
            res.append(tuple(p))
            return
        for k in outs[p[-1]]:
            if k not in p:
                go(p + [k])
    go([src])
    return res


GRAPHS = [({1: (2,), 2: (3,), 3: ()}, 3), ({1: (2, 3), 2: (4,), 3: (4,), 4: ()}, 4), ({1: (2, 3), 2: (4,), 3: (), 4: (5,), 5: ()}, 3), ({1: (2,), 2: (), 3: (4,), 4: ()}, 4), ({1: (2,), 2: (1, 3), 3: ()}, 3), ({1: (2, 3), 2: (3,), 3: (4,), 4: ()}, 4)]


@theorem('a new destination', bounded=B, params=list(range(len(GRAPHS))))
def destination(E, i):
    outs, dst = GRAPHS[i]
    ls = net(E, outs)
    for l in ls.values():
        E.assume(l.cost <= 1 << 40)
    v = car(E, 1, route=[1], pathfind__src=1)
    h = E.place(sim(E, links=ls, vehicles={1: v}))
    ways = walks(outs, 1, dst)
    # the cost of a way is that of the roads that are driven to their end
    price = {w: sum([ls[k].cost for k in w[:-1]]) for w in ways}
    for o in E.call('Simulation::set_vehicle_destination', h, 1, dst):
        w = o.read(h).vehicles.at(1)
        m, ps = w.pathfind.matrix, w.pathfind.paths
        o.ensure('remembered', lambda w=w: w.pathfind.dst.key == dst)
        o.ensure('does not leave before', lambda w=w: Not(w.can_exit))
        got = [tuple(concrete(ps[j].links[t].key) for t in range(ps[j].links.n)) for j in range(ps.n)]
        best = lambda p: And(*[price[p] <= price[q] for q in ways if q != p])
        if not ways:
            o.ensure('no way, no path to it', lambda got=got: all(p[-1] != dst for p in got))
            continue
        o.ensure('a path is planned', lambda got=got: len(got) > 0)
        for p in got:
            o.ensure('%s uses the roads of a cheapest way' % (p,), lambda p=p: Or(*[best(w) for w in ways if set(p) <= set(w)]))
        for j, p in enumerate(got):
            o.ensure('%s leaves at the destination only' % (p,), lambda ps=ps, j=j, p=p: Iff(ps[j].can_exit, p[-1] == dst))


@theorem('routes of a network', bounded=B, params=list(range(len(GRAPHS))))
def routes(E, i):
    outs, _ = GRAPHS[i]
    h = E.place(sim(E, links=net(E, outs)))
    srcs = [k for k in outs if not any(k in x for x in outs.values())]
    want = [(s, d) for s in srcs for d in outs if not outs[d] and walks(outs, s, d)]
    for o in E.call('rvh::routes', h):
        got = [(concrete(o.ret[j].field('0').key), concrete(o.ret[j].field('1').key)) for j in range(o.ret.n)]
        o.ensure('from every entrance to every exit it leads to', lambda got=got: sorted(set(got)) == sorted(want))


@theorem('changing lanes on the way', bounded='two lanes', params=[True, False])
def lane_way(E, change):
    """the vehicle is on lane 1, which leads nowhere; lane 5 leads to the destination 6"""
    q, g = two_lanes(E, mask=2 if change else 0)
    ls = full(E, {1: road(E, 1, group=g, lane_changes=[5] if change else []), 5: road(E, 5, group=g, links_out=[6]), 6: road(E, 6, links_in=[5])})
    E.assume(*[l.cost <= 1 << 40 for l in ls.values()], *[l.curve.length <= 100000 for l in ls.values()])
    v = car(E, 1, route=[1], pathfind__src=1)
    h = E.place(sim(E, links=ls, vehicles={1: v}))
    for o in E.call('Simulation::set_vehicle_destination', h, 1, 6):
        ps = o.read(h).vehicles.at(1).pathfind.paths
        got = [tuple(concrete(ps[j].links[t].key) for t in range(ps[j].links.n)) for j in range(ps.n)]
        o.ensure('over the other lane exactly if it may be changed to', lambda got=got: ((5, 6) in got or (5,) in got) == change)
    for o in E.call('rvh::routes', h):
        got = [(concrete(o.ret[j].field('0').key), concrete(o.ret[j].field('1').key)) for j in range(o.ret.n)]
        o.ensure('routes', lambda got=got: ((1, 6) in got) == change and (5, 6) in got)


@theorem('the destination is the lane next to the one the way leads to', bounded='two lanes and the road before them', params=[(s, c) for s in (1, 2) for c in (True, False)])
def last_change(E, src, change):
    """road 2 leads to lane 1; the destination is lane 5 beside it"""
    q, g = two_lanes(E, mask=2 if change else 0)
    ls = full(E, {1: road(E, 1, group=g, lane_changes=[5] if change else [], links_in=[2]), 2: road(E, 2, links_out=[1]), 5: road(E, 5, group=g)})
    E.assume(*[l.cost <= 1 << 40 for l in ls.values()], *[l.curve.length <= 100 for l in ls.values()])
    v = car(E, 1, route=[src], pathfind__src=src, pathfind__matrix={}, pathfind__paths=[])
    h = E.place(sim(E, links=ls, vehicles={1: v}))
    for o in E.call('Simulation::set_vehicle_destination', h, 1, 5):
        w = o.read(h).vehicles.at(1).pathfind
        ps = w.paths
        got = [tuple(concrete(ps[j].links[t].key) for t in range(ps[j].links.n)) for j in range(ps.n)]
        want = [] if not change else [(1,), (5,)] if src == 1 else [(2, 1)]
        o.ensure('planned exactly if the lane may be changed', lambda got=got, want=want: sorted(got) == sorted(want))
        for j, p in enumerate(got):
            o.ensure('%s leaves at the destination only' % (p,), lambda ps=ps, j=j, p=p: Iff(ps[j].can_exit, p[-1] == 5))


@theorem('of several ways on the one that leaves more room counts', bounded='two lanes and the road before them', params=[(1, 5), (5, 1)])
def best_way_on(E, a, b):
    """road 2 leads to lane 1, which ends, and to lane 5, which leads to the destination 6"""
    q, g = two_lanes(E, mask=2)
    ls = full(E, {1: road(E, 1, group=g, links_in=[2]), 2: road(E, 2, links_out=[a, b]), 5: road(E, 5, group=g, links_in=[2], links_out=[6]), 6: road(E, 6, links_in=[5])})
    E.assume(*[l.curve.length <= 100000 for l in ls.values()])
    h = E.place(E.new('PathfindingModel', 'pf', src=2, dst=6, matrix={}, paths=[]))
    hl = E.place(E.map_of('Link', ls))
    for o in E.call('PathfindingModel::calc_lane_matrix', h, E.slice_of('LinkId', [2, 5, 6]), hl):
        m = o.read(h).matrix
        o.ensure('road 2 leads to the destination', lambda m=m: m.has(2))
        if m.has(2) is not False:
            o.ensure('no lane change is needed from road 2', lambda m=m: And(*[m.at(2).field('0')[i] == MAX for i in range(4)]))
