"""The road network: connections and conflicts are recorded on both sides."""
from spec import *
from simlib import *

ASSUMES = ['where samples of two roads are left open, the roads differ in length (the length stands for the road)']


@theorem('connecting two roads')
def connect(E):
    n, ls = network(E, links_in=lambda k: E.tail('LinkId', 'L.in', k), links_out=lambda k: E.tail('LinkId', 'L.out', k))
    a, b, x = [E.new('LinkId', k) for k in ('a', 'b', 'x')]
    E.assume(ls.has(a), ls.has(b), ls.has(x))
    h = E.place(sim(E, links=ls))
    la, lb, lx = ls.at(a), ls.at(b), ls.at(x)
    for o in E.call('Simulation::add_link_connection', h, a, b):
        w = o.read(h).links
        wa, wb, wx = w.at(a), w.at(b), w.at(x)
        o.ensure('the one leads to the other', lambda: And(wa.links_out.n == la.links_out.n + 1, wa.links_out[la.links_out.n].key == b.key))
        o.ensure('the other is reached from the one', lambda: And(wb.links_in.n == lb.links_in.n + 1, wb.links_in[lb.links_in.n].key == a.key))
        o.ensure('nothing else is connected', lambda: And(Imp(x.key != a.key, wx.links_out.n == lx.links_out.n), Imp(x.key != b.key, wx.links_in.n == lx.links_in.n)))
        o.ensure('roads keep their shape and limit', lambda: And(wx.speed_limit == lx.speed_limit, wx.curve.length == lx.curve.length, wx.active == lx.active))


@theorem('a conflict is recorded with both roads')
def mirrored(E):
    z = {k: E.new('conflict::ConflictPointLink', 'zone%d' % k, link_id=k) for k in (1, 2)}
    h = E.place(E.new('conflict::ConflictPoint', 'cp', links=[z[1], z[2]]))
    for o in E.call('rvh::mirrored', h):
        o.ensure('two records', lambda o=o: o.ret.field('2') == 2)
        f, g = o.ret.field('0'), o.ret.field('1')

        def record(r, me, you):
            c = r.field('1')
            return And(r.field('0').key == me, c.link_id.key == you, c.own_max_pos == z[me].max_pos, c.min_pos == z[you].min_pos, c.max_pos == z[you].max_pos)
        o.ensure('each names the other road and its zone', lambda: Or(And(record(f, 1, 2), record(g, 2, 1)), And(record(f, 2, 1), record(g, 1, 2))))


@theorem('declaring two roads to converge', bounded='three roads')
def converge(E):
    ls = {k: road(E, k) for k in (1, 2, 3)}
    E.modular('ConflictPoint::new', lambda a, r: [Imp(r.is_some, And(r.some.links[0].link_id.key == a[0].deref.id.key, r.some.links[1].link_id.key == a[1].deref.id.key))], note='a conflict names its two roads in order (proved: a conflict needs a zone on both roads)')
    h = E.place(sim(E, links=ls))
    for o in E.call('Simulation::add_link_convergance', h, 1, 2):
        w, cs = o.read(h).links, o.read(h).conflicts
        o.ensure('at most one conflict', lambda cs=cs: cs.n <= 1)
        o.ensure('others have none', lambda w=w: w.at(3).conflicts.n == 0)
        for me, you in ((1, 2), (2, 1)):
            o.ensure('recorded with road %d' % me, lambda w=w, cs=cs, me=me: w.at(me).conflicts.n == cs.n)
            if cs.n == 1:
                c, z = w.at(me).conflicts[0], cs[0].links
                o.ensure('road %d names the zone of the other' % me, lambda c=c, z=z, me=me, you=you: And(c.link_id.key == you, c.own_max_pos == z[me - 1].max_pos, c.min_pos == z[you - 1].min_pos, c.max_pos == z[you - 1].max_pos))


def sampled(E):
    """a sample of a centre line depends on the road and the position only (P20)"""
    E.modular('LinkCurve::sample_centre', pure=lambda a: [a[0].deref.length, a[1]])


def two(E):
    a, b = road(E, 1), road(E, 2)
    # the lengths stand for the roads below
    E.assume(a.curve.length != b.curve.length)
    # inputs to try on the compiled code: roads close to each other
    if E.mode == 'sym':
        E.hints += [c for l in (a, b) for q in (0, 1, 2) for w in ('x', 'y') for c in (getattr(l.curve.segments[0].points[q], w) <= 3, getattr(l.curve.segments[0].points[q], w) >= -3)]
    return a, b


@theorem('a conflict needs a zone on both roads')
def both(E):
    a, b = two(E)
    sampled(E)
    f = lambda k, ty, x, y: E.app('zone_' + k, ty, [x.curve.length, y.curve.length])

    def is_zone(r, x, y):
        return [Iff(r.is_some, f('some', 'bool', x, y)), Imp(r.is_some, And(r.some.link_id.key == x.id.key, r.some.min_pos == f('min', 'f64', x, y), r.some.max_pos == f('max', 'f64', x, y)))]
    E.modular('ConflictPointLink::new', lambda a, r: is_zone(r, a[0].deref, a[1].deref), note='an arbitrary zone that is a function of the two roads')
    ha, hb = E.place(a), E.place(b)
    for x in E.call('conflict::ConflictPointLink::new', ha, hb):
        for y in x.call('conflict::ConflictPointLink::new', hb, ha):
            X, Y = x.ret, y.ret
            for o in y.call('conflict::ConflictPoint::new', ha, hb):
                r = o.ret
                o.ensure('iff', lambda r=r, X=X, Y=Y: Iff(r.is_some, And(X.is_some, Y.is_some)))
                o.ensure('zones', lambda r=r, X=X, Y=Y: Imp(r.is_some, And(*[And(r.some.links[k].link_id.key == k + 1, feq(r.some.links[k].min_pos, z.some.min_pos), feq(r.some.links[k].max_pos, z.some.max_pos)) for k, z in ((0, X), (1, Y))])))


@theorem('direction of a conflict')
def direction(E):
    a, b = two(E)
    sampled(E)
    E.modular('ConflictPointLink::new', pure=lambda a: [a[0].deref.curve.length, a[1].deref.curve.length])
    ha, hb = E.place(a), E.place(b)
    for x in E.call('conflict::ConflictPointLink::new', ha, hb):
        for y in x.call('conflict::ConflictPointLink::new', hb, ha):
            y.assume(x.ret.is_some, y.ret.is_some)
            X, Y = x.ret.some, y.ret.some
            for z in y.call('rvh::cosine', ha, (X.min_pos, X.max_pos), hb, (Y.min_pos, Y.max_pos)):
                for o in z.call('conflict::ConflictPoint::new', ha, hb):
                    r = o.ret
                    o.ensure('same direction if the roads run within about 75 degrees through the zone', lambda r=r, z=z: Imp(r.is_some, Iff(r.some.same_dir, z.ret > R('0.25'))))


@theorem('the zone of a road', bounded='a road of at most 1 m (four sample points)')
def extent(E):
    a, b = two(E)
    sampled(E)
    L = a.curve.length
    E.assume(L <= 1)
    # the projection of a point depends on the point and the starting guess
    E.modular('project_point_onto_curve', pure=lambda a: [a[1].x, a[1].y, a[3].is_some, Ite(a[3].is_some, a[3].some, R(0))])
    h, g = E.place(a), E.place(b)
    todo = [(q, [], None) for q in [E]]
    for i in range(4):
        x = R(i) / 4
        nxt = []
        for p, close, guess in todo:
            for q in p.call('rvh::nearest', h, x, g, guess):
                nxt.append((q, close + [(x, And(x < L, q.ret.field('1') < R('1.8')))], q.ret.field('0')))
        todo = nxt
    for p, close, _ in todo:
        for o in p.call('conflict::ConflictPointLink::new', h, g):
            r = o.ret
            o.ensure('none if the roads are nowhere close', lambda r=r, close=close: Iff(r.is_some, Or(*[c for _, c in close])))
            for x, c in close:
                o.ensure('every close point is covered at %s' % x, lambda r=r, c=c, x=x: Imp(c, And(r.is_some, r.some.min_pos < x, x < r.some.max_pos)))
            o.ensure('it ends a quarter of a metre beyond close points', lambda r=r, close=close: Imp(r.is_some, And(Or(*[And(c, feq(r.some.min_pos, x - R('0.25'))) for x, c in close]), Or(*[And(c, feq(r.some.max_pos, x + R('0.25'))) for x, c in close]))))


AXES = {'east': (1, 0), 'north': (0, 1), 'west': (-1, 0)}


def line(E, k, x, y, d, length):
    """a straight road from a point along an axis"""
    p = [E.new('cgmath::Point2', 'p%d%d' % (k, i), x=x + R(d[0]) * R(i) / 2, y=y + R(d[1]) * R(i) / 2) for i in range(3)]
    return link(E, k, curve=E.new('LinkCurve', 'c%d' % k, scale=R(1), length=length, segments=[E.new('QuadraticBezier2d', 's%d' % k, points=p)]))


@theorem('the nearest point of a straight road', bounded='roads along an axis, four points each', params=[(k, x, y, g) for k in AXES for x, y, g in (('3', '2', '1'), ('2.5', '-0.25', None), ('-4', '1', None), ('7', '9', '0.5'))])
def foot(E, way, x, y, g):
    d = AXES[way]
    h, p = E.place(line(E, 1, R(0), R(0), d, R(8))), E.new('cgmath::Point2', 'p', x=R(x), y=R(y))
    for o in E.call('rvh::foot', h, p, g and R(g)):
        o.ensure('foot of the perpendicular', lambda r=o.ret: And(r.is_some, feq(r.some, p.x * d[0] + p.y * d[1])))


# the way and the start of another road, and the stretch of a road of 6 m along the x axis that is too close to it
LAID = [('north', ('3', '-3'), ('1.2', '4.8')), ('north', ('5.5', '-3'), ('3.7', '6')), ('north', ('-1', '0'), ('0', '0.8')), ('north', ('8', '0'), None),
        ('west', ('5', '3.5'), ('0', '6')), ('west', ('5', '-3.7'), None), ('east', ('0', '3.5'), ('0', '6')), ('east', ('0', '-3.7'), None)]


@theorem('roads that cross and roads that do not', bounded='eight pairs of straight roads', params=LAID)
def laid(E, way, at, zone):
    d, x, y = AXES[way], R(at[0]), R(at[1])
    h, g = E.place(line(E, 1, R(0), R(0), (1, 0), R(6))), E.place(line(E, 2, x, y, d, R(6)))
    for o in E.call('conflict::ConflictPointLink::new', h, g):
        r = o.ret
        if zone is None:
            o.ensure('no conflict', lambda r=r: r.is_none)
        else:
            o.ensure('a conflict', lambda r=r: r.is_some)
            o.ensure('it starts just before', lambda r=r: Imp(r.is_some, And(fle(r.some.min_pos, R(zone[0])), fge(r.some.min_pos, R(zone[0]) - R('0.5')))))
            o.ensure('it ends just after', lambda r=r: Imp(r.is_some, And(fge(r.some.max_pos, R(zone[1])), fle(r.some.max_pos, R(zone[1]) + R('0.5')))))


@theorem('which roads count as going the same way', bounded='straight roads at six angles', params=[('1', '0', True), ('0.6', '0.8', True), ('0.28', '0.96', True), ('0', '1', False), ('-0.28', '-0.96', False), ('-1', '0', False)])
def way(E, dx, dy, same):
    d = {1: (R(1), R(0)), 2: (R(dx), R(dy))}
    at = {1: (R(0), R(0)), 2: (3 - 3 * d[2][0], (1 if dy == '0' else 0) - 3 * d[2][1])}
    L = {1: R(6), 2: R('6.5')}
    ls = {k: E.place(line(E, k, at[k][0], at[k][1], d[k], L[k])) for k in (1, 2)}
    for o in E.call('conflict::ConflictPoint::new', ls[1], ls[2]):
        r = o.ret
        o.ensure('a conflict', lambda r=r: r.is_some)
        o.ensure('direction', lambda r=r: Imp(r.is_some, r.some.same_dir if same else Not(r.some.same_dir)))


@theorem('the nearest point of a road that turns back', bounded='a road of three straight pieces, three points', params=[('4', '1', '4'), ('4', '7', '20'), ('7', '4', '12')])
def turning(E, x, y, pos):
    c = [(0, 0), (8, 0), (8, 8), (0, 8)]
    seg = []
    for i in range(3):
        (a, b), (e, f) = c[i], c[i + 1]
        seg.append(E.new('QuadraticBezier2d', 's%d' % i, points=[E.new('cgmath::Point2', 'p%d%d' % (i, j), x=R(a) + R(e - a) * R(j) / 2, y=R(b) + R(f - b) * R(j) / 2) for j in range(3)]))
    h = E.place(link(E, 1, curve=E.new('LinkCurve', 'c', scale=R(1) / 8, length=R(24), segments=seg)))
    for o in E.call('rvh::foot', h, E.new('cgmath::Point2', 'p', x=R(x), y=R(y)), None):
        o.ensure('on the nearest piece', lambda r=o.ret: And(r.is_some, fle(r.some, R(pos) + R('0.2')), fge(r.some, R(pos) - R('0.2'))))
