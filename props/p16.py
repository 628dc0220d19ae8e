"""Positions on neighbouring lanes."""
from spec import *
from simlib import *

ASSUMES = ['where samples of the lanes are left open, the lanes differ in length (the length stands for the lane)']


def table(E):
    n = E.int('n_samples', 1, 1 << 40)
    sm = E.seq_sym('ProjectedSample', 'sample', n)
    return n, sm, E.new('LinkProjection', 'p', samples=sm, inv_segment_len=R('0.5'))


@theorem('looking up a position on another lane')
def lookup(E):
    n, sm, p = table(E)
    x = E.real('x')
    i = E.int('i', 0)
    E.assume(i < n, Or(2 * i <= x, And(i == 0, x < 0)), Or(x < 2 * i + 2, i == n - 1))
    for o in E.call('LinkProjection::project_approx', E.place(p), x):
        o.ensure('the entry that covers it', lambda o=o: o.ret == sm[i].pos)


@theorem('an obstacle seen from another lane')
def obstacle(E):
    n, sm, p = table(E)
    x, vel = E.real('x'), E.real('vel')
    i = E.int('i', 0)
    E.assume(i < n, Or(2 * i <= x, And(i == 0, x < 0)), Or(x < 2 * i + 2, i == n - 1))
    rc = [E.new('cgmath::Point2', 'rc%d' % k) for k in (0, 1)]
    lat = E.new('util::Interval', 'lat')
    for o in E.call('LinkProjection::project', E.place(p), rc, x, lat, vel):
        r = o.ret
        o.ensure('position, also before the start of the road', lambda r=r: feq(r.pos, sm[i].pos + fmin(x, R(0))))
        o.ensure('sideways extent moved to the lane', lambda r=r: And(feq(r.lat.min, lat.min + sm[i].lat), feq(r.lat.max, lat.max + sm[i].lat)))
        o.ensure('same rear end and speed', lambda r=r: And(r.vel == vel, *[And(r.rear_coords[k].x == rc[k].x, r.rear_coords[k].y == rc[k].y) for k in (0, 1)]))


@theorem('the vehicle is projected by its rear end')
def vehicle_rear(E):
    n, sm, p = table(E)
    v = car(E, 1)
    i = E.int('i', 0)
    x = rear(v)
    E.assume(i < n, Or(2 * i <= x, And(i == 0, x < 0)), Or(x < 2 * i + 2, i == n - 1))
    hp, hv = E.place(p), E.place(v)
    for o in E.call('Vehicle::project', hv, hp):
        r = o.ret
        o.ensure('position', lambda r=r: feq(r.pos, sm[i].pos + fmin(x, R(0))))
        o.ensure('extent', lambda r=r: And(feq(r.lat.min, v.rear_lats.min + sm[i].lat), feq(r.lat.max, v.rear_lats.max + sm[i].lat), r.vel == v.vel))


def built(E, n, length):
    """a group of n lanes as the code builds it; samples of the centre lines depend on the lane and position only"""
    ls = [road(E, k + 1) for k in range(n)]
    for k, l in enumerate(ls):
        E.assume(l.curve.length <= length, *[l.curve.length != m.curve.length for m in ls[:k]])
    E.modular('LinkCurve::sample_centre', pure=lambda a: [a[0].deref.length, a[1]])
    E.modular('project_point_onto_curve', pure=lambda a: [a[0].deref.length, a[1].x, a[1].y, a[3].is_some, Ite(a[3].is_some, a[3].some, R(0))])
    hs = [E.place(l) for l in ls]
    mask = E.mask('mask', 32)
    return ls, hs, E.call('rvh::group%d' % n, *hs, mask)


@theorem('a group is built from its lanes', bounded='two lanes of at most 4 m or three lanes of at most 2 m', params=[(2, 4), (3, 2)])
def build(E, n, length):
    ls, hs, outs = built(E, n, length)
    for o in outs:
        g = o.place(o.ret)
        for s in range(n):
            for d in range(n):
                if s == d:
                    continue
                x = E.real('x')
                for a in o.call('rvh::expected', hs[s], hs[d], R(0), R(0)):
                    y0, l0 = a.ret.field('0'), a.ret.field('1')
                    for b in a.call('rvh::seen', g, s + 1, d + 1, x):
                        b.ensure('%d to %d: leads there' % (s, d), lambda b=b, d=d: b.ret.field('0').key == d + 1)
                        L = ls[s].curve.length
                        b.ensure('%d to %d: first two metres' % (s, d), lambda b=b, L=L, y0=y0, l0=l0: Imp(And(x >= 0, Or(x < 2, L <= 2)), And(feq(b.ret.field('1'), y0), feq(b.ret.field('2'), l0))))
                        if length > 2:
                            for c in b.call('rvh::expected', hs[s], hs[d], R(2), y0):
                                y1, l1 = c.ret.field('0'), c.ret.field('1')
                                c.ensure('%d to %d: next two metres' % (s, d), lambda b=b, L=L, y1=y1, l1=l1: Imp(And(x >= 2, L > 2), And(feq(b.ret.field('1'), y1), feq(b.ret.field('2'), l1))))


@theorem('every other lane, in order', bounded='two or three lanes', params=[2, 3])
def all_others(E, n):
    ls, hs, outs = built(E, n, 2)
    for o in outs:
        g = o.place(o.ret)
        for s in range(n):
            for q in o.call('rvh::others', g, s + 1):
                want = [d + 1 for d in range(n) if d != s]
                q.ensure('from lane %d' % s, lambda q=q, want=want: And(q.ret.n == len(want), *[q.ret[i].key == k for i, k in enumerate(want)]))


@theorem('finding the projection between two lanes', bounded='groups of up to 6 lanes', params=[2, 4, 6])
def find(E, n):
    """one projection per ordered pair of lanes, in the order of the lanes"""
    m = n - 1
    ids = [k + 1 for k in range(n)]
    ps = [E.new('LinkProjection', 'p%d_%d' % (s, d), dst=d + 1, samples=[E.new('ProjectedSample', 'q%d_%d' % (s, d))], inv_segment_len=R('0.5')) for s in range(n) for d in range(n) if s != d]
    g = E.place(E.new('LinkGroup', 'g', links=ids, projections=ps, lc_mask=E.mask('mask', 32)))
    x = E.real('x')
    E.assume(x >= 0)
    for s in range(n):
        for d in range(n):
            if s != d:
                for o in E.call('rvh::seen', g, s + 1, d + 1, x):
                    p = ps[m * s + (d - 1 if d > s else d)]
                    o.ensure('%d to %d' % (s, d), lambda o=o, p=p, d=d: And(o.ret.field('0').key == d + 1, feq(o.ret.field('1'), p.samples[0].pos), feq(o.ret.field('2'), p.samples[0].lat)))
