"""Lane groups: which lanes can be reached by changing lanes."""
from spec import *
from simlib import *

ASSUMES = ['a lane group has at most 16 lanes (its permission mask has 32 bits)']


def group(E, n=None):
    n = E.int('n_lanes', 2, 16) if n is None else n
    ids = E.seq_sym('LinkId', 'lane', n)
    m = E.mask('lc_mask', 32)
    g = E.new('LinkGroup', 'g', links=ids, projections=[], lc_mask=m)
    left = lambda i: bit(m, 2 * i)
    right = lambda i: bit(m, 2 * i + 1)
    return n, ids, g, left, right


def span(E, n, at, down, up):
    """the lanes lo..hi around `at`: all steps towards lo satisfy down, all steps towards hi satisfy up, and no further"""
    lo, hi = E.int('lo', 0), E.int('hi', 0)
    E.assume(lo <= at, at <= hi, hi < n)
    E.assume(E.forall(0, 16, lambda k: Imp(And(k > lo, k <= at), down(k))), Or(lo == 0, Not(down(lo))))
    E.assume(E.forall(0, 16, lambda k: Imp(And(k >= at, k < hi), up(k))), Or(hi == n - 1, Not(up(hi))))
    return lo, hi


def exactly(E, o, ids, lo, hi):
    t = E.int('t', 0)
    E.assume(t <= hi - lo)
    r = o.ret.deref
    o.ensure('as many as there are', lambda: r.n == hi - lo + 1)
    o.ensure('exactly these, in order', lambda: r[t].key == ids[lo + t].key)


@theorem('lanes reachable from a lane')
def reachable(E):
    n, ids, g, left, right = group(E)
    at = E.int('at', 0)
    E.assume(at < n)
    lo, hi = span(E, n, at, left, right)
    for o in E.call('LinkGroup::reachable_lanes', E.place(g), at):
        exactly(E, o, ids, lo, hi)


@theorem('lanes a lane can be reached from')
def reachable_from(E):
    n, ids, g, left, right = group(E)
    at = E.int('at', 0)
    E.assume(at < n)
    lo, hi = span(E, n, at, lambda k: right(k - 1), lambda k: left(k + 1))
    for o in E.call('LinkGroup::reachable_from_lanes', E.place(g), at):
        exactly(E, o, ids, lo, hi)


@theorem('a lane of a road without neighbours reaches only itself')
def alone(E):
    l = road(E, 3)
    for f in ('reachable_lanes', 'reachable_from_lanes'):
        for o in E.call('Link::' + f, E.place(l)):
            o.ensure(f, lambda o=o: And(o.ret.deref.n == 1, o.ret.deref[0].key == 3))


@theorem('the road asks its group about its own lane')
def through_road(E):
    n, ids, g, left, right = group(E)
    E.assume(E.forall(0, n, lambda i: E.forall(0, n, lambda j: Imp(ids[i].key == ids[j].key, i == j))))
    at = E.int('at', 0)
    E.assume(at < n, ids[at].key == 3)
    lo, hi = span(E, n, at, left, right)
    for o in E.call('Link::reachable_lanes', E.place(road(E, 3, group=E.place(g)))):
        exactly(E, o, ids, lo, hi)


@theorem('lane changes offered by a group', bounded='groups of 2 or 3 lanes, at most 2 m long', params=[2, 3])
def changes(E, n):
    m = E.mask('lc_mask', 32)
    links = {i + 1: road(E, i + 1) for i in range(n)}
    for l in links.values():
        E.assume(l.curve.length <= 2)
    E.modular('project_point_onto_curve', lambda a, r: [r.is_some], note='every point of a lane is assumed to have a projection onto its neighbour (not proved)')
    h = E.place(sim(E, links=links))
    for o in E.call('Simulation::add_link_group', h, E.slice_of('LinkId', list(range(1, n + 1))), m):
        ls = o.read(h).links
        for i in range(n):
            want = ([('right', i + 2, bit(m, 2 * i + 1))] if i < n - 1 else []) + ([('left', i, bit(m, 2 * i))] if i > 0 else [])
            lc = ls.at(i + 1).lane_changes
            o.ensure('lane %d: as many as permitted' % i, lambda lc=lc, want=want: lc.n == sum([Ite(b, 1, 0) for _, _, b in want]))
            for d, j, b in want:
                o.ensure('lane %d: %s exactly when permitted' % (i, d), lambda lc=lc, j=j, b=b: Iff(b, among(lc, j)))
