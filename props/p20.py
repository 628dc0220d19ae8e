"""Road geometry: sampling anywhere is safe and consistent."""
from spec import *
from simlib import *


def curve(E, name='c'):
    n = E.int('n_segments', 1, 1 << 30)
    c = E.new('LinkCurve', name, segments=E.seq_sym('QuadraticBezier2d', 'seg', n))
    E.assume(c.scale > 0, c.length > 0)
    return n, c


def same(v, xy):
    return And(feq(v.x, xy[0]), feq(v.y, xy[1]))


@theorem('a road can be sampled anywhere')
def sample(E):
    n, c = curve(E)
    pos = E.real('pos')
    x = pos * c.scale
    i = piece(E, n, x)
    h = E.place(c)
    s = c.segments[i]
    for o in E.call('rvh::point', h, pos):
        o.ensure('point of the segment that covers it', lambda o=o: same(o.ret, at(s, x - i)))
    for o in E.call('rvh::slope', h, pos):
        o.ensure('slope of that segment', lambda o=o: same(o.ret, dt(s, x - i)))


@theorem('centre line and heading')
def centre(E):
    n, c = curve(E)
    pos = E.real('pos')
    x = pos * c.scale
    i = piece(E, n, x)
    d = dt(c.segments[i], x - i)
    E.assume(sq(d[0]) + sq(d[1]) > 0)
    for o in E.call('rvh::centre', E.place(c), pos):
        p, t = o.ret.field('0'), o.ret.field('1')
        o.ensure('on the centre line', lambda p=p: same(p, at(c.segments[i], x - i)))
        o.ensure('unit heading', lambda t=t: feq(sq(t.x) + sq(t.y), R(1)))
        o.ensure('along the road', lambda t=t: And(feq(t.x * d[1], t.y * d[0]), fge(t.x * d[0] + t.y * d[1], R(0))))


@theorem('points beside the centre line')
def beside(E):
    n, c = curve(E)
    pos, off, lon = E.real('pos'), E.real('off'), E.real('lon')
    i = piece(E, n, pos * c.scale)
    d = dt(c.segments[i], pos * c.scale - i)
    E.assume(sq(d[0]) + sq(d[1]) > 0)
    h = E.place(c)
    for a in E.call('rvh::centre', h, pos):
        p, t = a.ret.field('0'), a.ret.field('1')
        for b in a.call('rvh::beside', h, pos, off):
            b.ensure('at right angles to the left', lambda b=b, p=p, t=t: same(b.ret.field('0'), (p.x - off * t.y, p.y + off * t.x)))
            b.ensure('same heading', lambda b=b, t=t: same(b.ret.field('1'), (t.x, t.y)))
        for b in a.call('rvh::moved', h, pos, off, lon):
            b.ensure('sideways', lambda b=b, p=p, t=t: same(b.ret.field('0'), (p.x - off * t.y, p.y + off * t.x)))
            b.ensure('lengthways', lambda b=b, p=p, t=t: same(b.ret.field('1'), (p.x + lon * t.x, p.y + lon * t.y)))


@theorem('the extent of a road is its length')
def extent(E):
    n, c = curve(E)
    for o in E.call('rvh::extent', E.place(c)):
        o.ensure('from its start', lambda o=o: o.ret.field('0') == 0)
        o.ensure('to its length', lambda o=o: o.ret.field('1') == c.length)


@theorem('a road passes through the points of its course')
def through(E):
    m = E.int('n_points', 2, 1 << 30)
    step = E.real('step')
    E.assume(step > 0)
    ps = E.seq_sym('cgmath::Point2', 'pt', m)
    length = E.real('length')
    E.modular('equidistant_points_along_curve', give=(ps, length), note='arbitrary points and length; that the points are evenly spaced along the course is not proved')
    k = E.int('k', 0)
    E.assume(2 * k + 2 < m)
    xy = lambda i: (ps[i].x, ps[i].y)
    for o in E.call('rvh::from_line', E.new('cgmath::Point2', 'a'), E.new('cgmath::Point2', 'b'), step):
        c = o.ret
        s = c.segments[k]
        o.ensure('length', lambda c=c: c.length == length)
        o.ensure('one segment per two steps', lambda c=c: And(2 * c.segments.n <= m, 2 * c.segments.n >= m - 1))
        o.ensure('segments are two steps long', lambda c=c: feq(c.scale * 2 * step, R(1)))
        o.ensure('first point', lambda s=s: same(s.points[0], xy(2 * k)))
        o.ensure('middle point', lambda s=s: same(type('P', (), dict(zip('xy', at(s, R('0.5'))))), xy(2 * k + 1)))
        o.ensure('last point', lambda s=s: same(s.points[2], xy(2 * k + 2)))


@theorem('a road goes straight on by one step where its course ends within a piece')
def runs_on(E):
    m = E.int('half', 1, 1 << 30) * 2
    step = E.real('step')
    E.assume(step > 0)
    ps = E.seq_sym('cgmath::Point2', 'pt', m)
    E.modular('equidistant_points_along_curve', give=(ps, E.real('length')), note='arbitrary points and length; that the points are evenly spaced along the course is not proved')
    a, b = ps[m - 2], ps[m - 1]
    for o in E.call('rvh::from_line', E.new('cgmath::Point2', 'a'), E.new('cgmath::Point2', 'b'), step):
        c = o.ret
        o.ensure('one more piece', lambda c=c: 2 * c.segments.n == m)
        s = c.segments[c.segments.n - 1]
        o.ensure('from the last but one point', lambda s=s: same(s.points[0], (a.x, a.y)))
        o.ensure('through the last', lambda s=s: same(s.points[1], (b.x, b.y)))
        o.ensure('and as far again', lambda s=s: same(s.points[2], (2 * b.x - a.x, 2 * b.y - a.y)))


@theorem('a straight course is followed at its own pace', bounded='courses of a few lengths along the x axis', params=['0.25', '0.5', '0.75', '1.25', '2'])
def short(E, l):
    l = R(l)
    x, t = R(3), E.real('t')
    E.assume(t >= 0, t <= l)
    for o in E.call('rvh::from_line', E.new('cgmath::Point2', 'a', x=x, y=R(0)), E.new('cgmath::Point2', 'b', x=x + l, y=R(0)), R('0.5')):
        h = o.place(o.ret)
        o.ensure('length', lambda o=o: feq(o.ret.length, l))
        for q in o.call('rvh::centre', h, t):
            p, d = q.ret.field('0'), q.ret.field('1')
            q.ensure('place', lambda p=p: And(feq(p.x, x + t), feq(p.y, R(0))))
            q.ensure('heading', lambda d=d: And(feq(d.x, R(1)), feq(d.y, R(0))))


@theorem('a table lookup is at most half a step off')
def table(E):
    E.M.symbolic = True
    lo, hi, step, x = [E.real(n) for n in ('lo', 'hi', 'step', 'x')]
    E.assume(step > 0, lo < hi, (hi - lo) / step <= 1000000)
    for o in E.call('rvh::table', lo, hi, step):
        h = o.place(o.ret)
        for q in o.call('rvh::look', h, x):
            q.ensure('inside the range', lambda q=q: Imp(And(lo <= x, x <= hi), And(fle(q.ret - x, step / 2), fle(x - q.ret, step / 2))))
            q.ensure('below the range: the first entry', lambda q=q: Imp(x < lo, feq(q.ret, lo + step / 2)))
