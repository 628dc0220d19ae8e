"""Interval arithmetic."""
from spec import *

IV = 'Interval'


def iv(E, name):
    a, b = E.real(name + '.min'), E.real(name + '.max')
    return E.new(IV, name + '.iv', min=a, max=b), a, b


def f(name):
    return 'Interval::<T>::' + name


@theorem('membership, overlap and gap agree')
def membership(E):
    x, a, b = iv(E, 'x')
    y, c, d = iv(E, 'y')
    E.assume(a <= b, c <= d)
    v = E.real('v')
    hx, hy = E.place(x), E.place(y)
    for o in E.call('rvh::contains', hx, v):
        o.ensure('contains', lambda o=o: Iff(o.ret, And(a <= v, v <= b)))
    for o in E.call('rvh::overlaps', hx, hy):
        o.ensure('overlap', lambda o=o: Iff(o.ret, And(b > c, d > a)))
    for o in E.call('rvh::clearance_with', hx, hy):
        o.ensure('gap between intervals', lambda o=o: And(Imp(c >= b, feq(o.ret, c - b)), Imp(a >= d, feq(o.ret, a - d)), Imp(And(b > c, d > a), o.ret < 0)))
        for p in o.call('rvh::clearance_with', hy, hx):
            p.ensure('the gap is symmetric', lambda o=o, p=p: feq(o.ret, p.ret))
    for o in E.call('rvh::distance', hx, v):
        o.ensure('distance to a point', lambda o=o: And(Imp(v >= b, feq(o.ret, v - b)), Imp(v <= a, feq(o.ret, a - v)), Imp(And(a < v, v < b), And(o.ret < 0, o.ret >= a - v, o.ret >= v - b))))


@theorem('interpolation and its inverse')
def lerp(E):
    x, a, b = iv(E, 'x')
    t = E.real('t')
    h = E.place(x)
    E.assume(flt(a, b))
    for o in E.call('rvh::lerp', h, t):
        o.ensure('ends', lambda o=o: And(Imp(t == 0, feq(o.ret, a)), Imp(t == 1, feq(o.ret, b))))
        o.ensure('linear', lambda o=o: feq(o.ret, a + t * (b - a)))
        for p in o.call('rvh::inv_lerp', h, o.ret):
            p.ensure('inverse', lambda p=p: feq(p.ret, t))
    for o in E.call('rvh::length', h):
        o.ensure('length', lambda o=o: feq(o.ret, b - a))
    for o in E.call('rvh::midpoint', h):
        o.ensure('midpoint', lambda o=o: feq(o.ret, (a + b) / 2))


@theorem('construction and shifting')
def build(E):
    x, a, b = iv(E, 'x')
    c, r = E.real('c'), E.real('r')
    for o in E.call('rvh::disc', c, r):
        o.ensure('disc', lambda o=o: And(feq(o.ret.min, c - r), feq(o.ret.max, c + r)))
    for o in E.call('rvh::add', x, c):
        o.ensure('shifted up', lambda o=o: And(feq(o.ret.min, a + c), feq(o.ret.max, b + c)))
    for o in E.call('rvh::sub', x, c):
        o.ensure('shifted down', lambda o=o: And(feq(o.ret.min, a - c), feq(o.ret.max, b - c)))
    for o in E.call('rvh::as_array', E.place(x)):
        o.ensure('both ends', lambda o=o: And(feq(o.ret[0], a), feq(o.ret[1], b)))
