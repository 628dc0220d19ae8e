"""Shared set-up for the traffic-light contracts: a controller with any number of movements
(at most 64, the width of the masks) and any number of phases, in any internal state."""
from spec import *


def controller(E, phases=True):
    n = E.int('n_movements', 0, 64)
    L = dict(movements=E.seq_sym('light::Movement', 'mv', n))
    if phases:
        k = E.int('n_phases', 1, 1 << 40)
        L['phases'] = E.seq_sym('light::Phase', 'ph', k)
    else:
        k = 0
        L['phases'] = []
    t = E.new('TrafficLight', 'light', links=[], **L)
    E.assume(t.phase >= 0)
    if phases:
        E.assume(t.phase < k)
    dt = E.real('dt')
    E.assume(dt >= 0)
    E.assume(E.forall(0, n, lambda i: consistent(t, i, phases)))
    return t, n, k, dt


def consistent(t, i, phases=True):
    """data invariant of a controller (established by construction, kept by every operation):
    clocks are not negative, no movement is amber while its phase runs, without phases all is red"""
    m = t.movements[i]
    c = m.since >= 0
    if phases:
        return And(c, Not(And(bit(t.phases[t.phase].mask, i), amber(m))))
    return And(c, red(m), Not(m.active))


def index(E, name, n):
    i = E.int(name, 0)
    E.assume(i < n)
    return i


def red(m):
    return m.state.is_('Red')


def amber(m):
    return m.state.is_('Amber')


def green(m):
    return m.state.is_('Green')


def conflicts_with(a, i):
    """movement a declares a conflict with movement i"""
    return bit(a.conflict, i)
