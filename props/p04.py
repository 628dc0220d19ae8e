"""Traffic lights open exactly the roads of their green movements."""
from spec import *
from lightlib import *
from simlib import *


@theorem('control reported for every governed road')
def controls(E):
    n = E.int('n_movements', 0, 64)
    k = E.int('n_links', 0, 1 << 40)
    t = E.new('TrafficLight', 'light', movements=E.seq_sym('light::Movement', 'mv', n), phases=[],
              links=E.seq_sym('(u8, LinkId)', 'ln', k, facts=lambda x: And(x.field('0') < n)))
    i = index(E, 'i', k)
    h = E.place(t)
    for o in E.call('rvh::controls', h):
        r = o.ret
        o.ensure('one per governed road', lambda r=r: r.n == k)
        o.ensure('in order', lambda r=r: r[i].field('0').key == t.links[i].field('1').key)
        m = t.movements[t.links[i].field('0')]
        o.ensure('open exactly on green', lambda r=r, m=m: Iff(r[i].field('1').is_('Open'), green(m)))
        o.ensure('closed otherwise', lambda r=r, m=m: Iff(r[i].field('1').is_('Closed'), Not(green(m))))


@theorem('a movement governs exactly the roads it is given', bounded='at most 3 roads per movement')
def registered(E):
    n, k = E.int('n_movements', 0, 63), E.int('n_links', 0, 1 << 40)
    t = E.new('TrafficLight', 'light', movements=E.seq_sym('light::Movement', 'mv', n), phases=[],
              links=E.seq_sym('(u8, LinkId)', 'ln', k, facts=lambda x: And(x.field('0') < n)))
    i = index(E, 'i', k)
    h = E.place(t)
    ls = [E.new('LinkId', 'l%d' % x) for x in range(3)]
    for o in E.call('rvh::add_movement', h, E.mask('mask', 64), E.real('amber'), E.real('clear'), ls):
        l2 = o.read(h)
        o.ensure('one entry per road', lambda l2=l2: l2.links.n == k + 3)
        o.ensure('for the new movement', lambda l2=l2: And([And(l2.links[k + x].field('0') == n, l2.links[k + x].field('1').key == ls[x].key) for x in range(3)]))
        o.ensure('earlier entries kept', lambda l2=l2: And(l2.links[i].field('0') == t.links[i].field('0'), l2.links[i].field('1').key == t.links[i].field('1').key))


@theorem('every step sets the roads of a light', bounded='3 roads, a light governing 2 of them, no vehicles')
def applied(E):
    n = E.int('n_movements', 1, 64)
    m0, m1 = index(E, 'm0', n), index(E, 'm1', n)
    k = E.int('n_phases', 1, 1 << 40)
    t = E.new('TrafficLight', 'light', movements=E.seq_sym('light::Movement', 'mv', n), phases=E.seq_sym('light::Phase', 'ph', k),
              links=[(m0, 1), (m1, 3)])
    E.assume(t.phase >= 0, t.phase < k)
    links = {i: link(E, i) for i in (1, 2, 3)}
    s = sim(E, links=links, lights={1: t})
    h = E.place(s)
    dt = E.real('dt')
    E.assume(dt >= 0, s.acc_update >= 0, s.lc_update >= 0)
    for o in E.call('Simulation::step', h, dt):
        s2 = o.read(h)
        mv = s2.lights.at(1).movements
        for m, key in ((m0, 1), (m1, 3)):
            c = s2.links.at(key).control
            o.ensure('road %d is open exactly when its movement is green' % key, lambda c=c, m=m: And(Iff(c.is_('Open'), green(mv[m])), Iff(c.is_('Closed'), Not(green(mv[m])))))
        a, b = s.links.at(2).control, s2.links.at(2).control
        o.ensure('other roads keep their control', lambda a=a, b=b: And(Iff(a.is_('Open'), b.is_('Open')), Iff(a.is_('Closed'), b.is_('Closed')), Iff(a.is_('Yield'), b.is_('Yield'))))
