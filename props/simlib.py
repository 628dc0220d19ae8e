"""Builders for small road networks. Every number stays symbolic; only how many roads, vehicles
and list entries there are is fixed (per contract)."""
from spec import *


def link(E, key, name=None, **over):
    name = name or 'L%d' % key
    kw = dict(id=key, group=None, links_in=[], links_out=[], lane_changes=[], conflicts=[], vehicles=[], curve__segments=1)
    kw.update(over)
    l = E.new('Link', name, **kw)
    return l


def vehicle(E, key, name=None, **over):
    name = name or 'V%d' % key
    kw = dict(id=key, pathfind__matrix={}, pathfind__paths=[], route=[1], will_queue_or_enter=0)
    kw.update(over)
    return E.new('Vehicle', name, **kw)


def sane(E, v, stop_cnt=True):
    """the data invariant of a vehicle that was built from meaningful attributes"""
    E.assume(v.acc.max_acc > 0, v.acc.comf_dec > 0, v.acc.headway >= 0, v.vel >= 0, v.half_len > 0, v.half_wid > 0)
    E.assume(v.acc.vel_adj > 0, v.stop_cnt <= 1 << 60, v.entered <= 1 << 60)
    return v


def sim(E, links=None, vehicles=None, lights=None, conflicts=(), frozen=(), **over):
    kw = dict(links=links or {}, vehicles=vehicles or {}, lights=lights or {}, conflicts=list(conflicts), frozen_vehs=list(frozen))
    kw.update(over)
    s = E.new('Simulation', 'sim', **kw)
    # counters stay far from the end of their range in any run that can be performed
    E.assume(s.frame <= 1 << 60, s.seq <= 1 << 60, s.acc_update >= 0, s.lc_update >= 0)
    return s


def road(E, key, **over):
    """a link with the data invariant of a link that was built from a real curve"""
    l = link(E, key, **over)
    E.assume(l.curve.scale > 0, l.curve.length > 0, l.speed_limit > 0)
    return l


def car(E, key, **over):
    kw = dict(lane_change=None, entered=1, route=[1], queued=None, pathfind__dst=0)
    kw.update(over)
    return sane(E, vehicle(E, key, **kw))


def ahead(E, *vs):
    """the given vehicles stand in this order along their road"""
    for a, b in zip(vs, vs[1:]):
        E.assume(a.pos <= b.pos)


def front(v):
    return v.pos + v.half_len


def rear(v):
    return v.pos - v.half_len


def room(v, p):
    return p - front(v)


def braking(v):
    """comfortable braking distance plus margin"""
    return sq(v.vel) / (2 * v.acc.comf_dec) + R('2.5')


def demands(E, o, v, *rules):
    """[(outcome, [acceleration each rule alone leaves a free vehicle])], computed by the real rules"""
    todo = [(o, [])]
    for fn, *args in rules:
        nxt = []
        for p, ds in todo:
            h = E.place(v.put('acc.acc', v.acc.max_acc))
            p.st.mem[h.alloc] = E.st.mem[h.alloc]
            for q in p.call('Vehicle::' + fn, h, *args):
                nxt.append((q, ds + [q.read(h).acc.acc]))
        todo = nxt
    return todo


def after(E, o, v, *rules):
    """[(outcome, acceleration of v once the real rules have been applied to it one after the other)]"""
    h = E.place(v)
    o.st.mem[h.alloc] = E.st.mem[h.alloc]
    todo = [o]
    for fn, *args in rules:
        todo = [q for p in todo for q in p.call('Vehicle::' + fn, h, *args)]
    return [(q, q.read(h).acc.acc) for q in todo]


def stop_demand(E, o, v, line):
    return [(p, d[0]) for p, d in demands(E, o, v, ('stop_at_line', line))]


def follow_demand(E, o, v, p, u):
    return [(p, d[0]) for p, d in demands(E, o, v, ('follow_vehicle', p, u))]


def limit_demand(E, o, v, limit):
    return [(p, d[0]) for p, d in demands(E, o, v, ('apply_current_speed_limit', limit))]


def fleet(E, n=None, name='V', facts=None):
    """any number of vehicles (a map with n entries)"""
    n = E.int('n_vehicles', 0, 1 << 40) if n is None else n

    def ok(v):
        f = And(v.acc.max_acc > 0, v.acc.comf_dec > 0, v.acc.headway >= 0, v.vel >= 0, v.half_len > 0, v.half_wid > 0, v.acc.vel_adj > 0,
                v.stop_cnt <= 1 << 60, v.entered <= 1 << 60, v.entered >= 1, v.will_queue_or_enter <= 2)
        return f if facts is None else And(f, facts(v))
    return n, E.map_sym('Vehicle', name, n, ok, nested={'id': lambda k: k, 'route': lambda k: E.tail('LinkId', name + '.route', k), 'pathfind.matrix': lambda k: {}, 'pathfind.paths': lambda k: []})


def network(E, n=None, name='L', facts=None, **lists):
    """any number of roads; `lists` name the list fields that are of interest (any length), the others are empty"""
    n = E.int('n_links', 0, 1 << 40) if n is None else n

    def ok(l):
        f = And(l.curve.scale > 0, l.curve.length > 0, l.speed_limit > 0)
        return f if facts is None else And(f, facts(l))
    nested = {'id': lambda k: k, 'group': lambda k: None, 'curve.segments': lambda k: E.tail('QuadraticBezier2d', name + '.segments', k, lo=1)}
    for f in ('links_in', 'links_out', 'lane_changes', 'conflicts', 'vehicles'):
        nested[f] = lists.get(f, lambda k: [])
    return n, E.map_sym('Link', name, n, ok, nested=nested)


def among(seq, key, most=2):
    """the list (of at most `most` keys) contains the key"""
    if isinstance(seq.n, int):
        return Or(False, *[seq[i].key == key for i in range(seq.n)])
    return Or(*[And(seq.n > i, seq[i].key == key) for i in range(most)])


def at(seg, t):
    p = seg.points
    b = ((1 - t) * (1 - t), 2 * t * (1 - t), t * t)
    return [sum((b[i] * getattr(p[i], k) for i in range(1, 3)), b[0] * getattr(p[0], k)) for k in ('x', 'y')]


def dt(seg, t):
    p = seg.points
    return [2 * (1 - t) * (getattr(p[1], k) - getattr(p[0], k)) + 2 * t * (getattr(p[2], k) - getattr(p[1], k)) for k in ('x', 'y')]


def piece(E, n, x):
    """the segment that covers x (the first or last one beyond the ends)"""
    i = E.int('i', 0)
    E.assume(i < n, Or(i <= x, And(i == 0, x < 0)), Or(x < i + 1, i == n - 1))
    return i
