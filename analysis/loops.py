"""Loops that count by hand: `while i < v.len() { … v[i] …; i += 1 }` walks v, and so does a loop that counts down.

The rewriting is exact. A loop variable that starts at a, goes up by one in every iteration that goes on, and is
compared with an invariant bound n before anything else, takes the values a, a+1, … n-1: the segments are the ones
of `for i in a..n`. The same for one that starts at n, is compared with zero and goes down by one."""
import terms as T
from terms import cint, TRUE, FALSE, mentions
from absint import Segment, decided


class No(Exception):
    pass


def rebuild(t, m):
    """Substitution with the normal forms of terms restored."""
    if isinstance(t, frozenset):
        return frozenset(rebuild(x, m) for x in t)
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if not any(mentions(t, lambda x: x == k) for k in m):
        return t
    if t and t[0] == 'poly' and len(t) == 2:
        r = {}
        for mono, c in t[1]:
            p = {(): c}
            for at, pw in mono:
                at = rebuild(at, m)
                if pw > 0:
                    for _ in range(pw):
                        p = T.poly_mul(p, T.to_poly(at))
                else:
                    p = T.poly_mul(p, {((at, pw),): 1})
            r = T.poly_add(r, p)
        return T.from_poly(r)
    r = tuple(rebuild(x, m) for x in t)
    if r and r[0] == 'op' and len(r) > 2:
        if r[1] == 'pos':
            return T.pos(r[2])
        if r[1] == 'eq':
            return T.mk_eq(r[2], r[3])
        if r[1] in ('and', 'or', 'not'):
            return T.boolop(r[1], *r[2:])
        return T.op(r[1], *r[2:])
    if r and r[0] == 'index' and len(r) == 3:
        return T.index(r[1], r[2])
    return r


def put(facts, t, v):
    """Note that the boolean term t has the value v."""
    d = decided(facts, t)
    if d is not None:
        if d != v:
            raise No('contradiction')
        return
    if t[0] == 'op' and t[1] == 'not':
        return put(facts, t[2], not v)
    if t[0] == 'op' and t[1] in ('and', 'or') and (t[1] == 'and') == v:
        for x in t[2:]:
            put(facts, x, v)
        return
    if t[0] == 'op' and t[1] == 'eq' and t[3][0] == 'c':
        f = facts.get(t[2])
        if v:
            facts[t[2]] = ('eq', t[3])
        elif not f or f[0] == 'ne':
            facts[t[2]] = ('ne', (f[1] if f else frozenset()) | {t[3]})
        return
    facts[t] = ('eq', TRUE if v else FALSE)


def counted(segs, key, name):
    """(start, bound, up) of a variable counted by hand, or None."""
    lv = ('lv', key, name)
    own = [s for s in segs if s.kind == 'back' and s.loop == key]
    inits = {e[2][name] if isinstance(e[2], dict) else dict(e[2])[name] for s in segs for e in s.all_events
             if e[0] == 'loop' and e[1] == key and name in dict(e[2])}
    if not own or len(inits) != 1:
        return None
    start = inits.pop()
    if any(x[0] == 'lv' and x[1] == key for x in T.subterms(start)):
        return None
    steps = {s.updates.get(name) for s in own}
    up = steps == {T.op('add', lv, cint(1))}
    down = steps == {T.op('sub', lv, cint(1))}
    if not up and not down:
        return None
    members = [s for s in segs if any(e[0] == 'loop' and e[1] == key for e in s.all_events)]
    for t, x in own[0].facts.items():
        if x != ('eq', TRUE) or not (t[0] == 'op' and t[1] == 'pos') or not mentions(t, lambda y: y == lv):
            continue
        if up:
            n = T.op('add', t[2], lv)
            if T.op('lt', lv, n) != t or mentions(n, lambda y: y[:2] == ('lv', key)):
                continue
        else:
            n = start
            if T.op('lt', cint(0), lv) != t:
                continue
        if all(decided(s.facts, t) is not None for s in members) and all(decided(s.facts, t) for s in own):
            return (start if up else cint(0)), n, up, t
    return None


def rewrite(segs, key, name, how):
    start, n, up, guard = how
    lv = ('lv', key, name)
    whole = start == cint(0)
    if n[0] == 'len':
        dom = n[1] if whole else ('skip', n[1], start)
    else:
        dom = ('range', start, n)
    d = dom if up else ('rev', dom)
    at = ('idx', d, key) if n[0] == 'len' else ('elem', d, key)
    out = []
    for s in segs:
        if not any(e[0] == 'loop' and e[1] == key for e in s.all_events):
            if any(mentions(x, lambda y: y == lv) for x in list(s.facts) + list(s.all_events)):
                raise No('outside')
            out.append(s)
            continue
        over = not decided(s.facts, guard)
        if over:
            m = {lv: n if up else cint(0)}
        elif up:
            m = {lv: at}
        else:
            m = {T.op('sub', lv, cint(1)): at, lv: T.op('add', at, cint(1))}
        facts = {}
        try:
            for t, x in s.facts.items():
                if t == guard:
                    continue
                if not mentions(t, lambda y: y == lv) and not mentions(x, lambda y: y == lv):
                    facts[t] = x
                elif x in (('eq', TRUE), ('eq', FALSE)):
                    put(facts, rebuild(t, m), x == ('eq', TRUE))
                else:
                    facts[rebuild(t, m)] = rebuild(x, m)
        except No:
            continue
        if any(t[0] == 'c' for t in facts):
            raise No('constant')

        def evs(es):
            r = []
            for e in es:
                if e[0] == 'loop' and e[1] == key:
                    r.append(('loop', key, {k: v for k, v in dict(e[2]).items() if k != name}) if isinstance(e[2], dict)
                             else ('loop', key, tuple((k, v) for k, v in e[2] if k != name)))
                    r.append(('dom', key, d))
                    if over:
                        r.append(('exit', key))
                elif e[0] == 'loop':
                    r.append(e[:2] + ({k: rebuild(v, m) for k, v in e[2].items()} if isinstance(e[2], dict) else rebuild(e[2], m),))
                else:
                    r.append(tuple(rebuild(x, m) for x in e))
            return r
        own = s.kind == 'back' and s.loop == key
        ns = Segment(s.kind, facts, evs(s.events), rebuild(s.value, m) if s.value is not None else None, s.where, s.loop,
                     {k: rebuild(v, m) for k, v in s.updates.items() if not (own and k == name)}, evs(s.all_events), s.mem)
        out.append(ns)
    return out


def endless(segs):
    """`for i in a..` counts from a and only ends by leaving it."""
    found = {(e[1], e[2]) for s in segs for e in s.all_events if e[0] == 'dom' and e[2][0] == 'adt' and e[2][2] == 'RangeFrom'}
    for key, d in sorted(found, key=repr):
        start, x = T.field(d, 'start'), ('elem', d, key)
        own = [s for s in segs if s.kind == 'back' and s.loop == key]
        inits = {}
        for s in segs:
            for e in s.all_events:
                if e[0] == 'loop' and e[1] == key:
                    inits.update(dict(e[2]))
        name = next((n for n, i in sorted(inits.items()) if i == start and own and
                     all(s.updates.get(n) == T.op('add', ('lv', key, n), cint(1)) for s in own)), None)
        new = name is None
        name = name or 'counter'
        m = {x: ('lv', key, name)}
        out = []
        for s in segs:
            if ('exit', key) in [e[:2] for e in s.all_events]:
                continue

            def evs(es):
                r = []
                for e in es:
                    if e[0] == 'dom' and e[1] == key:
                        continue
                    if e[0] == 'loop' and e[1] == key and new:
                        e = ('loop', key, tuple(sorted(tuple(e[2]) + ((name, start),), key=repr)))
                    r.append(tuple(rebuild(y, m) for y in e))
                return r
            upd = {k: rebuild(v, m) for k, v in s.updates.items()}
            if new and s.kind == 'back' and s.loop == key:
                upd[name] = T.op('add', m[x], cint(1))
            facts = {rebuild(t, m): rebuild(f, m) for t, f in s.facts.items()}
            out.append(Segment(s.kind, facts, evs(s.events), rebuild(s.value, m) if s.value is not None else None, s.where, s.loop,
                               upd, evs(s.all_events), s.mem))
        segs = out
    return segs


PLAIN = ('f', 'vf', 's', 'index', 'elem', 'call', 'get', 'lv', 'inner')


def growing(segs):
    """A list that gets one element in every iteration of a walk, or a number that goes up by one, tells the position."""
    keys = {}
    for s in segs:
        for e in s.all_events:
            if e[0] == 'dom':
                keys.setdefault(e[1], set()).add(e[2])
    for key, doms in sorted(keys.items(), key=repr):
        if len(doms) != 1 or next(iter(doms))[0] not in PLAIN:
            continue
        d = next(iter(doms))
        own = [s for s in segs if s.kind == 'back' and s.loop == key]
        inits = {}
        for s in segs:
            for e in s.all_events:
                if e[0] == 'loop' and e[1] == key:
                    for n, v in dict(e[2]).items():
                        inits.setdefault(n, set()).add(v)
        m = {}
        for n, vs in inits.items():
            lv = ('lv', key, n)
            if len(vs) != 1 or not own:
                continue
            v = next(iter(vs))
            if v[0] == 'arr' and all((u := s.updates.get(n, lv))[:3] == ('m', 'push', lv) for s in own):
                m[('len', lv)] = T.op('add', ('idx', d, key), cint(len(v[1])))
            elif mentions(v, lambda y: y[:2] == ('lv', key)):
                continue
            elif all(s.updates.get(n, lv) == T.op('add', lv, cint(1)) for s in own):
                m[lv] = T.op('add', v, ('idx', d, key))
            elif all(s.updates.get(n, lv) == T.op('sub', lv, cint(1)) for s in own):
                m[lv] = T.op('sub', v, ('idx', d, key))
        if not m:
            continue
        out = []
        for s in segs:
            inside = any(e[:2] == ('dom', key) for e in s.all_events) and not any(e[:2] == ('exit', key) for e in s.all_events)
            if not inside or not any(mentions(x, lambda y: y in m) for x in
                                     (tuple(s.facts), tuple(s.all_events), s.value or (), tuple(s.updates.values()))):
                out.append(s)
                continue
            facts = {}
            try:
                for t, x in s.facts.items():
                    if x in (('eq', TRUE), ('eq', FALSE)) and mentions(t, lambda y: y in m):
                        put(facts, rebuild(t, m), x == ('eq', TRUE))
                    else:
                        facts[rebuild(t, m)] = rebuild(x, m)
            except No:
                continue
            evs = lambda es: [tuple(rebuild(x, m) for x in e) for e in es]
            out.append(Segment(s.kind, facts, evs(s.events), rebuild(s.value, m) if s.value is not None else None, s.where, s.loop,
                               {k: rebuild(v, m) if not (s.kind == 'back' and s.loop == key) or ('lv', key, k) not in m else v
                                for k, v in s.updates.items()}, evs(s.all_events), s.mem))
        segs = out
    return segs


def by_hand(segs):
    return growing(counting(endless(segs)))


def counting(segs):
    while True:
        todo = sorted({(e[1], k) for s in segs for e in s.all_events if e[0] == 'loop' for k in dict(e[2])
                       if not any(x[0] == 'dom' and x[1] == e[1] for x in s.all_events)}, key=repr)
        for key, name in todo:
            how = counted(segs, key, name)
            if how:
                try:
                    segs = rewrite(segs, key, name, how)
                    break
                except No:
                    continue
        else:
            return segs
