"""Comparison of extracted segments with what a property prescribes.

An oracle is a Python function of a `Case`.  It asks about the terms that matter to the property; a question the
analysed path left undecided is answered both ways (the code did not look, so it must behave as prescribed in
both cases).  A mismatch is a violation located at the segment's function.
"""
import itertools
import json
import os
from terms import *
import terms as T
from loops import by_hand, rebuild
from absint import decided, Engine, Unsupported, Segment, show_fact, show_event, Budget


class Mismatch(Exception):
    pass


class Infeasible(Exception):
    """The path (or this completion of it) cannot happen."""


def ordered(facts, t):
    """Trichotomy: what the known comparisons of two numbers say about another comparison of them."""
    if t[0] != 'op' or len(t) < 3:
        return None
    if t[1] == 'pos':
        n = T.negpoly(t[2])
        back = facts.get(('op', 'pos', n))
        if back == ('eq', TRUE):
            return False
        for x, fx in facts.items():
            if x[0] == 'op' and x[1] == 'eq' and len(x) == 4 and fx[0] == 'eq' and x[3][0] != 'c':
                p = T.op('sub', x[2], x[3])
                if p == t[2] or p == n:
                    if fx[1] == TRUE:
                        return False
                    if back == ('eq', FALSE):
                        return True
        return None
    if t[1] == 'eq' and len(t) == 4 and t[3][0] != 'c':
        p = T.op('sub', t[2], t[3])
        if p[0] not in ('poly', 'op', 'f', 'len', 's', 'vf', 'elem', 'index', 'call'):
            return None
        a, b = facts.get(('op', 'pos', p)), facts.get(('op', 'pos', T.negpoly(p)))
        if ('eq', TRUE) in (a, b):
            return False
        if a == b == ('eq', FALSE):
            return True
    return None


class Case:
    def __init__(self, seg, script, facts=None):
        self.seg = seg
        self.facts = dict(seg.facts if facts is None else facts)
        self.script = script
        self.i = 0
        self.asked = []

    def ask(self, t):
        d = decided(self.facts, t)
        if d is not None:
            return d
        t = self.simp(t)
        d = decided(self.facts, t)
        if d is None:
            d = ordered(self.facts, t)
        if d is not None:
            return d
        # decide compound terms through their atoms, so that facts stay atomic
        if t[0] == 'op' and t[1] == 'not':
            return not self.ask(t[2])
        if t[0] == 'op' and t[1] in ('and', 'or'):
            isand = t[1] == 'and'
            for x in t[2:]:
                if self.ask(x) != isand:
                    return not isand
            return isand
        if self.i < len(self.script):
            r = self.script[self.i]
        else:
            r = True
            self.script.append(True)
        self.i += 1
        self.asked.append((t, r))
        self.assume(t, r)
        return r

    def assume(self, t, r):
        f = self.facts
        if t[0] == 'isv':
            cur = f.get(t[1])
            if r:
                f[t[1]] = ('in', frozenset([t[2]]))
            elif cur and cur[0] == 'in':
                f[t[1]] = ('in', cur[1] - {t[2]})
            else:
                f[t] = ('eq', FALSE)
                if t[2] in ('Some', 'None'):
                    f[t[1]] = ('in', frozenset({'Some', 'None'} - {t[2]}))
                if t[2] in ('Ok', 'Err'):
                    f[t[1]] = ('in', frozenset({'Ok', 'Err'} - {t[2]}))
        elif t[0] == 'op' and t[1] == 'eq' and len(t) == 4 and t[3][0] == 'c':
            x, c = t[2], t[3]
            if r:
                f[x] = ('eq', c)
            else:
                cur = f.get(x)
                f[x] = ('ne', (cur[1] if cur and cur[0] == 'ne' else frozenset()) | {c})
        else:
            f[t] = ('eq', TRUE if r else FALSE)

    def is_(self, v, name, path=None):
        if T.variant_of(v) is None:
            d = decided(self.facts, ('isv', v, name))
            if d is not None:
                return d
        v = self.simp(v)
        k = T.variant_of(v)
        if k is not None:
            return k == name
        return self.ask(('isv', v, name) + ((path,) if path else ()))

    def some(self, v):
        return self.is_(v, 'Some')

    def eq(self, a, b):
        return self.ask(T.mk_eq(self.simp(a), self.simp(b)))

    def variant(self, v, names):
        for n in names[:-1]:
            if self.is_(v, n):
                return n
        return names[-1]

    # -- value comparison
    def simp(self, t, depth=0):
        return simp(self, t, depth)

    def same(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if a == b:
            return True
        return equal(self, a, b)

    def require_same(self, actual, expected, what):
        if not self.same(actual, expected):
            raise Mismatch(f"{what}: found {pp(self.simp(actual))}, required {pp(self.simp(expected))}")

    def infeasible(self):
        raise Infeasible()


# ------------------------------------------------------------------ linear inequalities
def linear(facts):
    """The comparisons of a path as (form, strict): form > 0 or form >= 0, a form mapping monomials to coefficients."""
    out = []
    for t, x in facts.items():
        if x[0] != 'eq':
            continue
        if t[0] == 'op' and t[1] == 'pos' and len(t) == 3:
            p = dict(T.to_poly(t[2]))
            if x[1] == TRUE:
                out.append((p, True))
            elif x[1] == FALSE:
                out.append(({m: -v for m, v in p.items()}, False))
        elif t[0] == 'op' and t[1] == 'eq' and len(t) == 4 and x[1] == TRUE and t[3][0] != 'c' and numeric(t[2]) and numeric(t[3]):
            d = dict(T.to_poly(T.op('sub', t[2], t[3])))
            out += [(d, False), ({m: -v for m, v in d.items()}, False)]
        elif x[1][0] == 'c' and x[1][1] in ('int', 'float', 'i', 'f') and isinstance(x[1][2], (int, float)) and not isinstance(x[1][2], bool) \
                and t[0] != 'op':
            d = {((t, 1),): 1, (): -x[1][2]}
            out += [(d, False), ({m: -v for m, v in d.items()}, False)]
    return out


def numeric(t):
    return t[0] in ('poly', 'len', 'idx') or t[0] == 'c' and t[1] in ('int', 'float', 'i', 'f')


def feasible(cons, limit=400):
    """Fourier-Motzkin elimination: can the inequalities hold together?  True when in doubt."""
    cons = [({m: v for m, v in p.items() if v != 0}, s) for p, s in cons]
    while True:
        var = None
        count = {}
        for p, s in cons:
            keys = [m for m in p if m != ()]
            if not keys:
                v = p.get((), 0)
                if v < 0 or (s and v <= 0):
                    return False
            for m in keys:
                count[m] = count.get(m, 0) + 1
        if not count:
            return True
        var = min(count, key=lambda m: (count[m], repr(m)))
        lo = [(p, s) for p, s in cons if p.get(var, 0) > 0]
        hi = [(p, s) for p, s in cons if p.get(var, 0) < 0]
        rest = [(p, s) for p, s in cons if p.get(var, 0) == 0]
        for p, s in lo:
            for q, r in hi:
                a, b = -q[var], p[var]
                n = {}
                for m, v in p.items():
                    n[m] = n.get(m, 0) + a * v
                for m, v in q.items():
                    n[m] = n.get(m, 0) + b * v
                n = {m: v for m, v in n.items() if abs(v) > 1e-12 and m != var}
                rest.append((n, s or r))
        if len(rest) > limit:
            return True
        cons = rest


def no_count(facts, cons):
    """Is there a length that can be no natural number: all in its bounds are excluded?"""
    import math
    lens = {t for t, x in facts.items() if t[0] == 'len' and x[0] == 'ne'}
    for t in lens:
        lo, hi = 0, None
        for p, s in cons:
            if set(p) - {(), ((t, 1),)} or not p.get(((t, 1),)):
                continue
            k = p[((t, 1),)]
            b = -p.get((), 0) / k
            if k > 0:
                lo = max(lo, math.floor(b) + 1 if s else math.ceil(b))
            else:
                b = math.ceil(b) - 1 if s else math.floor(b)
                hi = b if hi is None else min(hi, b)
        out = {c[2] for c in facts[t][1] if c[:2] == ('c', 'int')}
        if hi is not None and hi - lo < 64 and all(n in out for n in range(lo, hi + 1)):
            return True
    return False


def possible(facts):
    cons = linear(facts)
    if no_count(facts, cons):
        return False
    return True if len(cons) < 2 else feasible(cons)


def equal_numbers(facts, a, b):
    """Do the comparisons of the path force two numbers to be equal?"""
    try:
        d = dict(T.to_poly(T.op('sub', a, b)))
    except Exception:
        return False
    cons = linear(facts)
    if not cons:
        return False
    return not feasible(cons + [(d, True)]) and not feasible(cons + [({m: -v for m, v in d.items()}, True)])


def is_bool_term(t):
    return t[0] == 'isv' or (t[0] == 'op' and t[1] in ('eq', 'and', 'or', 'not', 'pos')) or \
        (t[0] == 'c' and t[1] == 'bool')


def equal(case, a, b):
    if a == b:
        return True
    if is_bool_term(a) or is_bool_term(b):
        return case.ask(a) == case.ask(b)
    if a[0] in ('tup', 'arr') and b[0] == a[0] and len(a[1]) == len(b[1]):
        return all(equal(case, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'adt' or b[0] == 'adt':
        x, y = (a, b) if a[0] == 'adt' else (b, a)
        if y[0] == 'adt':
            if x[2] != y[2] or {n for n, _ in x[3]} != {n for n, _ in y[3]}:
                return False
            d = dict(y[3])
            return all(equal(case, v, d[n]) for n, v in x[3])
        if T.struct_like(x):
            return all(equal(case, v, case.simp(T.field(y, n))) for n, v in x[3])
        if not case.is_(y, x[2], x[1]):
            return False
        return all(equal(case, v, case.simp(('vf', y, x[2], n))) for n, v in x[3])
    if a[0] == 'st' or b[0] == 'st':
        x, y = (a, b) if a[0] == 'st' else (b, a)
        bx = x[1]
        names = [n for n, _ in x[2]]
        if y[0] == 'st' and y[1] == bx:
            names = sorted(set(names) | {n for n, _ in y[2]})
        elif y != bx:
            return False
        return all(equal(case, case.simp(T.field(x, n)), case.simp(T.field(y, n))) for n in names)
    if a[0] == 'cat' and b[0] == 'cat' and len(a[1]) == len(b[1]):
        return all(equal(case, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'cat' and len(a[1]) == 1:
        return equal(case, a[1][0], b)
    if b[0] == 'cat' and len(b[1]) == 1:
        return equal(case, a, b[1][0])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'op' and x[1] == 'b2i':
            return equal(case, cint(1 if case.ask(x[2]) else 0), case.simp(y))
        if x[0] == 'disp' and is_bool_term(x[1]):
            return equal(case, cstr('true' if case.ask(x[1]) else 'false'), case.simp(y))
        if x[0] == 'disp' and y in (cstr('true'), cstr('false')) and x[1][0] != 'c':
            v = case.facts.get(x[1])
            if v and v[0] == 'eq':
                return T.disp(v[1]) == y
    if numberlike(a) and numberlike(b):
        return equal_numbers(case.facts, a, b)
    # an option/enum value known to be one variant equals its rebuilt form
    return False


def numberlike(t):
    return t[0] == 'poly' or t[0] in ('f', 'vf', 'index', 's', 'len', 'lv', 'idx') or t[0] == 'c' and isinstance(t[2], (int, float)) and t[1] != 'bool' or \
        t[0] == 'op' and t[1] in ('min', 'max')


def simp(case, t, depth=0):
    if not isinstance(t, tuple) or depth > 30 or not t:
        return t
    k = t[0]
    if k == 'c' or k == 's' or k == 'unit' or k == 'lv':
        f = case.facts.get(t) if k != 'c' else None
        if f and f[0] == 'eq':
            return f[1]
        return t
    f = case.facts.get(t)
    if f and f[0] == 'eq':
        return f[1]
    if k == 'op':
        a = [simp(case, x, depth + 1) if isinstance(x, tuple) else x for x in t[2:]]
        if t[1] in ('max', 'min') and len(a) >= 2:
            r = a[0]
            for x in a[1:]:
                c = T.op('lt', r, x)
                d = case.ask(c)
                if t[1] == 'max':
                    r = x if d else r
                else:
                    r = r if d else x
            return r
        if t[1] == 'pos':
            return T.pos(a[0])
        if t[1] == 'eq':
            return T.mk_eq(a[0], a[1])
        return T.op(t[1], *a)
    if k == 'poly':
        r = {}
        for m, c in t[1]:
            p = {(): c}
            for at, w in m:
                x = simp(case, at, depth + 1)
                if w > 0:
                    for _ in range(w):
                        p = T.poly_mul(p, T.to_poly(x))
                else:
                    for _ in range(-w):
                        q = T.to_poly(T.op('div', cflt(1.0), x))
                        p = T.poly_mul(p, q)
            r = T.poly_add(r, p)
        return T.from_poly(r)
    if k == 'adt':
        return ('adt', t[1], t[2], tuple((n, simp(case, v, depth + 1)) for n, v in t[3]))
    if k in ('tup', 'arr'):
        return (k, tuple(simp(case, v, depth + 1) for v in t[1]))
    if k == 'cat':
        return T.strcat([simp(case, v, depth + 1) for v in t[1]])
    if k == 'st':
        base = t[1]
        fs = tuple((n, simp(case, v, depth + 1)) for n, v in t[2])
        fs = tuple((n, v) for n, v in fs if v != T.field(base, n))
        return ('st', base, fs) if fs else base
    if k == 'f':
        b = simp(case, t[1], depth + 1)
        r = T.field(b, t[2])
        if r != t:
            f = case.facts.get(r)
            if f and f[0] == 'eq':
                return f[1]
        return r
    if k == 'vf':
        b = simp(case, t[1], depth + 1)
        if b[0] == 'adt':
            return T.field(b, t[3])
        return ('vf', b, t[2], t[3])
    if k == 'isv':
        b = simp(case, t[1], depth + 1)
        kv = T.variant_of(b)
        if kv is not None:
            return ('c', 'bool', kv == t[2])
        return ('isv', b) + t[2:]
    if k in ('call', 'get', 'index', 'elem', 'm', 'len', 'ctx', 'posof', 'children', 'cast', 'disp', 'slice', 'idx', 'rule',
             'text', 'inner', 'upd', 'collect'):
        out = []
        for x in t:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out.append(simp(case, x, depth + 1))
            elif isinstance(x, tuple):
                out.append(tuple(simp(case, y, depth + 1) if isinstance(y, tuple) else y for y in x))
            else:
                out.append(x)
        if k == 'disp':
            return T.disp(out[1])
        return tuple(out)
    return t


def completions(seg, fn, limit=20000):
    """Run fn(case) for every answer to the questions the path left open. Yields (case, exception|None)."""
    script = []
    n = 0
    while True:
        n += 1
        if n > limit:
            raise Unsupported('too many completions of one path')
        c = Case(seg, script)
        try:
            fn(c)
            ex = None
        except Infeasible:
            ex = None
        except Mismatch as m:
            ex = m if possible(c.facts) else None
        yield c, ex
        script = script[:c.i]
        while script and script[-1] is False:
            script.pop()
        if not script:
            return
        script[-1] = False


# ------------------------------------------------------------------ canonical segments
def rekey(t, m):
    if isinstance(t, frozenset):
        return frozenset(rekey(x, m) for x in t)
    if isinstance(t, tuple):
        r = tuple(rekey(x, m) for x in t)
        if len(r) == 4 and r[0] == 'op' and r[1] == 'eq':
            return T.mk_eq(r[2], r[3])
        if r and r[0] == 'poly' and len(r) == 2:
            return ('poly', tuple(sorted(((tuple(sorted(mo, key=repr)), c) for mo, c in r[1]), key=repr)))
        if len(r) > 2 and r[0] == 'op' and r[1] in ('max', 'min'):
            return r[:2] + tuple(sorted(r[2:], key=T.tkey))
        return r
    if isinstance(t, str) and t in m:
        return m[t]
    return t


def known_len(v):
    return v[3][0] if v[0] == 'm' and v[1] == 'resize' else T.length(v)


def unzip(t, zips):
    """Two sequences of equal length walked together: the second by the index of the first."""
    if isinstance(t, frozenset):
        return frozenset(unzip(x, zips) for x in t)
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] in ('elem', 'idx') and isinstance(t[2], str) and t[2] in zips:
        a, b = zips[t[2]]
        if t[0] == 'idx' and t[1] in (b, ('zip', a, b)):
            return ('idx', a, t[2])
        if t[0] == 'elem' and t[1] == b and a != b:
            return T.index(b, ('idx', a, t[2]))
    return tuple(unzip(x, zips) for x in t)


def counted_back(seg):
    """Items counted from the end of a list whose length is known on this path are counted from its beginning."""
    m = {t: f[1] for t, f in seg.facts.items() if t[0] == 'len' and f[0] == 'eq' and f[1][0] == 'c'}
    if not m:
        return seg
    back = lambda x: x and x[0] == 'index' and len(x) == 3 and x[2][0] != 'c' and ('len', x[1]) in m and T.mentions(x[2], lambda y: y == ('len', x[1]))
    if not any(T.mentions(t, back) for t in list(seg.facts) + [seg.value or ()] + list(seg.all_events)):
        return seg
    r = lambda t: {k: r(v) for k, v in t.items()} if isinstance(t, dict) else tuple(r(x) for x in t) if t and t[0] == 'loop' else rebuild(t, m)
    return Segment(seg.kind, {t if t in m else r(t): r(f) for t, f in seg.facts.items()}, [r(e) for e in seg.events],
                   r(seg.value) if seg.value is not None else None, seg.where, seg.loop, {k: r(v) for k, v in seg.updates.items()},
                   [r(e) for e in seg.all_events], seg.mem)


def canon(seg):
    """Name the current loop's generic element K and enclosing/previous loops L0, L1, ..."""
    seg = counted_back(seg)
    m = {}
    if seg.loop:
        m[seg.loop] = 'K'
    n = 0
    for e in seg.all_events:
        if e[0] == 'loop' and e[1] not in m:
            m[e[1]] = f"L{n}"
            n += 1
    doms, inits = {}, {}
    for e in seg.all_events:
        if e[0] == 'dom':
            doms.setdefault(e[1], set()).add(e[2])
        elif e[0] == 'loop':
            inits[e[1]] = dict(e[2])
    zips = {}
    for e in seg.all_events:
        if e[0] == 'zip':
            a, b = e[2], e[3]
            la, lb = known_len(a), known_len(b)
            if la == lb or decided(seg.facts, T.mk_eq(la, lb)):
                zips[e[1]] = (a, b)
                doms[e[1]] = {a}
            else:
                doms[e[1]] = {('zip', a, b)}
    if zips:
        uz = lambda t: unzip(t, zips)
        s0 = seg
        seg = Segment(s0.kind, {uz(t): uz(f) for t, f in s0.facts.items()}, [uz(e) for e in s0.events],
                      uz(s0.value) if s0.value is not None else None, s0.where, s0.loop,
                      {k: uz(v) for k, v in s0.updates.items()}, [uz(e) for e in s0.all_events], None)
        inits = {k: {n: uz(v) for n, v in d.items()} for k, d in inits.items()}
    clean = lambda evs: [e[:2] if e[0] == 'loop' else e for e in evs if e[0] not in ('dom', 'zip')]
    s = Segment(seg.kind, {rekey(t, m): rekey(f, m) for t, f in seg.facts.items()},
                [rekey(e, m) for e in clean(seg.events)], rekey(seg.value, m) if seg.value is not None else None, seg.where,
                'K' if seg.loop else None, {k: rekey(v, m) for k, v in seg.updates.items()},
                [rekey(e, m) for e in clean(seg.all_events)], None)
    s.doms = {m.get(k, k): {rekey(d, m) for d in ds} for k, ds in doms.items() if k in m}
    s.inits = {m.get(k, k): {n: rekey(v, m) for n, v in d.items()} for k, d in inits.items() if k in m}
    s.dom = next(iter(sorted(s.doms.get('K', ()), key=repr)), None) if seg.loop else None
    s.raw = seg
    return s


def loop_ids(s):
    """The original number of each loop of a canonical segment."""
    m = {'K': s.raw.loop} if s.raw.loop else {}
    seen = set(m.values())
    n = 0
    for e in s.raw.all_events:
        if e[0] == 'loop' and e[1] not in seen:
            seen.add(e[1])
            m[f"L{n}"] = e[1]
            n += 1
    return m


def el(d, k='K'):
    return ('elem', d, k)


def abandoned(events):
    """Loops entered but left before their sequence was exhausted."""
    entered = [e[1] for e in events if e[0] == 'loop']
    done = {e[1] for e in events if e[0] == 'exit'}
    return [k for k in entered if k not in done]


class Effects:
    """Observable effects of a segment: ordered calls, final values of written places, container edits."""

    def __init__(self, events, skip_call=lambda n: False, skip_place=lambda p: False, locals_too=False):
        self.calls = []
        self.writes = {}
        self.muts = []
        self.order = []
        for e in events:
            if e[0] == 'call':
                if not skip_call(e[1]):
                    self.calls.append((e[1].rsplit('::', 1)[-1] if e[1] else e[1], e[2]))
                    self.order.append(('call', self.calls[-1]))
            elif e[0] == 'w':
                if not skip_place(e[1]):
                    self.writes[e[1]] = e[2]
                    self.order.append(('w', e[1], e[2]))
            elif e[0] == 'mut':
                if skip_place(e[1]) or (is_local(e[1]) and not locals_too):
                    continue
                self.muts.append((e[1], e[2], e[3]))
                self.order.append(('mut',) + self.muts[-1])
            elif e[0] == 'loop':
                self.order.append(('loop', e[1]))
        self.writes = {p: v for p, v in self.writes.items() if p != v}


def is_local(p):
    while p[0] in ('f', 'vf', 'as', 'index'):
        p = p[1]
    return p[0] == 'place'


# ------------------------------------------------------------------ baseline of names (anchors survive renames)
_BASE = None


def signature(f):
    b = f['body']
    return [b['locals'][i][0] for i in range(b['args'] + 1)]


def profile(f):
    """What a function calls, by name (sorted, with repetitions)."""
    out = []
    for b in f['body']['blocks']:
        t = b['t']
        if t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c'].get('k') == 'fn':
            out.append(strip_generics(t['f']['c']['fn']['p']).rsplit('::', 1)[-1])
    return sorted(out)


def alike(a, b):
    from collections import Counter
    a, b = Counter(a), Counter(b)
    return sum((a & b).values()) / max(1, sum((a | b).values()))


def baseline():
    global _BASE
    if _BASE is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline_fns.json')
        with open(p) as fh:
            _BASE = json.load(fh)
    return _BASE


def write_baseline(F):
    out = {}
    for n, f in sorted(F['fns'].items()):
        if '{closure' in n or f.get('expn'):
            continue
        b = f['body']
        out[n] = {'sig': signature(f), 'params': [b['locals'][i + 1][1] or f"arg{i + 1}" for i in range(b['args'])],
                  'self': f.get('self') and strip_generics(f['self']), 'calls': profile(f)}
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline_fns.json')
    with open(p, 'w') as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write('\n')


# ------------------------------------------------------------------ check context
class Check:
    """Collects obligations, violations and what was analysed, for one property."""

    def __init__(self, facts, prop):
        self.F = facts
        self.prop = prop
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.seen = set()
        self.functions = set()
        self.segments = 0
        self.samples = []
        self.notes = []
        self.cache = {}
        self.unknown = set()
        self.floors = {}

    def find(self, suffix, must=True):
        """The function whose path ends with `suffix` (an anchor)."""
        c = [n for n in self.F['fns'] if n == suffix or n.endswith('::' + suffix)]
        if not c:
            # `Type::method` of an inherent or trait impl
            if '::' in suffix:
                ty, m = suffix.rsplit('::', 1)
                c = [n for n, f in self.F['fns'].items() if f['name'] == m and f.get('self') and
                     strip_generics(f['self']).rsplit('::', 1)[-1] == ty.rsplit('::', 1)[-1] and '{closure' not in n]
        if not c:
            c = self.by_signature(suffix)
        if len(c) > 1:
            # a function of the same name was added: the anchor is the one known before
            known = [n for n in c if n in baseline()]
            c = known if len(known) == 1 else c
        if len(c) != 1:
            if must:
                self.violate(f"anchor:{suffix}", f"the function `{suffix}` this rule is anchored in is "
                             f"{'missing' if not c else 'ambiguous: ' + str(c[:4])}: the obligation cannot be established",
                             suffix)
            return None
        return c[0]

    def by_signature(self, suffix):
        """A renamed private function: the only function unknown to the baseline with the anchor's signature."""
        base = baseline()
        b = [n for n in base if n == suffix or n.endswith('::' + suffix)]
        if not b and '::' in suffix:
            ty, m = suffix.rsplit('::', 1)
            b = [n for n, x in base.items() if x['self'] and n.endswith('::' + m) and x['self'].rsplit('::', 1)[-1] == ty.rsplit('::', 1)[-1]]
        if len(b) != 1:
            return []
        new = self.renamed(base[b[0]]['sig'])
        if b[0] in new:
            return [new[b[0]]]
        return []

    def renamed(self, sig):
        """Which functions of this signature that are gone are which of those that are new: the best assignment by what they call."""
        import itertools
        base = baseline()
        new = [n for n, f in self.F['fns'].items() if n not in base and signature(f) == sig and '{closure' not in n]
        lost = [n for n, x in base.items() if x['sig'] == sig and n not in self.F['fns']]
        if not new or not lost or len(new) > 6 or len(lost) > 6:
            return {}
        if len(new) == 1 and len(lost) == 1:
            return {lost[0]: new[0]}
        calls = {n: profile(self.F['fns'][n]) for n in new}
        best = []
        for p in itertools.permutations(new + [None] * (len(lost) - len(new)), len(lost)):
            w = sum(alike(base[o]['calls'], calls[n]) for o, n in zip(lost, p) if n)
            best.append((w, p))
        top = max(w for w, _ in best)
        tops = {p for w, p in best if w > top - 1e-9}
        if len(tops) != 1:
            return {}
        return {o: n for o, n in zip(lost, tops.pop()) if n}

    def params(self, name):
        """Positional names of the parameters (those of the baseline: a renamed parameter changes nothing)."""
        f = self.F['fns'][name]
        base = baseline()
        b = base.get(name)
        if b is None:
            c = [x for x in base.values() if x['sig'] == signature(f)]
            b = c[0] if len(c) == 1 else next((base[o] for o, n in self.renamed(signature(f)).items() if n == name), None)
        n = f['body']['args']
        if b and len(b['params']) == n:
            return [sym(x) for x in b['params']]
        return [sym(f['body']['locals'][i + 1][1] or f"arg{i + 1}") for i in range(n)]

    def engine(self, **kw):
        e = Engine(self.F, **kw)
        return e

    def run(self, name, args=None, **kw):
        """Segments of a function (canonical), or None after recording why they cannot be established."""
        kw = dict(kw)
        op = kw.get('opaque', ())
        if not callable(op):
            names = set(op)
            kw['opaque'] = lambda n: n in names or any(n.endswith('::' + x) for x in names) or short_name(n) in names
        e = self.engine(**kw)
        if args is None:
            args = self.params(name)
        try:
            segs = e.run(name, args)
        except (Unsupported, RecursionError, KeyError, IndexError, TypeError, AttributeError) as x:
            self.violate(f"analysis:{name}", f"the behaviour of `{name}` could not be established: {type(x).__name__}: {x}", name)
            return None
        self.functions |= e.analysed
        self.unknown |= e.unknown_calls
        self.segments += len(segs)
        self.last_engine = e
        return [canon(s) for s in by_hand(segs)]

    def violate(self, key, msg, where=''):
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append({'key': key, 'message': msg, 'where': where})

    def obligation(self, ok, key, msg, where=''):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violate(key, msg, where)
        return ok

    def floor(self, n, minimum, what, key):
        self.floors[key] = {'found': n, 'confirmed': minimum, 'what': what}
        self.obligation(n >= minimum, f"floor:{key}", f"only {n} {what} were found, at least {minimum} were confirmed by "
                        f"hand: the obligations cannot be established", key)

    def compare(self, segs, oracle, key, where, select=lambda s: True):
        """Each selected segment must do what the oracle prescribes, whatever the undecided questions are."""
        n = 0
        for s in segs:
            if not select(s):
                continue
            n += 1
            if len(self.samples) < 6 and n == 1:
                self.samples.append({'rule': key, 'path': s.show()[:1500]})
            bad = None
            try:
                for c, ex in completions(s, oracle):
                    if ex is not None:
                        bad = (c, ex)
                        break
            except Unsupported as x:
                bad = (None, x)
            except (TypeError, AttributeError, IndexError, KeyError, ValueError, StopIteration) as x:
                bad = (None, Unsupported(f"the rule could not read this path: {type(x).__name__}: {x}"))
            self.obligations += 1
            if bad is None:
                self.discharged += 1
                continue
            c, ex = bad
            path = '; '.join(show_fact(t, f) for t, f in list(s.facts.items())[:14])
            extra = '; '.join(f"{pp(t)} = {r}" for t, r in c.asked) if c else ''
            self.violate(f"{key}:{getattr(ex, 'key', '')or stable(ex)}",
                         f"{ex}\n      on the path [{path}]" + (f"\n      whatever the path does not test, here: {extra}" if extra else ''),
                         s.where or where)
        return n


def stable(ex):
    return str(ex)[:160]


def short_name(n):
    return n.rsplit('::', 1)[-1]


def strip_generics(t):
    from absint import strip_ty
    return strip_ty(t)


def fld(t, path):
    for p in path.split('.'):
        t = T.field(t, p)
    return t


def exists(k, segs, s, dom, pred):
    """Whether some element of `dom` satisfies `pred`, as the path established it: by finding one, by exhausting a
    search, or by a flag that a loop over all elements raised."""
    found = None
    for t, fct in s.facts.items():
        for x in T.subterms(t):
            if x[0] == 'elem' and x[1] == dom and pred(_Only(k, s), x) is True:
                return True
    for t, fct in s.facts.items():
        if t[0] == 'lv' and fct[0] == 'eq' and fct[1][0] == 'c' and fct[1][1] == 'bool' and dom in s.doms.get(t[1], ()):
            init = s.inits.get(t[1], {}).get(t[2])
            raised = T.TRUE if init == T.FALSE else T.FALSE
            ok = init in (T.TRUE, T.FALSE)
            for b in segs:
                if b.kind == 'back' and b.dom == dom and t[2] in b.updates:
                    p = pred(_Only(k, b), el(dom))
                    u = b.updates[t[2]]
                    if p is None or u != (raised if p else ('lv', 'K', t[2])):
                        ok = False
            if not ok:
                raise Mismatch('a flag about the input does not say whether such an event exists')
            return fct[1] == raised
    done = {e[1] for e in s.all_events if e[0] == 'exit'}
    for key in done:
        if dom in s.doms.get(key, ()):
            bs = [b for b in segs if b.kind == 'back' and b.dom == dom]
            if bs and all(pred(_Only(k, b), el(dom)) is False for b in bs):
                return False
    raise Mismatch('whether such an event exists is not established')


class _Only:
    """Answers only what a segment decides (None otherwise)."""

    def __init__(self, k, seg):
        self.seg = seg

    def is_(self, v, name, path=None):
        return decided(self.seg.facts, ('isv', v, name))


class _Ground:
    def __init__(self, facts):
        self.facts = facts

    def ask(self, t):
        raise Unsupported('undecided order of an index')


def grounded(s, var):
    """The segment with an index that its path establishes written as that number (None: the path cannot happen)."""
    known = s.facts.get(var)
    if known and known[0] == 'ne' and cint(0) in known[1] and decided(s.facts, T.op('lt', cint(0), var)) is False:
        return None
    if not (known and known[0] == 'eq'):
        return s
    return refined(s, {var: known[1]}, keep=(var,))


def refined(s, m, extra=(), keep=()):
    """The segment with terms replaced by what they are known to be, and further facts (None: it cannot happen)."""
    g = _Ground({t: ('eq', v) for t, v in m.items()})

    def walk(t):
        if isinstance(t, dict):
            return {walk(a): walk(b) for a, b in t.items()}
        if isinstance(t, list):
            return [walk(x) for x in t]
        if isinstance(t, frozenset):
            return frozenset(walk(x) for x in t)
        if isinstance(t, tuple):
            try:
                if t in m:
                    return m[t]
            except TypeError:
                pass
            if t and t[0] in ('op', 'poly') and T.mentions(t, lambda x: x in m):
                return simp(g, t)
            return tuple(walk(x) for x in t)
        return t
    n = Segment(s.kind, {}, walk(s.events), walk(s.value), s.where, s.loop, walk(s.updates), walk(s.all_events), None)
    for t, x in s.facts.items():
        if t in keep:
            n.facts[t] = x
            continue
        t, x = walk(t), walk(x)
        if t[0] == 'c':
            if x[0] == 'eq' and x[1] != t or x[0] == 'ne' and t in x[1]:
                return None
            continue
        if x[0] == 'in' and T.variant_of(t) is not None:
            if T.variant_of(t) not in x[1]:
                return None
            continue
        if n.facts.get(t, x) != x:
            return None
        n.facts[t] = x
    for t, x in extra:
        x = ('eq', x)
        if n.facts.get(t, x) != x:
            return None
        n.facts[t] = x
    if extra and not possible(n.facts):
        return None
    n.doms, n.inits, n.dom, n.raw = walk(s.doms), walk(s.inits), walk(s.dom), s.raw
    return n


def iter_terms(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from iter_terms(k)
            yield from iter_terms(v)
    elif isinstance(x, (list, frozenset, set)):
        for y in x:
            yield from iter_terms(y)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, (tuple, frozenset)):
                yield from iter_terms(y)
