"""Terms of the abstract domain: hashable tuples, with smart constructors and a printer."""
import re

UNIT = ('unit',)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def cint(v):
    return ('c', 'int', int(v))


def cstr(v):
    return ('c', 'str', v)


def cflt(v):
    return ('c', 'float', float(v))


def sym(n):
    return ('s', n)


def is_const(t):
    return t[0] == 'c'


def adt(path, variant, fields=()):
    return ('adt', path, variant, tuple(fields))


OPT = 'std::option::Option'
RES = 'std::result::Result'


def some(v):
    return adt(OPT, 'Some', (('0', v),))


NONE = adt(OPT, 'None')


def ok(v):
    return adt(RES, 'Ok', (('0', v),))


def err(v):
    return adt(RES, 'Err', (('0', v),))


def variant_of(v):
    """The known variant of an enum value or None."""
    if v[0] == 'adt':
        return v[2]
    if v[0] == 'st' and v[1][0] == 'as':
        return v[1][2]
    if v[0] == 'as':
        return v[2]
    return None


def field(v, name):
    k = v[0]
    if k == 'adt':
        for n, x in v[3]:
            if n == name:
                return x
        return ('f', v, name)
    if k in ('tup', 'arr') and name.isdigit() and int(name) < len(v[1]):
        return v[1][int(name)]
    if k == 'clo' and name.isdigit():
        return v[2][int(name)]
    if k == 'st':
        for n, x in v[2]:
            if n == name:
                return x
        return field(v[1], name)
    if k == 'ref' and name in ('0', 'pointer'):
        return v
    if k == 'as':
        return ('vf', v[1], v[2], name)
    return ('f', v, name)


def as_variant(v, variant):
    if v[0] == 'adt':
        return v
    if v[0] == 'as':
        return v
    if v[0] == 'st' and v[1][0] == 'as':
        return v
    return ('as', v, variant)


def set_field(v, name, new):
    k = v[0]
    if k == 'adt':
        fs = []
        hit = False
        for n, x in v[3]:
            if n == name:
                fs.append((n, new))
                hit = True
            else:
                fs.append((n, x))
        if not hit:
            fs.append((name, new))
        return ('adt', v[1], v[2], tuple(fs))
    if k in ('tup', 'arr') and name.isdigit() and int(name) < len(v[1]):
        l = list(v[1])
        l[int(name)] = new
        return (k, tuple(l))
    if k == 'clo' and name.isdigit():
        l = list(v[2])
        l[int(name)] = new
        return ('clo', v[1], tuple(l))
    if k == 'st':
        d = dict(v[2])
        d[name] = new
        return ('st', v[1], tuple(sorted(d.items())))
    return ('st', v, ((name, new),))


def length(v):
    if v[0] == 'arr':
        return cint(len(v[1]))
    if v[0] == 'c' and v[1] == 'str':
        return cint(len(v[2].encode()))
    if v[0] == 'c' and v[1] == 'bytes':
        return cint(len(v[2]))
    if v[0] == 'lensym':
        return v[2]
    if v[0] == 'upd':
        return length(v[1])
    if v[0] == 'm' and v[1] in ('resize_with', 'resize'):
        return v[3][0]
    if v[0] == 'slice' and v[2] == cint(0):
        return v[3]
    if v[0] == 'slice' and v[2][:2] == ('c', 'int') and v[3] == length(v[1]):
        return op('sub', v[3], v[2])
    return ('len', v)


def index(v, i):
    if v[0] == 'arr' and is_const(i) and i[2] < len(v[1]):
        return v[1][i[2]]
    if v[0] == 'upd':
        if v[2] == i:
            return v[3]
    if v[0] == 'slice' and is_const(i) and is_const(v[2]):
        return index(v[1], cint(v[2][2] + i[2]))
    if i[0] == 'elem' and i[1][0] == 'range' and i[1][2] == ('len', v) and i[1][1] == cint(0):
        return ('elem', v, i[2])
    if i[0] == 'idx':
        d = i[1]
        while d != v and d[0] in ('rev', 'skip', 'take'):
            d = d[1]
        if d == v:
            return ('elem', i[1], i[2])
    return ('index', v, i)


def strcat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            out.extend(p[1])
        else:
            out.append(p)
    m = []
    for p in out:
        if p[0] == 'c' and p[1] in ('int', 'bool', 'char'):
            p = cstr(str(p[2]))
        if p == cstr(''):
            continue
        if m and m[-1][0] == 'c' and p[0] == 'c':
            m[-1] = cstr(m[-1][2] + p[2])
        else:
            m.append(p)
    if not m:
        return cstr('')
    if len(m) == 1 and m[0][0] == 'c':
        return m[0]
    if len(m) == 1 and m[0][0] not in ('fmt',):
        return ('cat', (m[0],)) if m[0][0] != 'c' else m[0]
    return ('cat', tuple(m))


def tkey(t):
    return repr(t)


# ---- arithmetic: polynomial normal form over opaque atoms (exact reals: rounding and NaN are not modelled)
ARITH = ('add', 'sub', 'mul', 'div', 'neg')


def to_poly(t):
    """{monomial: coefficient}; monomial = sorted tuple of (atom, power)."""
    if t[0] == 'c' and t[1] in ('int', 'float'):
        return {(): t[2]} if t[2] != 0 else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {((t, 1),): 1}


def from_poly(p, isfloat=False):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return cflt(0.0) if isfloat else cint(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if isinstance(c, float) or isfloat:
                return cflt(c)
            return cint(c)
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return m[0][0]
    items = tuple(sorted(((m, (int(c) if float(c).is_integer() else round(float(c), 12))) for m, c in p.items()),
                         key=repr))
    return ('poly', items)


def poly_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return r


def poly_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = {}
            for at, pw in m + n:
                e[at] = e.get(at, 0) + pw
            key = tuple(sorted(((x, w) for x, w in e.items() if w != 0), key=repr))
            r[key] = r.get(key, 0) + c * d
    return r


def floaty(a):
    return any(x[0] == 'c' and x[1] == 'float' for x in a)


def disp(x):
    if x[0] == 'c' and x[1] in ('int', 'str'):
        return cstr(str(x[2]))
    if x[0] == 'c' and x[1] == 'bool':
        return cstr('true' if x[2] else 'false')
    return ('disp', x)


def op(name, *args):
    a = list(args)
    if name in ('and', 'or', 'not'):
        return boolop(name, *a)
    if name in ('add', 'sub', 'mul', 'neg', 'div'):
        fl = floaty(a)
        ps = [to_poly(x) for x in a]
        if name == 'neg':
            return from_poly(poly_add({}, ps[0], -1), fl)
        if name == 'add':
            r = {}
            for p in ps:
                r = poly_add(r, p)
            return from_poly(r, fl)
        if name == 'sub':
            return from_poly(poly_add(ps[0], ps[1], -1), fl)
        if name == 'mul':
            r = {(): 1}
            for p in ps:
                r = poly_mul(r, p)
            return from_poly(r, fl)
        # division
        if a[1][0] == 'c' and a[1][2] != 0 and (a[1][1] == 'float'):
            return from_poly({m: c / a[1][2] for m, c in ps[0].items()}, fl)
        if all(x[0] == 'c' and x[1] == 'int' for x in a) and a[1][2]:
            return cint(int(a[0][2] / a[1][2]))
        if a[1][0] == 'c' and a[1][1] == 'int':
            return ('op', 'idiv', a[0], a[1])
        d = ps[1]
        if len(d) == 1:
            (m, c), = d.items()
            inv = {tuple((at, -pw) for at, pw in m): 1.0 / c if c != 1 else 1}
            return from_poly(poly_mul(ps[0], inv), fl)
        return from_poly(poly_mul(ps[0], {((a[1], -1),): 1}), fl)
    if name == 'b2i' and a[0][0] == 'c':
        return cint(1 if a[0][2] else 0)
    if all(x[0] == 'c' for x in a):
        r = fold(name, [x[2] for x in a], [x[1] for x in a])
        if r is not None:
            return r
    if name in ('lt', 'le', 'gt', 'ge'):
        x, y = a
        if name in ('gt', 'ge'):
            x, y = y, x
        return pos(op('sub', y, x)) if name in ('lt', 'gt') else op('not', pos(op('sub', x, y)))
    if name in ('max', 'min'):
        flat = []
        for x in a:
            if x[0] == 'op' and x[1] == name:
                flat.extend(x[2:])
            else:
                flat.append(x)
        u = []
        for x in flat:
            if x not in u:
                u.append(x)
        flat = u
        if len(flat) == 1:
            return flat[0]
        a = sorted(flat, key=tkey)
    return ('op', name) + tuple(a)


def signum(x):
    """The sign of a number, 1 or -1; that of its opposite is the opposite."""
    if x[0] == 'poly' and len(x[1]) == 1:
        m, c = x[1][0]
        s = ('op', 'signum', from_poly({m: 1}, True))
        return s if c > 0 else op('neg', s)
    return op('signum', x)


def pos(p):
    """0 < p, for p scaled so that its leading coefficient has magnitude one."""
    if p[0] == 'c':
        return ('c', 'bool', p[2] > 0)
    d = to_poly(p)
    lead = None
    for m in sorted((m for m in d if m != ()), key=repr):
        lead = m
        break
    c = abs(d[lead])
    if c != 1:
        d = {m: x / c for m, x in d.items()}
        p = from_poly(d)
    if len(lead) == 1 and lead[0][1] == 1 and lead[0][0][0] == 'op' and lead[0][0][1] in ('max', 'min') and len(d) - (() in d) == 1:
        # of limits: one of the two, or both
        k, up = d.get((), 0), d[lead] > 0
        parts = [op('add', x if up else op('neg', x), from_poly({(): k}, floaty([p]))) if k else (x if up else op('neg', x)) for x in lead[0][0][2:]]
        return boolop('or' if up == (lead[0][0][1] == 'max') else 'and', *[pos(x) for x in parts])
    # an index of a sequence is less than its length
    if len(d) - (() in d) == 2 and d.get((), 0) >= 0:
        one_, other = sorted((m for m in d if m != ()), key=lambda m: d[m])
        if d[one_] == -1 and d[other] == 1 and len(one_) == len(other) == 1 and one_[0][1] == other[0][1] == 1:
            i, n = one_[0][0], other[0][0]
            if i[0] == 'idx' and n[0] == 'len' and i[1] == n[1]:
                return TRUE
    # lengths are natural numbers
    if len([m for m in d if m != ()]) == 1 and lead[0][0][0] in ('len', 'idx') and len(lead) == 1 and lead[0][1] == 1:
        k = d.get((), 0)
        x = lead[0][0]
        if d[lead] > 0:
            if k > 0:
                return TRUE
            if k == 0:
                return boolop('not', mk_eq(x, cint(0)))
        else:
            if k <= 0:
                return FALSE
            if k == 1:
                return mk_eq(x, cint(0))
    return ('op', 'pos', p)


def negpoly(p):
    return op('neg', p)


def boolop(name, *a):
    if name == 'not':
        x = a[0]
        if x == TRUE:
            return FALSE
        if x == FALSE:
            return TRUE
        if x[0] == 'op' and x[1] == 'not':
            return x[2]
        return ('op', 'not', x)
    unit, zero = (TRUE, FALSE) if name == 'and' else (FALSE, TRUE)
    flat = []
    for x in a:
        if x == zero:
            return zero
        if x == unit:
            continue
        if x[0] == 'op' and x[1] == name:
            flat.extend(x[2:])
        else:
            flat.append(x)
    u = []
    for x in flat:
        if x not in u:
            u.append(x)
    if not u:
        return unit
    if len(u) == 1:
        return u[0]
    return ('op', name) + tuple(u)


def fold(name, v, ty):
    try:
        if 'int' in ty and all(t == 'int' for t in ty):
            if name == 'add':
                return cint(v[0] + v[1])
            if name == 'sub':
                return cint(v[0] - v[1])
            if name == 'mul':
                return cint(v[0] * v[1])
            if name == 'div' and v[1]:
                return cint(int(v[0] / v[1]))
            if name == 'min':
                return cint(min(v))
            if name == 'max':
                return cint(max(v))
        if name in ('lt', 'le', 'gt', 'ge') and all(t in ('int', 'float') for t in ty):
            r = {'lt': v[0] < v[1], 'le': v[0] <= v[1], 'gt': v[0] > v[1], 'ge': v[0] >= v[1]}[name]
            return ('c', 'bool', r)
        if name == 'neg' and ty[0] in ('int', 'float'):
            return ('c', ty[0], -v[0])
        if name == 'abs' and ty[0] in ('int', 'float'):
            return ('c', ty[0], abs(v[0]))
        if all(t == 'float' for t in ty):
            if name == 'add':
                return cflt(v[0] + v[1])
            if name == 'sub':
                return cflt(v[0] - v[1])
            if name == 'mul':
                return cflt(v[0] * v[1])
            if name == 'div' and v[1]:
                return cflt(v[0] / v[1])
    except Exception:
        return None
    return None


def mk_eq(a, b):
    if a == b:
        if contains_float(a):
            pass
        return TRUE
    if a[0] == 'c' and b[0] == 'c':
        if a[1] == b[1] or {a[1], b[1]} <= {'str', 'char'}:
            return ('c', 'bool', a[2] == b[2])
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x[0] == 'adt':
            vy = variant_of(y)
            if vy is not None:
                if vy != x[2]:
                    return FALSE
                return boolop('and', *[mk_eq(v, field(y, n)) for n, v in x[3]])
            if x[2] is not None and not struct_like(x):
                parts = [('isv', y, x[2], x[1])]
                for n, v in x[3]:
                    parts.append(mk_eq(v, ('vf', y, x[2], n)))
                return boolop('and', *parts)
            return boolop('and', *[mk_eq(v, field(y, n)) for n, v in x[3]])
    if a[0] == b[0] and a[0] in ('tup', 'arr') and len(a[1]) == len(b[1]):
        return boolop('and', *[mk_eq(x, y) for x, y in zip(a[1], b[1])])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'c' and x[1] == 'bool':
            return y if x[2] else boolop('not', y)
    for x, y in ((a, b), (b, a)):
        # a limited number is its limit if nothing exceeds it
        if y[0] == 'c' and x[0] == 'op' and x[1] in ('max', 'min') and y in x[2:]:
            rest = [z for z in x[2:] if z != y]
            return boolop('and', *[boolop('not', op('lt', *((y, z) if x[1] == 'max' else (z, y)))) for z in rest])
    for x, y in ((a, b), (b, a)):
        # the opposite of a number is zero if the number is
        if y == ('c', 'float', 0.0) and x[0] == 'poly' and len(x[1]) == 1 and x[1][0][1] == -1:
            return mk_eq(from_poly({x[1][0][0]: 1}, True), y)
    if 'poly' in (a[0], b[0]) and not floaty([a, b]):
        r = balanced(a, b)
        if r[0] == 'c':
            return r
        a, b = r
    a, b = sorted((a, b), key=lambda t: (t[0] == 'c', tkey(t)))
    return ('op', 'eq', a, b)


def balanced(a, b):
    """Both sides of an equation with every part on the side where it is added (or whether it holds)."""
    d = {m: x for m, x in poly_add(to_poly(a), to_poly(b), -1).items() if x != 0}
    rest = {m: x for m, x in d.items() if m != ()}
    if not rest:
        return ('c', 'bool', not d)
    if () not in d and len(rest) == 1:
        return from_poly({m: 1 for m in rest}), cflt(0.0) if floaty([a, b]) else cint(0)
    left = {m: x for m, x in rest.items() if x > 0}
    right = {m: -x for m, x in rest.items() if x < 0}
    if not left:
        left, right, d = right, left, {m: -x for m, x in d.items()}
    k = d.get((), 0)
    fl = floaty([a, b])
    if not right:
        return from_poly(left, fl), from_poly({(): -k}, fl)
    if k > 0:
        left[()] = k
    elif k < 0:
        right[()] = -k
    return from_poly(left, fl), from_poly(right, fl)


def contains_float(a):
    return False


def struct_like(x):
    return x[1].rsplit('::', 1)[-1] == x[2]


def to_int(x):
    """A float as an unsigned integer."""
    if x[0] == 'c' and 0 <= x[2] <= 127:
        return cint(int(x[2]))
    return ('cast', 'f', 'i', x)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from subterms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            if y and isinstance(y[0], str) and len(y) == 2 and isinstance(y[1], tuple):
                                yield from subterms(y[1])
                            yield from subterms(y)


def mentions(t, pred):
    """Whether a subterm satisfies the predicate. Terms are DAGs: a shared
    subterm is visited once."""
    if not isinstance(t, tuple):
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if pred(x):
            return True
        for y in x:
            if isinstance(y, tuple):
                todo.append(y)
    return False


def subst(t, m):
    """Structural substitution of whole subterms (sharing is kept)."""
    done = {}

    def go(t):
        if not isinstance(t, tuple):
            return m.get(t, t)
        r = done.get(id(t))
        if r is None:
            if t in m:
                r = m[t]
            else:
                r = tuple(go(x) if isinstance(x, tuple) else x for x in t)
                if all(a is b for a, b in zip(r, t)):
                    r = t
            done[id(t)] = r
        return r
    return go(t)


INFIX = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%', 'eq': '==', 'lt': '<', 'le': '<=',
         'and': '&&', 'or': '||'}


def short(p):
    p = re.sub(r"<impl [^>]*>", "impl", p)
    return p.rsplit('::', 1)[-1]


def pp(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if isinstance(t[0], tuple):
        return '(' + ', '.join(pp(x, d + 1) for x in t) + ')'
    k = t[0]
    if d > 40:
        return '…'
    P = lambda x: pp(x, d + 1)
    if k == 'c':
        if t[1] == 'str':
            return repr(t[2])
        if t[1] == 'bool':
            return 'true' if t[2] else 'false'
        return str(t[2])
    if k == 'unit':
        return '()'
    if k == 's':
        return str(t[1])
    if k == 'f':
        return f"{P(t[1])}.{t[2]}"
    if k == 'vf':
        return f"{P(t[1])}.{t[2]}.{t[3]}"
    if k == 'as':
        return f"({P(t[1])} as {t[2]})"
    if k == 'adt':
        if t[2] is None or not t[3]:
            return f"{t[2] or short(t[1])}"
        if all(n.isdigit() for n, _ in t[3]):
            return f"{t[2]}({', '.join(P(v) for _, v in t[3])})"
        return f"{t[2]}{{{', '.join(n + ': ' + P(v) for n, v in t[3])}}}"
    if k == 'tup':
        return '(' + ', '.join(P(x) for x in t[1]) + ')'
    if k == 'arr':
        return '[' + ', '.join(P(x) for x in t[1]) + ']'
    if k == 'st':
        return f"{P(t[1])}{{{', '.join(n + ':=' + P(v) for n, v in t[2])}}}"
    if k == 'op':
        if t[1] in INFIX and len(t) >= 4:
            return '(' + f" {INFIX[t[1]]} ".join(P(x) for x in t[2:]) + ')'
        if t[1] == 'not':
            return '!' + P(t[2])
        if t[1] == 'pos':
            return f"(0 < {P(t[2])})"
        return f"{t[1]}({', '.join(P(x) for x in t[2:])})"
    if k == 'poly':
        out = []
        for m, c in t[1]:
            f = '*'.join(P(x) + (f'^{w}' if w != 1 else '') for x, w in m)
            out.append(f if c == 1 and f else (f"{c}*{f}" if f else str(c)))
        return '(' + ' + '.join(out) + ')'
    if k == 'cat':
        return 'cat(' + ' ~ '.join(P(x) for x in t[1]) + ')'
    if k == 'isv':
        return f"({P(t[1])} is {t[2]})"
    if k == 'call':
        return f"{short(t[1])}({', '.join(P(x) for x in t[2])})"
    if k == 'm':
        return f"{P(t[2])}~{t[1]}({', '.join(P(x) for x in t[3])})"
    if k == 'elem':
        return f"elem({P(t[1])})"
    if k == 'idx':
        return f"idx({P(t[1])})"
    if k == 'len':
        return f"len({P(t[1])})"
    if k == 'index':
        return f"{P(t[1])}[{P(t[2])}]"
    if k == 'range':
        return f"{P(t[1])}..{P(t[2])}"
    if k == 'ref':
        return '&' + pploc(t[1])
    if k == 'lv':
        return f"lv<{t[2]}>"
    if k == 'clo':
        return f"closure<{short(t[1])}>"
    if k == 'fn':
        return f"fn<{short(t[1])}>"
    if k == 'ctx':
        return f"ctx({P(t[1])})"
    if k == 'it':
        return f"iter<{','.join(str(x) if not isinstance(x, tuple) else P(x) for x in t[1:])}>"
    if all(isinstance(x, (tuple, str, int)) for x in t):
        return f"{k}({', '.join(P(x) if isinstance(x, tuple) else str(x) for x in t[1:])})"
    return repr(t)


def pploc(loc):
    root, proj = loc
    if root[0] == 'O':
        s = pp(root[1])
    elif root[0] == 'L':
        s = f"local{root[2]}@{root[1]}"
    else:
        s = f"{root[0]}{root[1]}"
    for p in proj:
        if p[0] == 'f':
            s += '.' + p[1]
        elif p[0] == 'v':
            s += ' as ' + p[1]
        elif p[0] == 'i':
            s += '[' + pp(p[1]) + ']'
        else:
            s += str(p)
    return s


def conj(ts):
    ts = list(ts)
    return TRUE if not ts else ts[0] if len(ts) == 1 else op('and', *ts)
