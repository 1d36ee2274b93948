"""The readers: from text to the models of styles and documents."""
import glob
import os
import re
import grammar as G
from rulelib import *
from terms import *
import terms as T
from registry import prop

f = fld
REPO = os.environ.get('BUMAGA_REPO', '/repo')


# ------------------------------------------------------------------ C24 no text stops a reader
def parsers(c):
    """{type of the rules: (name of the parser, its grammar)}"""
    out = {}
    for path in sorted(glob.glob(f'{REPO}/src/**/*.rs', recursive=True)):
        with open(path) as fh:
            text = fh.read()
        for m in re.finditer(r'#\[grammar\s*=\s*"([^"]+)"\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?struct\s+(\w+)', text):
            mod = os.path.relpath(path, f'{REPO}/src')[:-3].replace('/', '::')
            mod = re.sub(r'(::)?\bmod$', '', mod)
            g = G.load(f'{REPO}/src/{m.group(1)}')
            out[f'{mod}::Rule'] = (f'{mod}::{m.group(2)}', g)
    return out


def pair_kind(ty, rules):
    m = re.fullmatch(r"pest::iterators::Pair<'_, ([\w:]+)>", ty)
    return m.group(1) if m and m.group(1) in rules else None


@prop('C24')
def readers_end(c):
    """No text makes a reader stop: what it takes for granted about the pairs, the grammar grants."""
    ps = parsers(c)
    c.floor(len(ps), 2, 'grammars', 'grammars')
    rules = set(ps)
    # readers of one pair, and readers of a text
    fns = {}
    entry = {}
    for n, fn in c.F['fns'].items():
        if '{closure' in n or fn.get('test'):
            continue
        b = fn['body']
        tys = [b['locals'][i][0] for i in range(1, b['args'] + 1)]
        kinds = [pair_kind(t, rules) for t in tys]
        if sum(k is not None for k in kinds) == 1 and sum('iterators::Pair' in t for t in tys) == 1 and 'iterators::Pair' not in b['locals'][0][0]:
            fns[n] = (kinds.index([k for k in kinds if k][0]), [k for k in kinds if k][0])
        elif not any('iterators::Pair' in t for t in tys) and any(x == 'pest::Parser::parse' for x in callees(fn)) and '>::parse' not in n:
            entry[n] = None
    c.floor(len(fns), 10, 'functions which read a pair', 'readers')
    c.floor(len(entry), 3, 'functions which read a text', 'entries')
    done = read_all(c, ps, fns, entry)
    added = [n for n in fns if n not in baseline() and not calls_itself(c, n)]
    if done and added and (any(done.entry.values()) or not all(done.accept.values())):
        # what a new helper takes for granted can be what its callers have tested: look at it where it is called
        done = read_all(c, ps, {n: x for n, x in fns.items() if n not in added}, entry)
    if not done:
        return
    for n in entry:
        w = done.entry[n]
        c.obligation(w is None, f'stops:{short_name(n)}', f'a text can stop `{n}`: {w and w[0]}', n)
    for n in done.accept:
        c.obligation(bool(done.accept[n]), f'never:{short_name(n)}', f'no pair can be given to `{n}`', n)
    c.notes.append({'accepted': {short_name(n): sorted(a) for n, a in done.accept.items()}, 'steps without a known end': sorted(done.steps)})


def calls_itself(c, n):
    return n in set(callees(c.F['fns'][n]))


class Read:
    """What the readers accept, and what goes wrong in the functions which are given a text."""

    def __init__(self, accept, entry, steps):
        self.accept, self.entry, self.steps = accept, entry, steps


def read_all(c, ps, fns, entry):
    roots = {k: set() for k in ps}
    segs = {}
    steps = set()
    calm = {}

    def settled(x, top):
        """Functions without pairs which cannot stop are not followed."""
        if x in fns:
            return x != top
        if x not in c.F['fns'] or '{closure' in x or x == top:
            return False
        if x not in calm:
            calm[x] = False
            b = c.F['fns'][x]['body']
            tys = [b['locals'][i][0] for i in range(b['args'] + 1)]
            if not any('iterators::Pair' in t or '&mut' in t or 'closure' in t for t in tys):
                out = c.run(x, opaque=lambda y: settled(y, x), strict=True)
                calm[x] = out is not None and not any(s.kind == 'panic' for s in out)
        return calm[x]

    for n in list(fns) + list(entry):
        s = c.run(n, opaque=lambda x: settled(x, n), strict=True)
        if s is None:
            return None
        segs[n] = [x for x in s if possible(x.facts)]
        steps |= c.last_engine.stops
        for x in s:
            for t in [t for e in x.all_events for t in iter_terms(e)] + [t for q in x.facts for t in iter_terms(q)]:
                for k, (p, g) in ps.items():
                    if t[0] == 'vf' and G.parse_of(t, p):
                        roots[k].add(G.parse_of(t, p))
    trees = {k: G.Trees(g, roots[k], p) for k, (p, g) in ps.items()}
    accept = {n: set(trees[k].g.rules) for n, (i, k) in fns.items()}
    why = {}

    def wrong(n, given):
        """What can go wrong in a function for the given pairs."""
        for s in segs[n]:
            if not all(t.possible(s.facts, given if n in fns and fns[n][1] == k else {}) for k, t in trees.items()):
                continue
            if s.kind == 'panic':
                return f'{s.value[2]} at {s.where}', s
            for e in s.all_events:
                if e[0] != 'call' or e[1] not in fns:
                    continue
                i, k = fns[e[1]]
                cand = trees[k].candidates(s.facts, e[2][i], given)
                if cand is None:
                    return f'`{short_name(e[1])}` is called with {pp(e[2][i])}, which is not known to be a pair of the text', s
                bad = cand - accept[e[1]]
                if bad:
                    return f'`{short_name(e[1])}` is called with a pair of the rule {"/".join(sorted(bad))}: {why.get((e[1], sorted(bad)[0]), "")}', s
        return None
    changed = True
    while changed:
        changed = False
        for n, (i, k) in fns.items():
            par = c.params(n)[i]
            for r in sorted(accept[n]):
                w = wrong(n, {par: {r}})
                if w:
                    accept[n].discard(r)
                    why[(n, r)] = w[0]
                    changed = True
    return Read(accept, {n: wrong(n, {}) for n in entry}, steps)


def callees(fn):
    for b in fn['body']['blocks']:
        t = b['t']
        if t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c'].get('k') == 'fn':
            info = t['f']['c']['fn']
            yield info['p']


# ------------------------------------------------------------------ C22 what a style sheet means
class Tree:
    """The pairs of one reader on a path: which rules they have."""

    def __init__(self, c, kind, roots, given=None):
        parser, g = parsers(c)[kind]
        self.g = g
        self.trees = G.Trees(g, roots, parser)
        self.given = given or {}

    def of(self, given):
        t = Tree.__new__(Tree)
        t.g, t.trees, t.given = self.g, self.trees, given
        return t

    def live(self, segs):
        return [s for s in segs if s.kind != 'panic' and self.trees.possible(s.facts, self.given) and possible(s.facts)]

    def rule(self, k, p):
        """The rule of a pair (asks until it is one)."""
        cand = self.trees.candidates(dict(k.facts), p, self.given)
        if not cand:
            raise Mismatch(f'{pp(p)} is not a pair of the text') if cand is None else Infeasible()
        cand = sorted(cand)
        for r in cand[:-1]:
            if k.is_(('rule', p), r):
                return self.settle(k, p, r)
        return self.settle(k, p, cand[-1])

    def settle(self, k, p, r):
        k.facts[('rule', p)] = ('in', frozenset([r]))
        self.check(k)
        return r

    def check(self, k):
        if not self.trees.possible(dict(k.facts), self.given) or not possible(k.facts):
            k.infeasible()

    def more(self, k, p, n):
        """Whether a pair has more than n pairs inside."""
        r = k.ask(('more', ('inner', p), n))
        self.check(k)
        return r


def kid(p, *path):
    """The pair inside a pair (inside ...) at a place."""
    for i in path:
        p = ('elem', ('inner', p), i)
    return p


def flat(t):
    """Elements of a sequence of which some were left out at fixed places, by their place in the whole."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'elem' and isinstance(t[2], int):
            p = ('elem', flat(t[1]), t[2])
            q, n = p[1], p[2]
            while q[0] == 'skip' and q[2][0] == 'c':
                n += q[2][2]
                q = q[1]
            return ('elem', q, n)
        return tuple(flat(x) for x in t)
    return t


def number_of(k, p):
    t = ('op', 'str_parse', ('text', p), cstr('f32'))
    return v0(t, 'Ok') if k.is_(t, 'Ok') else cflt(0.0)


def v0(t, variant, n='0'):
    return T.field(T.as_variant(t, variant), n)


def hexdigits(t, text):
    """A number read from hexadecimal digits of a text, in terms of its digits: {place: weight}, or None."""
    out = {}
    for m, q in dict(T.to_poly(t)).items():
        if m == ():
            if q:
                return None
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        x = m[0][0]
        if x[0] == 'f' or x[0] == 'vf':
            y = x
            while y[0] in ('f', 'vf'):
                y = y[1]
            if y[0] == 'op' and y[1] == 'str_radix' and y[3] == cint(16) and y[2][0] == 'slice' and y[2][1] == text and y[2][2][0] == y[2][3][0] == 'c':
                lo, hi = y[2][2][2], y[2][3][2]
                for i in range(lo, hi):
                    out[i] = out.get(i, 0) + q * 16 ** (hi - 1 - i)
                continue
        return None
    return out


def sheet_roots(c, names, kind):
    out = set()
    p = parsers(c)[kind][0]
    for n in names:
        fn = c.find(n)
        for s in c.run(fn, opaque=lambda x: x in c.F['fns'] and x != fn and '{closure' not in x) or ():
            for t in iter_terms([s.facts, s.value, s.all_events]):
                if t[0] == 'vf' and G.parse_of(t, p):
                    out.add(G.parse_of(t, p))
    return out


CSS = 'css::reader::Rule'
UNITS = {'vh': 'Vh', 'vw': 'Vw', 'vmax': 'Vmax', 'vmin': 'Vmin', 'px': 'Px', 'em': 'Em', 'rem': 'Rem'}


def appended(s, where):
    """What one iteration adds to the list it builds: (elements, lists)."""
    out = []
    for e in s.events:
        if e[0] == 'collect':
            out.append(e[1])
        elif e[0] == 'mut' and e[2] == 'push':
            out.append(e[3][0])
        elif e[0] == 'mut' and e[2] in ('extend', 'append', 'extend_from_slice') or e[0] == 'mut' and e[2] == 'insert':
            out.append(('more', e[2]) + tuple(e[3]))
        elif e[0] == 'mut' and e[2] in ('remove', 'swap_remove', 'pop') and e[1][0] == 'place' and not mentions(
                (tuple(s.updates.values()), s.value or ()), lambda t: t[:2] == ('m', e[2])):
            continue        # from a list of its own
        elif e[0] == 'mut':
            raise Mismatch(f'{where}: the list is built by {e[2]}')
    return out


def over(k, key):
    """Whether a loop went through all its elements."""
    return ('exit', key) in [e[:2] for e in k.seg.all_events]


def list_of(k, v, dom):
    return v[0] == 'lv' and over(k, v[1]) and dom in k.seg.doms.get(v[1], ()) and k.seg.inits.get(v[1], {}).get(v[2]) == ('arr', ()) or v[0] == 'collect*' and v[1] == dom


def only(xs, what):
    if len(xs) != 1:
        raise Mismatch(f'{what}: {len(xs)} are added for one of the text')
    return xs[0]


@prop('C22')
def values_read(c):
    """A value of a declaration becomes the model value it is written as."""
    name = c.find('read_value_def')
    if not name:
        return
    segs = c.run(name, opaque=lambda x: x == name)
    if segs is None:
        return
    par = c.params(name)[0]
    tr = Tree(c, CSS, sheet_roots(c, ('read_css', 'read_inline_css'), CSS), {par: {'Var', 'Function', 'Explicit'}})
    segs = [flatten(s) for s in tr.live(segs)]
    args = ('skip', ('inner', par), cint(1))
    color_digits(c, tr.g)

    def back(k):
        s = k.seg
        if s.dom != args or tr.rule(k, par) != 'Function':
            raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
        a = el(args)
        k.require_same(only(appended(s, 'arguments'), 'arguments of a function'), ('call', name, (a,)), 'an argument of a function')

    def ret(k):
        s = k.seg
        r = tr.rule(k, par)
        e0 = kid(par, 0)
        v = k.simp(s.value)
        if r == 'Var':
            want('Var', k, v)
            k.require_same(v0(v, 'Var'), ('text', e0), 'the name of a variable')
        elif r == 'Function':
            want('Function', k, v)
            fn = v0(v, 'Function')
            k.require_same(T.field(fn, 'name'), ('text', e0), 'the name of a function')
            a = T.field(fn, 'arguments')
            if not list_of(k, a, args):
                raise Mismatch(f'the arguments of a function are {pp(a)}, not one for every value it is given')
        else:
            want('Explicit', k, v)
            explicit(k, v0(v, 'Explicit'), e0)

    def explicit(k, v, p):
        r = tr.rule(k, p)
        kind = {'String': 'Str'}.get(r, r)
        want(kind, k, v, f'a {r.lower()}')
        if r == 'Zero':
            return
        x = v0(v, kind)
        if r == 'Keyword':
            k.require_same(x, ('text', p), 'the text of a keyword')
        elif r == 'String':
            k.require_same(x, ('text', kid(p, 0)), 'the text of a string')
        elif r == 'Number':
            k.require_same(x, number_of(k, p), 'a number')
        elif r == 'Percentage':
            k.require_same(x, T.op('div', number_of(k, kid(p, 0)), cflt(100.0)), 'a percentage')
        elif r == 'Time':
            n = number_of(k, kid(p, 0))
            ms = k.eq(('text', kid(p, 1)), cstr('ms'))
            if not ms:
                k.eq(('text', kid(p, 1)), cstr('s'))
            tr.check(k)
            k.require_same(x, T.op('div', n, cflt(1000.0)) if ms else n, 'a time in seconds')
        elif r == 'Dimension':
            n = number_of(k, kid(p, 0))
            k.require_same(T.field(x, 'value'), n, 'the number of a length')
            u = next((b for a, b in UNITS.items() if k.eq(('text', kid(p, 1)), cstr(a))), 'Px')
            tr.check(k)
            if not k.is_(T.field(x, 'unit'), u):
                raise Mismatch(f'the unit of a length is {pp(T.field(x, "unit"))} instead of {u}')
        elif r == 'Color':
            color(k, x, p)
        else:
            raise Mismatch(f'a value of the kind {r} is not known')

    def color(k, x, p):
        t = ('text', p)
        if x[0] != 'arr' or len(x[1]) != 4:
            raise Mismatch(f'a colour is {pp(x)}, not four numbers')
        n = next((i for i in (4, 5, 7, 9) if k.eq(('len', t), cint(i))), 0)
        tr.check(k)
        for q, fact in k.facts.items():
            if q[0] == 'op' and q[1] == 'str_radix' and fact == ('in', frozenset(['Err'])) and q[2][0] == 'slice' and q[2][1] == t and q[2][2][0] == 'c' and q[2][2][2] >= 1:
                k.infeasible()
        for i in range(4):
            a = x[1][i]
            if not n or n in (4, 7) and i == 3:
                k.require_same(a, cint(255), 'a part of a colour that is not written')
            else:
                w = {i + 1: 17} if n < 6 else {2 * i + 1: 16, 2 * i + 2: 1}
                if hexdigits(a, t) != w:
                    raise Mismatch(f'part {i} of a colour of {n - 1} digits is {pp(a)}')

    def want(variant, k, v, what='a value'):
        if not k.is_(v, variant):
            raise Mismatch(f'{what} is read as {pp(v)} instead of {variant}')
    n = c.compare(segs, back, 'value', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'value', name, lambda s: s.kind == 'ret')
    c.floor(n, 25, 'paths of a value', 'value')


def color_digits(c, g):
    """A colour is # and hexadecimal digits."""
    e = g.rules['Color'][1]

    def atoms(e, seen=()):
        if e[0] == 'rule' and e[1] in g.rules and e[1] not in seen:
            return atoms(g.rules[e[1]][1], seen + (e[1],))
        if e[0] in ('seq', 'alt'):
            return set().union(*(atoms(x, seen) for x in e[1]))
        if e[0] == 'rep':
            return atoms(e[1], seen)
        if e[0] == 'look':
            return set()
        return {e}
    c.obligation(e[0] == 'seq' and e[1][0] == ('str', '#') and set().union(*(atoms(x) for x in e[1][1:])) <= {('rule', 'ASCII_HEX_DIGIT'), ('rule', 'ASCII_DIGIT')},
                 'color:digits', 'a colour is not # and hexadecimal digits by the grammar', 'Color')


def flatten(s):
    n = Segment(s.kind, {flat(t): flat(x) if x[0] == 'eq' else x for t, x in s.facts.items()}, flat_all(s.events), flat_all(s.value), s.where, s.loop,
                flat_all(s.updates), flat_all(s.all_events), None)
    n.doms, n.inits, n.dom, n.raw = flat_all(s.doms), flat_all(s.inits), flat_all(s.dom), s.raw
    return n


def flat_all(x):
    if isinstance(x, dict):
        return {a: flat_all(b) for a, b in x.items()}
    if isinstance(x, list):
        return [flat_all(y) for y in x]
    return flat(x) if isinstance(x, tuple) else x


def kebab(variant):
    return re.sub(r'(?<!^)(?=[A-Z])', '-', variant).lower()


@prop('C22')
def property_names(c):
    """A property has exactly the name of its variant in kebab case."""
    name = c.find('PropertyKey::parse')
    if not name:
        return
    segs = c.run(name)
    if segs is None:
        return
    par = c.params(name)[0]
    variants = {kebab(v['name']): v['name'] for v in c.F['adts']['css::model::PropertyKey']['variants']}
    c.floor(len(variants), 300, 'properties', 'properties')
    seen = set()
    for s in segs:
        fact = s.facts.get(par)
        if s.kind == 'ret' and fact and fact[0] == 'eq' and fact[1][0] == 'c':
            text = fact[1][2]
            seen.add(text)
            v = s.value
            good = (T.variant_of(v) == 'Some' and T.variant_of(v0(v, 'Some')) == variants.get(text)) if text in variants else T.variant_of(v) == 'None'
            c.obligation(good, f'name:{text}', f'the name {text!r} is read as {pp(v)}', name)
        else:
            rest = {x[2] for x in fact[1]} if fact and fact[0] == 'ne' else set()
            c.obligation(s.kind == 'ret' and T.variant_of(s.value) == 'None' and set(variants) <= rest, 'name:other',
                         f'names which are none of a property are read as {s.value and pp(s.value)} or {sorted(set(variants) - rest)[:5]} are not read', name)
    c.floor(len(seen), 300, 'names of properties', 'names')


@prop('C22')
def declarations_read(c):
    """Declarations are kept in order, each with its name and all its values; unknown properties are left out."""
    name, short_, key = c.find('read_declarations'), c.find('read_shorthand'), c.find('PropertyKey::parse')
    value = c.find('read_value_def')
    if not (name and short_ and key and value):
        return
    segs = c.run(name, opaque=[short_, key])
    if segs is None:
        return
    par = c.params(name)[0]
    tr = Tree(c, CSS, sheet_roots(c, ('read_css', 'read_inline_css'), CSS), {par: {'Declarations'}})
    segs = [flatten(s) for s in tr.live(segs)]
    outer = ('inner', par)
    d = el(outer)

    def back(k):
        s = k.seg
        lists = {('inner', kid(el(outer, q), 1)) for q in list(s.doms) + ['K']}
        if s.dom in lists:
            k.require_same(only(appended(s, 'values'), 'values'), ('call', short_, (el(s.dom),)), 'a value of a declaration')
            return
        if s.dom != outer:
            raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
        text, dom = ('text', kid(d, 0)), ('inner', kid(d, 1))
        new = appended(s, 'declarations')
        tr.rule(k, kid(d, 1))
        if k.ask(('op', 'str_starts_with', text, cstr('--'))):
            x = only(new, 'a variable')
            if not k.is_(x, 'Variable'):
                raise Mismatch('a declaration whose name begins with -- is not a variable')
            x = v0(x, 'Variable')
            k.require_same(T.field(x, 'key'), text, 'the name of a variable')
            v = T.field(x, 'shorthand')
            if not (v[0] in ('index', 'elem') and v in (T.index(v[1], cint(0)), ('elem', v[1], 0)) and list_of(k, v[1], dom) or v == ('call', short_, (('elem', dom, 0),))):
                raise Mismatch(f'the value of a variable is {pp(v)} instead of the first one written')
            return
        p = next((t for t in iter_terms([s.facts, s.events]) if t[0] == 'call' and t[1] == key), ('call', key, (text,)))
        k.require_same(p[2][0], text, 'the name looked up')
        if not k.some(p):
            if new:
                raise Mismatch('a property that is not known is kept')
            return
        x = only(new, 'a declaration')
        if not k.is_(x, 'Property'):
            raise Mismatch('the declaration of a property is not kept as one')
        x = v0(x, 'Property')
        k.require_same(T.field(x, 'key'), v0(p, 'Some'), 'the property')
        if not list_of(k, T.field(x, 'values'), dom):
            raise Mismatch(f'the values of a declaration are {pp(T.field(x, "values"))}, not all that are written')

    def ret(k):
        if not list_of(k, k.seg.value, outer):
            raise Mismatch(f'the declarations are {pp(k.seg.value)}, not all that are written in their order')
    n = c.compare(segs, back, 'declaration', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'declaration', name, lambda s: s.kind == 'ret')
    c.floor(n, 4, 'paths of a declaration', 'declaration')
    # the values of one shorthand
    segs = c.run(short_, opaque=[value])
    if segs is None:
        return
    par2 = c.params(short_)[0]
    t2 = tr.of({par2: {'Shorthand'}})
    segs = [flatten(s) for s in t2.live(segs)]
    dom = ('inner', par2)

    def back2(k):
        if k.seg.dom != dom:
            raise Mismatch(f'an unexpected loop over {pp(k.seg.dom)}')
        k.require_same(only(appended(k.seg, 'values'), 'values'), ('call', value, (el(dom),)), 'a part of a value')

    def ret2(k):
        if not list_of(k, k.seg.value, dom):
            raise Mismatch(f'a value is {pp(k.seg.value)}, not all the parts that are written')
    n = c.compare(segs, back2, 'shorthand', short_, lambda s: s.kind == 'back')
    n += c.compare(segs, ret2, 'shorthand', short_, lambda s: s.kind == 'ret')
    c.floor(n, 2, 'paths of a shorthand', 'shorthand')


def parsed(c, kind, rule, text):
    """(the result of the parse, its first pair)"""
    parser, g = parsers(c)[kind]

    def first(r):
        """The pairs a parse may give first."""
        if r not in g.rules:
            return None
        start, accept, moves = g.top(r)
        return {n for n, q in moves[start]} | ({None} if start in accept else set())

    def find(s):
        for t in iter_terms([s.facts, s.value, s.all_events]):
            if t[0] == 'call' and t[1].startswith(f'<{parser} as pest::Parser<') and t[1].endswith('::parse'):
                if t[2][0][0] != 'adt' or first(t[2][0][2]) != first(rule) or t[2][1] != text:
                    raise Mismatch(f'what is parsed is {pp(t)} instead of the text as {rule}')
                return t
        raise Mismatch('the text is not parsed')
    return find


@prop('C22')
def inline_read(c):
    name, decl = c.find('read_inline_css'), c.find('read_declarations')
    if not (name and decl):
        return
    segs = c.run(name, opaque=[decl])
    if segs is None:
        return
    par = c.params(name)[0]
    find = parsed(c, CSS, 'Declarations', par)
    tr = Tree(c, CSS, sheet_roots(c, ('read_inline_css',), CSS))

    def ret(k):
        s = k.seg
        p = find(s)
        v = k.simp(s.value)
        if k.is_(p, 'Err'):
            if not k.is_(v, 'Err'):
                raise Mismatch('a text that cannot be parsed is no error')
            return
        if not k.is_(v, 'Ok'):
            raise Mismatch('a text that can be parsed is an error')
        k.require_same(v0(v, 'Ok'), ('call', decl, (('elem', v0(p, 'Ok'), 0),)), 'the declarations of an inline style')
    n = c.compare(tr.live(segs), ret, 'inline', name)
    c.floor(n, 2, 'paths of an inline style', 'inline')


MATCHERS = {'=': 'Equal', '~=': 'Include', '|=': 'DashMatch', '^=': 'Prefix', '$=': 'Suffix', '*=': 'Substring'}


@prop('C22')
def sheet_read(c):
    """A style sheet is its styles in order and its animations by name."""
    name, decl = c.find('read_css'), c.find('read_declarations')
    if not (name and decl):
        return
    segs = c.run(name, opaque=[decl])
    if segs is None:
        return
    par = c.params(name)[0]
    find = parsed(c, CSS, 'StyleSheet', par)
    tr = Tree(c, CSS, sheet_roots(c, ('read_css', 'read_inline_css'), CSS))
    segs = [flatten(s) for s in tr.live(segs)]
    seen = set()

    def block(p):
        """The declarations of a style or keyframe."""
        return ('call', decl, (kid(p, 1, 0),))

    def holder(dom):
        while dom[0] == 'skip':
            dom = dom[1]
        return dom[1] if dom[0] == 'inner' else None

    def chain(k, p):
        """Rules of a pair and those around it, the sheet first."""
        out = [tr.rule(k, p)]
        while p[0] == 'elem' and p[1][0] in ('inner', 'skip'):
            p = holder(p[1])
            if p is None:
                raise Mismatch('a loop is not over pairs')
            out.insert(0, tr.rule(k, p))
        return out

    def back(k):
        s = k.seg
        h = holder(s.dom)
        if h is None:
            raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
        rules = [r for r in chain(k, h) if not r.startswith('top:')]
        seen.add(rules[-1])
        {'Rules': sheet, 'Animation': keyframe, 'Selectors': selector, 'Complex': compound, 'Compound': simple}.get(rules[-1], unexpected)(k, s, h, el(s.dom))

    def unexpected(k, s, h, x):
        raise Mismatch(f'an unexpected loop over {pp(s.dom)}')

    def whole(s, h, what):
        if s.dom != ('inner', h):
            raise Mismatch(f'not all {what} are read: {pp(s.dom)}')

    def sheet(k, s, h, x):
        whole(s, h, 'rules')
        r = tr.rule(k, x)
        styles = [e for e in s.events if e[0] == 'mut' and e[2] == 'push']
        anims = [e for e in s.events if e[0] == 'mut' and e[2] == 'insert']
        if [e for e in s.events if e[0] == 'mut'] != styles + anims:
            raise Mismatch('the style sheet is built in an unexpected way')
        if r == 'Style':
            if anims:
                raise Mismatch('a style is kept as an animation')
            v = only(styles, 'a style')[3][0]
            k.require_same(T.field(v, 'declaration'), block(x), 'the declarations of a style')
            if not list_of(k, T.field(v, 'selectors'), ('inner', kid(x, 0))):
                raise Mismatch(f'the selectors of a style are {pp(T.field(v, "selectors"))}')
        else:
            if styles:
                raise Mismatch('an animation is kept as a style')
            key, v = only(anims, 'an animation')[3]
            k.require_same(key, ('text', kid(x, 0)), 'the name an animation is kept under')
            k.require_same(T.field(v, 'name'), ('text', kid(x, 0)), 'the name of an animation')
            if not list_of(k, T.field(v, 'keyframes'), ('skip', ('inner', x), cint(1))):
                raise Mismatch(f'the keyframes of an animation are {pp(T.field(v, "keyframes"))}, not all that are written')

    def keyframe(k, s, h, x):
        if s.dom != ('skip', ('inner', h), cint(1)):
            raise Mismatch('not all keyframes are read')
        v = only(appended(s, 'keyframes'), 'a keyframe')
        k.require_same(T.field(v, 'declaration'), block(x), 'the declarations of a keyframe')
        p = kid(x, 0)
        if tr.rule(k, p) == 'Percentage':
            w = T.to_int(number_of(k, kid(p, 0)))
        else:
            to = k.eq(('text', p), cstr('to'))
            if not to and not k.eq(('text', p), cstr('from')):
                return   # other words are reported
            w = cint(100 if to else 0)
        k.require_same(T.field(v, 'step'), w, 'the step of a keyframe')

    def selector(k, s, h, x):
        whole(s, h, 'selectors')
        v = only(appended(s, 'selectors'), 'a selector')
        v = T.field(v, 'selectors')
        if not list_of(k, v, ('inner', x)):
            raise Mismatch(f'the parts of a selector are {pp(v)}, not all that are written')

    def begins(k, s, v0_):
        """Whether a compound needs the combinator of descendants before it: something is there which is no combinator."""
        if k.eq(('len', v0_), cint(0)):
            return False
        last = T.index(v0_, T.op('sub', ('len', v0_), cint(1)))
        return not k.is_(last, 'Combinator', 'css::model::Simple')

    def compound(k, s, h, x):
        whole(s, h, 'parts of a selector')
        new = appended(s, 'components')
        if tr.rule(k, x) == 'Combinator':
            v = only(new, 'a combinator')
            if not k.is_(v, 'Combinator'):
                raise Mismatch('a combinator is not kept as one')
            k.require_same(v0(v, 'Combinator'), ('elem', ('chars', ('text', x)), 0), 'a combinator')
            return
        done = [e[1] for e in s.events if e[0] == 'exit' and ('inner', x) in s.doms.get(e[1], ())]
        now = ('lv', 'K', next(iter(s.inits.get('K', {})), None))
        comb = combined(k, s, now)
        rest = [v for v in new if not (T.variant_of(v) == 'Combinator')]
        if rest and not (len(rest) == 1 and rest[0][0] == 'more' and rest[0][1] == 'extend' and rest[0][2][:2] == ('collect*', ('inner', x))) or not rest and len(done) != 1:
            raise Mismatch('the parts of a compound are not kept one by one')
        if len(new) - len(rest) != comb:
            raise Mismatch('two compounds with nothing between are not parent and descendant' if comb else 'a combinator is added that is not written')

    def combined(k, s, now):
        want = begins(k, s, now)
        for v in appended(s, 'components'):
            if T.variant_of(v) == 'Combinator':
                if not k.same(v0(v, 'Combinator'), cstr(' ')):
                    raise Mismatch('the combinator of descendants is not a blank')
        return want

    def simple(k, s, h, x):
        whole(s, h, 'parts of a compound')
        v = only(appended(s, 'components'), 'a part of a compound')
        r = tr.rule(k, x)
        if not k.is_(v, r):
            raise Mismatch(f'a part of the kind {r} is read as {pp(v)}')
        if r in ('All', 'Root'):
            return
        k.require_same(v0(v, r), ('text', kid(x, 0)), f'the name of the part of the kind {r}')
        if r == 'Attribute':
            m, w = T.field(T.as_variant(v, r), '1'), T.field(T.as_variant(v, r), '2')
            if not tr.more(k, x, 1):
                if not k.is_(m, 'Exist'):
                    raise Mismatch('an attribute without matcher is not asked for its presence')
                return
            tr.more(k, x, 2)
            t = ('text', kid(x, 1))
            kind = next((b for a, b in MATCHERS.items() if k.eq(t, cstr(a))), None)
            tr.check(k)
            if kind is None or not k.is_(m, kind):
                raise Mismatch(f'the matcher of an attribute is {pp(m)} instead of {kind}')
            q = kid(x, 2)
            k.require_same(w, ('text', kid(q, 0) if tr.rule(k, q) == 'String' else q), 'the text an attribute is compared with')

    def ret(k):
        s = k.seg
        p = find(s)
        v = k.simp(s.value)
        if k.is_(p, 'Err'):
            if not k.is_(v, 'Err'):
                raise Mismatch('a text that cannot be parsed is no error')
            return
        if not k.is_(v, 'Ok'):
            raise Mismatch('a text that can be parsed is an error')
        x = v0(v, 'Ok')
        dom = ('inner', ('elem', v0(p, 'Ok'), 0))
        if not list_of(k, T.field(x, 'styles'), dom):
            raise Mismatch(f'the styles of a sheet are {pp(T.field(x, "styles"))}, not all that are written in their order')
        a = T.field(x, 'animations')
        if not (a[0] == 'lv' and over(k, a[1]) and dom in s.doms.get(a[1], ()) and s.inits.get(a[1], {}).get(a[2]) == ('emap',)):
            raise Mismatch(f'the animations of a sheet are {pp(a)}, not all that are written')
    n = c.compare(segs, back, 'sheet', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'sheet', name, lambda s: s.kind == 'ret')
    c.floor(n, 30, 'paths of a style sheet', 'sheet')
    c.floor(len(seen), 5, 'kinds of loops of a style sheet', 'loops')
