"""Selectors, static and dynamic styles, the cascade."""
from rulelib import *
from terms import *
import terms as T
from registry import prop
from rules_view import calls_of, failing, swallowed, norm_calls, tree_base

f = fld
SIMPLE = ['All', 'Id', 'Class', 'Type', 'Attribute', 'Root', 'PseudoClass', 'PseudoElement', 'Combinator']
WORDS = ('str_split_whitespace', 'str_split_ascii_whitespace')


def v0(t, variant, n='0'):
    return ('vf', t, variant, n)


def words_have(k, text, word):
    """The words of `text`, separated by white space, contain `word` (as asked by the path)."""
    for w in WORDS:
        p = ('posof', ('op', w, text), word)
        for key, ds in k.seg.doms.items():
            # a search by hand (the paths on which it goes on are judged by themselves)
            if ds == {('op', w, text)}:
                return ('exit', key) not in [e[:2] for e in k.seg.all_events] and k.eq(el(('op', w, text), key), word)
        if k.facts.get(p) or any(x == p for x in iter_terms([k.seg.facts, k.seg.value])):
            return k.some(p)
    return k.some(('posof', ('op', WORDS[0], text), word))


def text_like(k, op, text, part):
    t = ('op', op, text, part)
    return k.ask(t)


def simple_matches(k, c, e, pseudo):
    """Whether a simple selector (no combinator) matches an element."""
    kind = k.variant(c, SIMPLE)
    attrs = f(e, 'attrs')

    def attr(name):
        g = ('get', attrs, name)
        return v0(g, 'Some') if k.some(g) else None
    if kind == 'All':
        return True
    if kind == 'Type':
        return k.eq(f(e, 'tag'), v0(c, 'Type'))
    if kind == 'Id':
        a = attr(cstr('id'))
        return a is not None and k.eq(a, v0(c, 'Id'))
    if kind == 'Class':
        a = attr(cstr('class'))
        return a is not None and words_have(k, a, v0(c, 'Class'))
    if kind == 'Root':
        return k.eq(f(e, 'tag'), cstr('body'))
    if kind == 'PseudoClass':
        r = pseudo(k, e, v0(c, 'PseudoClass'))
        return r
    if kind == 'PseudoElement':
        return False
    if kind == 'Attribute':
        a = attr(v0(c, 'Attribute', '0'))
        if a is None:
            return False
        m, v = v0(c, 'Attribute', '1'), v0(c, 'Attribute', '2')
        how = k.variant(m, ['Exist', 'Equal', 'Include', 'DashMatch', 'Prefix', 'Substring', 'Suffix'])
        if how == 'Exist':
            return True
        if how == 'Equal':
            return k.eq(a, v)
        if how == 'Include':
            return words_have(k, a, v)
        if how == 'DashMatch':
            return dashed(k, a, v)
        return k.ask(('op', {'Prefix': 'str_starts_with', 'Substring': 'str_contains', 'Suffix': 'str_ends_with'}[how], a, v))
    return None


def dashed(k, a, v):
    """a is v, or starts with v followed by a dash, asked in one of the usual ways."""
    rest = ('op', 'str_strip_prefix', a, v)
    known = {x for x in iter_terms([k.seg.facts, k.seg.value])}
    if rest in known:
        if not k.some(rest):
            if T.mk_eq(a, v) in k.facts and k.eq(a, v):
                k.infeasible()
            return False
        r = v0(rest, 'Some')
        return (k.eq(('len', r), cint(0)) if ('len', r) in k.facts else k.eq(r, cstr(''))) or k.ask(('op', 'str_starts_with', r, cstr('-')))
    return k.eq(a, v) or k.ask(('op', 'str_starts_with', a, T.strcat([v, cstr('-')])))


def has_pseudo_call(k, e, name):
    """The pseudo class is asked for exactly this element and name."""
    for t in iter_terms([k.seg.facts, k.seg.value]):
        if t[0] == 'call' and short_name(t[1]) == 'has_pseudo_class':
            if t[2][1] != e or t[2][2] != name:
                raise Mismatch('another pseudo class or element is asked for')
            return k.ask(t)
    return k.ask(('call', 'has_pseudo_class', (sym('matcher'), e, name)))


def strip_locals(segs, node):
    """Name the current target of a right-to-left match: the loop variable that starts at the node; a variable that
    always holds the element of the target is replaced by it."""
    inits = {}
    for s in segs:
        for key, d in s.inits.items():
            inits.setdefault(key, {}).update(d)
    targets = {n for d in inits.values() for n, v in d.items() if v == node}
    elements = {n for d in inits.values() for n, v in d.items() if v == ('ctx', node)}
    return targets, elements


def subst(t, m):
    if isinstance(t, dict):
        return {subst(k, m): subst(v, m) for k, v in t.items()}
    if isinstance(t, list):
        return [subst(x, m) for x in t]
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) for x in t)
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        r = tuple(subst(x, m) for x in t)
        if len(r) == 4 and r[0] == 'op' and r[1] == 'eq':
            return T.mk_eq(r[2], r[3])
        return r
    return t


def with_terms(s, m):
    n = Segment(s.kind, subst(s.facts, m), subst(s.events, m), subst(s.value, m) if s.value is not None else None, s.where, s.loop,
                {k: subst(v, m) for k, v in s.updates.items()}, subst(s.all_events, m), None)
    n.doms = {k: {subst(d, m) for d in ds} for k, ds in s.doms.items()}
    n.inits = s.inits
    n.dom = subst(s.dom, m) if s.dom else None
    n.raw = s.raw
    return n


def panics_incomplete(s):
    """A panic on a node without element: impossible, every node of the tree gets one."""
    return s.kind == 'panic' and any(t[0] == 'hasctx' and x == ('in', frozenset(['None'])) for t, x in s.facts.items())


@prop('C14')
def complex_selectors(c):
    name = c.find('match_complex_selector')
    if not name:
        return
    segs = c.run(name)
    if segs is None:
        return
    selector, node, tree, matcher = c.params(name)
    dom = ('rev', f(selector, 'selectors'))
    targets, elements = strip_locals(segs, node)
    walk = [s for s in segs if s.kind == 'back' and s.dom == dom]
    c.floor(len(walk), 8, 'ways to go on with the next part of a selector', 'parts')
    lvs = {t for s in segs for t in iter_terms([s.facts, s.all_events, s.updates, s.value]) if t[0] == 'lv'}
    tv = {t for t in lvs if t[2] in targets}
    ev = {t for t in lvs if t[2] in elements}
    c.obligation(len({t[2] for t in tv}) <= 1, 'target', 'the element a part of a selector is about is not tracked by one variable', name)
    CUR = sym('current target')
    m = {t: CUR for t in tv}
    m.update({t: ('ctx', CUR) for t in ev})
    segs = [with_terms(s, m) for s in segs]
    nothing = not tv and not ev
    cur = CUR if not nothing else node

    def one_before(k, v, parent):
        """A variable that is empty before a walk over the children and then holds the child visited last."""
        if v[0] != 'lv':
            return False
        walks = [b for b in segs if b.kind == 'back' and v[2] in b.updates and b.dom and b.dom[0] == 'children']
        for b in walks:
            if b.dom[2] != parent or b.updates[v[2]] != T.some(el(b.dom)) or b.inits.get('K', {}).get(v[2]) not in (T.NONE, None):
                return False
        if any(e[0] == 'exit' and e[1] == v[1] for e in k.seg.all_events):
            k.infeasible()  # a node is among the children of its parent
        return bool(walks) and k.eq(('elem', walks[0].dom, v[1]), cur)

    def preceding(k, t, parent):
        """t is the shown child right before the current one: (list, index) where the index is one less than its place."""
        if t[0] == 'vf' and t[2] == 'Some' and one_before(k, t[1], parent):
            return True
        if t[0] != 'index':
            return False
        lst, i = t[1], t[2]
        if lst[0] != 'children' or lst[2] != parent:
            return False
        for o in iter_terms([i]):
            if o[0] == 'ordinal':
                d = o[1]
                n = 0
                while d[0] == 'skip':
                    n += d[2][2] if d[2][0] == 'c' else 10 ** 6
                    d = d[1]
                if d != lst or not k.eq(('elem', o[1], o[2]), cur):
                    return False
                return k.same(i, T.op('add', o, cint(n - 1)))
            if o[0] == 'vf' and o[1][0] == 'posof':
                return o[1][1] == lst and o[1][2] == cur and k.same(i, T.op('sub', o, cint(1)))
        return False

    def no_preceding(k, parent):
        """The path found that the current element has no shown sibling before it."""
        s = k.seg
        for t, x in s.facts.items():
            if t[0] == 'posof' and t[2] == cur and x == ('in', frozenset(['None'])):
                return True
            if t[0] == 'lv' and x == ('in', frozenset(['None'])) and one_before(k, t, parent):
                return True
            if t[0] == 'vf' and t[1][0] == 'posof' and x == ('eq', cint(0)) or t[0] == 'ordinal' and x == ('eq', cint(0)):
                return True
        done = {e[1] for e in s.all_events if e[0] == 'exit'}
        for key in done:
            for d in s.doms.get(key, ()):
                n = 0
                b = d
                while b[0] == 'skip':
                    n += b[2][2] if b[2][0] == 'c' else 10 ** 6
                    b = b[1]
                if b[0] == 'children' and b[2] == parent and n <= 1:
                    return True
        # places of the list: facts that cannot hold make the path impossible, a place that cannot be above zero is the first
        cons, places = linear(s.facts), []
        for o in set(iter_terms([s.facts])):
            b, n, p = None, 0, None
            if o[0] == 'ordinal':
                b, p = o[1], o
            elif o[0] == 'vf' and o[1][0] == 'posof' and o[1][2] == cur:
                b, p = o[1][1], o
            if not b:
                continue
            while b[0] == 'skip':
                n += b[2][2] if b[2][0] == 'c' else 10 ** 6
                b = b[1]
            places.append((p, n))
            cons += [(dict(T.to_poly(p)), False), (dict(T.to_poly(T.op('sub', T.op('sub', ('len', b), p), cint(n)))), True)]
        if not feasible(cons):
            k.infeasible()
        for p, n in places:
            if n == 0 and not feasible(cons + [(dict(T.to_poly(T.op('sub', p, cint(1)))), False)]):
                return True
        return False

    def part(k):
        """(matches, next target) for the part at hand."""
        c_ = el(dom, part_key(k.seg))
        if k.is_(c_, 'Combinator'):
            ch = v0(c_, 'Combinator')
            par = ('parent', cur)
            if k.eq(ch, cstr('>')):
                return (True, v0(par, 'Some')) if k.some(par) else (False, None)
            if k.eq(ch, cstr('+')):
                if not k.some(par):
                    return False, None
                return None, v0(par, 'Some')
            return False, None
        return simple_matches(k, c_, ('ctx', cur), has_pseudo_call), cur

    def part_key(s):
        if s.kind == 'back' and s.dom == dom:
            return 'K'
        for key, ds in s.doms.items():
            if dom in ds:
                return key
        return 'K'

    def on(k):
        s = k.seg
        ok, nxt = part(k)
        tgt = next((s.updates[n] for n in s.updates if n in targets), cur)
        elem = next((s.updates[n] for n in s.updates if n in elements), ('ctx', tgt))
        if ok is False:
            raise Mismatch('matching goes on although a part of the selector does not match')
        if ok is None:
            if not preceding(k, tgt, nxt):
                raise Mismatch(f'`+` does not go to the sibling right before, but to {pp(tgt)}')
        elif tgt != nxt:
            raise Mismatch(f'matching goes on with {pp(tgt)} instead of {pp(nxt)}')
        if elem != ('ctx', tgt):
            raise Mismatch('the next part is compared with another element than the one selected')

    c.compare(segs, on, 'next part', name, lambda s: s.kind == 'back' and s.dom == dom)

    def end(k):
        s = k.seg
        if s.kind == 'panic':
            if not panics_incomplete(s):
                raise Mismatch('matching can panic')
            return
        loops = [e for e in s.all_events if e[0] == 'loop' and dom in s.doms.get(e[1], ())]
        over = any(e[0] == 'exit' and dom in s.doms.get(e[1], ()) for e in s.all_events)
        if not loops:
            raise Mismatch('a selector is decided without looking at its parts')
        if over:
            if not k.ask(s.value):
                raise Mismatch('a selector whose parts all match does not match')
            return
        ok, nxt = part(k)
        if ok is None:
            if k.ask(s.value):
                raise Mismatch('a selector matches before all of its parts are looked at')
            if not no_preceding(k, nxt):
                raise Mismatch('an element with a sibling before it is treated as if there was none')
            return
        if ok:
            raise Mismatch('a matching part of a selector ends the match')
        if k.ask(s.value):
            raise Mismatch('a selector matches although one of its parts does not')
    n = c.compare(segs, end, 'result', name, lambda s: s.kind in ('ret', 'panic'))
    c.floor(n, 8, 'results of a match', 'results')

    def other(k):
        # searches for the preceding sibling: they go on exactly while it is not found
        s = k.seg
        d = s.dom
        if d and d[0] == 'op' and d[1] in WORDS:
            # a search for a word goes on while it is another one
            c_, attrs = el(dom, part_key(s)), f(('ctx', cur), 'attrs')
            name_, word = (cstr('class'), v0(c_, 'Class')) if k.is_(c_, 'Class') else (v0(c_, 'Attribute', '0'), v0(c_, 'Attribute', '2'))
            if d[2] != v0(('get', attrs, name_), 'Some') or k.eq(el(d), word) or s.updates or s.events:
                raise Mismatch('a word of an attribute is passed over')
            return
        while d and d[0] == 'skip':
            d = d[1]
        if not d or d[0] != 'children' or k.eq(el(s.dom), cur):
            raise Mismatch(f'an unexpected loop while matching: {pp(s.dom)}')
    c.compare(segs, other, 'search', name, lambda s: s.kind == 'back' and s.dom != dom)


@prop('C14')
def style_lists(c):
    """A style matches if one of its selectors does."""
    name, one = c.find('match_style'), c.find('match_complex_selector')
    if not (name and one):
        return
    segs = c.run(name, opaque=[one])
    if segs is None:
        return
    style, node, tree, matcher = c.params(name)
    dom = f(style, 'selectors')

    def call(k, key):
        t = ('call', one, (el(dom, key), node, tree, matcher))
        for x in iter_terms([k.seg.facts, k.seg.value]):
            if x[0] == 'call' and short_name(x[1]) == short_name(one):
                if norm_calls(x) != norm_calls(t):
                    raise Mismatch('the selectors of a style are not matched with the element at hand')
                return k.ask(x)
        raise Mismatch('a selector of a style is not matched')

    def back(k):
        if k.seg.dom != dom or call(k, 'K'):
            raise Mismatch('the search goes on although a selector matches')

    def ret(k):
        s = k.seg
        over = any(e[0] == 'exit' and dom in s.doms.get(e[1], ()) for e in s.all_events)
        key = next((q for q, ds in s.doms.items() if dom in ds), 'K')
        want = False if over else call(k, key)
        if not over and not want:
            raise Mismatch('a style is decided by its first selector')
        if k.ask(s.value) != want:
            raise Mismatch('a style does not match exactly if one of its selectors does')
    n = c.compare(segs, back, 'style', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'style', name, lambda s: s.kind != 'back')
    c.floor(n, 3, 'paths of a style', 'style')


@prop('C14')
def element_state(c):
    """The pseudo classes of the view are those of the element's state."""
    name = c.find('View as css::matching::PseudoClassMatcher>::has_pseudo_class', must=False)
    cands = [n for n in c.F['fns'] if n.endswith('has_pseudo_class') and 'View as ' in n and 'calculate' not in n]
    name = name or (cands[0] if len(cands) == 1 else None)
    if not name:
        c.violate('anchor:has_pseudo_class', 'the pseudo classes of the view are not found', 'view')
        return
    segs = c.run(name)
    if segs is None:
        return
    self_, element, klass = c.params(name)

    def ret(k):
        s = k.seg
        if s.kind != 'ret':
            raise Mismatch('asking for a pseudo class can panic')
        for n in ('hover', 'active', 'checked', 'focus'):
            if k.eq(klass, cstr(n)):
                if k.ask(s.value) != k.ask(f(f(element, 'state'), n)):
                    raise Mismatch(f':{n} is not the state of the element')
                return
        if k.ask(s.value):
            raise Mismatch('an unknown pseudo class matches')
        ef = Effects(s.all_events)
        if ef.writes or ef.muts:
            raise Mismatch('asking for a pseudo class changes something')
    n = c.compare(segs, ret, 'pseudo', name)
    c.floor(n, 5, 'pseudo classes', 'pseudo')


# ------------------------------------------------------------------ C15 which styles an element keeps
PREDICATES = {'has_id_selector': ('Id', None), 'has_class_selector': ('Class', None), 'has_pseudo_class_selector': ('PseudoClass', None),
              'has_combinator': ('Combinator', None), 'has_attrs_selector': ('Attribute', 'attrs')}


@prop('C15')
def style_features(c):
    for pn, (kind, extra) in PREDICATES.items():
        name = c.find('Style::' + pn)
        if not name:
            continue
        segs = c.run(name)
        if segs is None:
            continue
        ps = c.params(name)
        self_ = ps[0]
        outer = f(self_, 'selectors')

        def has(k, x):
            if not k.is_(x, kind):
                return False
            if extra:
                g = ('get', ps[1], v0(x, 'Attribute', '0'))
                return k.some(g)
            return True

        def is_part(d):
            return d[0] == 'f' and d[2] == 'selectors' and d[1][0] == 'elem' and d[1][1] == outer or \
                d[0] in ('flat', 'flat_map', 'flatten') and any(x == outer for x in T.subterms(d))

        def back(k):
            s = k.seg
            if s.dom == outer:
                if not any(e[0] == 'exit' and any(is_part(d) for d in s.doms.get(e[1], ())) for e in s.events):
                    raise Mismatch('not every part of a selector is looked at')
            elif s.dom and is_part(s.dom):
                if has(k, el(s.dom)):
                    raise Mismatch('a part of the wanted kind is passed over')
            else:
                raise Mismatch(f'an unexpected loop: {pp(s.dom)}')

        def ret(k):
            s = k.seg
            if s.kind != 'ret':
                raise Mismatch('asking for a feature of a style can panic')
            found = [x for x in iter_terms([s.facts, s.value]) if x[0] == 'elem' and is_part(x[1])]
            over = any(e[0] == 'exit' and (outer in s.doms.get(e[1], ()) or any(is_part(d) and d[0] != 'f' for d in s.doms.get(e[1], ())))
                       for e in s.all_events)
            if over:
                want = False
            elif found:
                want = has(k, found[0])
                if not want:
                    raise Mismatch('a feature is decided by the first part of a selector')
            elif extra and k.eq(('len', ps[1]), cint(0)):
                want = False
            else:
                raise Mismatch('a feature of a style is decided without looking at its selectors')
            if k.ask(s.value) != want:
                raise Mismatch(f'{pn} is not whether a selector has such a part')
        n = c.compare(segs, back, pn, name, lambda s: s.kind == 'back')
        n += c.compare(segs, ret, pn, name, lambda s: s.kind != 'back')
        c.floor(n, 3, f'paths of {pn}', pn)


@prop('C15')
def kept_styles(c):
    name = c.find('View::calculate_elements_stylesheet')
    match = c.find('match_style')
    preds = {p: c.find('Style::' + p) for p in PREDICATES}
    if not (name and match and all(preds.values())):
        return
    # (the view itself is the other matcher)
    lenient = [n for n, f in c.F['fns'].items() if n.endswith('has_pseudo_class') and not n.startswith('<view::View as ')]
    ok = len(lenient) == 1
    if ok:
        s = c.run(lenient[0])
        ok = s is not None and all(x.kind == 'ret' and x.value == TRUE for x in s)
    c.obligation(ok, 'lenient', 'styles are discarded by the momentary state of an element (pseudo classes must match when styles are collected)', name)
    segs = c.run(name, opaque=[match] + list(preds.values()))
    if segs is None:
        return
    self_, node = c.params(name)
    dom = f(f(self_, 'css'), 'styles')
    kids = ('children', cint(0), node)
    e = ('ctx', node)
    hints = f(e, 'style_hints')
    style = el(dom)
    lenient_ty = lenient[0].split(' as ')[0].lstrip('<').rsplit('::', 1)[-1] if lenient else '?'

    def ask(k, fn, args, loose=None):
        for t in iter_terms([k.seg.facts]):
            if t[0] == 'call' and short_name(t[1]) == short_name(fn):
                if loose(t[2]) if loose else t[2] == args:
                    return k.ask(t)
        return k.ask(('call', fn, args))

    def added(s):
        """The local lists of styles that a path adds to those of the element."""
        out = []
        for e_ in s.all_events:
            if e_[0] == 'mut' and e_[1] == f(e, 'styles') and e_[2] in ('extend', 'append') and len(e_[3]) == 1:
                l = e_[3][0]
                if l[0] == 'lv' and dom in s.doms.get(l[1], ()) and s.inits[l[1]].get(l[2]) == ('arr', ()):
                    out.append(l[2])
                else:
                    out.append(None)
        return out
    gathered = {n for s in segs if s.kind == 'ret' for n in added(s)} - {None}

    def each(k):
        s = k.seg
        pushes = [e_ for e_ in s.events if e_[0] == 'mut' and (e_[1] == f(e, 'styles') or e_[1][:2] == ('place', 'L') and any(
            s.updates.get(n) == ('m', 'push', ('lv', 'K', n), e_[3]) for n in gathered))]
        for e_ in s.events:
            if e_[0] == 'mut' and e_ not in pushes or e_[0] == 'w' and e_[1] != f(e, 'styles'):
                raise Mismatch('collecting styles changes something else')
            if e_[0] == 'call' and short_name(e_[1]) == short_name(match):
                a = e_[2]
                if a[0] != style or a[1] != node or tree_base(a[2]) != f(self_, 'tree') or lenient_ty not in pp(a[3]):
                    raise Mismatch('a style is not matched with the element whatever its state')
        matches = ask(k, match, (style, node, f(self_, 'tree'), T.adt(lenient_ty, lenient_ty, ())),
                      lambda a: a[0] == style and a[1] == node)
        if len(pushes) > 1 or pushes and (pushes[0][2] != 'push' or T.variant_of(pushes[0][3][0]) not in ('Static', 'Dynamic')):
            raise Mismatch('a style is not kept exactly once, after the others')
        kept = T.variant_of(pushes[0][3][0]) if pushes else None
        if pushes and T.field(pushes[0][3][0], '0') != style:
            raise Mismatch('another style than the one looked at is kept')
        if kept == 'Dynamic':
            return
        depends = ask(k, preds['has_attrs_selector'], (style, f(hints, 'dynamic_attrs'))) or \
            k.ask(f(hints, 'has_dynamic_classes')) and ask(k, preds['has_class_selector'], (style,)) or \
            k.ask(f(hints, 'has_dynamic_id')) and ask(k, preds['has_id_selector'], (style,)) or \
            ask(k, preds['has_combinator'], (style,)) and not k.eq(('len', f(f(self_, 'model'), 'bindings')), cint(0))
        if k.eq(('len', f(hints, 'dynamic_attrs')), cint(0)) and ask(k, preds['has_attrs_selector'], (style, f(hints, 'dynamic_attrs'))):
            k.infeasible()
        if depends:
            raise Mismatch('a style whose selector depends on data is decided once and for all')
        if kept == 'Static':
            if not matches:
                raise Mismatch('a style that does not match is kept as always applied')
            if ask(k, preds['has_pseudo_class_selector'], (style,)):
                raise Mismatch('a style depending on the state of an element is kept as always applied')
        elif matches:
            raise Mismatch('a matching style is discarded')
    n = c.compare(segs, each, 'style', name, lambda s: s.kind == 'back' and s.dom == dom)
    c.floor(n, 4, 'ways to keep a style', 'style')

    def child(k):
        s = k.seg
        if s.dom != kids:
            raise Mismatch(f'something else than the children is visited: {pp(s.dom)}')
        ef = Effects(s.events)
        if [(short_name(x[0]), x[1]) for x in ef.calls] != [(short_name(name), (self_, el(kids)))] or ef.writes or ef.muts:
            raise Mismatch('the styles of a child are not collected exactly once')
        if failing(s, short_name(name)) or swallowed(k, s, short_name(name)):
            raise Mismatch('an error of a child goes unnoticed')
    n = c.compare(segs, child, 'child', name, lambda s: s.kind == 'back' and s.dom != dom)
    c.floor(n, 1, 'visits of a child', 'child')

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            if not panics_incomplete(s):
                raise Mismatch('collecting styles can panic')
            return
        if T.variant_of(s.value) == 'Err' or not k.is_(s.value, 'Ok'):
            if not any(x in (('in', frozenset(['None'])), ('in', frozenset(['Err']))) for x in s.facts.values()):
                raise Mismatch('collecting styles fails although the tree is complete')
            return
        walked = {d for ev in s.all_events if ev[0] == 'loop' for d in s.doms.get(ev[1], ())}
        if dom not in walked or kids not in walked or abandoned(s.all_events):
            raise Mismatch('not every style and every child is looked at')
        if added(s) != sorted(gathered):
            raise Mismatch('the styles that are kept are not all given to the element')
    n = c.compare(segs, whole, 'element', name, lambda s: s.kind != 'back')
    c.floor(n, 2, 'ends of an element', 'element')
