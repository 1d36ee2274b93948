"""The cascade: order of declarations, shorthands, values, variables and functions."""
from rulelib import *
from terms import *
import terms as T
from registry import prop
from rules_view import calls_of, norm_calls, tree_base
from rules_css import with_terms,  v0

f = fld
STYLE = sym('computed style')


def model(name, inout=(), write=None, result=None):
    """A step treated as one effect on the objects it is given: the event names the places of its `inout` arguments."""
    def step(e, st, args, call):
        a = tuple(('obj', e.place_term(e.deref_loc(x))) if i in inout else e.val(st, x) for i, x in enumerate(args))
        st.emit('call', name, a, e.where(call))
        if write:
            for i, (path, v) in write.items():
                for p in (path if isinstance(path, list) else [path]):
                    l = e.deref_loc(args[i])
                    e.write(st, (l[0], l[1] + tuple(('f', x) for x in p)), v if not isinstance(path, list) else sym(f"{v[1]} {'.'.join(p)}"), silent=True)
        return [(st, result(a) if callable(result) else (result or UNIT))]
    return step


def descriptor(key, index):
    return adt('css::model::PropertyDescriptor', None, [('key', key), ('index', index)])


def home(moves, place):
    """The local a value made in another local ends up in, as long as it only ever comes from there."""
    at = tuple(place[1:])
    for _ in range(20):
        to = [d for d, ways in moves.items() if any(src == at for _, src in ways)]
        if len(to) != 1 or len({site for site, _ in moves[to[0]]}) != 1 or any(src is None for _, src in moves[to[0]]):
            break
        at = to[0]
    return ('place',) + at


def same_desc(t, key, index=None):
    return t[0] == 'adt' and t[1].endswith('PropertyDescriptor') and T.variant_of(T.field(t, 'key')) == key and \
        (index is None or T.field(t, 'index') == index)


# ------------------------------------------------------------------ C16 the cascade
@prop('C16')
def cascade(c):
    name = c.find('Cascade::apply_styles')
    steps = {n: c.find(n) for n in ('Cascade::compute_declaration_block', 'Animator::play', 'Transition::play', 'Transition::init_after_style_applied',
                                    'reset_element_style', 'inherit::inherit', 'Cascade::compute_animation_tracks', 'match_style', 'Cascade::apply', 'Animator::reset')}
    if not name or not all(steps.values()):
        return
    block, play, trans, after, reset, inherit, tracks, match, apply, again = [steps[n] for n in steps]
    o = {block: model(block, [2], {2: ((), STYLE)}), play: model(play, [0, 3], {3: ((), STYLE)}), trans: model(trans, [0, 2], {2: ((), STYLE)}),
         after: model(after, [0, 1]), again: model(again, [0]), reset: model(reset, [0]), inherit: model(inherit, [1]),
         tracks: model(tracks, [2], result=lambda a: ('call', tracks, a)),
         match: lambda e, st, args, call: [(st, ('call', match, tuple(e.val(st, x) for x in args)))],
         apply: model(apply, [4, 5], {5: ([('animators',), ('transitions',)], sym('applied'))}, result=lambda a: ('call', apply, a))}
    segs = c.run(name, overrides=o)
    if segs is None:
        return
    self_, input_, node, tree, parent, layout, element, matcher = c.params(name)
    styles, time = f(element, 'styles'), ('op', 'secs', f(input_, 'time'))
    places = {x[2][i][1] for s in segs for x in s.all_events if x[0] == 'call' for i in range(len(x[2]))
              if x[2][i][0] == 'obj' and is_local(x[2][i][1]) and x[2][i][1][0] == 'place'}
    homes = {home(c.last_engine.moves, p) for p in places}
    if len(places) > 1 and len(homes) == 1:
        # one style, made in a function of its own and handed over
        m = {p: next(iter(homes)) for p in places}
        r = lambda t: tuple(r(x) if isinstance(x, tuple) else x for x in t) if t and t[0] == 'loop' else T.subst(t, m)
        for s in segs:
            s.events, s.all_events, s.facts = [r(e) for e in s.events], [r(e) for e in s.all_events], {r(t): x for t, x in s.facts.items()}
        places = homes
    c.obligation(len(places) <= 1, 'one style', 'declarations are collected in more than one computed style', name)
    place = ('obj', next(iter(places))) if places else None

    def stats(p):
        return any(x == f(self_, 'stats') for x in T.subterms(p))

    empty = {n for s in segs for ds in s.inits.values() for n, v in ds.items() if v == ('emap',)}
    for _ in range(4):
        empty |= {n for s in segs for ds in s.inits.values() for n, v in ds.items() if v == STYLE or v[0] == 'lv' and v[2] in empty}

    def style_like(t):
        return t == STYLE or t == ('emap',) or t[0] == 'lv' and t[2] in empty

    def applied(d):
        """The transitions as the properties left them."""
        return d == sym('applied transitions') or d[0] == 'f' and d[2] == 'transitions' and d[1][0] == 'lv' or d[0] == 'lv' and 'transitions' in d[2]

    def truncated(k, dom, what):
        """what~truncate(n): n, a counter."""
        return dom[2] if False else dom[3][0] if dom[0] == 'm' and dom[1] == 'truncate' and dom[2] == f(element, what) else None

    kinds, role = {}, {}

    def only(k, calls, writes=()):
        ef = Effects(k.seg.events, skip_place=stats)
        if ef.muts:
            raise Mismatch('applying styles changes something else')
        for p in ef.writes:
            if p not in writes:
                raise Mismatch(f'applying styles changes something else: {pp(p)}')
        got = [(short_name(n), a) for n, a in ef.calls]
        want = [(short_name(n), a) for n, a in calls]
        if got != want:
            raise Mismatch(f'instead of {[n for n, _ in want]} the step does {[n for n, _ in got]}' if [n for n, _ in got] != [n for n, _ in want]
                           else f'{want[0][0] if want else ""} is not given what it needs: {pp(got[0][1]) if got else ""}')

    def step(k):
        s = k.seg
        d = s.dom
        if d is None:
            if Effects(s.events, skip_place=stats).order:
                raise Mismatch('counting layers changes something')
            return counting(k)
        x = el(d)
        again_at = [e[2][0] for e in s.events if e[0] == 'call' and e[1] == again]
        if again_at:
            w = 'animators' if again_at == [('obj', x)] else 'transitions' if again_at == [('obj', f(x, 'animator'))] else None
            if not w or d[0] == 'm' and d[2] != f(element, w) or d[0] == 'f' and d != f(element, w):
                raise Mismatch('values of something else than animations and transitions are reset')
            kinds['reset ' + w] = 1
            role[s.raw.loop] = 'reset ' + w
            return only(k, [(again, (again_at[0],))])
        if d == styles:
            kinds['styles'] = 1
            if k.variant(x, ['Static', 'Dynamic']) == 'Static':
                return only(k, [(block, (self_, f(v0(x, 'Static'), 'declaration'), place))])
            m = ('call', match, (v0(x, 'Dynamic'), node, tree, matcher))
            for t in iter_terms([s.facts]):
                if t[0] == 'call' and t[1] == match:
                    if norm_calls(t) != norm_calls(m):
                        raise Mismatch('a dynamic style is matched with something else than the element')
                    m = t
            return only(k, [(block, (self_, f(v0(x, 'Dynamic'), 'declaration'), place))] if k.ask(m) else [])
        if d[0] == 'm' and d[2] == f(element, 'animators') or d == f(element, 'animators'):
            kinds['animators'] = 1
            a = ('get', f(self_, 'css.animations'), f(x, 'name'))
            if not k.some(a):
                return only(k, [])
            tr = (self_, v0(a, 'Some'), place)
            return only(k, [(tracks, tr), (play, (('obj', x), time, ('call', tracks, tr), place))])
        if d[0] == 'm' and d[2] == f(element, 'transitions') or d == f(element, 'transitions'):
            kinds['transitions'] = 1
            return only(k, [(trans, (('obj', x), time, place))])
        if d[0] == 'pairs' and style_like(d[1]):
            kinds['apply'] = 1
            key = [t for t in iter_terms([s.events]) if t[0] == 'mapk' and t[1] == d[1]]
            if not key:
                raise Mismatch('a computed property is not applied')
            key = key[0]
            return only(k, [(apply, (self_, f(key, 'key'), f(key, 'index'), ('mapv',) + key[1:], ('obj', layout), ('obj', element)))])
        if applied(d):
            kinds['after'] = 1
            return only(k, [(after, (('obj', x), place))])
        raise Mismatch(f'something else is done for every one of {pp(d)}')

    def counting(k):
        """A counter from 0 by 1 while the style has a layer with its number."""
        s = k.seg
        for n, u in s.updates.items():
            i = s.inits['K'].get(n)
            if i != cint(0) or not k.same(u, T.op('add', ('lv', 'K', n), cint(1))):
                raise Mismatch('the layers of a property are not counted one by one')
            for t, x in s.facts.items():
                if t[0] == 'get' and x == ('in', frozenset(['Some'])) and style_like(t[1]) and T.field(t[2], 'index') == ('lv', 'K', n):
                    return
        raise Mismatch('the layers of a property are not counted')

    n = c.compare(segs, step, 'step', name, lambda s: s.kind == 'back')
    c.floor(n, 8, 'paths of the steps of the cascade', 'steps')
    for w in ('styles', 'animators', 'transitions', 'reset animators', 'reset transitions', 'apply', 'after'):
        c.obligation(w in kinds, f'steps:{w}', f'the cascade does not go through {w}', name)

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('applying styles can panic')
        if abandoned([e for e in s.all_events if e[0] != 'loop' or e[1] in s.doms]):
            raise Mismatch('not every style, animation, transition or property is gone through')
        order = []
        ef = Effects(s.all_events, skip_place=stats)
        if ef.writes:
            raise Mismatch(f'applying styles changes something else: {pp(list(ef.writes)[0])}')
        lvof = {}
        cut = {}
        current = None
        for e in ef.order:
            if e[0] == 'call':
                n, a = short_name(e[1][0]), e[1][1]
                order.append(n)
                want = {short_name(reset): (('obj', element),), short_name(inherit): (parent, ('obj', element)),
                        short_name(block): (self_, f(element, 'style'), place)}.get(n)
                if a != want:
                    raise Mismatch(f'{n} is not given what it needs')
                if n == short_name(block):
                    current = STYLE
            elif e[0] == 'mut':
                at, op, args = e[1], e[2], e[3]
                what = next((w for w in ('animators', 'transitions') if at == f(element, w)), None)
                if op != 'truncate' or not what:
                    raise Mismatch(f'applying styles changes something else: {pp(at)}')
                cut[what] = args[0]
                order.append('cut ' + what)
            elif e[0] == 'loop':
                for d in s.doms.get(e[1], ()):
                    w = 'styles' if d == styles else 'apply' if d[0] == 'pairs' else 'after' if applied(d) \
                        else next((x for x in ('animators', 'transitions') if d == f(element, x) or d[0] == 'm' and d[2] == f(element, x)), None)
                    order.append(role.get(loop_ids(s).get(e[1])) or w or pp(d))
                    if w == 'styles':
                        init = [v for kk, v in s.inits.get(e[1], {}).items() if v == ('emap',)]
                        if not init:
                            raise Mismatch('the computed style does not start empty')
                        lvof = {'styles': e[1]}
                        current = next(('lv', e[1], kk) for kk, v in s.inits[e[1]].items() if v == ('emap',))
        inline = k.eq(('len', f(element, 'style')), cint(0))
        want = [short_name(reset), short_name(inherit), 'styles'] + ([] if inline and short_name(block) not in order else [short_name(block)])
        tail = ['animators', 'transitions', 'apply', 'after']
        main = [x for x in order if not x.startswith('cut ') and not x.startswith('reset ')]
        for w in ('animators', 'transitions'):
            if order.count('reset ' + w) != 1 or not order.index(w) < order.index('reset ' + w) < order.index('apply'):
                raise Mismatch(f'values of {w} that are not declared anymore remain')
        if main != want + tail:
            raise Mismatch(f'the steps are {main} instead of {want + tail}')
        for what, key in (('animators', 'AnimationName'), ('transitions', 'TransitionProperty')):
            if what not in cut:
                # none is over: there are not more than declared
                less = [x for x, t in s.facts.items() if t == ('eq', FALSE) and x[:2] == ('op', 'pos') and T.mentions(x, lambda y: y == ('len', f(element, what)))]
                n = T.op('sub', ('len', f(element, what)), less[0][2]) if len(less) == 1 else None
                if n is None or n[0] != 'lv' or any(d[0] == 'm' and d[2] == f(element, what) for ds in s.doms.values() for d in ds):
                    raise Mismatch(f'{what} that are not declared anymore go on')
                cut[what] = n
                order.insert(order.index(what), 'cut ' + what)
            if what not in cut:
                raise Mismatch(f'{what} that are not declared anymore go on')
            if order.index('cut ' + what) > order.index(what) or order.index('cut ' + what) < order.index('styles'):
                raise Mismatch(f'{what} that are not declared anymore are played')
            n = cut[what]
            if n[0] != 'lv' or s.inits.get(n[1], {}).get(n[2]) != cint(0):
                raise Mismatch(f'the number of declared {what} is not counted')
            g = [t for t, x in s.facts.items() if t[0] == 'get' and x == ('in', frozenset(['None'])) and same_desc(t[2], key, n)]
            if not g or any(t[1] != current for t in g):
                raise Mismatch(f'the number of declared {what} is not that of the declarations in effect')
    n = c.compare(segs, whole, 'cascade', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'paths of the cascade', 'cascade')


@prop('C16')
def declarations(c):
    """A block of declarations: variables are set and every value of a property is computed as its layer, in order."""
    name, comp = c.find('Cascade::compute_declaration_block'), c.find('Cascade::compute_style')
    if not (name and comp):
        return
    segs = c.run(name, overrides={comp: model(comp, [4])})
    if segs is None:
        return
    self_, block, style = c.params(name)
    x = el(block)

    def each(k):
        s = k.seg
        ef = Effects(s.events)
        if ef.writes:
            raise Mismatch('a declaration changes something else')
        if s.dom == block:
            if k.variant(x, ['Variable', 'Property']) == 'Variable':
                v = v0(x, 'Variable')
                if ef.calls or ef.muts != [(f(self_, 'variables'), 'insert', (f(v, 'key'), f(v, 'shorthand')))]:
                    raise Mismatch('a variable does not get its declared value')
                return
            vals = f(v0(x, 'Property'), 'values')
            if ef.calls or ef.muts or [d for e in s.events if e[0] == 'loop' for d in s.doms.get(e[1], ())] != [vals] or abandoned(s.events):
                raise Mismatch('not every layer of a property is computed once')
            return
        outer = [q for q, ds in s.doms.items() if block in ds]
        for q in outer:
            p = v0(el(block, q), 'Property')
            if s.dom == f(p, 'values'):
                y = el(s.dom)
                if ef.muts or ef.calls != [(short_name(comp), (self_, f(p, 'key'), ('idx', s.dom, 'K'), y, ('obj', style)))] and \
                        ef.calls != [(short_name(comp), (self_, f(p, 'key'), ('ordinal', s.dom, 'K'), y, ('obj', style)))]:
                    raise Mismatch('a value of a property is not computed as its layer')
                return
        raise Mismatch(f'something else is done for every one of {pp(s.dom) if s.dom else "?"}')
    n = c.compare(segs, each, 'declaration', name, lambda s: s.kind == 'back')
    c.floor(n, 3, 'paths of a declaration', 'declaration')

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events)
        walked = [d for e in s.all_events if e[0] == 'loop' for d in s.doms.get(e[1], ())]
        if s.kind == 'panic' or ef.calls or ef.muts or ef.writes or walked != [block] or abandoned(s.all_events):
            raise Mismatch('not every declaration of a block is computed once, in order')
    n = c.compare(segs, whole, 'block', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'paths of a block', 'block')


# ------------------------------------------------------------------ C17 variables and functions
@prop('C17')
def definitions(c):
    name, fun = c.find('Cascade::compute_shorthand'), c.find('Cascade::compute_function')
    if not (name and fun):
        return
    segs = c.run(name, overrides={fun: model(fun, [2, 3]), name: None} if False else {fun: model(fun, [2, 3])})
    if segs is None:
        return
    self_, definition, out, chain = c.params(name)
    x = el(definition)
    n_rec = [0]

    def each(k):
        s = k.seg
        if s.dom != definition:
            raise Mismatch('something else than the parts of a value is computed')
        ef = Effects(s.events)
        if ef.writes:
            raise Mismatch('computing a value changes something else')
        kind = k.variant(x, ['Var', 'Function', 'Explicit'])
        push = lambda v: (out, 'push', (v,))
        if kind == 'Explicit':
            if ef.calls or ef.muts != [push(v0(x, 'Explicit'))]:
                raise Mismatch('a plain part of a value is not taken as it is')
            return
        if kind == 'Function':
            a = (self_, v0(x, 'Function'), ('obj', out), ('obj', chain))
            if ef.muts or ef.calls != [(short_name(fun), a)]:
                raise Mismatch('a function is not computed with the variables at hand')
            return
        var = v0(x, 'Var')
        g = ('get', f(self_, 'variables'), var)
        if not k.some(g):
            if ef.calls or len(ef.muts) != 1 or ef.muts[0][:2] != (out, 'push') or T.variant_of(ef.muts[0][2][0]) != 'Error':
                raise Mismatch('an unknown variable is not reported as an error in its place')
            return
        asked = [t for t in s.facts if t[0] == 'posof' and t[2] == var and (t[1] == chain or t[1][0] == 'lv' and s.inits['K'].get(t[1][2]) == chain)]
        if not asked:
            raise Mismatch('a variable that refers to itself is resolved endlessly')
        if k.some(asked[0]):
            if ef.calls or len(ef.muts) != 1 or ef.muts[0][:2] != (out, 'push') or T.variant_of(ef.muts[0][2][0]) != 'Error':
                raise Mismatch('a variable that refers to itself is not an error')
            return
        n_rec[0] += 1
        order = [(o[0], o[2]) if o[0] == 'mut' else o[:1] + (o[1][0],) for o in ef.order if o[0] != 'loop']
        # the variables under way are noted for a while, or in a list made for the variable
        noted = order == [('mut', 'push'), ('call', short_name(name)), ('mut', 'pop')] and ef.muts == [(chain, 'push', (var,)), (chain, 'pop', ())]
        copied = order == [('call', short_name(name))] and not ef.muts and ef.calls[0][1][3] == ('m', 'push', chain, (var,))
        if not noted and not copied:
            raise Mismatch('a variable is not resolved once, knowing the variables under way')
        a = ef.calls[0][1]
        if a[0] != self_ or a[1] != v0(g, 'Some') or not is_same_ref(s, a[2], out) or not is_same_ref(s, a[3], chain):
            raise Mismatch('a variable is not replaced by its value')

    def is_same_ref(s, t, p):
        return t == p or t[0] == 'lv' and s.inits.get(t[1], {}).get(t[2]) == p or t[0] == 'm' and is_same_ref(s, t[2], p)
    n = c.compare(segs, each, 'part', name, lambda s: s.kind == 'back')
    c.floor(n, 5, 'paths of a part of a value', 'part')
    c.obligation(n_rec[0] > 0, 'variables', 'variables are not resolved', name)

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events)
        walked = [d for e in s.all_events if e[0] == 'loop' for d in s.doms.get(e[1], ())]
        if s.kind == 'panic' or ef.calls or ef.muts or ef.writes or walked != [definition] or abandoned(s.all_events) or \
                k.simp(s.value) not in (TRUE, UNIT):
            raise Mismatch('not every part of a value is computed once, in order')
    n = c.compare(segs, whole, 'value', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'paths of a value', 'value')


VALUES = ['Keyword', 'Zero', 'Percentage', 'Time', 'Dimension', 'Number', 'Color', 'Str', 'Error']


def value(variant, *args):
    return adt('css::model::ComputedValue', variant, [(str(i), a) for i, a in enumerate(args)])


@prop('C17')
def functions(c):
    """rgb(), rgba() and url(): exactly one value for each, from the computed arguments."""
    name, comp = c.find('Cascade::compute_function'), c.find('Cascade::compute_shorthand')
    if not (name and comp):
        return
    A = sym('arguments')
    segs = c.run(name, overrides={comp: model(comp, [2, 3], {2: ((), A)}, TRUE)})
    if segs is None:
        return
    self_, fun, out, chain = c.params(name)

    def channel(k, i, scale):
        x = T.index(A, cint(i))
        kind = k.variant(x, VALUES)
        trunc = T.to_int
        if kind == 'Percentage':
            return trunc(T.op('mul', v0(x, 'Percentage'), cflt(255.0)))
        if kind == 'Number':
            n = v0(x, 'Number')
            return trunc(T.op('mul', n, cflt(255.0)) if scale else n)
        return cint(0)

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events)
        if s.kind != 'ret' or [n for n, _ in ef.calls] != [short_name(comp)] or ef.writes or abandoned(s.all_events):
            raise Mismatch('the arguments of a function are not computed once')
        a = ef.calls[0][1]
        if a[0] != self_ or a[1] != f(fun, 'arguments') or a[2] == ('obj', out) or a[3] != ('obj', chain):
            raise Mismatch('the arguments of a function are not computed apart, with the variables at hand')
        if len(ef.muts) != 1 or ef.muts[0][:2] != (out, 'push'):
            raise Mismatch('a function does not have exactly one value')
        got = ef.muts[0][2][0]
        n = f(fun, 'name')
        size = lambda m: k.eq(('len', A), cint(m))
        if k.eq(n, cstr('rgb')) and size(3):
            want = value('Color', ('arr', tuple(channel(k, i, False) for i in range(3)) + (cint(255),)))
        elif k.eq(n, cstr('rgba')) and size(4):
            want = value('Color', ('arr', tuple(channel(k, i, i == 3) for i in range(4))))
        elif k.eq(n, cstr('url')) and size(1) and k.variant(T.index(A, cint(0)), VALUES) == 'Str':
            want = value('Str', v0(T.index(A, cint(0)), 'Str'))
        else:
            want = value('Error')
        k.require_same(got, want, 'value of a function')
    n = c.compare(segs, whole, 'function', name)
    c.floor(n, 6, 'paths of functions', 'function')


# ------------------------------------------------------------------ C18 shorthands
def sides(fmt, names, form):
    return lambda vs: {fmt % n: vs[i] for n, i in zip(names, form)}


TRBL = ['Top', 'Right', 'Bottom', 'Left']
BOX = {4: (0, 1, 2, 3), 3: (0, 1, 2, 1), 2: (0, 1, 0, 1), 1: (0, 0, 0, 0)}
CORNERS = ['TopLeft', 'TopRight', 'BottomRight', 'BottomLeft']
KW = lambda s: value('Keyword', cstr(s))


def expansion():
    """(property, number of values) -> the longhands it sets, by the place of their value."""
    t = {}
    for n, form in BOX.items():
        for key, fmt in (('BorderWidth', 'Border%sWidth'), ('BorderColor', 'Border%sColor'), ('Padding', 'Padding%s'), ('Margin', 'Margin%s'), ('Inset', '%s')):
            t[key, n] = {fmt % s: i for s, i in zip(TRBL, form)}
        t['BorderRadius', n] = {f'Border{s}Radius': i for s, i in zip(CORNERS, form)}
    for s in TRBL:
        t['Border' + s, 3] = {f'Border{s}Width': 0, f'Border{s}Color': 2}
    t['Border', 3] = {f'Border{s}{w}': i for s in TRBL for w, i in (('Width', 0), ('Color', 2))}
    t['Background', 1] = {'BackgroundImage': KW('none'), 'BackgroundColor': 0}
    for key, a, b in (('BackgroundPosition', 'BackgroundPositionX', 'BackgroundPositionY'), ('Overflow', 'OverflowX', 'OverflowY'), ('Gap', 'RowGap', 'ColumnGap')):
        t[key, 1] = {a: 0, b: 0}
        t[key, 2] = {a: 0, b: 1}
    tr = ['TransitionProperty', 'TransitionDuration', 'TransitionTimingFunction', 'TransitionDelay']
    for n in (2, 3, 4):
        t['Transition', n] = {x: i for i, x in enumerate(tr[:n])}
    t['Animation', 2] = {'AnimationDuration': 0, 'AnimationName': 1}
    t['Animation', 3] = {'AnimationDuration': 0, 'AnimationTimingFunction': 1, 'AnimationName': 2}
    return t


EXPAND = expansion()
SHORTHANDS = sorted({k for k, n in EXPAND})
UNSUPPORTED = {('Inset', 2), ('Inset', 3)}


@prop('C18')
def shorthands(c):
    name, comp = c.find('Cascade::compute_style'), c.find('Cascade::compute_shorthand')
    if not (name and comp):
        return
    V = sym('values')
    segs = c.run(name, overrides={comp: model(comp, [2, 3], {2: ((), V)}, TRUE)})
    if segs is None:
        return
    self_, key, index, definition, style = c.params(name)
    at = lambda i: T.index(V, cint(i))

    def prescribed(k):
        """The longhands set and their values; None: a form that is not supported (nothing else may be set)."""
        n = next((m for m in (1, 2, 3, 4) if k.eq(('len', V), cint(m))), None)
        short = next((s for s in SHORTHANDS if k.is_(key, s)), None)
        if short == 'Border' and n == 1:
            if k.variant(at(0), VALUES) != 'Keyword':
                return None, short, n
            if k.eq(v0(at(0), 'Keyword'), cstr('none')):
                return {f'Border{s}{w}': v for s in TRBL for w, v in (('Width', value('Zero')), ('Color', KW('currentcolor')))}, short, n
            return {}, short, n
        if short == 'Animation' and n == 4:
            return {'AnimationDuration': at(0), 'AnimationTimingFunction': at(1), 'AnimationName': at(3),
                    'AnimationDelay' if k.variant(at(2), VALUES) == 'Time' else 'AnimationIterationCount': at(2)}, short, n
        t = EXPAND.get((short, n))
        if t is not None:
            return {x: at(i) if isinstance(i, int) else i for x, i in t.items()}, short, n
        if short or n != 1:
            return None, short, n
        return {None: at(0)}, None, n

    def keyname(k, t):
        """The longhand of a descriptor, None for the declared property itself."""
        if t == key:
            return None
        v = T.variant_of(t)
        if v is None:
            raise Mismatch('a property that is not known is set')
        return v

    def own(k, got, short):
        return {None if x == short and short else x: v for x, v in got.items()}

    def whole(k):
        s = k.seg
        if s.kind != 'ret':
            raise Mismatch('computing a style can panic')
        ef = Effects(s.all_events)
        if [n for n, _ in ef.calls] != [short_name(comp)] or ef.writes:
            raise Mismatch('the values of a property are not computed once')
        a = ef.calls[0][1]
        if a[0] != self_ or a[1] != definition or s.raw and not fresh_chain(s, a[3]):
            raise Mismatch('the values of a property are not computed from its definition')
        got, retained = {}, []
        for at_, op, args in ef.muts:
            if at_ == style and op == 'retain':
                x = next((x for x in [None, *sorted(map(str, got))] if cleared(k, args[0], x)), 0)
                if x == 0:
                    raise Mismatch('other declarations than those above a layer are removed')
                retained.append(x)
                continue
            if at_ != style or op not in ('insert', 'remove'):
                raise Mismatch('computing a style changes something else')
            if op == 'insert':
                d = args[0]
                if T.field(d, 'index') != index:
                    raise Mismatch('a value is set in another layer')
                got[keyname(k, T.field(d, 'key'))] = args[1]
        want, short, n = prescribed(k)
        if want is None or (short, n) in UNSUPPORTED and set(got) <= {None}:
            if set(own(k, got, short)) - {None} or got and n != 1:
                raise Mismatch(f'a form of {short} that is not supported sets something')
            want = got
        if set(got) != set(want):
            raise Mismatch(f'{short or "a property"} of {n} values sets {sorted(map(str, got))} instead of {sorted(map(str, want))}')
        for x in want:
            k.require_same(whole_value(k, got[x]), whole_value(k, want[x]), f'{x or "value"} of {short or "a property"} with {n} values')
        for x in want:
            g = [t for t, y in s.facts.items() if t[0] == 'get' and y == ('in', frozenset(['None'])) and t[2][0] == 'adt' and
                 keyname(k, T.field(t[2], 'key')) == x and upward(k, T.field(t[2], 'index'))]
            if not g and x not in retained:
                raise Mismatch(f'layers of an overwritten declaration remain above the new one of {x or "a property"}')

    def whole_value(k, v):
        """A value rebuilt from its own parts is the value."""
        if v[0] == 'adt' and v[3] and len(v[3]) == 1:
            x = v[3][0][1]
            if x[0] == 'vf' and x[2] == T.variant_of(v) and x[3] == '0':
                return x[1]
        return v

    def fresh_chain(s, t):
        return t[0] == 'obj' and is_local(t[1])

    def upward(k, i, key_='*'):
        """A number that starts right above the layer and goes up by one."""
        s = k.seg
        if i[0] != 'lv':
            return False
        init = s.inits.get(i[1], {}).get(i[2])
        return init is not None and k.same(init, T.op('add', index, cint(1)))
        if set(retained) - set(want):
            raise Mismatch('layers of a property that is not set are removed')

    ALL_KEYS = frozenset(v['name'] for v in c.F['adts']['css::model::PropertyKey']['variants'])

    def cleared(k, p, x):
        """The predicate keeps all but the layers of x above this one."""
        kept = sym('key kept')
        above_ = T.op('lt', index, T.field(kept, 'index'))
        at_x = {T.field(kept, 'key'): ('in', frozenset([x]))} if x else {}
        other = [{T.field(kept, 'key'): ('in', frozenset([y]))} for y in sorted(ALL_KEYS - {x})]
        if not x:
            same_ = T.mk_eq(T.field(kept, 'key'), key)
            at_x, other = {same_: ('eq', TRUE)}, [{same_: ('eq', FALSE)}]
        f = k.seg.facts
        ab = {above_: ('eq', TRUE)}, {above_: ('eq', FALSE)}
        return decided({**f, **at_x, **ab[0]}, p) is False and decided({**f, **at_x, **ab[1]}, p) is True \
            and all(decided({**f, **o}, p) is True for o in other)
    retains = [x for s in segs for x in s.all_events if x[0] == 'mut' and x[2] == 'retain']
    n = c.compare(segs, whole, 'shorthand', name, lambda s: s.kind != 'back')
    c.floor(n, 20, 'paths of shorthands', 'shorthand')

    def above(k):
        s = k.seg
        ef = Effects(s.events)
        if s.dom is not None or ef.calls or ef.writes or len(ef.muts) != 1 or ef.muts[0][:2] != (style, 'remove'):
            raise Mismatch('setting a layer does something else than removing those above')
        d = ef.muts[0][2][0]
        i = T.field(d, 'index')
        if not upward(k, i) or i[1] != 'K' or not k.same(s.updates.get(i[2]), T.op('add', i, cint(1))):
            raise Mismatch('not all layers above are removed one by one')
        want, short, n = prescribed(k)
        x = keyname(k, T.field(d, 'key'))
        if want is None or (short, n) in UNSUPPORTED:
            want = {None}
        if x not in want:
            raise Mismatch(f'{short or "a property"} removes layers of {x}')
        if not [t for t, y in s.facts.items() if t[0] == 'get' and y == ('in', frozenset(['Some'])) and t[2] == d]:
            raise Mismatch('layers above are removed endlessly')
    n = c.compare(segs, above, 'layers', name, lambda s: s.kind == 'back')
    c.floor(n + len(retains), 1, 'removals of the layers above', 'layers')


# ------------------------------------------------------------------ C19 values
def A_(variant, *args):
    return ('A', variant, args)


def kw(k, v, table):
    """The entry of a keyword, None if it is another one (or not a keyword)."""
    if k.variant(v, VALUES) != 'Keyword':
        return None
    w = v0(v, 'Keyword')
    for name, to in table.items():
        if k.eq(w, cstr(name)):
            return to
    return None


def rgba(*c):
    return ('arr', tuple(cint(x) for x in c))


ALIGN_ITEMS = {'normal': NONE, **{n: T.some(A_(v)) for n, v in {
    'start': 'Start', 'end': 'End', 'flex-start': 'FlexStart', 'flex-end': 'FlexEnd', 'center': 'Center', 'baseline': 'Baseline', 'stretch': 'Stretch'}.items()}}
ALIGN_CONTENT = {'normal': NONE, **{n: T.some(A_(v)) for n, v in {
    'start': 'Start', 'end': 'End', 'flex-start': 'FlexStart', 'flex-end': 'FlexEnd', 'center': 'Center', 'stretch': 'Stretch',
    'space-between': 'SpaceBetween', 'space-evenly': 'SpaceEvenly', 'space-around': 'SpaceAround'}.items()}}
OVERFLOW = {'visible': A_('Visible'), 'hidden': A_('Hidden'), 'clip': A_('Clip'), 'scroll': A_('Scroll'), 'auto': A_('Scroll')}
TIMING = {'ease': A_('Ease'), 'ease-in': A_('EaseIn'), 'ease-out': A_('EaseOut'), 'ease-in-out': A_('EaseInOut'), 'linear': A_('Linear'),
          'step-start': A_('StepStart'), 'step-end': A_('StepEnd')}
camel = lambda s: ''.join(w.capitalize() for w in s.split('-'))
named = lambda *names: {n: A_(camel(n)) for n in names}
ZERO = cflt(0.0)


class Values:
    """What a value means for a place of each kind; None: it is not a value of that kind."""

    def __init__(self, k, self_):
        self.k, self.sizes = k, f(self_, 'sizes')

    def kind(self, v):
        return self.k.variant(v, VALUES)

    def dim(self, v):
        d = v0(v, 'Dimension')
        unit = self.k.variant(f(d, 'unit'), ['Px', 'Em', 'Rem', 'Vw', 'Vh', 'Vmax', 'Vmin'])
        x, s = f(d, 'value'), self.sizes
        w, h = f(s, 'viewport_width'), f(s, 'viewport_height')
        if unit == 'Px':
            return x
        by = {'Em': f(s, 'parent_font_size'), 'Rem': f(s, 'root_font_size'), 'Vw': w, 'Vh': h,
              'Vmax': T.op('max', w, h), 'Vmin': T.op('min', w, h)}[unit]
        r = T.op('mul', by, x)
        return r if unit in ('Em', 'Rem') else T.op('div', r, cflt(100.0))

    def number(self, v, units=False, percent=None, plain=True):
        kind = self.kind(v)
        if kind == 'Zero':
            return ZERO
        if kind == 'Number' and plain:
            return v0(v, 'Number')
        if kind == 'Percentage' and percent is not None:
            return T.op('mul', v0(v, 'Percentage'), percent)
        if kind == 'Dimension' and units:
            return self.dim(v)
        return None

    def alpha(self, v):
        return self.number(v, percent=cflt(1.0))

    def width(self, v):
        return self.number(v, units=True)

    def font_size(self, v):
        return self.number(v, units=True, percent=f(self.sizes, 'parent_font_size'))

    def offset(self, v):
        n = self.number(v, units=True, percent=ZERO)
        return None if n is None else T.op('neg', n)

    def sized(self, v, auto=False, length='Length'):
        kind = self.kind(v)
        if kind == 'Percentage':
            return A_('Percent', v0(v, 'Percentage'))
        if kind == 'Keyword':
            return kw(self.k, v, {'auto': A_('Auto')}) if auto else None
        n = self.number(v, units=True, plain=False)
        return None if n is None else A_(length, n)

    def auto(self, v):
        return self.sized(v, auto=True)

    def radius(self, v):
        return self.sized(v, length='Number')

    def color(self, v):
        kind = self.kind(v)
        if kind == 'Color':
            return v0(v, 'Color')
        return kw(self.k, v, {'black': rgba(0, 0, 0, 255), 'white': rgba(255, 255, 255, 255), 'red': rgba(255, 0, 0, 255), 'blue': rgba(0, 0, 255, 255),
                              'green': rgba(0, 255, 0, 255), 'transparent': rgba(0, 0, 0, 0), 'currentcolor': f(self.sizes, 'parent_color'),
                              'currentColor': f(self.sizes, 'parent_color')})

    def weight(self, v):
        kind = self.kind(v)
        if kind == 'Number':
            n = v0(v, 'Number')
            if self.k.ask(T.op('lt', n, cflt(1.0))) or self.k.ask(T.op('lt', cflt(1000.0), n)):
                return None
            return T.to_int(n)
        return kw(self.k, v, {'normal': cint(400), 'bold': cint(700)})

    def string(self, v):
        return v0(v, 'Str') if self.kind(v) == 'Str' else None

    def seconds(self, v):
        return v0(v, 'Time') if self.kind(v) == 'Time' else None

    def keyword(self, **_):
        raise NotImplementedError

    def image(self, v):
        if self.kind(v) == 'Str':
            return T.some(v0(v, 'Str'))
        return kw(self.k, v, {'none': NONE})

    def iterations(self, v):
        if self.kind(v) == 'Keyword':
            return kw(self.k, v, {'infinite': A_('Infinite')})
        n = self.number(v)
        return None if n is None else A_('Number', n)


def longhands():
    """property -> (object, place, kind of value)."""
    t = {}
    for s in TRBL:
        lo = s.lower()
        t[f'Border{s}Width'] = [('element', f'borders.{lo}.width', 'width'), ('layout', f'border.{lo}', 'border')]
        t[f'Border{s}Color'] = [('element', f'borders.{lo}.color', 'color')]
        t[f'Margin{s}'] = [('layout', f'margin.{lo}', 'auto')]
        t[f'Padding{s}'] = [('layout', f'padding.{lo}', 'sized')]
        t[s] = [('layout', f'inset.{lo}', 'auto')]
    for i, s in enumerate(CORNERS):
        t[f'Border{s}Radius'] = [('element', f'borders.radius#{i}', 'radius')]
    for p, w in (('', 'size'), ('Min', 'min_size'), ('Max', 'max_size')):
        t[p + 'Width'] = [('layout', w + '.width', 'auto')]
        t[p + 'Height'] = [('layout', w + '.height', 'auto')]
    t['ColumnGap'] = [('layout', 'gap.width', 'sized')]
    t['RowGap'] = [('layout', 'gap.height', 'sized')]
    t['FlexBasis'] = [('layout', 'flex_basis', 'auto')]
    t['FlexGrow'] = [('layout', 'flex_grow', 'number')]
    t['FlexShrink'] = [('layout', 'flex_shrink', 'number')]
    t['Opacity'] = [('element', 'self_opacity', 'alpha')]
    t['Color'] = [('element', 'color', 'color')]
    t['FontSize'] = [('element', 'font.size', 'font_size')]
    t['FontWeight'] = [('element', 'font.weight', 'weight')]
    t['FontFamily'] = [('element', 'font.family', 'string')]
    K = lambda obj, place, table: [(obj, place, table)]
    t['FontStyle'] = K('element', 'font.style', {x: cstr(x) for x in ('normal', 'italic', 'oblique')})
    t['TextAlign'] = K('element', 'font.align', named('start', 'end', 'left', 'right', 'center', 'justify', 'justify-all', 'match-parent'))
    t['PointerEvents'] = K('element', 'pointer_events', named('auto', 'none'))
    t['Cursor'] = K('element', 'pointer', named('auto', 'default', 'pointer', 'context-menu', 'help', 'progress', 'wait', 'text', 'not-allowed'))
    t['Visibility'] = K('element', 'visible', {'visible': TRUE, 'hidden': FALSE})
    t['BoxSizing'] = K('layout', 'box_sizing', named('border-box', 'content-box'))
    t['Display'] = K('layout', 'display', {'flow': A_('Block'), **named('block', 'flex', 'grid')})
    t['Position'] = K('layout', 'position', named('relative', 'absolute'))
    t['OverflowX'] = K('layout', 'overflow.x', OVERFLOW)
    t['OverflowY'] = K('layout', 'overflow.y', OVERFLOW)
    for x in ('align', 'justify'):
        t[x.capitalize() + 'Content'] = K('layout', x + '_content', ALIGN_CONTENT)
        t[x.capitalize() + 'Items'] = K('layout', x + '_items', ALIGN_ITEMS)
        t[x.capitalize() + 'Self'] = K('layout', x + '_self', ALIGN_ITEMS)
    t['FlexDirection'] = K('layout', 'flex_direction', named('row', 'row-reverse', 'column', 'column-reverse'))
    t['FlexWrap'] = K('layout', 'flex_wrap', {'wrap': A_('Wrap'), 'nowrap': A_('NoWrap'), 'wrap-reverse': A_('WrapReverse')})
    return t


def layers():
    t = {'BackgroundColor': ('backgrounds', 'color', 'color'), 'BackgroundImage': ('backgrounds', 'image', 'image'),
         'BackgroundPositionX': ('backgrounds', 'src#0', 'offset'), 'BackgroundPositionY': ('backgrounds', 'src#1', 'offset'),
         'TransitionProperty': ('transitions', 'key', 'property'), 'AnimationName': ('animators', 'name', 'name')}
    for pre, obj, sub in (('Transition', 'transitions', 'animator.'), ('Animation', 'animators', '')):
        t[pre + 'Duration'] = (obj, sub + 'duration', 'seconds')
        t[pre + 'Delay'] = (obj, sub + 'delay', 'seconds')
        t[pre + 'TimingFunction'] = (obj, sub + 'timing', TIMING)
    t['AnimationDirection'] = ('animators', 'direction', named('normal', 'reverse', 'alternate', 'alternate-reverse'))
    t['AnimationFillMode'] = ('animators', 'fill_mode', named('none', 'forwards', 'backwards', 'both'))
    t['AnimationIterationCount'] = ('animators', 'iterations', 'iterations')
    t['AnimationPlayState'] = ('animators', 'running', {'running': TRUE, 'paused': FALSE})
    return t


LONGHANDS, LAYERS = longhands(), layers()


def agree(k, got, want):
    """Whether a written value is what is meant (types are those of the place)."""
    if want[0] == 'A':
        got = k.simp(got)
        if got[0] == 'adt' and T.variant_of(got) == want[1]:
            return len(got[3]) == len(want[2]) and all(agree(k, x, w) for (_, x), w in zip(got[3], want[2]))
        return False
    if want[0] == 'adt' and want[2] == 'Some' and want[3][0][1][0] == 'A':
        return T.variant_of(got) == 'Some' and agree(k, T.field(got, '0'), want[3][0][1])
    return k.same(got, want)


def at_place(base, path):
    for p in path.split('.'):
        if '#' in p:
            n, i = p.split('#')
            base = T.index(f(base, n), cint(int(i)))
        else:
            base = f(base, p)
    return base


@prop('C19')
def applied_values(c):
    name, parse = c.find('Cascade::apply'), c.find('PropertyKey::parse')
    if not (name and parse):
        return
    segs = c.run(name, opaque=[parse])
    if segs is None:
        return
    self_, key, index, v, layout, element = c.params(name)
    segs = [x for x in (grounded(s, index) for s in segs) if x is not None]
    objs = {'layout': layout, 'element': element}
    done, layer = {}, index

    def whole(k):
        s = k.seg
        index = k.simp(layer)
        if s.kind != 'ret':
            raise Mismatch('applying a value can panic')
        ef = Effects(s.all_events)
        if [x for x in ef.calls if x[0] != short_name(parse)]:
            raise Mismatch('applying a value does something else')
        prop_ = next((p for p in list(LONGHANDS) + list(LAYERS) if k.is_(key, p)), None)
        V = Values(k, self_)
        known = decided(k.facts, T.mk_eq(index, cint(0)))
        first = not k.ask(T.op('lt', cint(0), index)) if known is None else known
        ok = T.variant_of(s.value) == 'Ok'
        if T.variant_of(s.value) not in ('Ok', 'Err'):
            raise Mismatch('the outcome of applying a value is not established')
        want, lst = {}, None
        if prop_ in LONGHANDS:
            meaning = {}
            for obj, path, kind in LONGHANDS[prop_]:
                if kind == 'border':
                    n = V.width(v)
                    meaning[at_place(objs[obj], path)] = None if n is None else A_('Length', n)
                else:
                    meaning[at_place(objs[obj], path)] = kw(k, v, kind) if isinstance(kind, dict) else getattr(V, kind)(v)
            if first and None not in meaning.values():
                want = meaning
        elif prop_ in LAYERS:
            obj, path, kind = LAYERS[prop_]
            lst = f(element, obj)
            item = T.index(lst, index)
            short = not k.ask(T.op('lt', index, ('len', lst)))
            grown = [m for m in ef.muts if m[0] == lst and m[1] in ('resize_with', 'resize')]
            cur = ('m', grown[0][1], lst, grown[0][2]) if grown else lst
            old = T.index(cur, index)
            p = at_place(item, path)
            if kind == 'name':
                n = v0(v, 'Keyword') if k.variant(v, VALUES) == 'Keyword' else None
                if n is not None:
                    want[p] = n
                    if not k.eq(f(old, 'name'), n):
                        want[f(item, 'time')] = ZERO
                    else:
                        want[p] = None
            elif kind == 'property':
                if k.variant(v, VALUES) == 'Keyword':
                    r = ('call', parse, (v0(v, 'Keyword'),))
                    if k.some(r):
                        new = v0(r, 'Some')
                        if k.some(f(old, 'key')) and k.eq(v0(f(old, 'key'), 'Some'), new):
                            want[p] = None
                        else:
                            want[p] = T.some(new)
                            want[f(item, 'ranges')] = ('arr', ())
            else:
                n = kw(k, v, kind) if isinstance(kind, dict) else getattr(V, kind)(v)
                if n is not None:
                    want[p] = n
            if grown and (len(grown) != 1 or not short or not k.same(grown[0][2][0], T.op('add', index, cint(1)))):
                raise Mismatch(f'the number of {obj} is not that of the layers')
            if grown:
                from rules_anim import DEFAULTS, leaf, meant
                new = grown[0][2][1]
                for q, w in DEFAULTS[{'backgrounds': 'Background', 'animators': 'Animator', 'transitions': 'Transition'}[obj]].items():
                    if not meant(k, leaf(k, new, q), w):
                        raise Mismatch(f'{q} of a layer that is added to {obj} is {pp(leaf(k, new, q))}')
            if want and short and not grown:
                raise Mismatch(f'a layer of {obj} that is missing is not added')
        elif prop_ is None and k.is_(key, 'Outline'):
            want = {}
        done[prop_] = done.get(prop_, 0) + bool(want)
        for m in ef.muts:
            if m[1] == 'clear' and want.get(m[0]) == ('arr', ()):
                ef.writes[m[0]] = ('arr', ())
            elif m[0] != lst or m[1] not in ('resize_with', 'resize'):
                raise Mismatch(f'{prop_ or "a property that is not supported"} changes something else')
        places = set(want)
        for p in ef.writes:
            if p not in places:
                raise Mismatch(f'{prop_ or "a property that is not supported"} {"" if want else "with such a value "}changes {pp(p)}')
        for p, w in want.items():
            if w is None:
                continue
            if p not in ef.writes:
                if not agree(k, p, w):
                    raise Mismatch(f'{prop_} does not set {pp(p)}')
            elif not agree(k, ef.writes[p], w):
                raise Mismatch(f'{prop_} sets {pp(p)} to {pp(ef.writes[p])}')
        if want and not ok:
            raise Mismatch(f'{prop_} is reported as not supported although it is applied')
        if not want and ok and (prop_ or not k.is_(key, 'Outline')) and not (prop_ == 'FontFamily' and not first):
            raise Mismatch('a value that is not supported is not reported')
    n = c.compare(segs, whole, 'value', name)
    c.floor(n, 150, 'paths of applied values', 'value')
    missing = [p for p in list(LONGHANDS) + list(LAYERS) if not done.get(p)]
    c.obligation(not missing, 'supported', f'properties are never applied: {missing[:6]}', name)
    c.floor(len(done) - 1, 70, 'properties that are applied', 'properties')
