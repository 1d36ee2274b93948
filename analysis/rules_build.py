"""What a view begins with, the shape of the data its bindings ask for, and the small helpers a user's code reads."""
from rules_read import *


def writes(name, fields, args_at):
    """A model of a function which gives the given places new values."""
    def model(e, st, args, call):
        a = tuple(e.val(st, x) for x in args)
        st.emit('call', name, a, e.where(call))
        for i, path, v in fields:
            root, proj = e.deref_loc(args[i])
            e.write(st, (root, proj + tuple(('f', x) for x in path)), v, silent=True)
        return [(st, ('call', name, tuple(a[i] for i in args_at)))]
    return model


def calm(c, segs, name):
    bad = [s for s in segs if s.kind == 'panic' and possible(s.facts)]
    c.obligation(not bad, f'stops:{short_name(name)}', f'`{name}` can stop: {bad and pp(bad[0].value)}', name)


# ------------------------------------------------------------------ C27 a view is made of all of its document
@prop('C27')
def view_built(c):
    """The body and the templates of the document, the style sheet and all given things are those of the view."""
    name = c.find('View::from_html')
    html_, css_, render = c.find('read_html'), c.find('read_css'), c.find('Renderer::render')
    style, state = c.find('View::calculate_elements_stylesheet'), c.find('View::apply_default_bindings_state')
    default = c.find('ViewModel::memorize_array_default')
    if not (name and html_ and css_ and render and style and state and default):
        return
    fun = c.find('default_transformers::duration')
    after = {x: sym(f'rendered {x}') for x in ('tree', 'bindings', 'schema', 'static_id', 'locals', 'templates')}
    shapes = sym('default items')
    over_ = {render: writes(render, [(0, (x,), v) for x, v in after.items()], [0, 1]),
             default: writes(default, [(2, (), shapes)], [0, 1, 2]),
             style: writes(style, [], [1]), state: writes(state, [], [])}
    segs = c.run(name, opaque=[html_, css_], overrides=over_)
    if segs is None:
        return
    html, css, resources, fonts, translator = c.params(name)
    doc = ('call', html_, (html,))
    kids = T.field(v0(doc, 'Ok'), 'children')
    x = el(kids)
    attrs = T.field(x, 'bindings')
    given = {}          # names of the templates in each loop

    for s in segs:
        for e in s.all_events:
            if e[0] == 'call' and e[1] == render:
                t = T.field(e[2][0], 'templates')
                given.setdefault('all', set()).add(t)
    maps = {t[2] for t in given.get('all', ()) if t[0] == 'lv'}
    c.obligation(len(maps) == 1, 'templates', f'the templates known to the renderer are {[pp(t) for t in given.get("all", ())]}', name)
    if len(maps) != 1:
        return
    tm = next(iter(maps))

    def none_name(k):
        """Where the id of a template is found on this path."""
        out = set()
        for e in k.seg.all_events:
            if e[0] == 'exit' and attrs in k.seg.doms.get(e[1], ()):
                out |= {('lv', e[1], n) for n, i in k.seg.inits.get(e[1], {}).items() if T.variant_of(i) == 'None'}
        return out

    def ident(k):
        ids = sorted(none_name(k))
        back_ = ('rev', attrs)
        if not ids:
            # looked for from the end
            if any(e[0] == 'exit' and back_ in k.seg.doms.get(e[1], ()) for e in k.seg.all_events):
                return NONE
            for key, ds in k.seg.doms.items():
                a = el(back_, key)
                if back_ in ds and k.is_(a, 'None') and k.eq(v0(a, 'None'), cstr('id')):
                    return T.some(T.field(T.as_variant(a, 'None'), '1'))
        return only(ids, 'the id of a template')

    def attribute(k):
        """The id of a template is that of its attributes of the name."""
        s = k.seg
        a = el(s.dom)
        tag = T.field(s.dom[1][1] if s.dom[0] == 'rev' else s.dom[1], 'tag')
        ids = {n: v for n, v in s.updates.items() if T.variant_of(s.inits['K'].get(n, ('c', 'x', 0))) == 'None'}
        if any(v[0] == 'm' and v[2][:2] != ('lv', 'K') for v in s.updates.values()):
            raise Mismatch('an attribute changes the templates')
        if s.dom[0] != 'rev' and k.eq(tag, cstr('template')) and k.is_(a, 'None') and k.eq(v0(a, 'None'), cstr('id')):
            v = only(list(ids.values()), 'the id of a template')
            if not k.is_(v, 'Some'):
                raise Mismatch('the id of a template is not known')
            k.require_same(v0(v, 'Some'), T.field(T.as_variant(a, 'None'), '1'), 'the id of a template')
            return
        if s.dom[0] == 'rev':
            if k.eq(tag, cstr('template')) and k.is_(a, 'None') and k.eq(v0(a, 'None'), cstr('id')):
                raise Mismatch('the id of a template is left out')
        for n, v in ids.items():
            if v != ('lv', 'K', n):
                raise Mismatch('another attribute is taken for the id of a template')

    def child(k):
        s = k.seg
        lv = ('lv', 'K', tm)
        t = k.simp(s.updates.get(tm, lv))
        tag = T.field(x, 'tag')
        if k.eq(tag, cstr('body')):
            raise Mismatch('what follows the body is looked at')
        if not k.eq(tag, cstr('template')):
            k.require_same(t, lv, 'the templates known after another element')
            return
        i = ident(k)
        content = T.field(x, 'children')
        if not k.some(i) or not k.eq(('len', content), cint(1)):
            k.require_same(t, lv, 'the templates known after one without id or content')
            return
        k.require_same(t, ('m', 'insert', lv, (T.strcat([cstr('#'), v0(i, 'Some')]), T.index(content, cint(0)))), 'the templates known after one')

    def ret(k):
        s = k.seg
        if not k.is_(doc, 'Ok'):
            fails(k, doc)
            return
        sheet = ('call', css_, (css,))
        if not k.is_(sheet, 'Ok'):
            fails(k, sheet)
            return
        r = next((e for e in s.all_events if e[0] == 'call' and e[1] == render), None)
        if r is None:
            raise Mismatch('the document is not rendered')
        rend, body = r[2]
        k.require_same(T.field(rend, 'translator'), translator, 'the translator of the renderer')
        for part, what in (('bindings', 'the bindings'), ('locals', 'the names'), ('static_id', 'the ids')):
            k.require_same(T.field(rend, part), ('emap',), f'{what} before rendering')
        v = T.field(T.field(rend, 'schema'), 'value')
        if not k.is_(v, 'Object') or v0(v, 'Object') != ('emap',):
            raise Mismatch(f'the data before rendering are {pp(v)}')
        lk = T.field(rend, 'templates')[1]
        if kids not in s.doms.get(lk, ()) or s.inits[lk].get(tm) != ('emap',):
            raise Mismatch('the templates known to the renderer are not those of the document')
        if k.simp(body) == el(kids, lk):
            if not k.eq(T.field(el(kids, lk), 'tag'), cstr('body')):
                raise Mismatch('the rendered body is another element')
        else:
            if not over(k, lk):
                raise Mismatch('the rendered body is not that of the document')
            k.require_same(T.field(body, 'tag'), cstr(''), 'the tag of a missing body')
            k.require_same(T.field(body, 'text'), NONE, 'the text of a missing body')
            for part in ('children', 'bindings'):
                k.require_same(T.field(body, part), ('arr', ()), f'the {part} of a missing body')
        res = ('call', render, r[2])
        if not k.is_(res, 'Ok'):
            fails(k, res)
            return
        ids = v0(res, 'Ok')
        steps = [e for e in s.all_events if e[0] == 'call' and e[1] in (style, state)]
        root, top = T.index(ids, cint(0)), T.index(ids, cint(1))
        if not steps or steps[0][1] != style or [e[1] for e in steps[1:]] not in ([], [state]):
            raise Mismatch('the view does not begin with its static styles and then the state of its bindings')
        k.require_same(steps[0][2][1], top, 'where the static styles begin')
        complete(k, steps[0][2][0], v0(sheet, 'Ok'), root, top)
        a = ('call', style, (steps[0][2][1],))
        if not k.is_(a, 'Ok'):
            fails(k, a)
            return
        if len(steps) != 2:
            raise Mismatch('the state of the bindings is not the one of no data')
        complete(k, steps[1][2][0], v0(sheet, 'Ok'), root, top)
        b = ('call', state, ())
        if not k.is_(b, 'Ok'):
            fails(k, b)
            return
        v = k.simp(s.value)
        if not k.is_(v, 'Ok'):
            raise Mismatch('a view of a good document is an error')
        complete(k, v0(v, 'Ok'), v0(sheet, 'Ok'), root, top)

    def fails(k, t):
        v = k.simp(k.seg.value)
        if not k.is_(v, 'Err'):
            raise Mismatch(f'the error of {pp(t)[:80]} is not that of the view')
        got = v0(v, 'Err')
        if v0(t, 'Err') not in set(iter_terms(got)):
            raise Mismatch(f'the error of {pp(t)[:80]} is lost')

    def complete(k, view, sheet, root, top):
        want = {'tree': after['tree'], 'root': root, 'body': top, 'css': sheet, 'resources': resources, 'identified': after['static_id']}
        for part, v in want.items():
            k.require_same(T.field(view, part), v, f'the {part} of a view')
        model = T.field(view, 'model')
        k.require_same(T.field(model, 'bindings'), after['bindings'], 'the bindings of a view')
        k.require_same(T.field(model, 'model'), T.field(after['schema'], 'value'), 'the values a view begins with')
        k.require_same(T.field(model, 'model_array_default'), shapes, 'the shapes of items')
        if not any(e[0] == 'call' and e[1] == default and k.same(e[2][0], cstr('')) and k.same(e[2][1], T.field(after['schema'], 'value'))
                   and k.same(e[2][2], ('emap',)) for e in k.seg.all_events):
            raise Mismatch('the shapes of items are not those of the values a view begins with')
        k.require_same(T.field(model, 'mouse'), ('arr', (cflt(0.0), cflt(0.0))), 'where the pointer begins')
        known = ('m', 'insert', ('emap',), (cstr('duration'), ('fn', fun)))
        got = T.field(model, 'transformers')
        if got[0] != 'm' or got[1:3] != known[1:3] or not k.same(got[3][0], cstr('duration')) or fun not in got[3][1]:
            raise Mismatch(f'the transformers a view begins with are {pp(got)}')
        for part in ('elements_under_mouse', 'elements_in_action'):
            k.require_same(T.field(model, part), ('arr', ()), f'the {part} a view begins with')
        for part in ('drag', 'focus'):
            k.require_same(T.field(model, part), NONE, f'the {part} a view begins with')
        k.require_same(T.field(T.field(model, 'output'), 'messages'), ('arr', ()), 'the messages a view begins with')

    calm(c, segs, name)
    n = c.compare(segs, child, 'child', name, lambda s: s.kind == 'back' and s.dom == kids)
    c.floor(n, 3, 'paths of a part of a document', 'child')
    n = c.compare(segs, attribute, 'id', name, lambda s: s.kind == 'back' and any(
        d[0] == 'f' and d[2] == 'bindings' and d[1][:2] == ('elem', kids) for d in (s.dom, s.dom[1] if s.dom[0] == 'rev' else s.dom)))
    c.floor(n, 2, 'paths of an attribute', 'id')
    n = c.compare(segs, ret, 'view', name, lambda s: s.kind == 'ret')
    c.floor(n, 4, 'paths of a view', 'view')

    # what a view is given later
    for suffix, path in (('View::fonts', ('fonts',)), ('View::pipe', ('model', 'transformers'))):
        fn = c.find(suffix)
        segs = fn and c.run(fn)
        if not segs:
            continue
        ps = c.params(fn)

        def given_later(k):
            v = k.simp(k.seg.value)
            got, before = v, ps[0]
            for p in path:
                got, before = T.field(got, p), T.field(before, p)
            k.require_same(got, ps[1] if len(ps) == 2 else ('m', 'insert', before, (ps[1], ps[2])), f'the {path[-1]} of a view')
            for p in ('tree', 'root', 'body', 'css', 'resources', 'identified', 'fonts'):
                if p != path[0]:
                    k.require_same(T.field(v, p), T.field(ps[0], p), f'the {p} of a view')
            for p in ('bindings', 'model', 'model_array_default', 'transformers'):
                if p != path[-1]:
                    k.require_same(T.field(T.field(v, 'model'), p), T.field(T.field(ps[0], 'model'), p), f'the {p} of a view')
        calm(c, segs, fn)
        n = c.compare(segs, given_later, 'given', fn, lambda s: s.kind == 'ret')
        c.floor(n, 1, f'paths of {suffix}', suffix)
    duration(c, name, over_, [html_, css_])


def duration(c, name, over_, opaque):
    """The transformer every view begins with."""
    fn = c.find('default_transformers::duration')
    if not fn:
        return
    segs = c.run(fn)
    if segs is None:
        return
    value = c.params(fn)[0]

    def oracle(k):
        v = k.simp(k.seg.value)
        if not k.is_(value, 'Number'):
            k.require_same(v, value, 'what is no number')
            return
        secs = ('op', 'as_f64', v0(value, 'Number'))
        if not k.some(secs):
            k.require_same(v, value, 'a number without seconds')
            return
        d = ('op', 'duration_try_from_secs_f64', v0(secs, 'Some'))
        if not k.is_(d, 'Ok'):
            k.require_same(v, value, 'a number that is no duration')
            return
        if not k.is_(v, 'String'):
            raise Mismatch(f'a duration is {pp(v)}')
        k.require_same(v0(v, 'String'), T.strcat([('fmtdbg', v0(d, 'Ok'))]), 'a duration')
    calm(c, segs, fn)
    n = c.compare(segs, oracle, 'duration', fn, lambda s: s.kind == 'ret')
    c.floor(n, 3, 'paths of a duration', 'duration')


# ------------------------------------------------------------------ C29 every bound path is one of the data
@prop('C29')
def schema(c):
    """The values bound to are those of the names and the path, and have a place in the data, with all that is there already."""
    pointer, index, field_, define = (c.find(x) for x in ('Binder::to_json_pointer', 'Schema::index', 'Schema::field', 'Schema::define_value'))
    if not (pointer and index and field_ and define):
        return
    segs = c.run(pointer)
    if segs is not None:
        me, names = c.params(pointer)
        path = T.field(me, 'path')
        first = T.index(path, cint(0))
        rest = ('slice', path, cint(1), ('len', path))

        def written(k):
            known = ('get', names, first)
            head = [v0(known, 'Some')] if k.some(known) else [cstr('/'), first]
            many = k.facts.get(T.length(path), ('ne', frozenset()))
            if many == ('eq', cint(0)):
                k.infeasible()
            if many[0] == 'ne':
                k.facts[T.length(path)] = ('ne', many[1] | {cint(0)})
            more = not k.eq(T.length(path), cint(1))
            got = k.simp(k.seg.value)
            want = T.strcat(head + [cstr('/'), ('op', 'join', rest, cstr('/'))]) if more else T.strcat(head)
            if got[0] == 'lv' and over(k, got[1]) and rest in k.seg.doms.get(got[1], ()):
                # name by name
                begin = k.seg.inits[got[1]].get(got[2])
                if begin is None or not k.same(T.strcat([begin]), T.strcat(head)):
                    raise Mismatch(f'the path of a binder begins with {begin and pp(begin)} instead of {pp(T.strcat(head))}')
            elif not k.same(got, want) and not (not more and len(head) == 1 and k.same(got, head[0])):
                raise Mismatch(f'the path of a binder is {pp(got)} instead of {pp(want)}')

        def name_(k):
            s = k.seg
            if s.dom != rest:
                raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
            grown = {a: v for a, v in s.updates.items() if v != ('lv', 'K', a)}
            (a, v), = grown.items() if len(grown) == 1 else [(None, None)]
            if a is None or v != T.strcat([('lv', 'K', a), cstr('/'), el(rest)]):
                raise Mismatch(f'a name is not added to the path: {[pp(x) for x in grown.values()]}')
        # a binder always has a name (C26), so the first one is there
        n = c.compare(segs, written, 'path', pointer, lambda s: s.kind == 'ret')
        n += c.compare(segs, name_, 'rest', pointer, lambda s: s.kind == 'back')
        c.floor(n, 3, 'paths of a binder', 'path')

    for fn, item in ((field_, False), (index, True)):
        segs = c.run(fn, opaque=[pointer, define])
        if segs is None:
            continue
        ps = c.params(fn)

        def known(k, ps=ps, item=item, fn=fn):
            s = k.seg
            p = ('call', pointer, (ps[1], ps[-1]))
            if item:
                p = T.strcat([p, cstr('/'), T.disp(ps[2])])
            if not k.same(k.simp(s.value), p) and not k.same(T.strcat([k.simp(s.value)]), p):
                raise Mismatch(f'the path of a value is {pp(k.simp(s.value))} instead of {pp(p)}')
            ds = [e for e in s.all_events if e[0] == 'call' and e[1] == define]
            if len(ds) != 1:
                raise Mismatch(f'a bound value is defined {len(ds)} times')
            k.require_same(ds[0][2][0], T.field(ps[0], 'value'), 'the data a value is defined in')
            if not k.same(T.strcat([k.simp(ds[0][2][1])]), T.strcat([p])):
                raise Mismatch(f'the value which is defined is {pp(k.simp(ds[0][2][1]))}')
            if any(e[0] in ('w', 'mut') and mentions_sym(e[1], ps[0]) for e in s.all_events):
                raise Mismatch('the data are changed besides')
        calm(c, segs, fn)
        n = c.compare(segs, known, 'value', fn, lambda s: s.kind == 'ret')
        c.floor(n, 1, f'paths of {short_name(fn)}', short_name(fn))

    segs = c.run(define)
    if segs is None:
        return
    target, text = c.params(define)
    split = ('op', 'str_split', text, cstr('/'))
    doms = (('skip', split, cint(1)), ('slice', split, cint(1), ('len', split)))

    def step(k):
        s = k.seg
        if s.dom not in doms:
            raise Mismatch(f'the names of a path are {pp(s.dom)}')
        x = el(s.dom)
        moved = [n[1:] for n in s.updates if n[0] == '&' and s.inits['K'].get(n[1:]) == target]
        t = only(moved, 'the place of a name')
        at = ('lv', 'K', t)
        to = s.updates['&' + t]
        ws = [e for e in s.events if e[0] == 'w' and root(e[1]) == at]
        ms = [e for e in s.events if e[0] == 'mut' and root(e[1]) == at]
        number = ('op', 'str_parse', x, cstr('usize'))
        kind = 'Array' if k.is_(number, 'Ok') else 'Object'
        was = k.is_(at, kind)
        inner_ = v0(at, kind)
        empty = ('arr', ()) if kind == 'Array' else ('emap',)
        if was and ws:
            raise Mismatch(f'what is defined already is replaced by {pp(ws[0][2])}')
        if not was:
            if len(ws) != 1 or ws[0][1] != at or not k.is_(ws[0][2], kind) or k.simp(v0(ws[0][2], kind)) != empty:
                raise Mismatch(f'the value above a name is not made one that has names: {[pp(e[2]) for e in ws]}')
        if any(e[1] != inner_ for e in ms):
            raise Mismatch(f'{pp(ms[0][1])} is changed besides')
        if kind == 'Array':
            i = v0(number, 'Ok')
            have = ('len', inner_) if was else cint(0)
            grows = not k.ask(T.op('lt', i, have))
            if not grows and ms:
                raise Mismatch('a list that is long enough is changed')
            if grows:
                m = only(ms, 'the growth of a list')
                if m[2] != 'resize' or not k.same(m[3][0], T.op('add', i, cint(1))) or not k.is_(m[3][1], 'Null'):
                    raise Mismatch(f'a list grows by {m[2]} of {[pp(a) for a in m[3]]}')
            k.require_same(to, T.index(inner_, i), 'the place of an item')
            return
        there = was and k.some(('get', inner_, x))
        if there:
            if ms:
                raise Mismatch('a name that is there already is changed')
            k.require_same(to, v0(('get', inner_, x), 'Some'), 'the place of a name')
            return
        m = only(ms, 'the definition of a name')
        if m[2] not in ('insert', 'entry') or not k.same(m[3][0], x) or not k.is_(m[3][1], 'Null'):
            raise Mismatch(f'a name is defined by {m[2]} of {[pp(a) for a in m[3]]}')
        if to not in (('slot', inner_, x), v0(('get', inner_, x), 'Some')) and to[:2] != ('place', 'H') and not k.is_(to, 'Null'):
            raise Mismatch(f'the place of a new name is {pp(to)}')

    def whole(k):
        s = k.seg
        if k.eq(text, cstr('/this')):
            if any(e[0] in ('w', 'mut') for e in s.all_events):
                raise Mismatch('the data itself is given a name')
            return
        done = [e[1] for e in s.all_events if e[0] == 'exit' and set(s.doms.get(e[1], ())) & set(doms)]
        if len(done) != 1:
            raise Mismatch('not all names of a path are defined')
        if any(e[0] in ('w', 'mut') and root(e[1])[0] != 'lv' for e in s.all_events):
            raise Mismatch('the data are changed besides')
    calm(c, segs, define)
    n = c.compare(segs, step, 'name', define, lambda s: s.kind == 'back')
    c.floor(n, 4, 'paths of a name', 'name')
    n = c.compare(segs, whole, 'data', define, lambda s: s.kind == 'ret')
    c.floor(n, 1, 'paths of a path', 'data')


def root(t):
    while t[0] in ('f', 'slot', 'vf', 'index', 'idx') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def mentions_sym(t, x):
    return any(y == x for y in iter_terms(t))


# ------------------------------------------------------------------ C30 what goes through unchanged
@prop('C30')
def host(c):
    """What the host gives and reads is what it is named after, of the place it is asked for."""
    fragment, element, input_ = 'Fragment', 'Element', 'Input'
    TREE_ = lambda x: T.field(x, 'tree')

    def rule(suffix, oracle, floor=1, must=True, opaque=()):
        fn = c.find(suffix, must=must)
        if not fn:
            return
        segs = c.run(fn, opaque=opaque)
        if segs is None:
            return
        ps = c.params(fn)
        n = c.compare(segs, lambda k: oracle(k, *ps), short_name(fn), fn, lambda s: s.kind == 'ret')
        c.floor(n, floor, f'paths of {short_name(fn)}', suffix)
        calm_ = [s for s in segs if s.kind == 'back']
        return fn, segs, ps

    value = lambda k: k.simp(k.seg.value)

    def quiet(k):
        es = [e for e in k.seg.all_events if e[0] in ('w', 'mut') and root(e[1])[0] != 'place']
        if es:
            raise Mismatch(f'{pp(es[0][1])} is changed')

    # the shown elements
    def piece(k, v, node, tree):
        k.require_same(T.field(v, 'element'), ('ctx', node), 'the element of a fragment')
        k.require_same(T.field(v, 'tree'), tree, 'the tree of a fragment')

    def body(k, me):
        quiet(k)
        piece(k, value(k), T.field(me, 'body'), TREE_(me))

    def children(k, me):
        quiet(k)
        dom = ('children', cint(0), T.field(T.field(me, 'element'), 'node'))
        v = value(k)
        if v[0] == 'collect' and v[1] == dom:
            piece(k, T.subst(v[3], {('elem', dom, v[2]): el(dom)}), el(dom), TREE_(me))
        elif not list_of(k, v, dom):
            raise Mismatch(f'the children of a fragment are {pp(v)}')
    rule('View::body', body)
    r = rule('Fragment::children', children)
    if r:
        fn, segs, (me,) = r
        dom = ('children', cint(0), T.field(T.field(me, 'element'), 'node'))

        def each(k):
            s = k.seg
            if s.dom != dom:
                raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
            new = [e[1] for e in s.events if e[0] == 'collect'] + [e[3][0] for e in s.events if e[0] == 'mut' and e[2] == 'push']
            piece(k, only(new, 'a child of a fragment'), el(dom), TREE_(me))
        c.compare(segs, each, 'child', fn, lambda s: s.kind == 'back')
    rule('Fragment::deref', lambda k, me: k.require_same(value(k), T.field(me, 'element'), 'the element of a fragment'), must=False)

    def by_id(k, me, name):
        quiet(k)
        known = ('get', T.field(me, 'identified'), name)
        v = value(k)
        if not k.some(known):
            k.require_same(v, NONE, 'an element without that id')
            return
        node = v0(known, 'Some')
        if not k.some(('hasctx', node)):
            k.require_same(v, NONE, 'an element which is no more')
            return
        if not k.is_(v, 'Some'):
            raise Mismatch('the element of an id is not found')
        k.require_same(v0(v, 'Some'), ('ctx', node), 'the element of an id')
    rule('View::get_element_by_id', by_id, 2)

    # elements
    def attr(key):
        def oracle(k, me):
            quiet(k)
            got, want = value(k), ('get', T.field(me, 'attrs'), cstr(key))
            if not k.same(got, want):
                if k.some(want) != k.is_(got, 'Some') or k.is_(got, 'Some') and not k.same(v0(got, 'Some'), v0(want, 'Some')):
                    raise Mismatch(f'the {key} of an element is {pp(got)}')
        return oracle
    rule('Element::value', attr('value'))

    def resolve(k, me, base):
        v = value(k)
        if k.is_(me, 'Number'):
            k.require_same(v, v0(me, 'Number'), 'a length')
        else:
            k.require_same(v, T.op('mul', v0(me, 'Percent'), base), 'a part of a length')
    rule('Length::resolve', resolve, 2)
    for fn, kind in (('px', 'Number'), ('percent', 'Percent')):
        def made(k, x, kind=kind):
            v = value(k)
            if not k.is_(v, kind):
                raise Mismatch(f'a length is {pp(v)}')
            k.require_same(v0(v, kind), x, 'a length')
        rule(f'Length::{fn}', made)

    def zero(k):
        v = value(k)
        if not k.is_(v, 'Number') or v0(v, 'Number') != cflt(0.0):
            raise Mismatch(f'the length of nothing is {pp(v)}')
    rule('Length::zero', zero)

    def moved(k, *ps):
        v = value(k)
        if not k.is_(v, 'Translate'):
            raise Mismatch(f'a translation is {pp(v)}')
        for p, x in zip('xyz', ps):
            k.require_same(v0(v, 'Translate', p), x, f'the {p} of a translation')
    rule('TransformFunction::translate', moved)
    for side in ('top', 'right', 'bottom', 'left'):
        def border(k, me, side=side):
            b = T.field(me, side)
            v = value(k)
            if k.ask(T.op('lt', cflt(0.0), T.field(b, 'width'))):
                if not k.is_(v, 'Some'):
                    raise Mismatch(f'the border at the {side} is not there')
                k.require_same(v0(v, 'Some'), b, f'the border at the {side}')
            else:
                k.require_same(v, NONE, f'the border at the {side} without width')
        rule(f'Borders::{side}', border, 2)

    def described(k, me):
        v = value(k)
        k.require_same(T.field(v, '0'), T.field(me, 'name'), 'the name of a function')
        k.require_same(T.field(v, '1'), T.field(me, 'arguments'), 'the arguments of a function')
    rule('Function::describe', described)

    # texts
    def part(k, me, i, text):
        s = k.seg
        spans = T.field(me, 'spans')
        es = [e for e in s.all_events if e[0] in ('w', 'mut')]
        if k.ask(T.op('lt', i, ('len', spans))):
            e = only(es, 'a part of a text')
            if e[0] != 'w' or e[1] != T.index(spans, i):
                raise Mismatch(f'{pp(e[1])} is the part of a text which is set')
            k.require_same(e[2], text, 'the part of a text')
        elif es:
            raise Mismatch('a part of a text which is none changes it')
    rule('TextContent::set', part, 2)
    rule('TextContent::to_string', lambda k, me: k.require_same(value(k), ('op', 'join', T.field(me, 'spans'), cstr('')), 'the text of all parts'))
    rule('TextContent::new', lambda k, spans: k.require_same(T.field(value(k), 'spans'), spans, 'the parts of a text'))
    rule('FakeTranslator::translate', lambda k, me, text: k.require_same(value(k), text, 'a text that is not translated'), must=False)

    # the input
    fields = ('time', 'viewport', 'events')
    for name, grows in (('time', None), ('viewport', None), ('events', None), ('event', 'events')):
        def set_(k, me, x, name=name, grows=grows):
            v = value(k)
            for p in fields:
                want = T.field(me, p)
                if p == (grows or name):
                    want = ('m', 'push', want, (x,)) if grows else x
                k.require_same(T.field(v, p), want, f'the {p} of an input')
        rule(f'Input::{name}', set_)

    def fresh(k):
        v = value(k)
        k.require_same(T.field(v, 'events'), ('arr', ()), 'the events of a new input')
        k.require_same(T.field(v, 'viewport'), ('arr', (cflt(800.0), cflt(600.0))), 'the viewport of a new input')
        t = T.field(v, 'time')
        if t[0] == 'op' and t[1].startswith('duration_from') and t[2] == cint(0) or t == ('opaque', 'std::time::Duration::ZERO'):
            return
        raise Mismatch(f'the time of a new input is {pp(t)}')
    rule('Input::new', fresh)

    # errors
    n = 0
    for fn, x in c.F['fns'].items():
        if 'error::ViewError as std::convert::From<' not in fn or not fn.endswith('::from'):
            continue
        n += 1
        kind = {'taffy::TaffyError': 'Layout', 'html::reader::ReaderError': 'Html', 'css::reader::ReaderError': 'Css', 'std::io::Error': 'Io'}.get(
            fn.split('From<', 1)[1].rsplit('>>::', 1)[0])
        if kind is None:
            continue

        def error(k, x, kind=kind):
            v = value(k)
            if not k.is_(v, kind):
                raise Mismatch(f'the error is {pp(v)}')
            k.require_same(v0(v, kind), x, 'the error')
        rule(fn, error)
    c.floor(n, 3, 'errors of other parts', 'errors')
    serialised(c)


def serialised(c):
    """The data of an event are written under the names of their fields."""
    types = {'MouseEvent', 'KeyboardEvent', 'TextEvent', 'EventTarget', 'ElementState', 'Keys', 'MouseButtons'}
    n = 0
    for fn in sorted(c.F['fns']):
        if 'impl serde::Serialize for ' not in fn or not fn.endswith('>::serialize'):
            continue
        path = fn.split('impl serde::Serialize for ', 1)[1].rsplit('>::', 1)[0]
        if path.rsplit('::', 1)[-1] not in types:
            continue
        types.discard(path.rsplit('::', 1)[-1])
        info = c.F['adts'].get(path)
        segs = c.run(fn)
        if segs is None or info is None:
            continue
        me, to = c.params(fn)
        kinds = info['variants']

        def enum(k):
            kind = k.variant(me, [v['name'] for v in kinds])
            e = only([e for e in k.seg.all_events if e[0] == 'call' and 'serialize' in e[1]], 'what is written')
            if not e[1].endswith('serialize_unit_variant') or e[2][-1] != cstr(kind):
                raise Mismatch(f'{kind} is written as {pp(e[2][-1])}')

        def struct(k):
            es = [e for e in k.seg.all_events if e[0] == 'call' and e[1].endswith('::serialize_field')]
            want = [x[0] for x in kinds[0]['fields']]
            for e, w in zip(es, want):
                if e[2][1] != cstr(w):
                    raise Mismatch(f'the field {w} is written as {pp(e[2][1])}')
                k.require_same(e[2][2], T.field(me, w), f'the field {w}')
            done = any(e[0] == 'call' and e[1].endswith('::end') for e in k.seg.all_events)
            if done and len(es) != len(want):
                raise Mismatch('not all fields are written')
            if not done and not k.is_(k.simp(k.seg.value), 'Err'):
                raise Mismatch('the writing does not end')
        n += c.compare(segs, enum if len(kinds) > 1 else struct, short_name(path), fn, lambda s: s.kind == 'ret')
    c.obligation(not types, 'written', f'no function writes {sorted(types)}', 'serialize')
    c.floor(n, 20, 'paths of what is written', 'serialize')
