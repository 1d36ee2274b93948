"""The reader of documents: from the parse tree to the model of a document."""
from rules_read import *

HTML = 'html::reader::Rule'
CONTENT = {'Element', 'Text', 'Void', 'Script'}


def reads(k, v, dom, each, what):
    """A list with exactly one element for each of `dom`, in order; what is collected directly is checked by `each`."""
    if v == ('arr', ()) and k.eq(('len', dom), cint(0)):
        return      # nothing is written
    if v[0] == 'collect' and v[1] == dom:
        each(k, T.subst(v[3], {('elem', dom, v[2]): el(dom)}))
    elif not (v[0] == 'collect*' and v[1] == dom or v[0] == 'lv' and list_of(k, v, dom)):
        raise Mismatch(f'{what} are {pp(v)}, not all that are written in their order')


def built(k, v, dom):
    return v[0] in ('collect*',) and v[1] == dom or v[0] == 'lv' and list_of(k, v, dom)


def becomes(k, v, variant, what):
    if not k.is_(v, variant):
        raise Mismatch(f'{what} is read as {pp(v)} instead of {variant}')


def truth(k, t, want, what):
    if k.ask(t) != want:
        raise Mismatch(f'{what} is {"not " if want else ""}{pp(t)}')


def html_roots(c):
    return sheet_roots(c, ('read_html',), HTML)


def reader(c, name, given, opaque):
    """(paths of a reader, its pair, the trees)"""
    segs = c.run(name, opaque=opaque)
    if segs is None:
        return None
    par = c.params(name)[0]
    tr = Tree(c, HTML, html_roots(c), {par: given})
    return [flatten(s) for s in tr.live(segs)], par, tr


@prop('C23')
def document_read(c):
    """The document is its first element, read as the last content of nothing."""
    name, content = c.find('read_html'), c.find('parse_content')
    if not (name and content):
        return
    segs = c.run(name, opaque=[content])
    if segs is None:
        return
    find = parsed(c, HTML, 'Document', c.params(name)[0])
    tr = Tree(c, HTML, html_roots(c))

    def ret(k):
        p = find(k.seg)
        v = k.simp(k.seg.value)
        if k.is_(p, 'Err'):
            if not k.is_(v, 'Err'):
                raise Mismatch('a text that cannot be parsed is no error')
            return
        if not tr.g.rules or not k.is_(v, 'Ok'):
            raise Mismatch('a text that can be parsed is an error')
        k.require_same(v0(v, 'Ok'), ('call', content, (('elem', v0(p, 'Ok'), 0), TRUE)), 'the document')
    n = c.compare(tr.live(segs), ret, 'document', name)
    c.floor(n, 2, 'paths of a document', 'document')


@prop('C23')
def content_read(c):
    """Elements, texts and their places."""
    name, binder, attrs = c.find('parse_content'), c.find('parse_binder'), c.find('parse_element_bindings')
    if not (name and binder and attrs):
        return
    r = reader(c, name, CONTENT, [name, binder, attrs])
    if r is None:
        return
    segs, par, tr = r
    last = c.params(name)[1]
    seen = set()
    # what the spans of a text are made from: the pairs, or a list with an element for each
    stage = {v[1] if v[0].startswith('collect') else next(iter(s.doms.get(v[1], ())), None)
             for s in segs if s.kind == 'ret' for v in spans_of(s) if v[0] in ('lv', 'collect*', 'collect')}
    second = [d for d in stage if d != ('inner', par)]

    def child(k, v):
        if v[0] != 'call' or v[1] != name:
            raise Mismatch(f'a child is {pp(v)}')
        dom = ('inner', v[2][0][1][1]) if v[2][0][0] == 'elem' and v[2][0][1][0] == 'inner' else None
        k.require_same(v[2][0], el(dom), 'the child')
        n, at = ('len', dom), T.op('add', ('idx', dom, 'K'), cint(1))
        last = k.eq(n, at)
        if last == k.ask(T.op('lt', at, n)):
            k.infeasible()      # a position is below the length
        truth(k, v[2][1], last, 'whether a child is the last one')

    def back(k):
        s = k.seg
        r = tr.rule(k, par)
        seen.add(r)
        d = s.dom
        if r == 'Element' and d == ('inner', kid(par, 2)):
            child(k, only(appended(s, 'children'), 'a child'))
        elif r == 'Text' and d in second:
            element(k, s, el(d), False)
        elif r == 'Text' and d == ('inner', par) and second:
            # the first of two stages: one element for each pair
            x = el(d)
            v = only(appended(s, 'parts'), 'a part of a text')
            if tr.rule(k, x) == 'Binder':
                becomes(k, v, 'Binder', 'a part of a text')
                k.require_same(v0(v, 'Binder'), ('call', binder, (x,)), 'a bound part of a text')
            else:
                becomes(k, v, 'String', 'a part of a text')
                k.require_same(v0(v, 'String'), ('text', x), 'a part of a text')
        elif r == 'Text' and d == ('inner', par):
            element(k, s, el(d), True)
        elif r == 'Text' and (d[0] == 'op' and d[1] == 'str_split' or d[0] == 'skip' and d[1][0] == 'op' and d[1][1] == 'str_split'):
            line(k, s, d)
        elif r in ('Element', 'Void') and d == ('call', attrs, (kid(par, 1),)):
            return   # what it leads to is seen in the element
        else:
            raise Mismatch(f'an unexpected loop over {pp(d)}')

    def string_of(k, x):
        """The text of a part, or None if it is bound."""
        if x[0] == 'elem' and x[1] == ('inner', par):
            return ('text', x) if tr.rule(k, x) == 'String' else None
        return v0(x, 'String') if k.is_(x, 'String') else None

    def element(k, s, x, direct):
        new = appended(s, 'parts')
        text = string_of(k, x)
        if text is None:
            v = only(new, 'a bound part of a text')
            becomes(k, v, 'Binder', 'a bound part of a text')
            k.require_same(v0(v, 'Binder'), ('call', binder, (x,)) if direct else v0(x, 'Binder'), 'a bound part of a text')
            return
        split = ('op', 'str_split', text, cstr('\n'))
        done = [('lv', e[1], n) for e in s.all_events if e[0] == 'exit' for n, i in s.inits.get(e[1], {}).items()
                if split in s.doms.get(e[1], ()) and i == cstr('')
                or ('skip', split, cint(1)) in s.doms.get(e[1], ()) and i in (('elem', split, 0), ('elem', split, '0'))]
        t = only(done, 'the lines of a text')
        if k.eq(('len', t), cint(0)):
            if new:
                raise Mismatch('an empty part of a text is kept')
            return
        v = only(new, 'a part of a text')
        becomes(k, v, 'String', 'a part of a text')
        k.require_same(v0(v, 'String'), t, 'the lines of a text')

    def line(k, s, d):
        inits = s.inits.get('K', {})
        n = only(list(inits), 'the lines of a text')
        acc = ('lv', 'K', n)
        x = el(d)
        got = s.updates.get(n, acc)
        if d[0] != 'skip' and k.eq(('idx', d, 'K'), cint(0)):
            k.require_same(got, T.strcat([acc, x]), 'the first line of a text')
            return
        y = ('op', 'str_trim_start', x)
        if k.eq(('len', y), cint(0)):
            if k.ask(last):
                if got != acc:
                    raise Mismatch('an empty line at the end of the content is kept')
                return
            if not k.same(got, T.strcat([acc, cstr(' ')])):
                k.require_same(got, T.strcat([acc, cstr(' '), y]), 'an empty line of a text')
            return
        k.require_same(got, T.strcat([acc, cstr(' '), y]), 'a line of a text')

    def ret(k):
        r = tr.rule(k, par)
        seen.add(r)
        v = k.simp(k.seg.value)
        get = lambda n: k.simp(T.field(v, n))
        none = lambda n: k.require_same(get(n), ('arr', ()), f'the {n} of the kind {r}')
        if r == 'Text':
            k.require_same(get('tag'), cstr(''), 'the tag of a text')
            none('bindings')
            none('children')
            if not k.is_(get('text'), 'Some'):
                raise Mismatch('a text has no text')
            p = T.field(v0(get('text'), 'Some'), 'spans')
            d = second[0] if second else ('inner', par)
            if second and not (len(second) == 1 and built(k, d, ('inner', par))):
                raise Mismatch(f'the parts of a text are made from {[pp(x) for x in second]}')
            if not built(k, p, d):
                raise Mismatch(f'the parts of a text are {pp(p)}, not all that are written in their order')
            return
        if not k.is_(get('text'), 'None'):
            raise Mismatch('what is no text has a text')
        if r == 'Script':
            k.require_same(get('tag'), cstr('script'), 'the tag of a script')
            none('bindings')
            none('children')
            return
        k.require_same(get('tag'), ('text', kid(par, 0)), 'the tag of an element')
        k.require_same(get('bindings'), ('call', attrs, (kid(par, 1),)), 'the attributes of an element')
        if r == 'Void':
            none('children')
        else:
            reads(k, get('children'), ('inner', kid(par, 2)), child, 'the children of an element')
    n = c.compare(segs, back, 'content', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'content', name, lambda s: s.kind == 'ret')
    c.floor(n, 12, 'paths of content', 'content')
    c.floor(len(seen), 4, 'kinds of content', 'kinds')


def spans_of(s):
    t = T.field(s.value, 'text')
    if T.variant_of(t) == 'Some':
        yield T.field(v0(t, 'Some'), 'spans')


@prop('C23')
def binder_read(c):
    """A binder is its path and the names of its transformers."""
    name = c.find('parse_binder')
    if not name:
        return
    r = reader(c, name, {'Binder'}, [])
    if r is None:
        return
    segs, par, tr = r
    dom = ('inner', par)
    first = kid(par, 0)

    def key(k, v):
        d = v[1][1][1] if v[0] == 'text' and v[1][0] == 'elem' and v[1][1][0] == 'inner' else None
        if v != ('text', el(('inner', d))):
            raise Mismatch(f'a part of a path is {pp(v)}')

    def transformer(k, v, x):
        t = ('text', x)
        if v not in (('op', 'str_trim', t), ('op', 'str_trim_end', t)):
            raise Mismatch(f'the name of a transformer is {pp(v)} instead of its text without white space around')

    def back(k):
        s = k.seg
        x = el(s.dom)
        if s.dom == ('skip', dom, cint(1)):
            transformer(k, only(appended(s, 'pipe'), 'a transformer'), x)
        elif s.dom == dom:
            if tr.rule(k, x) == 'Transformer':
                new = appended(s, 'pipe')
                transformer(k, only(new, 'a transformer'), x)
                paths = [n for n, i in s.inits['K'].items() if s.updates.get(n, ('lv', 'K', n)) != ('lv', 'K', n)]
                if len(paths) != 1:
                    raise Mismatch(f'a transformer changes {paths}')
            else:
                new = appended(s, 'path')
                ups = {n: v for n, v in s.updates.items() if n in s.inits['K'] and v != ('lv', 'K', n)}
                v = only(list(ups.values()), 'the path')
                n = only(list(ups), 'the path')
                own = [e for e in s.events if e[0] == 'mut']
                if len(own) == 1 and own[0][2] == 'extend':
                    v = own[0][3][0]
                elif own:
                    raise Mismatch('the path of a binder is built in an unexpected way')
                if not (v[0] == 'lv' and over(k, v[1]) and ('inner', x) in s.doms.get(v[1], ()) and s.inits.get(v[1], {}).get(v[2]) == ('lv', 'K', n)):
                    reads(k, v, ('inner', x), key, 'the parts of a path')
        elif s.dom in (('inner', el(dom)), ('inner', first)) or s.dom[0] == 'inner' and s.dom[1][0] == 'elem' and s.dom[1][1] == dom:
            v = only(appended(s, 'path'), 'a part of a path')
            key(k, v)
        else:
            raise Mismatch(f'an unexpected loop over {pp(s.dom)}')

    def ret(k):
        v = k.simp(k.seg.value)
        path, pipe = T.field(v, 'path'), T.field(v, 'pipe')
        if path[0] == 'lv' and dom in k.seg.doms.get(path[1], ()):
            if not (list_of(k, path, dom) and list_of(k, pipe, dom) and path != pipe):
                raise Mismatch('the path or transformers of a binder are not all that are written')
        else:
            reads(k, path, ('inner', first), key, 'the parts of a path')
            tail = ('skip', dom, cint(1))
            reads(k, pipe, tail, lambda k, v: transformer(k, v, el(tail)), 'the transformers of a binder')
    n = c.compare(segs, back, 'binder', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'binder', name, lambda s: s.kind == 'ret')
    c.floor(n, 1, 'paths of a binder', 'binder')


@prop('C23')
def attributes_read(c):
    """Every attribute of an element is kept in order as the binding it is written as."""
    name, binder = c.find('parse_element_bindings'), c.find('parse_binder')
    if not (name and binder):
        return
    r = reader(c, name, {'Attributes'}, [binder])
    if r is None:
        return
    segs, par, tr = r
    outer = ('inner', par)
    seen = set()

    def rest(x):
        return ('skip', ('inner', x), cint(1))

    def span(k, v, x):
        if tr.rule(k, x) == 'Binder':
            becomes(k, v, 'Binder', 'a part of an attribute')
            k.require_same(v0(v, 'Binder'), ('call', binder, (x,)), 'a bound part of an attribute')
        else:
            becomes(k, v, 'String', 'a part of an attribute')
            k.require_same(v0(v, 'String'), ('text', x), 'a part of an attribute')

    def argument(k, v, x):
        r = tr.rule(k, x)
        becomes(k, v, {'Key': 'Keyword'}.get(r, r), 'an argument of a callback')
        if r != 'Event':
            k.require_same(v0(v, {'Key': 'Keyword'}.get(r, r)), ('text', x) if r == 'Key' else ('call', binder, (x,)), 'an argument of a callback')

    def back(k):
        s = k.seg
        if s.dom != outer:
            if s.dom[0] != 'skip' or s.dom[1][0] != 'inner' or s.dom[1][1][0] != 'elem' or s.dom[1][1][1] != outer or s.dom[2] != cint(1):
                raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
            x = s.dom[1][1]
            r = tr.rule(k, x)
            v = only(appended(s, 'parts'), 'a part of an attribute')
            {'AttributeBinding': span, 'CallbackBinding': argument}.get(r, lambda *a: bad(r))(k, v, el(s.dom))
            return
        x = el(outer)
        r = tr.rule(k, x)
        seen.add(r)
        kind = r[:-7] if r.endswith('Binding') else 'None'
        v = only(appended(s, 'bindings'), 'an attribute')
        becomes(k, v, kind, f'an attribute of the kind {r}')
        part = lambda n: k.simp(T.field(T.as_variant(v, kind), str(n)))
        text = ('text', kid(x, 0))
        bound = lambda n, i: k.require_same(part(n), ('call', binder, (kid(x, i),)), f'what an attribute of the kind {r} is bound to')
        if kind == 'Visibility':
            want = k.eq(text, cstr('?'))
            if not want:
                k.eq(text, cstr('!'))
            tr.check(k)
            truth(k, part(0), want, 'whether an element is shown')
            bound(1, 1)
            return
        k.require_same(part(0), text, f'the name of an attribute of the kind {r}')
        if kind == 'None':
            k.require_same(part(1), cstr('') if r == 'Empty' else ('text', kid(x, 1)), f'the value of an attribute of the kind {r}')
        elif kind in ('Alias', 'Tag'):
            bound(1, 1)
        elif kind == 'Repeat':
            t = ('op', 'str_parse', ('text', kid(x, 1)), cstr('usize'))
            k.require_same(part(1), v0(t, 'Ok') if k.is_(t, 'Ok') else cint(0), 'the count of a repeat')
            bound(2, 2)
        elif kind == 'Attribute':
            reads(k, T.field(part(1), 'spans'), rest(x), lambda k, v: span(k, v, el(rest(x))), 'the parts of an attribute')
        elif kind == 'Callback':
            reads(k, part(1), rest(x), lambda k, v: argument(k, v, el(rest(x))), 'the arguments of a callback')
        else:
            bad(r)

    def bad(r):
        raise Mismatch(f'an attribute of the kind {r} is not known')

    def ret(k):
        if not built(k, k.seg.value, outer):
            raise Mismatch(f'the attributes are {pp(k.seg.value)}, not all that are written in their order')
    n = c.compare(segs, back, 'attribute', name, lambda s: s.kind == 'back')
    n += c.compare(segs, ret, 'attribute', name, lambda s: s.kind == 'ret')
    c.floor(n, 10, 'paths of an attribute', 'attribute')
    c.floor(len(seen), 9, 'kinds of attributes', 'kinds')


@prop('C23')
def first_binding(c):
    """The condition and the repetition of an element are its first ones."""
    for short_, kind, n in (('as_visibility', 'Visibility', 2), ('as_repeat', 'Repeat', 3)):
        name = c.find(f'Html::{short_}')
        if not name:
            continue
        segs = c.run(name)
        if segs is None:
            continue
        dom = T.field(c.params(name)[0], 'bindings')
        x = el(dom)

        def back(k):
            if k.seg.dom != dom or k.is_(x, kind):
                raise Mismatch(f'a binding of the kind {kind} is passed over')

        def ret(k):
            v = k.simp(k.seg.value)
            if over_all(k, dom):
                if not k.is_(v, 'None'):
                    raise Mismatch(f'without a binding of the kind {kind} there is {pp(v)}')
                return
            y = next((t for t in iter_terms([k.seg.facts, k.seg.value]) if t[0] == 'elem' and t[1] == dom), x)
            if not k.is_(y, kind) or not k.is_(v, 'Some'):
                raise Mismatch(f'{pp(v)} is taken for the binding of the kind {kind}')
            w = v0(v, 'Some')
            for i in range(n):
                k.require_same(T.field(w, str(i)), T.field(T.as_variant(y, kind), str(i)), f'part {i} of the binding')
        m = c.compare(segs, back, short_, name, lambda s: s.kind == 'back')
        m += c.compare(segs, ret, short_, name, lambda s: s.kind == 'ret')
        c.floor(m, 2, f'paths of {short_}', short_)


def over_all(k, dom):
    return any(e[0] == 'exit' and dom in k.seg.doms.get(e[1], ()) for e in k.seg.all_events)


@prop('C23')
def template_link(c):
    """A link with a href stands for the template of that name, with all other bindings."""
    name = c.find('Html::as_template_link')
    if name:
        segs = c.run(name)
        if segs is not None:
            me = c.params(name)[0]
            dom = T.field(me, 'bindings')
            x = el(dom)

            last = ('rev', dom)

            def href(k, x):
                return k.is_(x, 'None') and k.eq(v0(x, 'None'), cstr('href'))

            def back(k):
                s = k.seg
                if s.dom == last:
                    # a search of its own for the last link
                    if href(k, el(last)) or s.updates or appended(s, 'bindings'):
                        raise Mismatch('the search for the link of a template passes a link')
                    return
                if s.dom != dom:
                    raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
                new = appended(s, 'bindings')
                if any(b.dom == last for b in segs):
                    # the bindings are chosen on their own
                    if href(k, x):
                        if new:
                            raise Mismatch('the link of a template is one of its bindings')
                    else:
                        k.require_same(only(new, 'a binding'), x, 'a binding of a template')
                    return
                ids = {n: v for n, v in s.updates.items() if T.variant_of(s.inits['K'].get(n, ('c', 'x', 0))) == 'None'}
                if href(k, x):
                    if new:
                        raise Mismatch('the link of a template is one of its bindings')
                    v = only(list(ids.values()), 'the link')
                    k.require_same(v0(k.simp(v), 'Some') if k.is_(v, 'Some') else v, T.field(T.as_variant(x, 'None'), '1'), 'the link')
                    return
                k.require_same(only(new, 'a binding'), x, 'a binding of a template')
                if any(v != ('lv', 'K', n) for n, v in ids.items()):
                    raise Mismatch('another binding is taken for the link of a template')

            def ret(k):
                v = k.simp(k.seg.value)
                if not k.eq(T.field(me, 'tag'), cstr('link')):
                    if not k.is_(v, 'None'):
                        raise Mismatch('another element is taken for the link of a template')
                    return
                searches = [n for n, ds in k.seg.doms.items() if last in ds]
                if searches:
                    if any(('exit', n) in [e[:2] for e in k.seg.all_events] for n in searches):
                        if not k.is_(v, 'None'):
                            raise Mismatch('an element without link is taken for one')
                        return
                    y = ('elem', last, only(searches, 'the link'))
                    if not href(k, y):
                        raise Mismatch('another binding is taken for the link of a template')
                    w = v0(v, 'Some') if k.is_(v, 'Some') else None
                    if w is None:
                        raise Mismatch('the link of a template is not taken for one')
                    k.require_same(T.field(w, '0'), T.field(T.as_variant(y, 'None'), '1'), 'the name of a template')
                    if not built(k, T.field(w, '1'), dom):
                        raise Mismatch('the bindings of a template are not all of the link')
                    return
                ids = [('lv', e[1], n) for e in k.seg.all_events if e[0] == 'exit' and dom in k.seg.doms.get(e[1], ())
                       for n, i in k.seg.inits.get(e[1], {}).items() if T.variant_of(i) == 'None']
                i = only(ids, 'the link')
                if not k.some(i):
                    if not k.is_(v, 'None'):
                        raise Mismatch('an element without link is taken for one')
                    return
                if not k.is_(v, 'Some'):
                    raise Mismatch('the link of a template is not taken for one')
                w = v0(v, 'Some')
                k.require_same(T.field(w, '0'), v0(i, 'Some'), 'the name of a template')
                if not built(k, T.field(w, '1'), dom):
                    raise Mismatch('the bindings of a template are not all of the link')
            n = c.compare(segs, back, 'link', name, lambda s: s.kind == 'back')
            n += c.compare(segs, ret, 'link', name, lambda s: s.kind == 'ret')
            c.floor(n, 4, 'paths of a link', 'link')
    name = c.find('TextBinding::as_simple_text')
    if name:
        segs = c.run(name)
        if segs is None:
            return
        spans = T.field(c.params(name)[0], 'spans')

        def simple(k):
            v = k.simp(k.seg.value)
            y = next((t for t in iter_terms([k.seg.facts, k.seg.value]) if t in (T.index(spans, cint(0)), ('elem', spans, 0))), T.index(spans, cint(0)))
            if k.eq(('len', spans), cint(1)) and k.is_(y, 'String'):
                if not k.is_(v, 'Some'):
                    raise Mismatch('a text without binders is not simple')
                k.require_same(v0(v, 'Some'), v0(y, 'String'), 'a simple text')
            elif not k.is_(v, 'None'):
                raise Mismatch('a text with binders or without parts is simple')
        n = c.compare(segs, simple, 'simple', name)
        c.floor(n, 2, 'paths of a simple text', 'simple')
