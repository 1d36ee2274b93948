"""The renderer: from the model of a document to the tree of its elements, their bindings and the names they use."""
from rules_read import *

SELF = sym('self')
BINDINGS = f(SELF, 'bindings')
LOCALS = f(SELF, 'locals')
TEMPLATES = f(SELF, 'templates')
IDS = f(SELF, 'static_id')
SCHEMA = f(SELF, 'schema')
TREE = f(SELF, 'tree')
KINDS = ['None', 'Tag', 'Attribute', 'Callback', 'Alias', 'Repeat', 'Visibility']
VOID = ['input', 'area', 'base', 'br', 'col', 'command', 'embed', 'hr', 'keygen', 'link', 'meta', 'param', 'source', 'track', 'wbr']
FIELDS = ['attrs', 'attrs_bindings', 'listeners', 'style', 'style_hints.dynamic_attrs', 'style_hints.has_dynamic_classes', 'style_hints.has_dynamic_id']


def insert(m, *kv):
    return ('m', 'insert', m, kv)


def mine(s, root=SELF):
    """What one iteration does to the renderer, besides the tree."""
    return [e for e in s.events if e[0] in ('mut', 'w') and root_of(e[1]) == root]


def root_of(t):
    while t[0] in ('f', 'slot', 'vf', 'index') and len(t) > 1:
        t = t[1]
    return t


def added(s):
    """What one iteration adds to the list it builds."""
    out = []
    for e in s.events:
        if e[0] == 'collect':
            out.append(e[1])
        elif e[0] == 'mut' and e[2] == 'push' and root_of(e[1]) != SELF:
            out.append(e[3][0])
    return out


def calls(s, name):
    return [e for e in s.events if e[0] == 'call' and e[1] == name]


class Names:
    """The functions the renderer is made of."""

    def __init__(self, c):
        self.element = c.find('Renderer::render_element')
        self.node = c.find('Renderer::render_node')
        self.text = c.find('Renderer::render_text')
        self.field = c.find('Schema::field')
        self.index = c.find('Schema::index')
        self.create = c.find('create_element')
        self.layout = c.find('default_layout')
        self.simple = c.find('TextBinding::as_simple_text')
        self.link = c.find('Html::as_template_link')
        self.visible = c.find('Html::as_visibility')
        self.repeat = c.find('Html::as_repeat')
        self.inline = c.find('read_inline_css')
        self.ok = all(vars(self).values())
        self.img = c.find('Renderer::render_img', must=False)
        self.background = c.find('Renderer::render_bg_image', must=False)

    def opaque(self, top):
        return [n for n in vars(self).values() if isinstance(n, str) and n != top]


def shown(binder):
    """What a binder shows as long as nothing is bound."""
    path, pipe = T.field(binder, 'path'), T.field(binder, 'pipe')
    path = ('op', 'join', path, cstr('.'))
    return lambda k: T.strcat([cstr('{ '), path, cstr(' }')]) if k.eq(('len', pipe), cint(0)) else \
        T.strcat([cstr('{ '), path, cstr(' | '), ('op', 'join', pipe, cstr(' | ')), cstr(' }')])


def bound(k, s, n, binder, locals_, kind, parts, what):
    """The one binding registered in an iteration."""
    ms = [e for e in mine(s) if root_of(e[1]) == SELF and e[1][0] == 'slot' and e[1][1] == BINDINGS]
    if len(ms) != 1:
        raise Mismatch(f'{what} is registered {len(ms)} times')
    e = ms[0]
    k.require_same(e[1][2], ('call', n.field, (SCHEMA, binder, locals_)), f'the value {what} is bound to')
    if e[2] != 'push':
        raise Mismatch(f'{what} is registered by {e[2]}')
    b = e[3][0]
    p = k.simp(T.field(b, 'params'))
    if not k.is_(p, kind):
        raise Mismatch(f'{what} is registered as {pp(p)}')
    for i, v in enumerate(parts):
        k.require_same(v0(p, kind, str(i)), v, f'part {i} of the binding of {what}')
    k.require_same(T.field(b, 'pipe'), T.field(binder, 'pipe'), f'the transformers of {what}')


def unbound(s, what):
    for e in mine(s):
        if e[1][0] == 'slot' or e[1] in (BINDINGS, LOCALS, TEMPLATES):
            raise Mismatch(f'{what} changes {pp(e[1])}')


def all_of(k, v, dom):
    """A list with an element for each of dom."""
    v = k.simp(v)
    return v[0] == 'collect*' and v[1] == dom or list_of(k, v, dom)


@prop('C28')
def text_rendered(c):
    """A text is an element with all parts of the text, each binder registered for its part."""
    n = Names(c)
    if not n.ok:
        return
    segs = c.run(n.text, opaque=n.opaque(n.text))
    if segs is None:
        return
    spans = T.field(c.params(n.text)[1], 'spans')
    x = el(spans)
    nodes = {e[3][0] for s in segs for e in s.all_events if e[0] == 'mut' and e[2] == 'new_leaf'}

    def back(k):
        s = k.seg
        if s.dom != spans:
            raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
        v = only(added(s), 'a part of a text')
        if k.is_(x, 'String'):
            unbound(s, 'a text')
            tr = [e for e in s.events if e[0] == 'call' and short_name(e[1]) == 'translate']
            if len(tr) != 1 or tr[0][2][1] != v0(x, 'String') or v[:2] != ('call', tr[0][1]) or v[2] != tr[0][2]:
                raise Mismatch(f'a text is shown as {pp(v)} instead of its translation')
            return
        b = v0(x, 'Binder')
        bound(k, s, n, b, LOCALS, 'Text', [only(list(nodes), 'the node'), ('idx', spans, 'K')], 'a part of a text')
        k.require_same(v, shown(b)(k), 'what a text shows as long as nothing is bound')

    def ret(k):
        s = k.seg
        v = k.simp(s.value)
        if not k.is_(v, 'Ok'):
            raise Mismatch('a text cannot be rendered')
        node = v0(v, 'Ok')
        e = context(k, node)
        t = k.simp(T.field(e, 'text'))
        if not (k.is_(t, 'Some') and all_of(k, T.field(v0(t, 'Some'), 'spans'), spans)):
            raise Mismatch(f'the element of a text shows {pp(t)}')
        rest(k, e, ('call', n.create, (node,)), ['text'], 'the element of a text')
    m = c.compare(segs, back, 'text', n.text, lambda s: s.kind == 'back')
    m += c.compare(segs, ret, 'text', n.text, lambda s: s.kind == 'ret')
    c.floor(m, 4, 'paths of a text', 'text')


def context(k, node):
    es = [e for e in k.seg.all_events if e[0] == 'mut' and e[1] == TREE]
    if not any(e[2].startswith('new_leaf') and e[3][0] == node for e in es):
        raise Mismatch(f'what is returned, {pp(node)}, is no new node')
    cs = [e for e in es if e[2] == 'set_node_context']
    cs += [('mut', TREE, 'set_node_context', (e[3][0], ('adt', 'core::option::Option', 'Some', (('0', e[3][2]),)))) for e in es if e[2] == 'new_leaf_with_context' and len(e[3]) > 2]
    if not cs or cs[-1][3][0] != node:
        raise Mismatch(f'the node {pp(node)} has no element')
    v = cs[-1][3][1]
    if not k.is_(v, 'Some'):
        raise Mismatch(f'the node {pp(node)} has no element')
    return k.simp(v0(v, 'Some'))


def rest(k, e, base, known, what):
    """Everything else of an element is as it is created."""
    if e != base and not (e[0] == 'st' and e[1] == base):
        raise Mismatch(f'{what} is {pp(e)[:200]}')
    more = {x for x, _ in e[2]} - set(known) if e[0] == 'st' else ()
    if more:
        raise Mismatch(f'{what} has an unexpected {sorted(more)}')


@prop('C28')
def node_rendered(c):
    """What has a text is rendered as text, anything else as element."""
    n = Names(c)
    if not n.ok:
        return
    segs = c.run(n.node, opaque=n.opaque(n.node))
    if segs is None:
        return
    par = c.params(n.node)[1]

    def ret(k):
        s = k.seg
        text = T.field(par, 'text')
        want = ('call', n.text, (SELF, v0(text, 'Some'))) if k.is_(text, 'Some') else ('call', n.element, (SELF, par))
        unbound(s, 'a node')
        got = [e for e in s.all_events if e[0] == 'call' and e[1] in (n.text, n.element)]
        if len(got) != 1:
            raise Mismatch(f'a node is rendered {len(got)} times')
        k.require_same(s.value, want, 'a node')
    m = c.compare(segs, ret, 'node', n.node, lambda s: s.kind == 'ret')
    c.floor(m, 2, 'paths of a node', 'node')


@prop('C28')
def body_rendered(c):
    """The tree is a root with the body in it."""
    n = Names(c)
    top = c.find('Renderer::render')
    if not (n.ok and top):
        return
    segs = c.run(top, opaque=n.opaque(top))
    if segs is None:
        return
    par = c.params(top)[1]

    def ret(k):
        s = k.seg
        v = k.simp(s.value)
        body = ('call', n.node, (SELF, par))
        unbound(s, 'a document')
        if not k.is_(body, 'Ok'):
            k.require_same(v, ('adt', 'core::result::Result', 'Err', (('0', v0(body, 'Err')),)), 'what a body that cannot be rendered leads to')
            return
        if not k.is_(v, 'Ok'):
            raise Mismatch('a body cannot be rendered')
        pair = v0(v, 'Ok')
        root = T.field(pair, '0') if pair[0] != 'arr' else pair[1][0]
        second = T.field(pair, '1') if pair[0] != 'arr' else pair[1][1]
        k.require_same(second, v0(body, 'Ok'), 'the body')
        e = context(k, root)
        rest(k, e, ('call', n.create, (root,)), [], 'the element of the root')
        es = [(x[2], x[3]) for x in s.all_events if x[0] == 'mut' and x[1] == TREE and x[2] in ('add_child', 'set_children', 'insert_child_at_index')]
        if es not in ([('add_child', (root, second))], [('set_children', (root, ('arr', (second,))))]):
            raise Mismatch(f'the root has the children {[(a, [pp(y) for y in b]) for a, b in es]}')
    m = c.compare(segs, ret, 'body', top, lambda s: s.kind == 'ret')
    c.floor(m, 2, 'paths of a document', 'body')


class Shape:
    """Where the parts of an element are while it is rendered."""

    def __init__(self, c, n, segs):
        self.par = c.params(n.element)[1]
        self.attributes = T.field(self.par, 'bindings')
        self.children = T.field(self.par, 'children')
        self.names = {}
        self.why = None
        self.node = None
        for s in segs:
            if s.kind != 'ret' or T.variant_of(s.value) != 'Ok':
                continue
            self.node = T.field(s.value, '0')
            for e in s.all_events:
                if e[0] == 'mut' and e[2] == 'set_node_context' and T.variant_of(e[3][1]) == 'Some':
                    el_ = T.field(e[3][1], '0')
                    for x in FIELDS:
                        v = fld(el_, x)
                        if v[0] != 'lv':
                            continue
                        init = s.inits.get(v[1], {}).get(v[2])
                        if self.attributes not in s.doms.get(v[1], ()) or not empty(init, x, n, self.node):
                            self.why = f'{x} of an element is {pp(v)}, which begins as {init and pp(init)}'
                        if self.names.setdefault(x, v[2]) != v[2]:
                            self.why = f'{x} of an element is not always the same'
        # the lists of children, the names and the templates while children are rendered
        self.locals = self.lv(segs, LOCALS)
        self.templates = self.lv(segs, TEMPLATES)

    def lv(self, segs, init):
        for s in segs:
            if s.kind == 'back' and s.dom == self.children:
                for a, v in s.inits.get('K', {}).items():
                    if v == init:
                        return a
        return None


def empty(init, x, n, node):
    return init is not None and (init == fld(('call', n.create, (node,)), x) or init in (FALSE, ('arr', ())) or init[0] == 'emap')


@prop('C28')
def attributes_rendered(c):
    """Every attribute, listener and binding of an element is kept as it is written."""
    n = Names(c)
    if not n.ok:
        return
    segs = c.run(n.element, opaque=n.opaque(n.element))
    if segs is None:
        return
    sh = Shape(c, n, segs)
    c.obligation(sh.why is None, 'shape', str(sh.why), n.element)
    missing = [x for x in FIELDS if x not in sh.names]
    c.obligation(not missing, 'fields', f'the attributes of an element do not reach its {missing}', n.element)
    if missing or sh.why:
        return
    doms = {sh.attributes}
    seen = set()

    def changes(k, want):
        s = k.seg
        for x in FIELDS:
            lv = ('lv', 'K', sh.names[x])
            got = s.updates.get(sh.names[x], lv)
            k.require_same(got, want.get(x, lv), f'{x} of an element')

    def at(x):
        return ('lv', 'K', sh.names[x])

    def plain(k, key, value):
        s = k.seg
        want = {'attrs': insert(at('attrs'), key, value)}
        if k.eq(key, cstr('style')):
            r = ('call', n.inline, (value,))
            if k.is_(r, 'Ok'):
                want['style'] = v0(r, 'Ok')
        changes(k, want)
        ids = [e[2:4] for e in mine(s)]
        if ids != ([('insert', (value, sh.node))] if k.eq(key, cstr('id')) else []) or any(e[1] != IDS for e in mine(s)):
            raise Mismatch(f'an element with {"an" if ids == [] else "no"} id is known as {[[pp(y) for y in b] for a, b in ids]}')

    def hints(k, key):
        want = {'style_hints.dynamic_attrs': insert(at('style_hints.dynamic_attrs'), key, UNIT)}
        if k.eq(key, cstr('class')):
            want['style_hints.has_dynamic_classes'] = TRUE
        if k.eq(key, cstr('id')):
            want['style_hints.has_dynamic_id'] = TRUE
        return want

    def attribute(k):
        s = k.seg
        x = el(sh.attributes)
        kind = k.variant(x, KINDS)
        seen.add(kind)
        key = v0(x, kind, '0')
        if kind == 'None':
            plain(k, key, v0(x, kind, '1'))
            return
        if kind == 'Attribute':
            text = v0(x, kind, '1')
            simple = ('call', n.simple, (text,))
            if k.some(simple):
                plain(k, key, v0(simple, 'Some'))
                return
            spans = T.field(text, 'spans')
            unbound(s, 'a bound attribute')
            got = s.updates.get(sh.names['attrs_bindings'])
            if got is None or got[:2] != ('m', 'insert') or got[2] != at('attrs_bindings') or len(got[3]) != 2:
                raise Mismatch(f'the parts of a bound attribute are kept as {got and pp(got)}')
            k.require_same(got[3][0], key, 'the name of a bound attribute')
            parts = k.simp(T.field(got[3][1], 'spans'))
            if not all_of(k, parts, spans):
                raise Mismatch(f'the parts of a bound attribute are {pp(parts)}')
            doms.add(spans)
            want = hints(k, key)
            want['attrs_bindings'] = got
            want['attrs'] = insert(at('attrs'), key, ('op', 'join', parts, cstr('')))
            changes(k, want)
        elif kind == 'Tag':
            bound(k, s, n, v0(x, kind, '1'), LOCALS, 'Tag', [sh.node, key], 'a tag')
            changes(k, hints(k, key))
        elif kind == 'Callback':
            unbound(s, 'a listener')
            args = v0(x, kind, '1')
            got = s.updates.get(sh.names['listeners'])
            if got is None or got[:2] != ('m', 'insert') or got[2] != at('listeners') or len(got[3]) != 2:
                raise Mismatch(f'a listener is kept as {got and pp(got)}')
            k.require_same(got[3][0], key, 'the event of a listener')
            parts = T.field(got[3][1], 'arguments')
            if not all_of(k, parts, args):
                raise Mismatch(f'the arguments of a listener are {pp(parts)}')
            changes(k, {'listeners': got})
        else:
            unbound(s, 'what is used by the parent')
            changes(k, {})
        if kind != 'None' and any(e[1] == IDS for e in mine(s)):
            raise Mismatch('an element is known by what is no id')

    def part(k):
        s = k.seg
        a = s.dom
        while a[0] != 'elem' or a[1] != sh.attributes:
            a = a[1]
        x = el(s.dom)
        v = only(added(s), 'a part of an attribute')
        if s.dom == v0(a, 'Callback', '1'):
            kind = k.variant(x, ['Keyword', 'Event', 'Binder'])
            unbound(s, 'an argument of a listener')
            if not k.is_(v, kind):
                raise Mismatch(f'an argument of the kind {kind} is kept as {pp(v)}')
            if kind == 'Keyword':
                k.require_same(v0(v, kind), v0(x, kind), 'an argument of a listener')
            elif kind == 'Binder':
                b = v0(x, kind)
                k.require_same(v0(v, kind, 'path'), ('call', n.field, (SCHEMA, b, LOCALS)), 'the value of an argument')
                k.require_same(v0(v, kind, 'pipe'), T.field(b, 'pipe'), 'the transformers of an argument')
            return
        if s.dom != T.field(v0(a, 'Attribute', '1'), 'spans'):
            raise Mismatch(f'an unexpected loop over {pp(s.dom)}')
        if k.is_(x, 'String'):
            unbound(s, 'a text')
            k.require_same(v, v0(x, 'String'), 'a part of an attribute')
            return
        b = v0(x, 'Binder')
        bound(k, s, n, b, LOCALS, 'Attribute', [sh.node, v0(a, 'Attribute', '0'), ('idx', s.dom, 'K')], 'a part of an attribute')
        k.require_same(v, shown(b)(k), 'what an attribute is as long as nothing is bound')
    m = c.compare(segs, attribute, 'attribute', n.element, lambda s: s.kind == 'back' and s.dom == sh.attributes)
    c.floor(m, 12, 'paths of attributes', 'attributes')
    c.floor(len(seen), 7, 'kinds of attributes', 'kinds')
    m = c.compare(segs, part, 'part', n.element, lambda s: s.kind == 'back' and s.dom != sh.attributes and any(
        t[0] == 'elem' and t[1] == sh.attributes for t in iter_terms(s.dom)) and not any(t[0] == 'elem' and t[1] == sh.children for t in iter_terms(s.dom)))
    c.floor(m, 5, 'paths of parts of attributes', 'parts')


def child_of(k, n, sh, key='K', templates=None):
    """(the child that is rendered for one of the document, the id and definition of its template)"""
    x = el(sh.children, key)
    link = ('call', n.link, (x,))
    if not k.some(link):
        return x, None, None
    pair = v0(link, 'Some')
    id_, more = T.field(pair, '0'), T.field(pair, '1')
    t = ('get', templates, id_)
    if not k.some(t):
        return None, id_, None
    t = v0(t, 'Some')
    return ('st', t, (('bindings', ('m', 'extend', more, (T.field(t, 'bindings'),))),)), id_, t


@prop('C28')
def children_rendered(c):
    """Every child is rendered in its place, a link as its template, with the names it gives known to it alone."""
    n = Names(c)
    if not n.ok:
        return
    segs = c.run(n.element, opaque=n.opaque(n.element))
    if segs is None:
        return
    sh = Shape(c, n, segs)
    if not c.obligation(sh.locals is not None, 'locals', 'the names given by a child are not known to it', n.element):
        return
    nl, nt = sh.locals, sh.templates
    kept = {}        # the names of the maps of previous values, by the loop that fills them
    kids = set()

    def start(s, name, init, key='K'):
        return ('lv', key, name) if name in s.inits.get(key, {}) else init

    def loop_over(s, dom, before=None):
        """The loop an iteration runs over dom, to its end."""
        ks = [e[1] for e in s.events if e[0] == 'exit' and dom in s.doms.get(e[1], ())]
        return ks[-1] if ks else None

    def index_of(s, pred):
        return next((i for i, e in enumerate(s.events) if pred(e)), None)

    def names_of(k, child):
        s = k.seg
        la = loop_over(s, T.field(child, 'bindings'))
        if la is None:
            raise Mismatch('the names given by a child are not known to it')
        if s.inits.get(la, {}).get(nl) != start(s, nl, LOCALS):
            raise Mismatch('the names known to a child do not begin with those known to its parent')
        return la, ('lv', la, nl)

    def list_name(k):
        return next((a for a, v in k.seg.inits.get('K', {}).items() if v == ('arr', ()) and a in kids), None)

    def child(k):
        s = k.seg
        templates = start(s, nt, TEMPLATES)
        html, id_, definition = child_of(k, n, sh, 'K', templates)
        if html is None:
            raise Mismatch('a link to a missing template is no error')
        la, names = names_of(k, html)
        node = ('call', n.node, (SELF, html))
        vis, rep = ('call', n.visible, (html,)), ('call', n.repeat, (html,))
        rendered = calls(s, n.node)
        final = s.updates.get(nl, start(s, nl, LOCALS))
        first = index_of(s, lambda e: e == ('exit', la))
        used = index_of(s, lambda e: e[0] == 'call' and e[1] in (n.node, n.field, n.index))
        if used is not None and used < first:
            raise Mismatch('a child is rendered before its names are known')
        lists = {a: s.updates.get(a, ('lv', 'K', a)) for a, v in s.inits['K'].items() if v == ('arr', ())}
        if k.some(vis):
            pair = v0(vis, 'Some')
            if len(rendered) != 1:
                raise Mismatch(f'a child with a condition is rendered {len(rendered)} times')
            k.require_same(('call',) + rendered[0][1:3], node, 'a child')
            if not k.is_(node, 'Ok'):
                raise Mismatch('a child that cannot be rendered is left out')
            one = v0(node, 'Ok')
            bound(k, s, n, T.field(pair, '1'), names, 'Visibility', [sh.node, one, T.field(pair, '0')], 'a condition')
            grown = {a for a, v in lists.items() if v == ('m', 'push', ('lv', 'K', a), (one,))}
            after = names
        elif k.some(rep):
            item = v0(rep, 'Some')
            name, count, binder = (T.field(item, str(i)) for i in range(3))
            if rendered:
                raise Mismatch('a repeated child is rendered besides its items')
            rng = ('range', cint(0), count)
            lr = next((loop_over(s, d) for ds in s.doms.values() for d in ds if all_of(k, d, rng) and loop_over(s, d)), None)
            if lr is None:
                lr = loop_over(s, rng)
            if lr is None:
                raise Mismatch('a repeated child is not rendered for each item')
            grown = {a for a, v in lists.items() if v[:2] == ('lv', lr) and s.inits[lr].get(v[2]) == ('lv', 'K', a)}
            ln = next((a for a in sorted(grown) if a in kids), None)
            if ln is None:
                raise Mismatch('the items of a repeated child are not among the children')
            bound(k, s, n, binder, names, 'Repeat', [sh.node, ('len', ('lv', 'K', ln)), count], 'a repeated child')
            at = s.inits[lr].get(nl)
            if at not in (names, ('m', 'remove', names, (name,))):
                raise Mismatch(f'the items of a repeated child begin with the names {at and pp(at)}')
            prev = ('get', names, name)
            lv = ('lv', lr, nl)
            after = insert(lv, name, v0(prev, 'Some')) if k.some(prev) else ('m', 'remove', lv, (name,))
        else:
            if len(rendered) != 1:
                raise Mismatch(f'a child is rendered {len(rendered)} times')
            k.require_same(('call',) + rendered[0][1:3], node, 'a child')
            if not k.is_(node, 'Ok'):
                raise Mismatch('a child that cannot be rendered is left out')
            one = v0(node, 'Ok')
            grown = {a for a, v in lists.items() if v == ('m', 'push', ('lv', 'K', a), (one,))}
            after = names
            unbound_besides(s)
        if not kids & grown or any(lists[a] != ('lv', 'K', a) for a in kids - grown):
            raise Mismatch(f'a child is not added once to the children')
        # afterwards the names and templates are those of before
        if final != start(s, nl, LOCALS):
            restored(k, final, after, la, start(s, nl, LOCALS))
        gone = ('m', 'remove', templates, (id_,))
        t = s.updates.get(nt, templates) if nt else templates
        if t != templates and (id_ is None or not k.same(t, insert(gone, id_, definition))):
            raise Mismatch(f'a template is not available after it is used')
        if id_ is not None:
            r = index_of(s, lambda e: e[0] == 'mut' and e[1] == TEMPLATES and e[2] == 'remove' and e[3] == (id_,))
            u = index_of(s, lambda e: e[0] == 'call' and e[1] == n.node or e[0] == 'loop' and e[1] not in (la,))
            if r is None or r > u:
                raise Mismatch('a template is available to itself, rendering may not end')

    def unbound_besides(s):
        for e in mine(s):
            if e[1][0] == 'slot' or e[1] == BINDINGS:
                raise Mismatch('a plain child is registered')

    def restored(k, final, after, la, before):
        s = k.seg
        if final[0] != 'lv' or not over(k, final[1]):
            raise Mismatch(f'the names known after a child are {pp(final)}')
        dom = next(iter(s.doms.get(final[1], ())), None)
        if dom is None or dom[0] != 'pairs' or dom[1][:2] != ('lv', la) or s.inits[la].get(dom[1][2], ('',))[0] != 'emap':
            raise Mismatch(f'the names known after a child are {pp(final)}, set for {dom and pp(dom)}')
        kept[la] = dom[1][2]
        k.require_same(s.inits[final[1]].get(nl), after, 'the names known after a child, before those it gave are forgotten')

    def alias(k):
        s = k.seg
        x = el(s.dom)
        names = ('lv', 'K', nl)
        got = s.updates.get(nl, names)
        maps = {a for a, v in s.inits['K'].items() if v[0] == 'emap'}
        if not k.is_(x, 'Alias'):
            k.require_same(got, names, 'the names known to a child')
            for a in maps:
                k.require_same(s.updates.get(a, ('lv', 'K', a)), ('lv', 'K', a), 'the names a child gave')
            return
        name = v0(x, 'Alias', '0')
        k.require_same(got, insert(names, name, ('call', n.field, (SCHEMA, v0(x, 'Alias', '1'), names))), 'the names known to a child')
        unbound_besides(s)
        for a in maps:
            lv = ('lv', 'K', a)
            want = lv if k.some(('get', lv, name)) else insert(lv, name, ('get', names, name))
            k.require_same(s.updates.get(a, lv), want, 'the value a name had before')

    def forget(k):
        s = k.seg
        m = s.dom[1]
        key, val = ('mapk', m, 'K'), ('mapv', m, 'K')
        names = ('lv', 'K', nl)
        want = insert(names, key, v0(val, 'Some')) if k.some(val) else ('m', 'remove', names, (key,))
        k.require_same(s.updates.get(nl, names), want, 'the names known after a child')
        if [e for e in mine(s) if e[1] != LOCALS]:
            raise Mismatch('forgetting a name changes more than names')

    def item(k):
        s = k.seg
        call = next((t for d in [s.dom] + sorted(s.doms.get(s.dom[1], ()) if s.dom[0] == 'lv' else ()) for t in iter_terms(d) if t[0] == 'call' and t[1] == n.repeat), None)
        if call is None:
            raise Mismatch(f'the items of a repeated child are {pp(s.dom)}')
        html = call[2][0]
        it = v0(call, 'Some')
        name, count, binder = (T.field(it, str(i)) for i in range(3))
        rng = ('range', cint(0), count)
        names = ('lv', 'K', nl)
        la = next((key for key, d in s.doms.items() if T.field(html, 'bindings') in d), None)
        outer = ('lv', la, nl)
        path = lambda i: ('call', n.index, (SCHEMA, binder, i, outer))
        if s.dom == rng and not calls(s, n.node):
            k.require_same(only(added(s), 'an item'), path(el(rng)), 'the value of an item')
            return
        if s.dom != rng and all_of(k, s.dom, rng):
            value = el(s.dom)
        elif s.dom == rng:
            value = path(el(rng))
        else:
            raise Mismatch(f'the items of a repeated child are {pp(s.dom)}')
        rendered = calls(s, n.node)
        if len(rendered) != 1:
            raise Mismatch(f'an item is rendered {len(rendered)} times')
        node = ('call', n.node, (SELF, html))
        k.require_same(('call',) + rendered[0][1:3], node, 'an item')
        if not k.is_(node, 'Ok'):
            raise Mismatch('an item that cannot be rendered is left out')
        k.require_same(s.updates.get(nl, names), insert(names, name, value), 'the names known to an item')
        sets = index_of(s, lambda e: e[0] == 'mut' and e[1] == LOCALS and e[2] == 'insert')
        if sets is None or sets > s.events.index(rendered[0]):
            raise Mismatch('an item is rendered before its name is known')
        unbound_besides(s)
        grown = {a for a in s.inits['K'] if s.updates.get(a) == ('m', 'push', ('lv', 'K', a), (v0(node, 'Ok'),))}
        if not any(a in kids or s.inits['K'][a][0] == 'lv' and s.inits['K'][a][2] in kids for a in grown):
            raise Mismatch('an item is not added once to the children')

    def fails(k):
        """Errors are those of a missing template or of what is rendered."""
        s = k.seg
        v = k.simp(s.value)
        t = v0(v, 'Err')
        if t[0] == 'vf' and t[2] == 'Err' and t[1][0] == 'call' and t[1][1] in (n.node, n.img, n.background):
            return
        for key in s.doms:
            if sh.children in s.doms[key]:
                templates = ('lv', key, nt) if nt and nt in s.inits.get(key, {}) else TEMPLATES
                html, id_, _ = child_of(k, n, sh, key, templates)
                if html is None and k.is_(t, 'TemplateNotFound'):
                    k.require_same(v0(t, 'TemplateNotFound'), id_, 'the missing template')
                    return
        raise Mismatch(f'rendering an element fails with {pp(t)}')

    def ret(k):
        s = k.seg
        node = v0(k.simp(s.value), 'Ok')
        e = context(k, node)
        base = ('call', n.create, (node,))
        rest(k, e, base, [x.split('.')[0] for x in FIELDS] + ['tag', 'children'], 'an element')
        hints = T.field(e, 'style_hints')
        if hints[0] == 'st' and {x for x, _ in hints[2]} - {x.split('.')[-1] for x in FIELDS}:
            raise Mismatch(f'the hints of an element are {pp(hints)}')
        tag = T.field(sh.par, 'tag')
        k.require_same(T.field(e, 'tag'), tag, 'the tag of an element')
        if not over_all(k, sh.attributes):
            raise Mismatch('the attributes of an element are left out')
        got = k.simp(T.field(e, 'children'))
        es = [x[3] for x in s.all_events if x[0] == 'mut' and x[1] == TREE and x[2] in ('add_child', 'set_children', 'insert_child_at_index', 'remove_child')]
        if len(es) != 1 or len(es[0]) != 2 or not k.same(es[0][0], node) or not k.same(k.simp(es[0][1]), got):
            raise Mismatch(f'the children in the tree are {[[pp(y) for y in x] for x in es]} instead of {pp(got)}')
        if k.eq(tag, cstr('img')):
            r = next((x for x in s.all_events if x[0] == 'call' and x[1] in (n.img, n.background)), None)
            if r is None:
                raise Mismatch('an image has no background')
            if r[1] == n.img:
                k.require_same(T.field(r[2][1], 'attrs'), T.field(e, 'attrs'), 'the attributes known to the background of an image')
                r = ('call',) + r[1:3]
                want = [('m', 'extend', ('arr', ()), (v0(r, 'Ok'),)), v0(r, 'Ok'), ('arr', (T.index(v0(r, 'Ok'), cint(0)),))]
                if not any(k.same(got, w) for w in want):
                    raise Mismatch(f'the children of an image are {pp(got)[:300]}')
            else:
                image(k, ('call',) + r[1:3], T.field(e, 'attrs'))
                k.require_same(got, ('arr', (v0(('call',) + r[1:3], 'Ok'),)), 'the children of an image')
            return
        void = any(k.eq(tag, cstr(t)) for t in VOID)
        if void and got == ('arr', ()):
            return
        if not list_of(k, got, sh.children) or got[2] not in kids:
            raise Mismatch(f'the children of an element are {pp(got)}')

    for s in segs:
        for e in s.all_events:
            if s.kind == 'ret' and e[0] == 'mut' and e[2] == 'set_node_context' and T.variant_of(e[3][1]) == 'Some':
                v = T.field(T.field(e[3][1], '0'), 'children')
                if v[0] == 'lv' and sh.children in s.doms.get(v[1], ()):
                    kids.add(v[2])
    c.obligation(len(kids) == 1, 'list', f'the children of an element are in {sorted(kids)}', n.element)
    def inner(s):
        doms = [s.dom]
        if s.dom is not None and s.dom[0] == 'lv':
            doms += s.doms.get(s.dom[1], ())
        return s.kind == 'back' and s.dom is not None and any(t[0] == 'elem' and t[1] == sh.children for d in doms for t in iter_terms(d))

    about = lambda s: ('pairs' if s.dom[0] == 'pairs' else 'alias' if s.dom[0] == 'f' and s.dom[2] == 'bindings' or s.dom[0] == 'm' else 'item')
    m = c.compare(segs, child, 'child', n.element, lambda s: s.kind == 'back' and s.dom == sh.children)
    c.floor(m, 4, 'paths of a child', 'child')
    m = c.compare(segs, alias, 'alias', n.element, lambda s: inner(s) and about(s) == 'alias')
    c.floor(m, 2, 'paths of a name', 'alias')
    if kept:
        m = c.compare(segs, forget, 'forget', n.element, lambda s: s.kind == 'back' and s.dom is not None and s.dom[0] == 'pairs')
        c.floor(m, 2, 'paths of a forgotten name', 'forget')
    m = c.compare(segs, item, 'item', n.element, lambda s: inner(s) and about(s) == 'item')
    c.floor(m, 2, 'paths of an item', 'item')
    m = c.compare(segs, ret, 'element', n.element, lambda s: s.kind == 'ret' and T.variant_of(s.value) == 'Ok')
    c.floor(m, 2, 'paths of an element', 'element')
    m = c.compare(segs, fails, 'error', n.element, lambda s: s.kind == 'ret' and T.variant_of(s.value) != 'Ok')
    c.floor(m, 2, 'paths of errors', 'errors')
    rest_ = [s for s in segs if s.kind == 'back' and s.dom != sh.children and s.dom != sh.attributes and not inner(s) and s.dom[0] != 'pairs'
             and not any(t[0] == 'elem' and t[1] == sh.attributes for t in iter_terms(s.dom))]
    c.obligation(not rest_, 'loops', f'an unexpected loop over {rest_ and pp(rest_[0].dom)}', n.element)


def over_all(k, dom):
    return any(e[0] == 'exit' and dom in k.seg.doms.get(e[1], ()) for e in k.seg.all_events)


def image(k, r, attrs):
    src = ('get', attrs, cstr('src'))
    want = v0(src, 'Some') if k.some(src) else cstr('')
    k.require_same(r[2][1], want, 'the source of an image')


@prop('C28')
def images_rendered(c):
    """An image has one child in its size which shows its source."""
    n = Names(c)
    if not (n.ok and n.background):
        c.obligation(n.background is not None, 'image', 'the background of an image is not rendered', 'Renderer::render_bg_image')
        return
    if n.img:
        segs = c.run(n.img, opaque=n.opaque(n.img))
        if segs is None:
            return
        par = c.params(n.img)[1]

        def img(k):
            s = k.seg
            v = k.simp(s.value)
            rs = [('call',) + e[1:3] for e in s.all_events if e[0] == 'call' and e[1] == n.background]
            r = only(rs, 'an image')
            image(k, r, T.field(par, 'attrs'))
            if not k.is_(r, 'Ok'):
                if not k.is_(v, 'Err'):
                    raise Mismatch('an image that cannot be rendered is no error')
                return
            if not k.is_(v, 'Ok'):
                raise Mismatch('an image cannot be rendered')
            k.require_same(v0(v, 'Ok'), ('arr', (v0(r, 'Ok'),)), 'the children of an image')
        m = c.compare(segs, img, 'image', n.img, lambda s: s.kind == 'ret')
        c.floor(m, 2, 'paths of an image', 'image')
    segs = c.run(n.background, opaque=n.opaque(n.background))
    if segs is None:
        return
    src = c.params(n.background)[1]

    def ret(k):
        s = k.seg
        node = v0(k.simp(s.value), 'Ok')
        e = context(k, node)
        rest(k, e, ('call', n.create, (node,)), ['backgrounds'], 'the background of an image')
        b = k.simp(('index', T.field(e, 'backgrounds'), cint(0)))
        got = shows(T.field(e, 'backgrounds'))
        if got is None:
            raise Mismatch(f'the background of an image shows {pp(T.field(e, "backgrounds"))[:300]}')
        if not k.is_(got.get('image'), 'Some'):
            raise Mismatch('the background of an image shows nothing')
        k.require_same(v0(got['image'], 'Some'), src, 'what the background of an image shows')
        k.require_same(got['is_src'], TRUE, 'whether an image is a source')
        for x in s.all_events:
            if x[0] == 'mut' and x[2] == 'new_leaf' and x[3][0] == node:
                for p in ('size', 'min_size'):
                    for d in ('width', 'height'):
                        v = fld(x[3][1], f'{p}.{d}')
                        if not k.is_(v, 'Percent') or not k.same(v0(v, 'Percent'), cflt(1.0)):
                            raise Mismatch(f'the {p} of the background of an image is {pp(v)}')
    m = c.compare(segs, ret, 'background', n.background, lambda s: s.kind == 'ret')
    c.floor(m, 1, 'paths of the background of an image', 'background')


def shows(t):
    """The first layer of a list of backgrounds: its fields."""
    if t[0] == 'upd' and t[2] == cint(0):
        b = t[3]
        return {x: T.field(b, x) for x in ('image', 'is_src')}
    if t[0] == 'arr' and t[1]:
        return {x: T.field(t[1][0], x) for x in ('image', 'is_src')}
    return None
