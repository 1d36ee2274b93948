"""The view: reactions on the tree, the update, positions (view.rs)."""
from rulelib import *
from terms import *
import terms as T
from registry import prop

f = fld
RX = 'view_model::Reaction'
EDITS = ('insert_child_at_index', 'add_child', 'remove_child', 'remove_child_at_index', 'replace_child_at_index', 'set_children',
         'remove_children_range', 'remove', 'clear')


def ctx_of(seg, node):
    """The element of a node."""
    return ('ctx', node)


def children_of(seg, parent):
    """The current children of a node, as the path looked at them."""
    for x in iter_terms([seg.facts, seg.all_events, seg.updates]):
        if x[0] == 'children' and x[2] == parent:
            return x
    return ('children', cint(0), parent)


def rfield(kind, n):
    return ('vf', sym('reaction'), kind, n)


# ------------------------------------------------------------------ C11 reactions on the tree
@prop('C11')
def tree_reactions(c):
    name = c.find('View::update_tree')
    css = c.find('read_inline_css')
    if not (name and css):
        return
    segs = c.run(name, opaque=[css])
    if segs is None:
        return
    self_, reaction = c.params(name)
    tree = f(self_, 'tree')
    kinds = ['Type', 'Reattach', 'Repeat', 'Tag', 'Bind']

    def R(kind, n):
        return ('vf', reaction, kind, n)

    def items(defn, lo, hi):
        """All items of a repetition, one way or another: the index of an item is its place in the document but for the first."""
        return [('slice', defn, lo, hi), ('range', lo, hi), ('skip', ('take', defn, hi), lo)]

    def failed(k, s, extra=()):
        """An error is only reported when the tree or the element does not have what the reaction is about."""
        for t, x in s.facts.items():
            if x == ('in', frozenset(['Err'])):
                return True
            if x == ('in', frozenset(['None'])):
                if t[0] == 'hasctx':
                    return True
                if t[0] == 'posof' and t[1][0] == 'f' and t[1][2] == 'children':
                    return True
                if t in extra:
                    return True
        return False

    def tree_edits(ef):
        return [m for m in ef.muts if m[0] == tree and m[1] in EDITS]

    def dirty(ef):
        return [m[2][0] for m in ef.muts if m[0] == tree and m[1] == 'mark_dirty']

    def others(ef, *allowed):
        for m in ef.muts:
            if m[0] != tree and m[0] not in allowed:
                raise Mismatch(f'a reaction edits something it is not about: {pp(m[0])}')

    def defined_after(k, defn, node, x):
        """Does x come after node in the document?  Decided by the path."""
        a, b = ('vf', ('posof', defn, node), 'Some', '0'), ('vf', ('posof', defn, x), 'Some', '0')
        lt = decided(k.facts, T.op('lt', a, b))
        gt = decided(k.facts, T.op('lt', b, a))
        if lt or gt is False:
            return True
        if gt or lt is False:
            return False
        at = a
        for part, after in ((('slice', defn, cint(0), at), False), (('slice', defn, T.op('add', at, cint(1)), T.length(defn)), True)):
            t = ('isv', ('posof', part, x), 'Some')
            inside = decided(k.facts, t)
            if inside is None:
                inside = decided(k.facts, ('isv', ('posof', part, x), 'None'))
                inside = None if inside is None else not inside
            if inside is not None:
                return after if inside else not after    # (x is not the node itself: that one is not shown)
        return None

    def not_before(b, defn, node, x):
        if decided(b.facts, ('isv', ('posof', defn, x), 'Some')) is False:
            return False    # every shown sibling is part of the document
        return defined_after(Case(b, []), defn, node, x) is not False

    at_ = {'segs': segs, 'K': 'K'}

    def within(s):
        """The searches made for one item of a repetition: its paths, with the item named as on the path of the item."""
        out = []
        for b in segs:
            name_ = next((n for n, i in loop_ids(b).items() if i == s.raw.loop), None) if b.kind == 'back' else None
            if name_ in (None, 'K'):
                continue
            m = {'K': 'Q', name_: 'K'}
            r = Segment(b.kind, {rekey(t, m): rekey(x, m) for t, x in b.facts.items()}, [rekey(e, m) for e in b.events], None, b.where, 'Q',
                        {n: rekey(x, m) for n, x in b.updates.items()}, [rekey(e, m) for e in b.all_events], None)
            r.dom = rekey(b.dom, m) if b.dom is not None else None
            r.raw = b.raw
            out.append(r)
        return out

    def place(k, s, parent, node, idx, cur):
        """Where a node is inserted: everything before it comes earlier in the document, everything after it later."""
        defn = f(ctx_of(s, parent), 'children')
        d = ('vf', ('posof', defn, node), 'Some', '0')
        n = T.length(cur)
        back = ('rev', cur)
        # (no more siblings come earlier than in the definition)
        some_of = [('rev', ('range', cint(0), x)) for x in (T.op('min', n, d), T.op('min', d, n), d) if x != d or k.facts.get(T.op('lt', n, d)) == ('eq', FALSE)]
        for r in some_of:
            for key in [e[1] for e in s.all_events if e[0] == 'loop' and r in s.doms.get(e[1], ())]:
                passed = [b for b in at_['segs'] if b.kind == 'back' and b.dom == r and parent_in(b, parent)]
                if not passed:
                    raise Mismatch('the place of a node is not searched')
                if any(defined_after(Case(b, []), defn, node, T.index(cur, el(r, at_['K']))) is not True for b in passed):
                    raise Mismatch('the search for the place of a node passes a sibling that comes earlier in the document')
                if ('exit', key) in [e[:2] for e in s.all_events] and idx == cint(0):
                    return
                if idx != T.op('add', ('elem', r, key), cint(1)) or defined_after(k, defn, node, T.index(cur, ('elem', r, key))) is not False:
                    raise Mismatch('a node is shown behind a sibling that comes later in the document')
                return
        if any(back in s.doms.get(e[1], ()) for e in s.all_events if e[0] == 'loop'):
            # the place behind the last one that comes earlier
            passed = [b for b in at_['segs'] if b.kind == 'back' and b.dom == back and parent_in(b, parent)]
            if not passed:
                raise Mismatch('the place of a node is not searched')
            if any(not not_before(b, defn, node, el(back, at_['K'])) for b in passed):
                raise Mismatch('the search for the place of a node passes a sibling that comes earlier in the document')
            if idx == cint(0) and any(e[0] == 'exit' and back in s.doms.get(e[1], ()) for e in s.all_events):
                return
            at = T.op('sub', idx, cint(1))
            if at[:2] != ('idx', back) or defined_after(k, defn, node, ('elem', back, at[2])) is not False:
                raise Mismatch('a node is shown behind a sibling that comes later in the document')
            return
        if idx[0] == 'idx' and idx[1] == cur:
            key = idx[2]
            if defined_after(k, defn, node, ('elem', cur, key)) is not True:
                raise Mismatch('the node is not shown before a sibling that comes later in the document')
            for b in at_['segs']:
                if b.kind == 'back' and b.dom == cur and not_before(b, defn, node, el(cur, at_['K'])):
                    raise Mismatch('a sibling that comes earlier in the document is not skipped')
            return
        if idx == n:
            for key in {e[1] for e in s.all_events if e[0] == 'exit'}:
                if cur in s.doms.get(key, ()):
                    for b in at_['segs']:
                        if b.kind == 'back' and b.dom == cur and not_before(b, defn, node, el(cur, at_['K'])):
                            raise Mismatch('the node is shown after siblings that come later in the document')
                    return
        if idx[0] == 'lv':
            key, var = idx[1], idx[2]
            init = s.inits.get(key, {}).get(var)
            if init is None:
                raise Mismatch('where a node is shown is not established')
            if cur in s.doms.get(key, ()) and init == cint(0):
                return counted(k, s, parent, node, key, var, cur)
            starts = {T.op('min', n, d), T.op('min', d, n), n}
            ok = any(k.same(init, x) for x in (n,)) or init in starts or \
                (init == d and k.ask(T.op('le', d, n))) or (init == n)
            if not ok:
                raise Mismatch(f'the search for the place of a node does not start behind every earlier sibling: {pp(init)}')
            lv = ('lv', key, var)
            low = k.eq(lv, cint(0)) if decided(k.facts, T.mk_eq(lv, cint(0))) is not None else (decided(k.facts, T.op('lt', cint(0), lv)) is False)
            if not low:
                prev = T.index(cur, T.op('sub', lv, cint(1)))
                if defined_after(k, defn, node, prev) is not False:
                    raise Mismatch('a node is shown behind a sibling that comes later in the document')
            n_back = 0
            for b in at_['segs']:
                if b.kind == 'back' and var in b.updates and b.dom is None and parent_in(b, parent):
                    n_back += 1
                    lk = ('lv', at_['K'], var)
                    if b.updates[var] != T.op('sub', lk, cint(1)):
                        raise Mismatch('the search for the place of a node skips siblings')
                    if defined_after(Case(b, []), defn, node, T.index(cur, T.op('sub', lk, cint(1)))) is not True:
                        raise Mismatch('the search for the place of a node passes a sibling that comes earlier in the document')
            if not n_back:
                raise Mismatch('the place of a node is not searched')
            return
        raise Mismatch(f'a node is not shown at its place in the document, but at {pp(idx)}')

    def counted(k, s, parent, node, key, var, cur):
        """The place is the number of siblings that come earlier (or the place behind the last of them)."""
        defn = f(ctx_of(s, parent), 'children')
        if ('exit', key) not in [e[:2] for e in s.all_events] and defined_after(k, defn, node, ('elem', cur, key)) is not True:
            raise Mismatch('not all siblings are looked at for the place of a node')
        n_back = 0
        for b in at_['segs']:
            if b.kind != 'back' or b.dom != cur or not parent_in(b, parent):
                continue
            n_back += 1
            lk = ('lv', at_['K'], var)
            at = b.updates.get(var, lk)
            after = not_before(b, defn, node, el(cur, at_['K']))
            if after and at != lk:
                raise Mismatch('a node is shown behind a sibling that comes later in the document')
            if not after and at not in (T.op('add', ('idx', cur, at_['K']), cint(1)), T.op('add', lk, cint(1))):
                raise Mismatch('a node is not shown behind every sibling that comes earlier in the document')
        if not n_back:
            raise Mismatch('the place of a node is not searched')

    def parent_in(b, parent):
        return any(x == parent for x in iter_terms(b.facts))

    def attach(k, s, ef, parent, node, visible):
        cur = children_of(s, parent)
        defn = f(ctx_of(s, parent), 'children')
        pos = ('posof', cur, node)
        edits = tree_edits(ef)
        others(ef)
        if ef.writes:
            raise Mismatch('showing or hiding a node changes something else')
        attached = k.some(pos)
        if visible and not attached:
            if len(edits) != 1:
                raise Mismatch(f'a hidden node is shown by {len(edits)} edits of the tree')
            m = edits[0]
            if m[1] != 'insert_child_at_index' or m[2][0] != parent or m[2][2] != node:
                raise Mismatch(f'a node is not shown at its place among its siblings but by {m[1]}')
            place(k, s, parent, node, m[2][1], cur)
        elif not visible and attached:
            ok = [(m[1], m[2]) for m in edits] in ([('remove_child', (parent, node))],
                                                   [('remove_child_at_index', (parent, ('vf', pos, 'Some', '0')))])
            if not ok:
                raise Mismatch('a shown node is not hidden')
        elif edits:
            raise Mismatch('the tree is edited although nothing is to be shown or hidden')

    def reattach_call(k, s, ef, parent, node, visible):
        if len(ef.calls) != 1 or short_name(ef.calls[0][0]) != short_name(name) or tree_edits(ef):
            return False
        r = ef.calls[0][1][1]
        if T.variant_of(r) != 'Reattach':
            return False
        for n, w in (('parent', parent), ('node', node), ('visible', TRUE if visible else FALSE)):
            k.require_same(T.field(r, n), w, f'{n} of a repeated item')
        return True

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('a reaction can panic')
        kind = k.variant(reaction, kinds)
        ef = Effects(s.all_events)
        err = T.variant_of(s.value) == 'Err'
        if kind == 'Type':
            node = R(kind, 'node')
            txt = f(ctx_of(s, node), 'text')
            if err:
                if not failed(k, s, (txt,)):
                    raise Mismatch('a text is not set although it exists')
                return
            spans = f(('vf', txt, 'Some', '0'), 'spans')
            if k.ask(T.op('lt', R(kind, 'span'), T.length(spans))):
                if list(ef.writes.items()) != [(T.index(spans, R(kind, 'span')), R(kind, 'text'))]:
                    raise Mismatch('the new text does not replace exactly its span')
            elif ef.writes:
                raise Mismatch('a span that does not exist is written')
            others(ef)
            if dirty(ef) != [node] or tree_edits(ef):
                raise Mismatch('a changed text is not measured again')
        elif kind == 'Reattach':
            if err:
                if not failed(k, s):
                    raise Mismatch('a node that exists can be neither shown nor hidden')
                return
            v = R(kind, 'visible')
            attach(k, s, ef, R(kind, 'parent'), R(kind, 'node'), k.ask(v))
        elif kind == 'Repeat':
            if err:
                if not failed(k, s):
                    raise Mismatch('repeated items can be neither shown nor hidden')
                return
            if abandoned(s.all_events):
                raise Mismatch('some repeated items are neither shown nor hidden')
            defn = f(ctx_of(s, R(kind, 'parent')), 'children')
            walked = [d for e in s.all_events if e[0] == 'loop' for d in s.doms.get(e[1], ())]
            lo, mid, hi = R(kind, 'start'), R(kind, 'cursor'), R(kind, 'end')
            if not any(d in walked for d in items(defn, lo, hi)):
                for a, b, w in ((lo, mid, 'shown'), (mid, hi, 'hidden')):
                    if ('slice', defn, a, b) not in walked:
                        raise Mismatch(f'not every item that must be {w} is')
            if ef.writes or ef.muts:
                raise Mismatch('repeating items changes something else')
        elif kind == 'Tag':
            attrs = f(ctx_of(s, R(kind, 'node')), 'attrs')
            if err:
                if not failed(k, s):
                    raise Mismatch('a tag cannot be set')
                return
            key = R(kind, 'key')
            want = ('insert', (key, key)) if k.ask(R(kind, 'tag')) else ('remove', (key,))
            if ef.writes or [(m[0], m[1], m[2]) for m in ef.muts] != [(attrs,) + want]:
                raise Mismatch(f'a tag is not {"set" if want[0] == "insert" else "removed"}')
        else:
            bind(k, s, ef, err)

    def bind(k, s, ef, err):
        node, key, span, text = [R('Bind', n) for n in ('node', 'key', 'span', 'text')]
        e = ctx_of(s, node)
        ab = ('get', f(e, 'attrs_bindings'), key)
        at = ('vf', ('get', f(e, 'attrs'), key), 'Some', '0')
        kids = children_of(s, node)
        if err:
            if not failed(k, s, (ab,)) and not (decided(k.facts, T.mk_eq(T.length(kids), cint(0)))):
                raise Mismatch('an attribute is not set although it exists')
            return
        if not k.some(('hasctx', node)) or not k.some(ab):
            raise Mismatch('a missing attribute goes unnoticed')
        spans = f(('vf', ab, 'Some', '0'), 'spans')
        inside = k.ask(T.op('lt', span, T.length(spans)))
        new = ('upd', spans, span, text) if inside else spans
        value = ('op', 'join', new, cstr(''))
        writes = dict(ef.writes)
        if inside and writes.pop(T.index(spans, span), None) != text:
            raise Mismatch('the new text does not replace its span of the attribute')
        muts = list(ef.muts)
        if at in writes:
            muts.append((f(e, 'attrs'), 'insert', (key, writes.pop(at))))   # the same for what exists

        def take(place, op, args):
            m = (place, op, args)
            if m not in muts:
                return False
            muts.remove(m)
            return True
        ks = key

        def is_key(x):
            return k.eq(ks, cstr(x))
        pick = next((x for x in ('style', 'id', 'src') if is_key(x)), None)
        if not (take(f(e, 'attrs'), 'insert', (key, value)) or pick and take(f(e, 'attrs'), 'insert', (cstr(pick), value))):
            raise Mismatch('the attribute does not get its new text')
        ident = f(self_, 'identified')
        calls = [x for x in ef.calls if short_name(x[0]) == short_name(css)]
        if pick == 'style':
            if [x[1] for x in calls] != [(value,)]:
                raise Mismatch('a bound style is not read again')
            r = ('call', short_name(css), (value,))
            r = next((x for x in iter_terms([s.facts, s.all_events]) if x[0] == 'call' and short_name(x[1]) == short_name(css)), r)
            if k.is_(r, 'Ok'):
                if writes.pop(f(e, 'style'), None) != ('vf', r, 'Ok', '0'):
                    raise Mismatch('a bound style does not replace the previous one')
        elif calls:
            raise Mismatch('an attribute that is not the style is read as one')
        if pick == 'id':
            gone = [i for i, m in enumerate(muts) if m[0] == ident and m[1] == 'retain']
            new_at = [i for i, m in enumerate(muts) if m == (ident, 'insert', (value, node))]
            if not new_at:
                raise Mismatch('an element is not known by its new id')
            old = ('get', f(e, 'attrs'), key)
            keep = T.op('not', T.mk_eq(sym('kept'), node))
            forgets = [i for i in gone if k.same(muts[i][2][0], keep)] + \
                      [i for i, m in enumerate(muts) if m[0] == ident and m[1] == 'remove' and m[2] and m[2][0] in
                       (('vf', ('get', f(e, 'attrs'), cstr('id')), 'Some', '0'), ('vf', old, 'Some', '0'), ('op', 'join', spans, cstr('')))]
            if not forgets or min(forgets) > new_at[0]:
                raise Mismatch('an element is still known by its previous id')
            for i in sorted(set(forgets + new_at[:1]), reverse=True):
                del muts[i]
        if pick == 'src' and k.eq(f(e, 'tag'), cstr('img')):
            child = T.index(kids, cint(0))
            bgs = f(ctx_of(s, child), 'backgrounds')
            img = [(p, v) for p, v in writes.items() if p[0] == 'f' and p[2] == 'image' and in_backgrounds(p[1], bgs)]
            if [v for p, v in img] != [T.some(value)]:
                raise Mismatch('an image does not show its new source')
            for p in [p for p, _ in img] + [p for p, v in writes.items() if p[0] == 'f' and p[2] == 'is_src' and v == TRUE and in_backgrounds(p[1], bgs)]:
                writes.pop(p)
            muts[:] = [m for m in muts if not (m[0] == bgs and m[1] in ('resize', 'resize_with') and m[2][0] == cint(1))]
            if not take(tree, 'mark_dirty', (child,)):
                raise Mismatch('an image is not measured again')
        if writes or muts:
            raise Mismatch(f'binding an attribute changes something else: {[pp(p) for p in writes][:2]} {[(pp(m[0]), m[1]) for m in muts][:2]}')

    n = c.compare(segs, whole, 'reaction', name, lambda s: s.kind != 'back')
    c.floor(n, 8, 'paths of the reactions', 'reaction')

    def repeat(k):
        s = k.seg
        if k.variant(reaction, kinds) != 'Repeat':
            return
        parent = R('Repeat', 'parent')
        defn = f(ctx_of(s, parent), 'children')
        lo, mid, hi = R('Repeat', 'start'), R('Repeat', 'cursor'), R('Repeat', 'end')
        item = el(s.dom)
        if s.dom == ('slice', defn, lo, mid):
            vis = True
        elif s.dom == ('slice', defn, mid, hi):
            vis = False
        elif s.dom in items(defn, lo, hi):
            i = T.op('add', lo, ('idx', s.dom, 'K')) if s.dom[0] == 'slice' else ('elem', s.dom, 'K') if s.dom[0] == 'range' else ('idx', s.dom, 'K')
            if s.dom[0] == 'range':
                item = T.index(defn, i)
            vis = k.ask(T.op('lt', i, mid))
        else:
            raise Mismatch(f'something else than the items of the repetition is shown or hidden: {pp(s.dom)}')
        ef = Effects(s.events)
        if not reattach_call(k, s, ef, parent, item, vis):
            at_.update(segs=within(s), K='Q')
            try:
                attach(k, s, ef, parent, item, vis)
            finally:
                at_.update(segs=segs, K='K')

    n = c.compare(segs, repeat, 'item', name, lambda s: s.kind == 'back' and s.dom is not None and s.dom[0] in ('slice', 'range', 'skip'))
    c.floor(n, 1, 'paths for a repeated item', 'item')


def in_backgrounds(p, bgs):
    """Is p the first background (whether it existed before or not)?"""
    return p[0] in ('index', 'vf', 'f') and (p == T.index(bgs, cint(0)) or any(x == bgs for x in T.subterms(p)) and pp(p).endswith('[0]'))


@prop('C11')
def initial_state(c):
    name = c.find('View::apply_default_bindings_state')
    upd = c.find('View::update_tree')
    if not (name and upd):
        return
    segs = c.run(name, opaque=[upd])
    if segs is None:
        return
    self_, = c.params(name)
    maps = f(f(self_, 'model'), 'bindings')

    def reaction_of(k, b):
        p = f(b, 'params')
        if not k.is_(p, 'Visibility'):
            return None
        a = lambda i: ('vf', p, 'Visibility', str(i))
        return T.adt(RX, 'Reattach', (('parent', a(0)), ('node', a(1)), ('visible', T.op('not', a(2)))))

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('creating a view can panic')
        if T.variant_of(s.value) == 'Err':
            return
        doms = [d for e in s.all_events if e[0] == 'loop' for d in s.doms.get(e[1], ())]
        if not any(d in (('values', maps), ('pairs', maps)) for d in doms) or abandoned(s.all_events):
            raise Mismatch('not every binding is considered')
    n = c.compare(segs, whole, 'initial', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'ends of the initial state', 'initial')
    used = set()
    parts = []

    def each(k):
        s = k.seg
        ef = Effects(s.events, locals_too=True)
        if s.dom is None or s.dom[0] in ('values', 'pairs'):
            inner = [e[1] for e in s.events if e[0] == 'loop']
            if s.dom is not None and (len(inner) != 1 or abandoned(s.events)):
                raise Mismatch('not every binding of a place is considered')
            return
        if s.dom[0] == 'mapv' and s.dom[1] == maps:
            b = el(s.dom)
            want = reaction_of(k, b)
            got = [m[2][0] for m in ef.muts if m[1] == 'push'] + [x[1][1] for x in ef.calls if x[0] == upd or short_name(x[0]) == short_name(upd)] + \
                  [e[1] for e in s.events if e[0] == 'collect']
            if want is None:
                if got:
                    raise Mismatch('a binding that is no condition changes the initial state')
                return
            if len(got) != 1:
                raise Mismatch('a condition does not decide the initial state of its element')
            if got[0][0] == 'tup' and all(e[0] != 'call' for e in s.events):
                # (what is told from it when it is applied)
                parts.append((el(s.dom), got[0], want))
                used.add('each')
                return
            k.require_same(got[0], want, 'the initial state of an element with a condition')
            used.add('each')
            return
        said = [x[1] for x in ef.calls]
        if parts and len(said) == 1 and len(said[0]) == 2:
            read = lambda t: T.subst(t, {T.field(el(s.dom), str(i)): p for i, p in enumerate(parts[0][1][1])})
            if not all(x == parts[0] for x in parts) or said[0][0] != self_ or ef.muts or ef.writes:
                raise Mismatch('the initial states are not all applied')
            got = read(said[0][1])
            want = parts[0][2]
            if el(s.dom) in T.subterms(got) or not k.same(got, want):
                raise Mismatch(f'the initial state of an element with a condition: found {pp(got)}, required {pp(want)}')
            used.add('apply')
            return
        if parts or said != [(self_, el(s.dom))] or ef.muts or ef.writes:
            raise Mismatch('the initial states are not all applied')
        used.add('apply')
    told = lambda s: s.dom is not None and s.dom[0] == 'mapv'
    n = c.compare(segs, each, 'condition', name, lambda s: s.kind == 'back' and told(s))
    n += c.compare(segs, each, 'condition', name, lambda s: s.kind == 'back' and not told(s))
    c.floor(n, 1, 'paths for a binding', 'condition')
    c.obligation(not parts or 'apply' in used, 'applied', 'the initial states are not applied', name)
    c.obligation('each' in used, 'conditions', 'conditions do not decide the initial state', name)


# ------------------------------------------------------------------ C12 one update
def tree_base(t):
    while t[0] == 'm':
        t = t[2]
    return t


def calls_of(events, *names):
    """The steps among the calls of a path, in order: (name, arguments)."""
    return [(short_name(e[1]), e[2]) for e in events if e[0] == 'call' and short_name(e[1]) in names]


def failing(s, *names):
    """The step whose error ended the path, if any: its result term."""
    return [t for t, x in s.facts.items() if t[0] == 'call' and x == ('in', frozenset(['Err'])) and short_name(t[1]) in names]


def swallowed(k, s, *names):
    """A step whose error would go unnoticed on this path (which goes on, or succeeds)."""
    for e in s.events if s.kind == 'back' else s.all_events:
        if e[0] != 'call' or short_name(e[1]) not in names:
            continue
        seen = [t for t in iter_terms([s.facts, s.value]) if t[0] == 'call' and short_name(t[1]) == short_name(e[1]) and
                norm_calls(t[2]) == norm_calls(e[2])]
        if not seen:
            return short_name(e[1])
    return None


@prop('C12')
def one_update(c):
    name = c.find('View::update')
    steps = [c.find(x) for x in ('ViewModel::bind', 'View::update_tree', 'View::apply_styles',
                                 'View::compute_final_positions_and_clipping', 'ViewModel::handle_output', 'view::measure_text')]
    if not name or not all(steps):
        return
    bind, upd, style, pos, out, measure = [short_name(x) for x in steps]
    layout = 'taffy::TaffyTree::compute_layout_with_measure'
    measured = []

    def compute(e, st, args, call):
        from models import norm
        vargs = tuple(e.val(st, x) for x in args[1:3])
        st.emit('call', 'compute_layout', vargs, e.where(call))
        probe = st.fork()
        a = [sym('known size'), sym('available space'), sym('measured node'), T.some(('ctx', sym('measured node'))), sym('measured style')]
        for s, v in e.apply(probe, args[3], a, call):
            measured.append((e.val(s, v), [x for x in s.facts if x not in st.facts]))
        r = ('call', 'compute_layout', vargs)
        return [(s, T.ok(UNIT) if v == 'Ok' else T.err(('vf', r, 'Err', '0'))) for s, v in e.fork_variant(st, r, ['Ok', 'Err'])]
    import models
    key = next((n for n in EXACT_TAFFY() if n.endswith('compute_layout_with_measure')), layout)
    plain = models.EXACT[key]
    models.EXACT[key] = compute
    try:
        segs = c.run(name, opaque=steps)
    finally:
        models.EXACT[key] = plain
    if segs is None:
        return
    self_, input_, value = c.params(name)
    tree, body = f(self_, 'tree'), f(self_, 'body')
    vp = f(input_, 'viewport')
    reactions = ('call', bind, (f(self_, 'model'), value))
    sizes = {'root_font_size': cflt(16.0), 'parent_font_size': cflt(16.0), 'parent_color': ('arr', (cint(0),) * 4),
             'viewport_width': T.index(vp, cint(0)), 'viewport_height': T.index(vp, cint(1))}
    zero = T.adt('taffy::Point', 'Point', (('x', cflt(0.0)), ('y', cflt(0.0))))
    order = [bind, upd, style, 'compute_layout', pos, out]

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('an update can panic')
        steps_ = calls_of(s.all_events, *order)
        bad = failing(s, *order)
        done = [x for x in steps_ if x[0] != upd]
        names = [x[0] for x in done]
        if names[:1] != [bind] or norm_calls(done[0][1]) != (f(self_, 'model'), value):
            raise Mismatch('the data of the update is not bound first')
        if T.variant_of(s.value) == 'Err':
            if not bad:
                raise Mismatch('an update fails although every step succeeded')
            if not any(k.same(T.field(s.value, '0'), ('vf', b, 'Err', '0')) for b in bad) and not any(
                    s.value == b for b in bad):
                pass        # errors are converted; which one ended the update is decided by the steps made
            return
        if [b for b in bad if short_name(b[1]) != out]:
            raise Mismatch('an update goes on although a step failed')
        lost = swallowed(k, s, *order[1:])
        if lost:
            raise Mismatch(f'an error of {lost} goes unnoticed')
        if names != [bind, style, 'compute_layout', pos, out]:
            raise Mismatch(f'the steps of an update are not: bind, style, layout, positions, input, but {names}')
        walked = [d for e in s.all_events if e[0] == 'loop' for d in s.doms.get(e[1], ())]
        if not any(norm_calls(d) == reactions for d in walked) or abandoned(s.all_events):
            raise Mismatch('not every reaction is applied to the tree')
        first_style = next(i for i, e in enumerate(s.all_events) if e[0] == 'call' and short_name(e[1]) == style)
        if not any(e[0] == 'exit' for e in s.all_events[:first_style]):
            raise Mismatch('styles are computed before every reaction is applied')
        a = done[1][1]
        if a[1] != body or a[2] != input_ or a[4] != ('emap',):
            raise Mismatch('styles are not computed for the whole body, without any variable set')
        for n, w in sizes.items():
            k.require_same(T.field(a[3], n), w, f'{n} of the document')
        a = done[2][1]
        if a[0] != body or 'MAX_CONTENT' not in pp(a[1]):
            raise Mismatch('the layout is not computed for the body, with unlimited space')
        a = done[3][1]
        if a[1] != body or not k.same(a[2], zero) or a[3] != cflt(1.0) or a[4] != T.NONE:
            raise Mismatch('positions do not start at the origin, opaque and unclipped')
        a = done[4][1]
        if a[0] != f(self_, 'model') or a[1] != input_ or a[2] != body or tree_base(a[3]) != tree:
            raise Mismatch('the input is not dispatched to the laid out body')
        v = s.value
        res = [t for t in iter_terms([v, s.facts]) if t[0] == 'call' and short_name(t[1]) == out]
        if not res or not (v == res[0] or T.variant_of(v) == 'Ok' and k.same(T.field(v, '0'), ('vf', res[0], 'Ok', '0'))):
            raise Mismatch('the result of an update is not the output of the dispatch')
        ef = Effects(s.all_events)
        for p, _ in ef.writes.items():
            raise Mismatch(f'an update changes something outside of its steps: {pp(p)}')
        for m in ef.muts:
            if not (m[0] == tree and m[1] == 'set_style' and m[2][0] == f(self_, 'root')):
                raise Mismatch(f'an update changes something outside of its steps: {pp(m[0])}.{m[1]}')

    n = c.compare(segs, whole, 'update', name, lambda s: s.kind != 'back')
    c.floor(n, 2, 'ends of an update', 'update')

    def each(k):
        s = k.seg
        if norm_calls(s.dom) != reactions:
            raise Mismatch(f'the update repeats something else than the reactions: {pp(s.dom)}')
        ef = Effects(s.events)
        if [(short_name(x[0]), x[1]) for x in ef.calls] != [(upd, (self_, el(s.dom)))] or ef.writes or ef.muts:
            raise Mismatch('a reaction is not applied to the tree exactly once')
        if failing(s, upd) or swallowed(k, s, upd):
            raise Mismatch('an update goes on although a reaction failed')
    n = c.compare(segs, each, 'reaction', name, lambda s: s.kind == 'back')
    c.floor(n, 1, 'paths for a reaction', 'reaction')
    want = (('ctx', sym('measured node')),)
    ok = bool(measured)
    for v, extra in measured:
        if not (v[0] == 'call' and short_name(v[1]) == measure and v[2][1:] == (sym('known size'), sym('available space'),
                                                                             T.some(('ctx', sym('measured node'))))
                and any(x == f(self_, 'fonts') for x in T.subterms(v[2][0]))) or extra:
            ok = False
    c.obligation(ok, 'measure', 'the layout does not measure the texts of the elements with the fonts of the view', name)


def EXACT_TAFFY():
    import models
    return [k for k in models.EXACT if 'taffy' in k]


def norm_calls(t):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'call' and isinstance(t[1], str):
            return ('call', short_name(t[1]), norm_calls(t[2]))
        return tuple(norm_calls(x) for x in t)
    return t


VOID = ['img', 'input', 'area', 'base', 'br', 'col', 'command', 'embed', 'hr', 'keygen', 'link', 'meta', 'param', 'source', 'track', 'wbr']
FONT = ['family', 'size', 'style', 'weight', 'line_height']


@prop('C12')
def styled_tree(c):
    name = c.find('View::apply_styles')
    casc = c.find('Cascade::apply_styles')
    dflt = c.find('default_layout')
    if not (name and casc and dflt):
        return
    new_layout, new_font, new_color, new_vars = [sym('computed ' + x) for x in ('layout', 'font', 'color', 'variables')]

    def cascade(e, st, args, call):
        a = tuple(e.val(st, x) for x in args)
        st.emit('call', casc, a, e.where(call))
        at = lambda i, *p: (e.deref_loc(args[i])[0], e.deref_loc(args[i])[1] + tuple(('f', x) for x in p))
        e.write(st, at(0, 'variables'), new_vars, silent=True)
        e.write(st, at(0, 'stats'), sym('statistics'), silent=True)
        e.write(st, at(5), new_layout, silent=True)
        e.write(st, at(6, 'font'), new_font, silent=True)
        e.write(st, at(6, 'color'), new_color, silent=True)
        return [(st, UNIT)]
    segs = c.run(name, overrides={casc: cascade})
    base = c.run(dflt)
    if segs is None or base is None:
        return
    fresh = {s.value for s in base if s.kind == 'ret'}
    self_, node, input_, sizes, variables = c.params(name)
    tree = f(self_, 'tree')
    e = ('ctx', node)
    par = ('vf', ('parent', node), 'Some', '0')
    pe = ('ctx', par)
    kids = ('children', cint(0), node)

    def failed(s):
        for t, x in s.facts.items():
            if x == ('in', frozenset(['None'])) and t in (('parent', node), ('hasctx', par), ('hasctx', node)):
                return True
            if x == ('in', frozenset(['Err'])):
                return True
        return False

    def metrics(p):
        return any(x == f(self_, 'metrics') for x in T.subterms(p))

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('computing styles can panic')
        ef = Effects(s.all_events, skip_place=metrics)
        if T.variant_of(s.value) == 'Err':
            if not failed(s):
                raise Mismatch('computing styles fails although the tree is complete')
            return
        writes = {p: v for p, v in ef.writes.items() if p[0] == 'f'}
        steps = [x for x in ef.calls if short_name(x[0]) == short_name(casc)]
        if k.some(f(e, 'text')):
            if steps or abandoned(s.all_events):
                raise Mismatch('rules are applied to a text')
            for p, v in writes.items():
                if p[0] != 'f' or not (T.subterms_has(p, e) if hasattr(T, 'subterms_has') else any(x == e for x in T.subterms(p))):
                    raise Mismatch(f'styling a text changes something else: {pp(p)}')
            change = []
            for x in FONT:
                p, w = f(f(e, 'font'), x), f(f(pe, 'font'), x)
                got = writes.get(p, p)
                if f(e, 'font') in writes:
                    got = T.field(writes[f(e, 'font')], x)
                k.require_same(got, w, f'font {x} of a text')
                change.append((p, w))
            k.require_same(writes.get(f(e, 'color'), f(e, 'color')), f(pe, 'color'), 'colour of a text')
            dirty = [m for m in ef.muts if m[0] == tree and m[1] == 'mark_dirty' and m[2][0] == node]
            if [m for m in ef.muts if m not in dirty]:
                raise Mismatch('styling a text changes the tree')
            if not dirty and not unchanged_font(k, s, e, pe):
                for p, w in change:
                    if not k.eq(p, w):
                        raise Mismatch(f'a text whose {p[2]} changes is not measured again')
            return
        if len(steps) != 1:
            raise Mismatch(f'the rules are applied {len(steps)} times to an element')
        a = steps[0][1]
        k.require_same(T.field(a[0], 'css'), f(self_, 'css'), 'rules in effect')
        k.require_same(T.field(a[0], 'variables'), variables, 'variables known to an element')
        k.require_same(T.field(a[0], 'sizes'), sizes, 'sizes known to an element')
        if a[1] != input_ or a[2] != node or tree_base(a[3]) != tree or a[7] != self_:
            raise Mismatch('the rules are not applied to the element with the current state and time')
        if a[4] != pe or a[6] != e:
            raise Mismatch('the rules are not applied to the element with its parent')
        if a[5] not in fresh:
            raise Mismatch('the layout of an element starts from a previous update instead of the initial values')
        muts = [m for m in ef.muts]
        sets = [m for m in muts if m[0] == tree and m[1] == 'set_style']
        if [m for m in muts if m not in sets]:
            raise Mismatch('computing styles changes something else')
        if sets:
            if [m[2] for m in sets] != [(node, new_layout)]:
                raise Mismatch('the layout does not get the computed style of the element')
        elif not k.eq(('style', node), new_layout):
            raise Mismatch('a changed style does not reach the layout')
        if writes:
            raise Mismatch(f'computing styles changes something else: {pp(list(writes)[0])}')
        void = any(k.eq(f(e, 'tag'), cstr(t)) for t in VOID)
        walked = [d for ev in s.all_events if ev[0] == 'loop' for d in s.doms.get(ev[1], ())]
        if void:
            if [d for d in walked if d == kids]:
                raise Mismatch('the content of a void element is styled like children')
        elif kids not in walked or abandoned(s.all_events):
            raise Mismatch('not every shown child is styled')

    def unchanged_font(k, s, e, pe):
        """The path compared the whole font."""
        for t, x in s.facts.items():
            if x == ('eq', TRUE) and t[0] == 'op' and t[1] == 'eq' and f(e, 'font') in t[2:]:
                o = t[3] if t[2] == f(e, 'font') else t[2]
                if all(k.same(T.field(o, n), f(f(pe, 'font'), n)) for n in FONT):
                    return True
        return False

    n = c.compare(segs, whole, 'element', name, lambda s: s.kind != 'back')
    c.floor(n, 4, 'paths of an element', 'element')

    def child(k):
        s = k.seg
        if s.dom != kids:
            raise Mismatch(f'something else than the shown children is styled: {pp(s.dom)}')
        ef = Effects(s.events, skip_place=metrics)
        if [short_name(x[0]) for x in ef.calls] != [short_name(name)] or ef.muts:
            raise Mismatch('a child is not styled exactly once')
        if failing(s, short_name(name)) or swallowed(k, s, short_name(name)):
            raise Mismatch('an error of styling a child goes unnoticed')
        a = ef.calls[0][1]
        if a[0] != self_ or a[1] != el(kids) or a[2] != input_:
            raise Mismatch('a child is not styled with the current state and time')
        k.require_same(a[4], new_vars, 'variables known to a child')
        want = {'parent_font_size': f(new_font, 'size'), 'parent_color': new_color}
        for x in ('root_font_size', 'parent_font_size', 'parent_color', 'viewport_width', 'viewport_height'):
            k.require_same(T.field(a[3], x), want.get(x, f(sizes, x)), f'{x} known to a child')
    n = c.compare(segs, child, 'child', name, lambda s: s.kind == 'back')
    c.floor(n, 1, 'paths for a child', 'child')


# ------------------------------------------------------------------ C13 positions
@prop('C13')
def positions(c):
    name = c.find('View::compute_final_positions_and_clipping')
    if not name:
        return
    segs = c.run(name)
    if segs is None:
        return
    self_, node, location, opacity, clipping = c.params(name)
    tree = f(self_, 'tree')
    e = ('ctx', node)
    lay = ('layout', node)
    kids = ('children', cint(0), node)
    metrics = lambda p: any(x == f(self_, 'metrics') for x in T.subterms(p))

    def place(k):
        """What the element must become, and what its children must be given."""
        x = T.op('add', f(f(lay, 'location'), 'x'), f(location, 'x'))
        y = T.op('add', f(f(lay, 'location'), 'y'), f(location, 'y'))
        size, content = f(lay, 'size'), f(lay, 'content_size')
        scroll = scrolling(k, lay, f(e, 'scrolling'))
        op_ = T.op('mul', opacity, f(e, 'self_opacity'))
        want = {'opacity': op_, 'position': ('arr', (x, y)), 'size': ('arr', (f(size, 'width'), f(size, 'height'))),
                'content_size': ('arr', (f(content, 'width'), f(content, 'height'))), 'clipping': clipping, 'scrolling': scroll}
        return x, y, op_, scroll, want

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('computing positions can panic')
        if T.variant_of(s.value) == 'Err':
            if not (decided(s.facts, ('isv', ('hasctx', node), 'None')) or any(
                    x == ('in', frozenset(['Err'])) for t, x in s.facts.items())):
                raise Mismatch('computing positions fails although the tree is complete')
            return
        x, y, op_, scroll, want = place(k)
        ef = Effects(s.all_events, skip_place=metrics)
        whole_ = ef.writes
        for n, w in want.items():
            got = whole_.get(f(e, n), f(e, n))
            sub = {p: v for p, v in whole_.items() if p[0] in ('f', 'index', 'vf') and p[1] == f(e, n)}
            if sub and f(e, n) not in whole_:
                for p, v in sub.items():
                    i = p[2] if p[0] == 'f' else p[-1]
                    k.require_same(v, T.index(w, i) if p[0] == 'index' else T.field(w, i), f'{n} of an element')
                if len(sub) < (len(w[1]) if w[0] == 'arr' else 1):
                    raise Mismatch(f'{n} of an element is only set in part')
                continue
            same_scroll(k, got, w) if n == 'scrolling' else k.require_same(got, w, f'{n} of an element')
        for p in whole_:
            if not any(p == f(e, n) or (p[0] in ('f', 'index') and p[1] == f(e, n)) for n in want):
                raise Mismatch(f'computing positions changes something else: {pp(p)}')
        if ef.muts:
            raise Mismatch('computing positions changes the tree')
        walked = [d for ev in s.all_events if ev[0] == 'loop' for d in s.doms.get(ev[1], ())]
        if kids not in walked or abandoned(s.all_events):
            raise Mismatch('not every shown child gets its position')
    n = c.compare(segs, whole, 'element', name, lambda s: s.kind != 'back')
    c.floor(n, 2, 'paths of an element', 'element')

    def child(k):
        s = k.seg
        if s.dom != kids:
            raise Mismatch(f'something else than the shown children gets a position: {pp(s.dom)}')
        ef = Effects(s.events, skip_place=metrics)
        if [short_name(x[0]) for x in ef.calls] != [short_name(name)] or ef.muts or ef.writes:
            raise Mismatch('a child does not get its position exactly once')
        if failing(s, short_name(name)) or swallowed(k, s, short_name(name)):
            raise Mismatch('an error of positioning a child goes unnoticed')
        x, y, op_, scroll, want = place(k)
        a = ef.calls[0][1]
        if a[0] != self_ or a[1] != el(kids):
            raise Mismatch('something else than the shown child gets a position')
        some = T.variant_of(scroll) == 'Some'
        sc = T.field(scroll, '0') if some else None
        k.require_same(T.field(a[2], 'x'), T.op('sub', x, T.field(sc, 'x')) if some else x, 'where the content of an element starts, horizontally')
        k.require_same(T.field(a[2], 'y'), T.op('sub', y, T.field(sc, 'y')) if some else y, 'where the content of an element starts, vertically')
        k.require_same(a[3], op_, 'opacity inherited by a child')
        if some:
            if T.variant_of(a[4]) != 'Some':
                raise Mismatch('the content of a scrolled element is not clipped by it')
            box = T.field(a[4], '0')
            k.require_same(T.field(T.field(box, 'location'), 'x'), x, 'clipping box')
            k.require_same(T.field(T.field(box, 'location'), 'y'), y, 'clipping box')
            for d in ('width', 'height'):
                k.require_same(T.field(T.field(box, 'size'), d), f(f(lay, 'size'), d), 'clipping box')
        else:
            k.require_same(a[4], clipping, 'clipping passed to the children')
    n = c.compare(segs, child, 'child', name, lambda s: s.kind == 'back')
    c.floor(n, 1, 'paths for a child', 'child')


def scrolling(k, lay, current):
    """Scrolling of a box: none if the content fits, else its range and the previous offset limited to it."""
    size, content = f(lay, 'size'), f(lay, 'content_size')
    dx = T.op('sub', f(content, 'width'), f(size, 'width'))
    dy = T.op('sub', f(content, 'height'), f(size, 'height'))
    ox, oy = k.ask(T.op('lt', cflt(0.0), dx)), k.ask(T.op('lt', cflt(0.0), dy))
    if not ox and not oy:
        return T.NONE
    had = k.some(current)
    cur = ('vf', current, 'Some', '0')

    def offset(n, over, d):
        if not over or not had:
            return cflt(0.0)
        o = f(cur, n)
        # an offset is never negative (C13: offset), so a range of nothing leaves nothing
        if k.ask(T.op('lt', o, cflt(0.0))):
            k.infeasible()
        a, b = k.ask(T.op('lt', o, d)), k.ask(T.op('lt', d, o))
        if a and b:
            k.infeasible()
        return o if a or not b else d
    fs = (('x', offset('x', ox, dx)), ('y', offset('y', oy, dy)),
          ('scroll_x', dx if ox else cflt(0.0)), ('scroll_y', dy if oy else cflt(0.0)))
    if had:
        for n, over in (('x', ox), ('y', oy)):
            if not over:
                neg = T.op('lt', f(cur, n), cflt(0.0))
                if k.ask(neg):
                    k.infeasible()
    return T.some(T.adt('styles::scrolling::Scrolling', 'Scrolling', fs))


def same_number(k, got, want, what):
    """Equal numbers, also when a limit equals what it limits."""
    if k.same(got, want):
        return
    g, w = k.simp(got), k.simp(want)
    lt, gt = decided(k.facts, T.op('lt', g, w)), decided(k.facts, T.op('lt', w, g))
    if lt is False and gt is False:
        return
    if lt is None and gt is False or gt is None and lt is False:
        q = T.op('lt', g, w) if lt is None else T.op('lt', w, g)
        if not k.ask(q):
            return
    raise Mismatch(f'{what}: found {pp(g)}, required {pp(w)}')


def same_scroll(k, got, want):
    if T.variant_of(want) == 'None':
        k.require_same(got, want, 'scrolling of an element whose content fits')
        return
    if T.variant_of(k.simp(got)) != 'Some' and not k.some(got):
        raise Mismatch('an element whose content does not fit cannot be scrolled')
    for n in ('x', 'y', 'scroll_x', 'scroll_y'):
        same_number(k, T.field(T.field(got, '0') if got[0] == 'adt' else ('vf', got, 'Some', '0'), n), T.field(T.field(want, '0'), n),
                    {'x': 'horizontal offset', 'y': 'vertical offset', 'scroll_x': 'horizontal range', 'scroll_y': 'vertical range'}[n])


@prop('C13')
def scroll_offset(c):
    name = c.find('Scrolling::offset')
    if not name:
        return
    segs = c.run(name)
    if segs is None:
        return
    self_, wheel = c.params(name)

    def whole(k):
        s = k.seg
        if s.kind != 'ret':
            raise Mismatch('scrolling can panic')
        ef = Effects(s.all_events)
        places = {f(self_, 'x'): (0, 1, 'scroll_x'), f(self_, 'y'): (1, -1, 'scroll_y')}
        for p in ef.writes:
            if p not in places:
                raise Mismatch(f'scrolling changes something else: {pp(p)}')
        for p, (i, sign, limit) in places.items():
            w, rng = T.index(wheel, cint(i)), f(self_, limit)
            got = ef.writes.get(p, p)
            if k.eq(w, cflt(0.0)):
                k.require_same(got, p, 'an offset without motion of the wheel')
                continue
            if k.ask(T.op('lt', rng, cflt(0.0))):
                k.infeasible()      # ranges are never negative (C13: ranges)
            way = ('op', 'signum', w)
            if not mentions((got, tuple(s.facts)), lambda t: t == way):
                way = cflt(1.0 if k.ask(T.op('lt', cflt(0.0), w)) else -1.0)
            to = T.op('add', p, T.op('mul', cflt(50.0 * sign), way))
            below, above = k.ask(T.op('lt', to, cflt(0.0))), k.ask(T.op('lt', rng, to))
            none = not k.ask(T.op('lt', cflt(0.0), rng))
            if below and above:
                k.infeasible()
            want = cflt(0.0) if below else rng if above else to
            if none and k.simp(got) in (cflt(0.0), rng) and (below or above):
                continue
            if none and not below and not above and k.simp(got) in (cflt(0.0), rng, to):
                continue
            same_number(k, got, want, 'offset after scrolling')
    n = c.compare(segs, whole, 'offset', name)
    c.floor(n, 3, 'paths of scrolling', 'offset')


@prop('C13')
def measured_text(c):
    name = c.find('view::measure_text')
    if not name:
        return
    segs = c.run(name)
    if segs is None:
        return
    fonts, size, space, element = c.params(name)
    W, H = f(size, 'width'), f(size, 'height')

    def whole(k):
        s = k.seg
        if s.kind != 'ret':
            raise Mismatch('measuring can panic')
        ef = Effects(s.all_events)
        got = (T.field(s.value, 'width'), T.field(s.value, 'height'))
        ms = [x for x in ef.calls if short_name(x[0]) == 'measure']
        if ef.writes or ef.muts:
            raise Mismatch('measuring changes something')

        def both(a, b, what):
            k.require_same(got[0], a, what + ': width')
            k.require_same(got[1], b, what + ': height')
        if k.some(W) and k.some(H):
            return both(('vf', W, 'Some', '0'), ('vf', H, 'Some', '0'), 'an element whose size is known')
        txt = f(('vf', element, 'Some', '0'), 'text')
        if not k.some(element) or not k.some(txt):
            return both(cflt(0.0), cflt(0.0), 'an element without text')
        if len(ms) != 1:
            raise Mismatch('a text is not measured')
        a = ms[0][1]
        if a[0] != fonts:
            raise Mismatch('a text is not measured with the fonts of the view')
        k.require_same(a[1], ('op', 'join', f(('vf', txt, 'Some', '0'), 'spans'), cstr('')), 'measured text')
        k.require_same(a[2], f(('vf', element, 'Some', '0'), 'font'), 'font of a measured text')
        sw = f(space, 'width')
        if k.some(W):
            limit = W
        else:
            v = k.variant(sw, ['MinContent', 'MaxContent', 'Definite'])
            limit = {'MinContent': T.some(cflt(0.0)), 'MaxContent': T.NONE}.get(v) or T.some(('vf', sw, 'Definite', '0'))
        k.require_same(a[3], limit, 'width available to a text')
        r = next(t for t in iter_terms([s.value]) if t[0] == 'call' and short_name(t[1]) == 'measure')
        both(T.index(r, cint(0)), T.index(r, cint(1)), 'a measured text')
    n = c.compare(segs, whole, 'measure', name)
    c.floor(n, 4, 'paths of measuring', 'measure')
