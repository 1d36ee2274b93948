"""JSON values: conversions (value.rs), binding new data to the model, reactions (view_model.rs)."""
from rulelib import *
from terms import *
import terms as T
from registry import prop

VAL = 'serde_json::Value'
KINDS = ['Null', 'Bool', 'Number', 'String', 'Array', 'Object']


def f(t, p):
    return fld(t, p)


def vp(v, kind):
    return ('vf', v, kind, '0')


# ------------------------------------------------------------------ C08 conversions
def text_of(k, v):
    kind = k.variant(v, KINDS)
    if kind == 'Null':
        return cstr('')
    if kind in ('Bool', 'Number'):
        return display(vp(v, kind))
    if kind == 'String':
        return vp(v, 'String')
    return cstr('[array]' if kind == 'Array' else '{object}')


def display(x):
    return ('disp', x)


def truth(k, v):
    kind = k.variant(v, KINDS)
    if kind == 'Null':
        return FALSE
    if kind == 'Bool':
        return vp(v, 'Bool')
    if kind == 'Number':
        n = T.op('as_f64', vp(v, 'Number'))
        if not k.some(n):
            return FALSE
        return T.op('not', T.mk_eq(('vf', n, 'Some', '0'), cflt(0.0)))
    if kind in ('String', 'Array'):
        return T.op('not', T.mk_eq(T.length(vp(v, kind)), cint(0)))
    return TRUE


def integer(k, v):
    kind = k.variant(v, KINDS)
    if kind == 'Bool':
        return cint(1) if k.ask(vp(v, 'Bool')) else cint(0)
    if kind == 'Number':
        n = T.op('as_f64', vp(v, 'Number'))
        if not k.some(n):
            return cint(0)
        return ('cast', 'f', 'i', ('vf', n, 'Some', '0'))
    if kind == 'String':
        p = T.op('str_parse', vp(v, 'String'), cstr('u64'))
        return ('vf', p, 'Ok', '0') if k.is_(p, 'Ok') else cint(0)
    return cint(0)


@prop('C08')
def conversions(c):
    for name, want, what in (('eval_string', text_of, 'the text of a value'), ('eval_boolean', truth, 'the truth of a value'),
                             ('eval_u64', integer, 'the integer of a value'), ('eval_usize', integer, 'the index of a value')):
        n = c.find('Value::' + name)
        if not n:
            continue
        segs = c.run(n)
        if segs is None:
            continue
        v = c.params(n)[0]

        def whole(k):
            s = k.seg
            if s.kind != 'ret':
                raise Mismatch(f'{what} can panic')
            ef = Effects(s.all_events)
            if ef.writes or ef.muts:
                raise Mismatch(f'{what}: converting changes the value')
            k.require_same(s.value, want(k, v), what)
        m = c.compare(segs, whole, name, n)
        c.floor(m, 1, f'paths of {name}', name)
    n = c.find('Value::eval_array')
    if not n:
        return
    segs = c.run(n)
    if segs is None:
        return
    v = c.params(n)[0]
    items = vp(v, 'Array')

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('listing a value can panic')
        if k.is_(v, 'Array'):
            if abandoned(s.all_events):
                raise Mismatch('some items are left out')
            if not is_list_of(k, segs, s.value, items, lambda kk, x: text_of(kk, x)):
                raise Mismatch(f'the list of texts of an array is {pp(s.value)}')
            return
        k.require_same(s.value, ('arr', (text_of(k, v),)), 'the list of a single value')
    m = c.compare(segs, whole, 'eval_array', n, lambda s: s.kind != 'back')
    c.floor(m, 1, 'paths of eval_array', 'eval_array')

    def item(k):
        s = k.seg
        if s.dom != items:
            raise Mismatch('something else than the items is listed')
        got = collected(s)
        if len(got) != 1:
            raise Mismatch('an item is left out or repeated')
        k.require_same(got[0], text_of(k, el(items)), 'the text of an item')
    m = c.compare(segs, item, 'items', n, lambda s: s.kind == 'back')
    c.floor(m, 1, 'paths for an item', 'items')
    n = c.find('Value::eval')
    segs = c.run(n) if n else None
    if segs is None:
        return
    v = c.params(n)[0]

    def ev(k):
        s = k.seg
        r = next((t for t in iter_terms([s.facts, s.value]) if t[0] == 'op' and t[1] == 'from_value' and t[2] == v), None)
        if s.kind != 'ret' or r is None:
            raise Mismatch('a value is not read as the wanted type')
        k.require_same(s.value, ('vf', r, 'Ok', '0') if k.is_(r, 'Ok') else ('call', 'default', 'T') if s.value[0] == 'call' else s.value, 'a typed value')
        if not k.is_(r, 'Ok') and 'default' not in pp(s.value):
            raise Mismatch('a value of another type is not read as the default')
    c.floor(c.compare(segs, ev, 'eval', n), 1, 'paths of eval', 'eval')


def collected(s):
    """What one iteration appends to the list being built (by collect, push or extend)."""
    out = []
    for e in s.events:
        if e[0] == 'collect':
            out.append(e[1])
        elif e[0] == 'mut' and e[2] == 'push':
            out.append(e[3][0])
        elif e[0] == 'mut':
            raise Mismatch(f'the list is built by {e[2]}')
    return out


def is_list_of(k, segs, v, dom, fn):
    """v is the list built by a loop over dom (what each iteration appends is checked on its own)."""
    if v[0] == 'lv' and dom in k.seg.doms.get(v[1], ()):
        return k.seg.inits.get(v[1], {}).get(v[2]) == ('arr', ()) and ('exit', v[1]) in [e[:2] for e in k.seg.all_events]
    if v[0] in ('collect', 'collect*'):
        return v[1] == dom
    return False


# ------------------------------------------------------------------ C09 binding new data to the model
def concat(*a):
    return T.strcat(list(a))


@prop('C09')
def bind_value(c):
    name = c.find('ViewModel::bind_value')
    react = c.find('ViewModel::react')
    if not (name and react):
        return
    segs = c.run(name, opaque=[react])
    if segs is None:
        return
    P = c.params(name)
    dst, src, path, types, bindings, reactions, transformers, defaults = P
    rest = (bindings, reactions, transformers, defaults)
    sn, rn = short_name(name), short_name(react)
    roles = {}

    def children(k, dk, sk):
        """(domain, key path of a child, its new value) by the kinds of the old and the new value."""
        return None

    def kinds(k):
        return k.variant(dst, KINDS), k.variant(src, KINDS)

    def calls(s, events):
        ef = Effects(events)
        return ef, [x for x in ef.calls if x[0] == rn], [x for x in ef.calls if x[0] == sn]

    def one_reaction(rs, value=None, kind=None):
        if len(rs) != 1:
            raise Mismatch(f'{len(rs)} notifications instead of one where the value changed')
        a = rs[0][1]
        if a[0] != path or (a[2], a[3], a[4]) != (bindings, reactions, transformers):
            raise Mismatch('the notification is not about the changed place')
        if value is not None and a[1] != value:
            raise Mismatch(f'the notification carries {pp(a[1])} instead of {pp(value)}')
        if kind is not None and not (T.variant_of(a[1]) == kind or kind_known(a[1], kind)):
            raise Mismatch(f'the notification carries {pp(a[1])}')

    def kind_known(v, kind):
        return v == src and kind == 'Object'

    def arrays(k, s):
        """The old items as they are walked, after the length was adapted."""
        cur, new = vp(dst, 'Array'), vp(src, 'Array')
        return cur, new, k.eq(T.length(cur), T.length(new))

    def finish(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('binding can panic')
        dk, sk = kinds(k)
        ef, rs, rec = calls(s, s.all_events)
        if abandoned(s.all_events):
            raise Mismatch('some items or fields are not bound')
        looped = [e[1] for e in s.all_events if e[0] == 'loop']
        if dk == 'Array' and sk == 'Array':
            cur, new, same = arrays(k, s)
            edits = [(m[0], m[1], m[2]) for m in ef.muts] + [(p, ':=', v) for p, v in ef.writes.items()]
            order = [o for o in ef.order if o[0] != 'call' or o[1][0] == rn]
            if same:
                if edits or rs:
                    raise Mismatch('a list of the same length is changed or notified as a whole')
            else:
                d = ('get', defaults, types)
                if k.some(d):
                    k_ok = edits == [(cur, 'resize', (T.length(new), ('vf', d, 'Some', '0')))]
                else:
                    k_ok = edits in ([(cur, ':=', new)], [(dst, ':=', src)])
                if not k_ok:
                    raise Mismatch(f'a list of another length does not get the new length: {[(pp(e[0]), e[1]) for e in edits]}')
                one_reaction(rs, src)
                ir = next(i for i, o in enumerate(order) if o[0] == 'call')
                il = [i for i, o in enumerate(order) if o[0] == 'loop']
                if il and il[0] < ir:
                    raise Mismatch('items are notified before the list')
            lv = items(k, s, looped, same)
            if same or lv is None or s.value != lv:
                result(k, s, TRUE if not same else None, looped)
            return
        if dk == 'Array' and sk == 'Null':
            n = T.length(vp(dst, 'Array'))
            if k.eq(n, cint(0)):
                if ef.muts or ef.writes or rs:
                    raise Mismatch('an empty list is notified when it becomes null')
                k.require_same(s.value, FALSE, 'whether something changed')
            else:
                ok = [(m[0], m[1]) for m in ef.muts] == [(vp(dst, 'Array'), 'clear')] or \
                     [(m[0], m[1], m[2]) for m in ef.muts] == [(vp(dst, 'Array'), 'truncate', (cint(0),))] or \
                     list(ef.writes.items()) in ([(vp(dst, 'Array'), ('arr', ()))], [(dst, T.adt(VAL, 'Array', (('0', ('arr', ())),)))])
                if not ok:
                    raise Mismatch('a list does not become empty when it becomes null')
                one_reaction(rs, T.adt(VAL, 'Array', (('0', ('arr', ())),)))
                k.require_same(s.value, TRUE, 'whether something changed')
            return
        if dk == 'Array':
            if ef.muts or ef.writes or rs or rec:
                raise Mismatch('a list is changed by a value that is not a list')
            k.require_same(s.value, FALSE, 'whether something changed')
            return
        if dk == 'Object' and sk in ('Object', 'Null'):
            if ef.muts or ef.writes:
                raise Mismatch('an object is replaced instead of bound by field')
            lv = items(k, s, looped, True)
            if k.ask(lv):
                one_reaction(rs, NULL if sk == 'Null' else None, 'Object' if sk == 'Object' else None)
            elif rs:
                raise Mismatch('an unchanged object is notified')
            result(k, s, None, looped)
            return
        same = k.eq(dst, src)
        if same:
            if ef.muts or ef.writes or rs:
                raise Mismatch('an unchanged value is notified')
            k.require_same(s.value, FALSE, 'whether something changed')
        else:
            if ef.muts or list(ef.writes.items()) != [(dst, src)]:
                raise Mismatch('a changed value is not remembered')
            one_reaction(rs, src)
            k.require_same(s.value, TRUE, 'whether something changed')

    def items(k, s, looped, same):
        if len(looped) != 1:
            raise Mismatch('the items or fields are not bound, all of them once')
        key = looped[0]
        init = {n: k.simp(v) for n, v in s.inits.get(key, {}).items() if is_bool_term(v)}
        cand = set(init)
        if not cand:
            if not same:
                return None
            raise Mismatch('whether something changed is not remembered')
        if len(cand) > 1:
            raise Mismatch('more than one flag is kept')
        n = next(iter(cand))
        if k.ask(init[n]) == same:
            raise Mismatch('whether something changed does not start from the change of length')
        roles.setdefault('flags', set()).add(n)
        return ('lv', key, n)

    def result(k, s, want, looped):
        if want is not None:
            k.require_same(s.value, want, 'whether something changed')
            return
        lv = items(k, s, looped, True)
        if not k.same(s.value, lv):
            raise Mismatch(f'whether something changed is answered by {pp(s.value)}')
    n = c.compare(segs, finish, 'bind', name, lambda s: s.kind != 'back')
    c.floor(n, 3, 'paths of the binding', 'bind')

    seen = set()

    def child(k):
        s = k.seg
        dk, sk = kinds(k)
        ef, rs, rec = calls(s, s.events)
        if rs or ef.muts or ef.writes:
            raise Mismatch('walking the items or fields changes something itself')
        if len(rec) != 1:
            raise Mismatch('an item or field is not bound exactly once')
        a = rec[0][1]
        if a[4:] != rest:
            raise Mismatch('an item or field is bound with other bindings')
        if dk == 'Array' and sk == 'Array':
            cur, new, same = arrays(k, s)
            d = ('get', defaults, types)
            want = {cur} if same else {('m', 'resize', cur, (T.length(new), ('vf', d, 'Some', '0')))} if k.some(d) else {new}
            doms = {x for x in T.subterms(a[0]) if x in want}
            i = ('idx', next(iter(want)), 'K')
            item = [el(next(iter(want)))]
            if s.dom == new and not same and k.some(d):
                # the resized list is as long as the new one, so the indexes are the same
                i = ('idx', new, 'K')
                item = [T.index(next(iter(want)), i)]
            elif s.dom != next(iter(want)):
                raise Mismatch(f'not all items are bound: {pp(s.dom)}')
            key = display(i)
            val = T.index(new, i) if same or k.some(d) else el(new)
            suffix = roles.get('items')
            k.require_same(a[0], item[0], 'the bound item')
            k.require_same(a[1], val, 'the new value of an item')
            k.require_same(a[2], concat(path, cstr('/'), key), 'the place of an item')
            t = a[3]
            if not (t[0] == 'cat' and t[1][0] == types and len(t[1]) == 2 and t[1][1][0] == 'c' and t[1][1][2].startswith('/')):
                raise Mismatch(f'the items of a list share the defaults of the list itself: {pp(t)}')
            roles['items'] = t[1][1]
            seen.add('items')
        elif dk == 'Object' and sk in ('Object', 'Null'):
            m = vp(dst, 'Object')
            if entries_of(s.dom) != m:
                raise Mismatch('not the known fields are bound')
            keyt, v = ('mapk', m, 'K'), ('mapv', m, 'K')
            g = ('get', vp(src, 'Object'), keyt)
            want = NULL
            if sk == 'Object' and k.some(g):
                want = ('vf', g, 'Some', '0')
            k.require_same(a[0], v, 'the bound field')
            k.require_same(a[1], want, 'the new value of a field')
            k.require_same(a[2], concat(path, cstr('/'), keyt), 'the place of a field')
            k.require_same(a[3], concat(types, cstr('/'), keyt), 'the type of a field')
            seen.add('fields')
        else:
            raise Mismatch(f'{dk} bound to {sk} is walked by item')
        init = {n: k.simp(v) for n, v in s.inits.get('K', {}).items() if is_bool_term(v)}
        r = ('call', sn, a)
        r2 = ('call', name, a)
        flags = list(init)
        for n in flags:
            lv = ('lv', 'K', n)
            u = s.updates.get(n, lv)
            if u in (lv, TRUE) and k.ask(init[n]):
                continue    # it is raised and stays so
            rr = next((t for t in T.subterms(u) if t[0] == 'call' and t[1] in (sn, name)), None)
            res = rr if rr is not None else next((t for t in s.facts if t[0] == 'call' and t[1] in (sn, name)), r2)
            if not k.same(u, T.op('or', lv, res)):
                raise Mismatch(f'a change of an item or field is forgotten: {pp(u)}')
        if not flags and not (dk == 'Array' and not arrays(k, s)[2]):
            raise Mismatch('whether an item or field changed is not remembered')
    n = c.compare(segs, child, 'child', name, lambda s: s.kind == 'back')
    c.floor(n, 2, 'paths for an item or field', 'child')
    c.obligation({'items', 'fields'} <= seen, 'walked', 'items of lists and fields of objects are not both bound', name)
    shrink(c, segs, name, dst, src)

    # the remembered defaults are found again under the same type
    mem = c.find('ViewModel::memorize_array_default')
    ms = c.run(mem) if mem else None
    if ms is None:
        return
    tp, v, out = c.params(mem)

    def memo(k):
        s = k.seg
        ef = Effects(s.events if s.kind == 'back' else s.all_events)
        kd = k.variant(v, KINDS)
        if s.kind == 'panic':
            return
        if ef.writes:
            raise Mismatch('remembering defaults changes something else')
        if kd == 'Array':
            first = T.index(vp(v, 'Array'), cint(0))
            if ef.muts != [(out, 'insert', (tp, first))]:
                raise Mismatch('the first item of a list is not remembered as its default')
            want = (concat(tp, roles.get('items', cstr('?'))), first, out)
            if [x[1] for x in ef.calls] != [want]:
                raise Mismatch('the defaults of nested lists are not remembered where they are looked up')
        elif kd == 'Object':
            m = vp(v, 'Object')
            if s.kind == 'back':
                if entries_of(s.dom) != m or [x[1] for x in ef.calls] != [(concat(tp, cstr('/'), ('mapk', m, 'K')), ('mapv', m, 'K'), out)] or ef.muts:
                    raise Mismatch('the defaults of a field are not remembered where they are looked up')
            elif abandoned(s.all_events) or not any(e[0] == 'loop' for e in s.all_events):
                raise Mismatch('the defaults of some fields are not remembered')
        elif ef.muts or ef.calls:
            raise Mismatch('a plain value is remembered as a list')
    n = c.compare(ms, memo, 'defaults', mem)
    c.floor(n, 2, 'paths of remembering the defaults', 'defaults')


NULL = T.adt(VAL, 'Null', ())


def shrink(c, segs, name, dst, src):
    """Items that a shorter list drops must be reset, or shown anew when the list grows again."""
    cur, new = vp(dst, 'Array'), vp(src, 'Array')
    for s in segs:
        if s.kind != 'ret':
            continue
        for e in s.all_events:
            if e[0] == 'mut' and e[1] == cur and e[2] in ('resize', 'clear', 'truncate'):
                before = s.all_events[:s.all_events.index(e)]
                reset = any(x[0] == 'loop' for x in before)
                c.obligation(reset, 'stale-items:' + ('null' if e[2] != 'resize' else 'shorter'),
                             'items dropped from a list are not reset: when the list grows again with null in them they still show the dropped data', name)


# ------------------------------------------------------------------ C10 reactions
@prop('C10')
def reactions(c):
    name = c.find('ViewModel::react')
    rvc = c.find('Binding::react_value_change')
    if not (name and rvc):
        return
    segs = c.run(name, opaque=[rvc])
    if segs is not None:
        path, value, bindings, out, transformers = c.params(name)
        got = ('get', bindings, path)
        lst = ('vf', got, 'Some', '0')
        pipe = f(el(lst), 'pipe')
        roles = {}

        def whole(k):
            s = k.seg
            if s.kind == 'panic':
                raise Mismatch('notifying bindings can panic')
            ef = Effects(s.all_events)
            loops = [e[1] for e in s.all_events if e[0] == 'loop']
            if [m for m in ef.muts if m[0] != out] or ef.writes or ef.calls:
                raise Mismatch('notifying bindings does something else')
            if not k.some(got):
                if ef.muts:
                    raise Mismatch('a place without bindings is notified')
                return
            if len(loops) != 1 or lst not in s.doms.get(loops[0], ()) or abandoned(s.all_events):
                raise Mismatch('not every binding of the changed place is notified, in order')
        n = c.compare(segs, whole, 'notify', name, lambda s: s.kind != 'back')
        c.floor(n, 1, 'paths of the notification', 'notify')

        def each(k):
            s = k.seg
            if s.dom != lst:
                return
            ef = Effects(s.events)
            if len(ef.muts) != 1 or ef.muts[0][:2] != (out, 'push') or ef.writes:
                raise Mismatch('a binding does not produce exactly one reaction')
            r = ef.muts[0][2][0]
            if r[0] != 'call' or short_name(r[1]) != short_name(rvc) or r[2][0] != el(lst):
                raise Mismatch(f'the reaction is not the one of the binding: {pp(r)}')
            v = r[2][1]
            if v[0] == 'lv' and any(pp_eq(d, pipe) for d in s.doms.get(v[1], ())):
                init = s.inits.get(v[1], {}).get(v[2])
                if init != value:
                    raise Mismatch('the transformers do not start from the new value')
                if v[1] in abandoned(s.events):
                    raise Mismatch('some transformers are not applied')
                roles['value'] = v[2]
            elif k.eq(T.length(pipe), cint(0)):
                k.require_same(v, value, 'the value of a reaction')
            else:
                raise Mismatch(f'the value does not go through the transformers of the binding: {pp(v)}')
        n = c.compare(segs, each, 'binding', name, lambda s: s.kind == 'back' and s.dom == lst)
        c.floor(n, 1, 'paths for a binding', 'binding')

        def transform(k):
            s = k.seg
            if not (s.dom[0] == 'f' and s.dom[2] == 'pipe'):
                raise Mismatch(f'something else than bindings and transformers is walked: {pp(s.dom)}')
            t = ('get', transformers, el(s.dom))
            cur = ('lv', 'K', roles.get('value', 'value'))
            new = s.updates.get(roles.get('value', 'value'), cur)
            if k.some(t):
                k.require_same(new, ('call', 'fnptr', (('vf', t, 'Some', '0'), cur)), 'a transformed value')
            else:
                k.require_same(new, cur, 'a value whose transformer is unknown')
        n = c.compare(segs, transform, 'transform', name, lambda s: s.kind == 'back' and s.dom != lst)
        c.floor(n, 1, 'paths for a transformer', 'transform')
    b, v = c.params(rvc)
    ts, tb = c.find('Value::eval_string'), c.find('Value::eval_boolean')
    if not (ts and tb):
        return
    segs = c.run(rvc, opaque=[ts, tb])
    if segs is None:
        return
    p = f(b, 'params')
    BP, RX = 'view_model::BindingParams', 'view_model::Reaction'

    def arg(kind, i):
        return ('vf', p, kind, str(i))

    def table(k):
        s = k.seg
        if s.kind != 'ret':
            raise Mismatch('reacting can panic')
        if Effects(s.all_events).muts or Effects(s.all_events).writes:
            raise Mismatch('reacting changes the binding')
        kind = k.variant(p, ['Text', 'Visibility', 'Attribute', 'Tag', 'Repeat'])
        r = s.value
        text, truth_ = ('call', short_name(ts), (v,)), ('call', short_name(tb), (v,))

        def fields(variant, **kw):
            if T.variant_of(r) != variant:
                raise Mismatch(f'a {kind} binding reacts by {T.variant_of(r)}')
            for n, w in kw.items():
                g = T.field(r, n)
                if w in (text, truth_):
                    ok = g[0] == 'call' and short_name(g[1]) == w[1] and g[2] == (v,)
                    if not ok:
                        raise Mismatch(f'the {n} of the reaction is {pp(g)}')
                else:
                    k.require_same(norm_calls(g), w, f'{n} of the reaction of a {kind} binding')
        if kind == 'Text':
            fields('Type', node=arg(kind, 0), span=arg(kind, 1), text=text)
        elif kind == 'Visibility':
            fields('Reattach', parent=arg(kind, 0), node=arg(kind, 1), visible=T.mk_eq(truth_, arg(kind, 2)))
        elif kind == 'Attribute':
            fields('Bind', node=arg(kind, 0), key=arg(kind, 1), span=arg(kind, 2), text=text)
        elif kind == 'Tag':
            fields('Tag', node=arg(kind, 0), key=arg(kind, 1), tag=truth_)
        else:
            start, size = arg(kind, 1), arg(kind, 2)
            if k.is_(v, 'Array'):
                n = T.length(vp(v, 'Array'))
                shown = size if k.ask(T.op('lt', size, n)) else n
            else:
                shown = cint(0)
            fields('Repeat', parent=arg(kind, 0), start=start, end=T.op('add', start, size))
            g = T.field(r, 'cursor')
            w = T.op('add', start, shown)
            if not k.same(g, w):
                if not (k.is_(v, 'Array') and k.eq(T.length(vp(v, 'Array')), size) and k.same(g, T.op('add', start, size))):
                    raise Mismatch(f'the number of shown items: found {pp(k.simp(g))}, required {pp(k.simp(w))}')
    n = c.compare(segs, table, 'reaction', rvc)
    c.floor(n, 5, 'paths of the reaction table', 'reaction')
    bind_all(c)


def bind_all(c):
    name = c.find('ViewModel::bind')
    bv = c.find('ViewModel::bind_value')
    if not (name and bv):
        return
    done = sym('reactions of the binding')

    def binding(e, st, args, call):
        a = tuple(e.val(st, x) for x in args)
        st.emit('call', bv, a, e.where(call))
        e.write(st, e.deref_loc(args[5]), done, silent=True)
        return [(st, ('call', short_name(bv), a))]
    segs = c.run(name, overrides={bv: binding})
    if segs is None:
        return
    self_, value = c.params(name)

    def whole(k):
        s = k.seg
        if s.kind != 'ret':
            raise Mismatch('binding can panic')
        ef = Effects(s.all_events)
        want = (f(self_, 'model'), value, cstr(''), cstr(''), f(self_, 'bindings'), ('arr', ()), f(self_, 'transformers'),
                f(self_, 'model_array_default'))
        if [x[1] for x in ef.calls] != [want]:
            raise Mismatch('the new data is not bound to the whole model, from its root')
        k.require_same(s.value, done, 'the reactions of an update')
    n = c.compare(segs, whole, 'root', name)
    c.floor(n, 1, 'paths of the update', 'root')


def norm_calls(t):
    """Calls by short name."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'call' and isinstance(t[1], str):
            return ('call', short_name(t[1]), norm_calls(t[2]))
        return tuple(norm_calls(x) for x in t)
    return t


def entries_of(d):
    """The map whose entries are walked."""
    return d[1] if d and d[0] == 'pairs' else d


def pp_eq(a, b):
    """Equal up to the name of the loop."""
    import re
    return re.sub(r"'(K|L\d+)'", "'*'", repr(a)) == re.sub(r"'(K|L\d+)'", "'*'", repr(b))
