"""Pointer, keyboard, focus, drag, captured input and emitted messages (view_model.rs)."""
from rulelib import *
from terms import *
import terms as T
from registry import prop

SELF = sym('self')
OPTS = T.OPT


def f(t, p):
    return fld(t, p)


def at(t, i):
    return T.index(t, cint(i))


def missing_element(seg):
    """Paths on which a node of the tree has no element (rendering gives every node one: see C23)."""
    return any(t[0] == 'hasctx' and ff == ('in', frozenset(['None'])) for t, ff in seg.facts.items())


def element_at(n):
    return ('ctx', n)


# ------------------------------------------------------------------ C01 hit test
@prop('C01')
def hit_test(c):
    name = c.find('ViewModel::calculate_mouse_hovers')
    if not name:
        return
    segs = c.run(name)
    if segs is None:
        return
    P = c.params(name)
    self_, tree, node, pos = P
    e = element_at(node)
    under = f(self_, 'elements_under_mouse')
    kids = ('children', cint(0), node)

    def inside(k):
        if not k.is_(f(e, 'pointer_events'), 'Auto'):
            return False
        if not k.ask(f(e, 'visible')):
            return False
        for i in (0, 1):
            d = T.op('sub', at(pos, i), at(f(e, 'position'), i))
            if k.ask(T.op('lt', d, cflt(0.0))):
                return False
            if not k.ask(T.op('lt', d, at(f(e, 'size'), i))):
                return False
        return True

    def recursive(args):
        return args == (self_, tree, el(kids), pos)

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events, locals_too=False)
        ins = inside(k)
        pushes = [m for m in ef.muts if m[0] == under]
        if ins and pushes != [(under, 'push', (node,))]:
            raise Mismatch('an element under the pointer is not recorded exactly once')
        if not ins and pushes:
            raise Mismatch('an element that is hidden, ignores the pointer or lies elsewhere is recorded as under the pointer')
        if [m for m in ef.muts if m[0] != under] or ef.writes:
            raise Mismatch('the hit test changes something else')
        # order: the element is recorded before its descendants are visited
        first = next((i for i, o in enumerate(ef.order) if o[0] == 'loop'), None)
        p = next((i for i, o in enumerate(ef.order) if o[0] == 'mut'), None)
        if p is not None and first is not None and first < p:
            raise Mismatch('descendants are recorded before the element itself')
        if abandoned(s.all_events) and T.variant_of(s.value) != 'Err':
            raise Mismatch('some children are not visited')
        if s.kind == 'ret' and first is None and not missing_element(s):
            raise Mismatch('the children are not visited')
    n = c.compare(segs, whole, 'hit', name, lambda s: s.kind == 'ret' and not missing_element(s))
    c.floor(n, 1, 'returning paths of the hit test', 'hit')

    def body(k):
        s = k.seg
        ef = Effects(s.events)
        if s.dom != kids:
            raise Mismatch(f'the children are not visited in document order: {pp(s.dom) if s.dom else "?"}')
        if [a for a in ef.calls] != [(name.rsplit('::', 1)[-1], (self_, tree, el(kids), pos))]:
            raise Mismatch('a child is not visited exactly once with the same pointer position')
        if ef.muts or ef.writes:
            raise Mismatch('the loop over the children changes something itself')
    n = c.compare(segs, body, 'descend', name, lambda s: s.kind == 'back')
    c.floor(n, 1, 'iterations over children', 'descend')
    c.obligation(not any(s.kind == 'panic' for s in segs), 'panic', 'the hit test can panic', name)


# ------------------------------------------------------------------ pieces of the event dispatch
def mouse_event(mouse, e, state):
    return T.adt('view_model::MouseEvent', 'MouseEvent', (('position', mouse), ('target', target(e, state))))


def target(e, state):
    return T.adt('view_model::EventTarget', 'EventTarget', (('size', f(e, 'size')), ('position', f(e, 'position')),
                                                            ('state', state)))


class Dispatch:
    """The event dispatch, its callees replaced by their obligations (checked on their own)."""

    def __init__(self, c):
        self.c = c
        self.ok = False
        self.name = c.find('ViewModel::handle_elements_input')
        self.emit = c.find('ViewModel::emit')
        self.hov = c.find('ViewModel::calculate_mouse_hovers')
        if not (self.name and self.emit and self.hov):
            return
        hov = self.hov

        def hovers(e, st, args, call):
            loc = e.deref_loc(args[0])
            loc = (loc[0], loc[1] + (('f', 'elements_under_mouse'),))
            old = e.val(st, e.read(st, loc))
            a = tuple(e.val(st, x) for x in args)
            st.emit('call', hov, a[1:], e.where(call))
            r = ('call', 'hit_test', a[1:])
            out = []
            for s, v in e.fork_variant(st, r, ['Ok', 'Err']):
                if v == 'Ok':
                    e.write(s, loc, ('hovered', old, a[2], a[3]), silent=True)
                out.append((s, T.ok(UNIT) if v == 'Ok' else T.err(('vf', r, 'Err', '0'))))
            return out
        self.segs = c.run(self.name, opaque=[self.emit], overrides={hov: hovers})
        if self.segs is None:
            return
        self.P = c.params(self.name)
        self.self_, self.events, self.body, self.tree = self.P
        self.drop_err()
        self.ok = True

    def drop_err(self):
        """Paths on which a node has no element, or the hit test failed, end the update with the error."""
        keep = []
        for s in self.segs:
            bad = missing_element(s) or any(t[0] == 'call' and t[1] == 'hit_test' and ff == ('in', frozenset(['Err']))
                                            for t, ff in s.facts.items())
            if bad:
                self.c.obligation(s.kind == 'ret' and s.value[0] == 'adt' and s.value[2] == 'Err',
                                  'error-swallowed', 'an error while dispatching input is not reported', self.name)
                continue
            keep.append(s)
        self.segs = keep

    def event_of(self, s):
        """Which input event this segment is about: (term, variants) or None."""
        for t, ff in s.facts.items():
            if t[0] == 'elem' and t[1] == self.events and ff[0] == 'in':
                return t, ff[1]
        return None, None

    def about(self, variant):
        out = []
        for s in self.segs:
            t, vs = self.event_of(s)
            if t is not None and variant in vs and s.kind == 'back':
                out.append(s)
        return out

    def outer(self, variant):
        return [s for s in self.about(variant) if s.dom == self.events]

    def inner(self, variant):
        return [s for s in self.about(variant) if s.dom != self.events]

    def me(self, name):
        return f(self.self_, name)

    def cur(self, t, name):
        """Is t the value self.<name> has before this event (or this iteration) touches it?"""
        return t == self.me(name) or (t[0] == 'lv' and t[2] == f'self.{name}')

    def start(self, s, name):
        """The term of self.<name> when the segment's loop iteration begins."""
        everything = [s.facts, s.all_events, s.updates, s.doms]
        for t in iter_terms(everything):
            if t[0] == 'lv' and t[2] == f'self.{name}' and t[1] == 'K':
                return t
        for t in iter_terms(everything):
            if t[0] == 'lv' and t[2] == f'self.{name}':
                return t
        return self.me(name)

    def effects(self, s):
        """Ordered observable effects of a segment: emits, state writes, container edits; the rest is other."""
        out = []
        for e in s.events:
            if e[0] == 'call' and e[1] == self.emit:
                a = e[2]
                out.append(('emit', a[1], a[2][2] if a[2][0] == 'c' else a[2], a[3]))
            elif e[0] == 'call' and e[1] == self.hov:
                out.append(('hit', e[2]))
            elif e[0] == 'call':
                out.append(('call', e[1], e[2]))
            elif e[0] == 'w':
                out.append(('w', e[1], e[2]))
            elif e[0] == 'mut' and e[2] == 'clear' and e[1] in (self.me('elements_in_action'), self.me('elements_under_mouse')):
                out.append(('w', e[1], ('arr', ())))
            elif e[0] == 'mut' and not is_local(e[1]):
                out.append(('mut', e[1], e[2], e[3]))
            elif e[0] == 'loop':
                out.append(('loop', s.doms.get(e[1])))
        if abandoned(s.events):
            raise Mismatch('a walk over elements ends before all of them are visited')
        return out


class Want:
    """What an oracle prescribes: emits in order, final field values, container edits."""

    def __init__(self, d, k, mouse):
        self.d, self.k, self.mouse = d, k, mouse
        self.emits = []
        self.fields = {}
        self.muts = []
        self.states = {}

    def state(self, node, what, val):
        e = element_at(node)
        st = self.states.get(node, f(e, 'state'))
        self.states[node] = T.set_field(st, what, val)
        self.fields[f(f(e, 'state'), what)] = val

    def st(self, node):
        return self.states.get(node, f(element_at(node), 'state'))

    def emit(self, node, name):
        e = element_at(node)
        self.emits.append((e, name, mouse_event(self.mouse, e, self.st(node))))

    def emit_with(self, node, name, ev):
        self.emits.append((element_at(node), name, ev))

    def verify(self, k, effects):
        got = [x for x in effects if x[0] == 'emit']
        names = [x[2] for x in got]
        want = [n for _, n, _ in self.emits]
        if names != want:
            raise Mismatch(f"the notifications are {names}, required {want}")
        for (_, e, n, ev), (e2, _, ev2) in zip(got, self.emits):
            k.require_same(e, e2, f"target element of {n}")
            k.require_same(ev, ev2, f"payload of {n}")
        final = {}
        for x in effects:
            if x[0] == 'w':
                final[k.simp(x[1])] = x[2]
        wants = {k.simp(p): v for p, v in self.fields.items()}
        for p, v in final.items():
            if p in wants:
                k.require_same(v, wants[p], f"final value of {pp(p)}")
            elif not k.same(v, p):
                # setting a flag to what it provably was is no change
                if not unchanged(self.d, k, p, v):
                    raise Mismatch(f"{pp(p)} is changed to {pp(k.simp(v))}, which nothing prescribes")
        for p, v in wants.items():
            if p not in final and not k.same(p, v) and not unchanged(self.d, k, p, v):
                raise Mismatch(f"{pp(p)} must become {pp(k.simp(v))} and is not written")
        gm = [(x[1], x[2], x[3]) for x in effects if x[0] == 'mut']
        if gm != self.muts:
            raise Mismatch(f"container edits are {[(pp(a), b) for a, b, _ in gm]}, required {[(pp(a), b) for a, b, _ in self.muts]}")
        other = [x for x in effects if x[0] in ('call',)]
        if other:
            raise Mismatch(f"unexpected effect {pp(other[0])}")


def unchanged(d, k, p, v):
    for t in (('lv', 'K', pp(p)), ('lv', 'L0', pp(p)), ('lv', 'L1', pp(p))):
        if k.same(t, v):
            return True
    return False


class Loops:
    """Groups the segments of inner loops by what they iterate over."""


def in_list(k, lst, x):
    return k.some(('posof', lst, x))


# ------------------------------------------------------------------ C02 pointer motion
@prop('C02')
def motion(c):
    d = Dispatch(c)
    if not d.ok:
        return
    outer = d.outer('MouseMove')
    inner = d.inner('MouseMove')

    def parts(s):
        ev, _ = d.event_of(s)
        posn = ('vf', ev, 'MouseMove', '0')
        return ev, posn, ('hovered', ('arr', ()), d.body, posn)

    def whole(k):
        s = k.seg
        ev, posn, new = parts(s)
        ef = d.effects(s)
        if [x for x in ef if x[0] == 'emit']:
            raise Mismatch('a notification is sent outside of the walks over the elements')
        hits = [x for x in ef if x[0] == 'hit']
        if len(hits) != 1 or hits[0][1] != (d.tree, d.body, posn):
            raise Mismatch('the elements under the pointer are not recomputed once, at the new position, from the body')
        if s.updates.get('self.elements_under_mouse') is None:
            raise Mismatch('the elements under the pointer are not replaced')
        k.require_same(s.updates['self.elements_under_mouse'], new, 'the elements under the pointer (starting from none)')
        mouse = s.updates.get('self.mouse')
        if mouse is None or not k.same(mouse, posn):
            raise Mismatch('the position of the pointer is not the one of the event')
        loops = [x[1] for x in ef if x[0] == 'loop']
        want = ['left', 'now']
        got = []
        for ds in loops:
            got.append('left' if any(dm[0] == 'rev' and d.cur(dm[1], 'elements_under_mouse') for dm in ds or ()) else
                       'now' if ('rev', new) in (ds or ()) else '?')
        if [g for g in got if g != '?'] != want:
            raise Mismatch(f'the elements left, then the elements now under the pointer, must each be walked once, deepest first (found {got})')
        for n in ('focus', 'drag', 'elements_in_action'):
            u = s.updates.get(f'self.{n}')
            if u is not None and not d.cur(u, n):
                raise Mismatch(f'moving the pointer changes {n}')
    n = c.compare(outer, whole, 'move', d.name)
    c.floor(n, 1, 'paths handling a pointer motion', 'move')
    left = [s for s in inner if s.dom and s.dom[0] == 'rev' and d.cur(s.dom[1], 'elements_under_mouse')]
    now = [s for s in inner if s not in left]

    def leave(k):
        s = k.seg
        ev, posn, new = parts(s)
        n = el(s.dom)
        w = Want(d, k, posn)
        if not in_list(k, new, n):
            w.state(n, 'hover', FALSE)
            w.emit(n, 'onmouseleave')
            if k.some(d.start(s, 'drag')):
                w.emit(n, 'ondragleave')
        w.verify(k, d.effects(s))
    n = c.compare(left, leave, 'leave', d.name)
    c.floor(n, 1, 'paths for an element the pointer was over', 'leave')

    def enter(k):
        s = k.seg
        ev, posn, new = parts(s)
        if s.dom != ('rev', new):
            raise Mismatch('a pointer motion walks something else than the elements under the pointer')
        n = el(s.dom)
        w = Want(d, k, posn)
        old = next((t for t in iter_terms([s.facts]) if t[0] == 'posof' and t[2] == n), None)
        prev = old[1] if old else d.start(s, 'elements_under_mouse')
        if not d.cur(prev, 'elements_under_mouse'):
            raise Mismatch('entering is not decided by the elements previously under the pointer')
        drag = k.some(d.start(s, 'drag'))
        if not in_list(k, prev, n):
            w.state(n, 'hover', TRUE)
            w.emit(n, 'onmouseenter')
            if drag:
                w.emit(n, 'ondragenter')
        w.emit(n, 'onmousemove')
        if drag:
            w.emit(n, 'ondragover')
        w.verify(k, d.effects(s))
    n = c.compare(now, enter, 'enter', d.name)
    c.floor(n, 1, 'paths for an element under the pointer', 'enter')


# ------------------------------------------------------------------ C03 press
def draggable(k, e):
    v = ('get', f(e, 'attrs'), cstr('draggable'))
    return k.some(v) and k.eq(('vf', v, 'Some', '0'), cstr('true'))


def listens(k, e, name):
    return k.some(('get', f(e, 'listeners'), cstr(name)))


@prop('C03')
def press(c):
    d = Dispatch(c)
    if not d.ok:
        return

    def whole(k):
        s = k.seg
        under = d.start(s, 'elements_under_mouse')
        focus = d.start(s, 'focus')
        w = Want(d, k, d.start(s, 'mouse'))
        fn = ('vf', focus, 'Some', '0')
        if k.some(focus) and not in_list(k, under, fn):
            w.state(fn, 'focus', FALSE)
            w.emit(fn, 'onblur')
            w.fields[d.me('focus')] = T.NONE
        ef = d.effects(s)
        loops = [x[1] for x in ef if x[0] == 'loop']
        if len(loops) != 1 or not any(dm == ('rev', under) for dm in loops[0] or ()):
            raise Mismatch('the elements under the pointer are not walked once, deepest first')
        i = next(i for i, x in enumerate(ef) if x[0] == 'loop')
        if ef[i + 1:]:
            raise Mismatch('something happens after the walk')
        w.verify(k, ef[:i])
    n = c.compare(d.outer('MouseButtonDown'), whole, 'press', d.name)
    c.floor(n, 1, 'paths handling a pressed button', 'press')

    def body(k):
        s = k.seg
        if not (s.dom and s.dom[0] == 'rev' and d.cur(s.dom[1], 'elements_under_mouse')):
            raise Mismatch('a press walks something else than the elements under the pointer')
        ev, _ = d.event_of(s)
        button = ('vf', ev, 'MouseButtonDown', '0')
        n = el(s.dom)
        e = element_at(n)
        w = Want(d, k, d.start(s, 'mouse'))
        w.state(n, 'active', TRUE)
        w.muts.append((d.me('elements_in_action'), 'push', (n,)))
        focus = d.start(s, 'focus')
        if listens(k, e, 'oninput'):
            has = k.some(focus)
            fn = ('vf', focus, 'Some', '0')
            if has and k.eq(fn, n):
                pass
            else:
                if has:
                    w.state(fn, 'focus', FALSE)
                    w.emit(fn, 'onblur')
                w.fields[d.me('focus')] = T.some(n)
                w.state(n, 'focus', TRUE)
                w.emit(n, 'onfocus')
        w.emit(n, 'onmousedown')
        if k.is_(button, 'Left') and draggable(k, e):
            w.emit(n, 'ondragstart')
            w.fields[d.me('drag')] = T.some(T.adt('view_model::DragContext', 'DragContext', (('source', n),)))
        w.verify(k, d.effects(s))
    n = c.compare(d.inner('MouseButtonDown'), body, 'pressed', d.name)
    c.floor(n, 1, 'paths for an element under a pressed pointer', 'pressed')


# ------------------------------------------------------------------ C04 release
@prop('C04')
def release(c):
    d = Dispatch(c)
    if not d.ok:
        return
    inner = d.inner('MouseButtonUp')
    over = [s for s in inner if s.dom and s.dom[0] == 'rev' and d.cur(s.dom[1], 'elements_under_mouse')]
    rest = [s for s in inner if s not in over]

    def whole(k):
        s = k.seg
        ef = d.effects(s)
        under = d.start(s, 'elements_under_mouse')
        act = d.start(s, 'elements_in_action')
        loops = [x[1] for x in ef if x[0] == 'loop']
        if len(loops) != 2 or ('rev', under) not in (loops[0] or ()) or act not in (loops[1] or ()):
            raise Mismatch('the elements under the pointer (deepest first), then the pressed elements, must each be walked once')
        i = next(i for i, x in enumerate(ef) if x[0] == 'loop')
        drag = next((t for t in iter_terms([s.facts, s.updates]) if t[0] == 'lv' and t[2] == 'self.drag' and t[1] != 'K'),
                    d.me('drag'))
        w = Want(d, k, d.start(s, 'mouse'))
        w.fields[d.me('drag')] = T.NONE
        w.fields[d.me('elements_in_action')] = ('arr', ())
        if k.some(drag):
            w.emit(f(('vf', drag, 'Some', '0'), 'source'), 'ondragend')
        w.verify(k, [x for x in ef[i:] if x[0] != 'loop'])
        if ef[:i]:
            raise Mismatch('something happens before the walk')
    n = c.compare(d.outer('MouseButtonUp'), whole, 'release', d.name)
    c.floor(n, 1, 'paths handling a released button', 'release')

    def body(k):
        s = k.seg
        ev, _ = d.event_of(s)
        button = ('vf', ev, 'MouseButtonUp', '0')
        n = el(s.dom)
        e = element_at(n)
        w = Want(d, k, d.start(s, 'mouse'))
        w.emit(n, 'onmouseup')
        drag = d.start(s, 'drag')
        if k.some(drag):
            if listens(k, e, 'ondrop'):
                w.emit(n, 'ondrop')
                w.fields[d.me('drag')] = T.NONE
                w.emit(f(('vf', drag, 'Some', '0'), 'source'), 'ondragend')
        else:
            if k.is_(button, 'Left') and k.ask(active_flag(s, e)):
                w.emit(n, 'onclick')
            if k.is_(button, 'Right'):
                w.emit(n, 'oncontextmenu')
        w.verify(k, d.effects(s))
    n = c.compare(over, body, 'released', d.name)
    c.floor(n, 1, 'paths for an element under a released pointer', 'released')

    def settle(k):
        s = k.seg
        if not (s.dom and d.cur(s.dom, 'elements_in_action')):
            raise Mismatch('a release walks something else than the pressed elements')
        w = Want(d, k, d.start(s, 'mouse'))
        w.state(el(s.dom), 'active', FALSE)
        w.verify(k, d.effects(s))
    n = c.compare(rest, settle, 'settle', d.name)
    c.floor(n, 1, 'paths for a pressed element', 'settle')


def active_flag(s, e):
    """element.state.active as read on this path (it may be a loop variable)."""
    t = f(f(e, 'state'), 'active')
    for x in iter_terms([s.facts]):
        if x == t or (x[0] == 'lv' and x[2] == pp(t)):
            return x
    return t


# ------------------------------------------------------------------ C05 keyboard
@prop('C05')
def keyboard(c):
    d = Dispatch(c)
    if not d.ok:
        return
    for variant, name, ty, fieldname in (('KeyDown', 'onkeydown', 'KeyboardEvent', 'key'),
                                         ('KeyUp', 'onkeyup', 'KeyboardEvent', 'key'),
                                         ('Char', 'oninput', 'TextEvent', 'char')):
        def one(k):
            s = k.seg
            ev, _ = d.event_of(s)
            focus = d.start(s, 'focus')
            w = Want(d, k, d.start(s, 'mouse'))
            if k.some(focus):
                n = ('vf', focus, 'Some', '0')
                e = element_at(n)
                w.emit_with(n, name, T.adt(f'view_model::{ty}', ty, ((fieldname, ('vf', ev, variant, '0')),
                                                                      ('target', target(e, f(e, 'state'))))))
            w.verify(k, d.effects(s))
        n = c.compare(d.about(variant), one, variant, d.name)
        c.floor(n, 1, f'paths handling {variant}', variant)
    for variant in ('Unknown', 'MouseWheel'):
        def none(k):
            Want(d, k, None).verify(k, d.effects(k.seg))
        n = c.compare(d.about(variant), none, variant, d.name)
        c.floor(n, 1, f'paths handling {variant}', variant)

    def ends(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('dispatching input can panic')
        if s.value != T.ok(UNIT):
            raise Mismatch('dispatching input fails without a missing element')
        if [x for x in d.effects(s) if x[0] != 'loop']:
            raise Mismatch('something happens besides the walk over the events')
        if not any(x[0] == 'loop' and d.events in (x[1] or ()) for x in d.effects(s)):
            raise Mismatch('the events are not handled in order')
    n = c.compare([s for s in d.segs if s.kind != 'back'], ends, 'ends', d.name)
    c.floor(n, 1, 'ends of the dispatch', 'ends')


# ------------------------------------------------------------------ C06 messages
def evaluated(k, t):
    """eval_string of a value, however it is reached."""
    return t[0] == 'call' and t[1].endswith('eval_string')


@prop('C06')
def messages(c):
    name = c.find('ViewModel::emit')
    ev = c.find('Value::eval_string', must=False) or next((n for n in c.F['fns'] if n.endswith('::eval_string')), None)
    if not name:
        return
    segs = c.run(name, opaque=[ev] if ev else [])
    if segs is None:
        return
    self_, element, handler, event = c.params(name)
    got = ('get', f(element, 'listeners'), handler)
    args = f(('vf', got, 'Some', '0'), 'arguments')
    out = f(f(self_, 'output'), 'messages')
    roles = {}

    def result(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('building a message can panic')
        ef = Effects(s.all_events)
        pushes = [m for m in ef.muts if m[0] == out]
        if [m for m in ef.muts if m[0] != out] or ef.writes:
            raise Mismatch('notifying a listener changes something else than the messages')
        if not k.some(got):
            if pushes:
                raise Mismatch('a message is sent although there is no such listener')
            return
        if len(pushes) != 1 or pushes[0][1] != 'push':
            raise Mismatch('a notified listener does not produce exactly one message')
        if abandoned(s.all_events):
            raise Mismatch('some arguments of the listener are not looked at')
        m = pushes[0][2][0]
        if m[0] != 'adt' or m[1] != 'serde_json::Value':
            raise Mismatch(f'the message is not a JSON value built from the arguments: {pp(m)}')
        if m[2] == 'String':
            key, rest = m[3][0][1], None
            n = next((t for t in iter_terms([s.facts]) if t[0] == 'len' and t[1][0] == 'lv'), None)
            if n is None or not k.eq(n, cint(0)):
                raise Mismatch('a message without payload is sent although there are arguments')
        else:
            o = m[3][0][1]
            if not (m[2] == 'Object' and o[0] == 'm' and o[1] == 'insert' and o[2] == ('emap',)):
                raise Mismatch(f'the message is not an object of one entry: {pp(m)}')
            key, pay = o[3]
            if pay[0] == 'adt' and pay[2] == 'Array':
                lst = pay[3][0][1]
                if k.eq(T.length(lst), cint(0)) or k.eq(T.length(lst), cint(1)):
                    raise Mismatch('a single argument is wrapped into an array')
            elif pay[0] in ('elem', 'index') and pay[1][0] == 'lv':
                lst = pay[1]
                if pay[2] not in (0, cint(0)):
                    raise Mismatch('not the first argument is sent')
                if not k.eq(T.length(lst), cint(1)):
                    raise Mismatch('only one of several arguments is sent')
            else:
                raise Mismatch(f'the payload is not made of the arguments: {pp(pay)}')
            if lst[0] != 'lv' or roles.setdefault('args', lst[2]) != lst[2]:
                raise Mismatch(f'the payload is not the list of arguments: {pp(lst)}')
            if s.inits.get(lst[1], {}).get(lst[2]) != ('arr', ()):
                raise Mismatch('the list of arguments does not start empty')
        if key[0] != 'lv' or roles.setdefault('key', key[2]) != key[2]:
            raise Mismatch(f'the name of the message is not the first argument: {pp(key)}')
        if s.inits.get(key[1], {}).get(key[2]) != cstr('Undefined'):
            raise Mismatch('the name of a message without arguments is not "Undefined"')
    n = c.compare(segs, result, 'message', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'ends of a notification', 'message')
    if 'args' not in roles or 'key' not in roles:
        return

    def value_of(k, s):
        """The value of the current argument, or None when it cannot be had."""
        a = el(args)
        v = k.variant(a, ['Keyword', 'Event', 'Binder'])
        if v == 'Keyword':
            return [T.adt('serde_json::Value', 'String', (('0', ('vf', a, 'Keyword', '0')),))]
        if v == 'Event':
            r = next((t for t in iter_terms([s.facts]) if t[0] == 'op' and t[1] == 'to_value' and t[2] == event), None)
            if r is None:
                raise Mismatch('the event is not turned into JSON')
            if not k.is_(r, 'Ok'):
                return None
            return [('vf', r, 'Ok', '0')]
        p = ('op', 'json_pointer', f(self_, 'model'), ('vf', a, 'Binder', 'path'))
        if not k.some(p):
            return None
        return [('vf', p, 'Some', '0'), ('vf', a, 'Binder', 'pipe')]

    def argument(k):
        s = k.seg
        val = value_of(k, s)
        key, lst = ('lv', 'K', roles['key']), ('lv', 'K', roles['args'])
        nk, nl = s.updates.get(roles['key'], key), s.updates.get(roles['args'], lst)
        i = ('idx', args, 'K')
        if abandoned(s.events):
            raise Mismatch('a transformer of the argument is skipped')
        if val is None:
            if not (k.same(nk, key) and k.same(nl, lst)):
                raise Mismatch('an argument without value is part of the message')
            return
        if k.eq(i, cint(0)):
            if not k.same(nl, lst):
                raise Mismatch('the first argument is part of the payload')
            if not evaluated(k, nk):
                raise Mismatch(f'the first argument does not name the message: {pp(nk)}')
            got_v = nk[2][0]
        else:
            if not k.same(nk, key):
                raise Mismatch('a later argument renames the message')
            if not (nl[0] == 'm' and nl[1] == 'push' and nl[2] == lst):
                raise Mismatch(f'an argument is not appended to the payload: {pp(nl)}')
            got_v = nl[3][0]
        if len(val) == 1:
            k.require_same(got_v, val[0], 'value of an argument')
            return
        # a bound value, passed through its transformers
        if got_v[0] != 'lv' or val[1] not in s.doms.get(got_v[1], ()):
            if k.ask(T.mk_eq(T.length(val[1]), cint(0))):
                k.require_same(got_v, val[0], 'value of a bound argument')
                return
            raise Mismatch(f'a bound argument does not go through its transformers: {pp(got_v)}')
        init = s.inits.get(got_v[1], {}).get(got_v[2])
        if init is None or not k.same(init, val[0]):
            raise Mismatch('the transformers do not start from the bound value')
        roles['value'] = got_v[2]
    n = c.compare(segs, argument, 'argument', name, lambda s: s.kind == 'back' and s.dom == args)
    c.floor(n, 1, 'paths for an argument', 'argument')

    def transform(k):
        s = k.seg
        if not (s.dom and s.dom[0] == 'vf' and s.dom[2] == 'Binder' and s.dom[3] == 'pipe'):
            raise Mismatch(f'a notification walks something else than arguments and transformers: {pp(s.dom) if s.dom else "?"}')
        t = ('get', f(self_, 'transformers'), el(s.dom))
        cur = ('lv', 'K', roles.get('value', 'value'))
        new = s.updates.get(roles.get('value', 'value'), cur)
        if k.some(t):
            want = ('call', 'fnptr', (('vf', t, 'Some', '0'), cur))
            k.require_same(new, want, 'a transformed argument')
        else:
            k.require_same(new, cur, 'an argument whose transformer is unknown')
    n = c.compare(segs, transform, 'transform', name, lambda s: s.kind == 'back' and s.dom != args)
    c.floor(n, 1, 'paths for a transformer', 'transform')


# ------------------------------------------------------------------ C07 output
def dispatching(c):
    """The paths of handle_output, with the dispatch as one step."""
    name = c.find('ViewModel::handle_output')
    disp = c.find('ViewModel::handle_elements_input')
    if not (name and disp):
        return None, None, None

    def dispatch(e, st, args, call):
        a = tuple(e.val(st, x) for x in args)
        loc = e.deref_loc(args[0])
        st.emit('call', disp, a[1:] + (e.val(st, e.read(st, (loc[0], loc[1] + (('f', 'output'),)))),), e.where(call))
        r = ('call', 'dispatch', a[1:])
        out = []
        for s, v in e.fork_variant(st, r, ['Ok', 'Err']):
            # the dispatch changes these fields (established by C01-C06)
            for n in ('elements_under_mouse', 'elements_in_action', 'drag', 'focus', 'mouse'):
                e.write(s, (loc[0], loc[1] + (('f', n),)), ('s', 'dispatched ' + n), silent=True)
            e.write(s, (loc[0], loc[1] + (('f', 'output'), ('f', 'messages'))), ('s', 'dispatched messages'), silent=True)
            out.append((s, T.ok(UNIT) if v == 'Ok' else T.err(('vf', r, 'Err', '0'))))
        return out
    return name, disp, c.run(name, overrides={disp: dispatch})


def dispatched_events(c, k, segs, name, events_now):
    """The events of the frame reach the dispatch unchanged, in order; without a motion one at the last position comes first."""
    self_, input_ = c.params(name)[:2]
    events = f(input_, 'events')
    if exists(k, segs, k.seg, events, lambda kk, x: kk.is_(x, 'MouseMove')):
        k.require_same(events_now, events, 'the dispatched events')
    else:
        me = T.adt('input::InputEvent', 'MouseMove', (('0', f(self_, 'mouse')),))
        k.require_same(events_now, ('m', 'insert', events, (cint(0), me)), 'the dispatched events (without a motion, one at the last position comes first)')


@prop('C02')
@prop('C03')
@prop('C04')
@prop('C05')
def events_arrive(c):
    name, disp, segs = dispatching(c)
    if segs is None:
        return

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('handling the input can panic')
        calls = [e for e in s.all_events if e[0] == 'call' and e[1] == disp]
        if len(calls) != 1:
            raise Mismatch('the input is not dispatched exactly once')
        dispatched_events(c, k, segs, name, calls[0][2][0])
    n = c.compare(segs, whole, 'events', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'ends of the input handling', 'events')


@prop('C07')
def output(c):
    name, disp, segs = dispatching(c)
    if segs is None:
        return
    self_, input_, body, tree = c.params(name)
    D = lambda n: ('s', 'dispatched ' + n)
    under = D('elements_under_mouse')
    fresh = ('call', 'default', 'output::Output')

    def new_output(k, o):
        for n, v in (('messages', ('arr', ())), ('is_input_captured', FALSE)):
            x = T.field(o, n)
            if x != v and not is_default_field(o, n):
                raise Mismatch(f'the output does not start empty: {n} is {pp(x)}')

    def whole(k):
        s = k.seg
        if s.kind == 'panic':
            raise Mismatch('producing the output can panic')
        calls = [e for e in s.all_events if e[0] == 'call']
        if [e[1] for e in calls] != [disp]:
            raise Mismatch('the input is not dispatched exactly once')
        a = calls[0][2]
        new_output(k, a[3])
        if (a[1], a[2]) != (body, tree):
            raise Mismatch('the input is not dispatched from the body')
        dispatched_events(c, k, segs, name, a[0])
        if k.is_(('call', 'dispatch', (a[0], body, tree)), 'Err'):
            if T.variant_of(s.value) != 'Err':
                raise Mismatch('an error is not reported')
            return
        if T.variant_of(s.value) != 'Ok':
            raise Mismatch('no output is produced')
        o = k.simp(T.field(s.value, '0'))
        k.require_same(T.field(o, 'messages'), D('messages'), 'messages of the output')
        cap = T.op('or', T.op('not', T.mk_eq(T.length(under), cint(0))), ('isv', D('drag'), 'Some', OPTS),
                   ('isv', D('focus'), 'Some', OPTS), T.op('not', T.mk_eq(T.length(D('elements_in_action')), cint(0))))
        k.require_same(T.field(o, 'is_input_captured'), cap, 'whether the input is captured')
        p = T.field(o, 'pointer')
        last = ('rev', under)
        lo = next((e[1] for e in s.all_events if e[0] == 'loop' and last in s.doms.get(e[1], ())), None)
        if lo is not None:
            # a search for the last of them that has a pointer
            roles['search'] = True
            if ('exit', lo) in [e[:2] for e in s.all_events]:
                if not (is_default_field_term(p, 'pointer') or T.variant_of(p) == 'Auto'):
                    raise Mismatch(f'the pointer does not start as the default: {pp(p)}')
                return
            x = ('elem', last, lo)
            if not k.some(('hasctx', x)) or k.is_(f(element_at(x), 'pointer'), 'Auto'):
                raise Mismatch('the pointer is that of an element without one')
            k.require_same(p, f(element_at(x), 'pointer'), 'the pointer of the output')
            return
        lo = next((e[1] for e in s.all_events if e[0] == 'loop' and under in s.doms.get(e[1], ())), None)
        if lo is None:
            raise Mismatch('the elements under the pointer are not consulted for the pointer, in order')
        if lo in abandoned(s.all_events):
            raise Mismatch('some elements under the pointer are not consulted for the pointer')
        if p[0] != 'lv' or p[1] != lo:
            raise Mismatch(f'the pointer of the output is {pp(p)}')
        init = s.inits[lo].get(p[2])
        if init is None or not (is_default_field_term(init, 'pointer') or T.variant_of(init) == 'Auto'):
            raise Mismatch(f'the pointer does not start as the default: {pp(init)}')
        roles['pointer'] = p[2]
    roles = {}
    n = c.compare(segs, whole, 'output', name, lambda s: s.kind != 'back')
    c.floor(n, 1, 'ends of the input handling', 'output')

    def searched(k):
        x = el(('rev', under))
        if k.some(('hasctx', x)) and not k.is_(f(element_at(x), 'pointer'), 'Auto'):
            raise Mismatch('the search for the pointer passes an element that has one')

    def pointer(k):
        s = k.seg
        pl = roles.get('pointer', 'self.output.pointer')
        cur = ('lv', 'K', pl)
        new = s.updates.get(pl, cur)
        e = element_at(el(under))
        if not k.some(('hasctx', el(under))):
            k.require_same(new, cur, 'the pointer')
        elif k.is_(f(e, 'pointer'), 'Auto'):
            k.require_same(new, cur, 'the pointer over an element without one')
        else:
            k.require_same(new, f(e, 'pointer'), 'the pointer over an element')
    if 'search' in roles:
        n = c.compare(segs, searched, 'pointer', name, lambda s: s.kind == 'back' and s.dom == ('rev', under))
    else:
        n = c.compare(segs, pointer, 'pointer', name, lambda s: s.kind == 'back' and s.dom == under)
    c.floor(n, 1, 'paths for the pointer of an element', 'pointer')


def is_default_field(o, n):
    x = T.field(o, n)
    return is_default_field_term(x, n)


def is_default_field_term(x, n):
    return x[0] == 'f' and x[2] == n and x[1][0] in ('op', 'call', 'default', 'opaque') and 'default' in pp(x[1])
