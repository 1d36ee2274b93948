"""Initial and inherited values, animations and transitions."""
from rulelib import *
from terms import *
import terms as T
from registry import prop
from rules_css import v0
from rules_style import model, descriptor, agree, at_place, A_, CORNERS, TRBL, LONGHANDS, LAYERS, VALUES, value, rgba, NONE, ZERO, Values, named, kw

f = fld
EMPTY = ('arr', ())
ONE = cflt(1.0)


# ------------------------------------------------------------------ C20 initial and inherited values
def styled():
    """Place in an element -> its initial value (for everything styles can set but animations and transitions)."""
    t = {'backgrounds': EMPTY, 'color': rgba(0, 0, 0, 255), 'self_opacity': ONE, 'pointer': A_('Auto'), 'visible': TRUE,
         'font.family': cstr('system-ui'), 'font.size': cflt(16.0), 'font.style': cstr('normal'), 'font.weight': cint(400), 'font.line_height': ONE,
         'font.align': A_('Start')}
    for s in TRBL:
        t[f'borders.{s.lower()}.width'] = ZERO
        t[f'borders.{s.lower()}.color'] = rgba(0, 0, 0, 0)
    for i in range(4):
        t[f'borders.radius#{i}'] = A_('Number', ZERO)
    return t


INHERITED = ['color', 'font.family', 'font.size', 'font.style', 'font.weight', 'font.line_height', 'pointer_events']
MAPS = ('attrs', 'attrs_bindings', 'listeners')
NEW = {**styled(), 'pointer_events': A_('Auto'), 'children': EMPTY, 'tag': cstr(''), 'text': NONE, 'object_fit': A_('Fill'), 'opacity': ONE, 'transforms': EMPTY,
       'scrolling': NONE, 'clipping': NONE, 'styles': EMPTY, 'style': EMPTY, 'animators': EMPTY, 'transitions': EMPTY,
       **{f'state.{x}': FALSE for x in ('active', 'hover', 'focus', 'checked')}, 'style_hints.has_dynamic_classes': FALSE, 'style_hints.has_dynamic_id': FALSE,
       **{f'{x}#{i}': ZERO for x in ('position', 'size', 'content_size') for i in (0, 1)}}
LAYOUT = {'display': A_('Block'), 'overflow.x': A_('Visible'), 'overflow.y': A_('Visible'), 'scrollbar_width': ZERO, 'position': A_('Relative'),
          **{f'inset.{s.lower()}': A_('Auto') for s in TRBL}, **{f'{b}.{s.lower()}': A_('Length', ZERO) for b in ('margin', 'padding', 'border') for s in TRBL},
          **{f'{b}.{s}': A_('Auto') for b in ('size', 'min_size', 'max_size') for s in ('width', 'height')}, 'aspect_ratio': NONE,
          'gap.width': A_('Length', ZERO), 'gap.height': A_('Length', ZERO),
          **{f'{a}_{b}': NONE for a in ('align', 'justify') for b in ('items', 'self', 'content')},
          'flex_direction': A_('Row'), 'flex_wrap': A_('NoWrap'), 'flex_grow': ZERO, 'flex_shrink': ONE, 'flex_basis': A_('Auto')}
CONSTANTS = {'Rect::auto': A_('Auto'), 'Size::auto': A_('Auto'), 'Rect::zero': A_('Length', ZERO), 'Size::zero': A_('Length', ZERO)}


def leaf(k, base, path):
    """A place of a value; constants of taffy (`Rect::auto()`, ...) have the same value in all of their fields."""
    v = at_place(base, path)
    b = v[1] if v[0] == 'f' else v
    if v[0] == 'f' and b[0] == 'opaque' and b[1] in CONSTANTS:
        return CONSTANTS[b[1]]
    return v


def meant(k, got, want):
    if got[0] == 'A' or want[0] == 'A' and got == want:
        return got == want
    return agree(k, got, want)


def final(order, place):
    """The value of a place after a sequence of writes (None: not written)."""
    for o in reversed(order):
        if o[0] != 'w':
            continue
        if o[1] == place:
            return o[2]
        path, p = [], place
        while p[0] in ('f', 'index') and p != o[1]:
            path.append(p)
            p = p[1]
        if p == o[1]:
            v = o[2]
            for x in reversed(path):
                v = T.field(v, x[2]) if x[0] == 'f' else T.index(v, x[2])
            return v
    return None


def inside(place, of):
    while place[0] in ('f', 'index'):
        if place == of:
            return True
        place = place[1]
    return place == of


@prop('C20')
def initial_element(c):
    """What an element is before any declaration."""
    name = c.find('reset_element_style')
    segs = c.run(name) if name else None
    if segs is not None:
        e = c.params(name)[0]

        def reset(k):
            s = k.seg
            ef = Effects(s.all_events)
            if s.kind != 'ret' or ef.calls or ef.muts:
                raise Mismatch('resetting an element does something else')
            for p, want in styled().items():
                got = final(ef.order, at_place(e, p))
                if got is None or not meant(k, got, want):
                    raise Mismatch(f'{p} of an element does not become its initial value' + (f' but {pp(got)}' if got is not None else ''))
            for p in ef.writes:
                if not any(inside(p, at_place(e, q)) or inside(at_place(e, q), p) for q in styled()) and \
                        not inside(p, f(e, 'pointer_events')) and p[0] == 'f' or p == e:
                    raise Mismatch(f'resetting the style of an element changes {pp(p)}')
        n = c.compare(segs, reset, 'reset', name)
        c.floor(n, 1, 'paths of a reset', 'reset')
    name = c.find('create_element')
    segs = c.run(name) if name else None
    if segs is not None:
        node = c.params(name)[0]

        def create(k):
            s = k.seg
            ef = Effects(s.all_events)
            if s.kind != 'ret' or ef.order:
                raise Mismatch('creating an element does something else')
            if T.field(s.value, 'node') != node:
                raise Mismatch('an element does not know its node')
            for p in MAPS + ('style_hints.dynamic_attrs',):
                if k.simp(at_place(s.value, p)) not in (('emap',), EMPTY):
                    raise Mismatch(f'{p} of a new element is not empty')
            for p, want in NEW.items():
                if not meant(k, leaf(k, s.value, p), want):
                    raise Mismatch(f'{p} of a new element is {pp(at_place(s.value, p))}')
        n = c.compare(segs, create, 'create', name)
        c.floor(n, 1, 'paths of a creation', 'create')
    name = c.find('default_layout')
    segs = c.run(name) if name else None
    if segs is not None:
        def layout(k):
            s = k.seg
            if s.kind != 'ret' or Effects(s.all_events).order:
                raise Mismatch('the initial layout is not a constant')
            for p, want in LAYOUT.items():
                got = leaf(k, s.value, p)
                root = got
                while root[0] == 'f':
                    root = root[1]
                if 'default(taffy::Style)' == pp(root) and got != root and p != 'display':
                    # taffy::Style::DEFAULT has the initial values of CSS of everything but `display`
                    continue
                if not meant(k, got, want):
                    raise Mismatch(f'{p} of the initial layout is {pp(at_place(s.value, p))}')
        n = c.compare(segs, layout, 'layout', name)
        c.floor(n, 1, 'paths of the initial layout', 'layout')


@prop('C20')
def inherited(c):
    name = c.find('inherit')
    segs = c.run(name) if name else None
    if segs is None:
        return
    parent, e = c.params(name)

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events)
        if s.kind != 'ret' or ef.calls or ef.muts:
            raise Mismatch('inheriting does something else')
        for p in INHERITED:
            got = final(ef.order, at_place(e, p))
            if got is None or not k.same(got, at_place(parent, p)):
                raise Mismatch(f'{p} is not inherited' + (f' but becomes {pp(got)}' if got is not None else ''))
        for p in ef.writes:
            if not any(inside(p, at_place(e, q)) for q in INHERITED):
                rest = [q for q in styled() if inside(at_place(e, q), p) and q not in INHERITED]
                if not rest or any(final(ef.order, at_place(e, q)) != at_place(e, q) for q in rest):
                    raise Mismatch(f'{pp(p)} is changed although it is not inherited')
    n = c.compare(segs, whole, 'inherit', name)
    c.floor(n, 1, 'paths of inheriting', 'inherit')


DEFAULTS = {
    'Background': {'image': NONE, 'is_src': FALSE, 'color': rgba(0, 0, 0, 0), 'src#0': ZERO, 'src#1': ZERO},
    'Animator': {'name': cstr(''), 'delay': ZERO, 'direction': A_('Normal'), 'duration': ZERO, 'fill_mode': A_('None'), 'iterations': A_('Number', ONE),
                 'running': TRUE, 'time': ZERO},
    'Transition': {'key': NONE, 'ranges': EMPTY, **{'animator.' + x: y for x, y in
                   (('name', cstr('')), ('delay', ZERO), ('duration', ZERO), ('iterations', A_('Number', ONE)), ('running', TRUE), ('time', ZERO))}},
}


@prop('C20')
def default_layers(c):
    """Layers that are added start from their initial values; a reset animator keeps what it plays and since when."""
    for ty, table in DEFAULTS.items():
        name = c.find(ty + '::default')
        segs = c.run(name) if name else None
        if segs is None:
            continue

        def whole(k, ty=ty, table=table):
            s = k.seg
            if s.kind != 'ret' or Effects(s.all_events).order:
                raise Mismatch(f'{ty}::default is not a constant')
            for p, want in table.items():
                if not meant(k, leaf(k, s.value, p), want):
                    raise Mismatch(f'{p} of a new {ty} is {pp(at_place(s.value, p))}')
        n = c.compare(segs, whole, 'default', name)
        c.floor(n, 1, 'paths of a default', 'default ' + ty)
    name = c.find('Animator::reset')
    segs = c.run(name) if name else None
    if segs is not None:
        self_ = c.params(name)[0]

        def again(k):
            s = k.seg
            ef = Effects(s.all_events)
            if s.kind != 'ret' or ef.calls or ef.muts:
                raise Mismatch('resetting an animator does something else')
            for p, want in DEFAULTS['Animator'].items():
                got = final(ef.order, at_place(self_, p))
                if p in ('name', 'time'):
                    if got is not None and not k.same(got, at_place(self_, p)):
                        raise Mismatch(f'the {p} of an animator is lost')
                elif got is None or not meant(k, got, want):
                    raise Mismatch(f'{p} of an animator does not become its initial value')
        n = c.compare(segs, again, 'reset animator', name)
        c.floor(n, 1, 'paths of a reset', 'reset animator')


CUR = sym('parent colour')
ODD = {'BoxSizing', 'FontSize', 'FontWeight', 'Color', 'PointerEvents'} | {f'Border{s}Color' for s in TRBL}


MEANINGFUL = (['AlignContent', 'AlignItems', 'JustifyContent', 'Cursor', 'Display', 'FlexBasis', 'FlexDirection', 'FlexGrow', 'FlexShrink', 'FlexWrap', 'FontSize', 'FontStyle',
               'Width', 'Height', 'MinWidth', 'MinHeight', 'Opacity', 'OverflowX', 'OverflowY', 'TextAlign', 'Visibility', 'BackgroundColor', 'BackgroundImage']
              + TRBL + [f'{b}{s}' for b in ('Margin', 'Padding') for s in TRBL] + [f'Border{x}Radius' for x in CORNERS])


@prop('C20')
def initial_values(c):
    """The initial value of a property, where animations need one, means what an element without declarations has (or nothing)."""
    name = c.find('initial')
    segs = c.run(name) if name else None
    if segs is None:
        return
    key = c.params(name)[0]
    seen = {}
    state = {('element', p): v for p, v in NEW.items()}
    state.update({('layout', p): v for p, v in LAYOUT.items()})

    def whole(k):
        s = k.seg
        if s.kind != 'ret' or Effects(s.all_events).order:
            raise Mismatch('an initial value is not a constant')
        p = next((x for x in LONGHANDS if k.is_(key, x)), None)
        V = Values(k, sym('cascade'))
        layer = next((x for x in LAYERS if k.is_(key, x)), None) if p is None else None
        if layer and LAYERS[layer][0] == 'backgrounds':
            obj, path, kind = LAYERS[layer]
            got = getattr(V, kind)(s.value)
            if got is not None:
                seen[layer] = 1
                if not same_meaning(k, got, DEFAULTS['Background'][path]):
                    raise Mismatch(f'the initial value of {layer} is not that of a new background')
            return
        if p == 'FontSize':
            seen[p] = 1
            d = s.value
            if T.variant_of(d) != 'Dimension' or not k.is_(f(v0(d, 'Dimension'), 'unit'), 'Px'):
                raise Mismatch('the initial font size is no length')
            return k.require_same(f(v0(d, 'Dimension'), 'value'), NEW['font.size'], 'the initial font size')
        if p is None or p in ODD:
            return
        seen[p] = 0
        for obj, path, kind in LONGHANDS[p]:
            if kind == 'border':
                n = V.width(s.value)
                got = None if n is None else A_('Length', n)
            else:
                got = kw(k, s.value, kind) if isinstance(kind, dict) else getattr(V, kind)(s.value)
            if got is None:
                continue
            seen[p] += 1
            if not same_meaning(k, got, state[obj, path]):
                raise Mismatch(f'the initial value of {p} is not that of an element without declarations')
    n = c.compare(segs, whole, 'initial', name)
    c.floor(n, 60, 'initial values', 'initial')
    good = [p for p in MEANINGFUL if not seen.get(p)]
    c.obligation(not good, 'usable', f'animations of {good} have no initial value to start from', name)


def same_meaning(k, a, b):
    if a[0] == 'A' and b[0] == 'A':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(k.same(x, y) for x, y in zip(a[2], b[2]))
    return agree(k, a, b) if b[0] == 'A' else k.same(a, b)


# ------------------------------------------------------------------ C21 animations and transitions
def between(a, b, t):
    return T.op('add', a, T.op('mul', T.op('sub', b, a), t))


def channel(k, got, x, y, t, what):
    v = got
    if v[0] == 'cast':
        v = v[3]
    while v[0] == 'op' and v[1] in ('max', 'min') and len(v) == 4:
        rest = [w for w in v[2:] if w != (ZERO if v[1] == 'max' else cflt(255.0))]
        if len(rest) != 1:
            break
        v = rest[0]
    k.require_same(floats(v), floats(between(x, y, t)), what)


def floats(t):
    """Integers that are computed with as real numbers, without the conversions."""
    m = {}
    for x in list(iter_terms(t)):
        if x[0] == 'cast' and x[1:3] == ('i', 'f'):
            m[x] = floats(x[3])
    return deep(t, m) if m else t


def deep(t, m):
    from rulelib import _Ground
    return simp(_Ground({a: ('eq', b) for a, b in m.items()}), t)


@prop('C21')
def in_between(c):
    """The value between two key frames."""
    name = c.find('animate')
    segs = c.run(name) if name else None
    if segs is None:
        return
    key, a, b, t = c.params(name)

    def whole(k):
        s = k.seg
        if s.kind != 'ret' or Effects(s.all_events).order:
            raise Mismatch('the value between two key frames is more than a function of them')
        v = s.value
        if k.eq(t, ZERO):
            return k.require_same(v, a, 'the value at a key frame')
        if k.eq(t, ONE):
            return k.require_same(v, b, 'the value at the next key frame')
        x = next((n for n in ('Zero', 'Number', 'Percentage', 'Dimension', 'Color') if k.is_(a, n)), None)
        y = next((n for n in ('Zero', 'Number', 'Percentage', 'Dimension', 'Color') if k.is_(b, n)), None)
        kinds = {x, y} - {'Zero'}
        if kinds in ({'Number'}, {'Percentage'}):
            n = kinds.pop()
            want = between(ZERO if x == 'Zero' else v0(a, n), ZERO if y == 'Zero' else v0(b, n), t)
            if T.variant_of(k.simp(v)) == 'Zero':
                return k.require_same(want, ZERO, 'the value between two key frames')
            if T.variant_of(v) != n:
                raise Mismatch(f'the value between a {x} and a {y} is not a {n}')
            return k.require_same(T.field(v, '0'), want, f'the value between a {x} and a {y}')
        if kinds == {'Dimension'}:
            da, db = v0(a, 'Dimension'), v0(b, 'Dimension')
            if x == y and not k.eq(f(da, 'unit'), f(db, 'unit')):
                return discrete(k, v, a, b)
            if T.variant_of(v) != 'Dimension':
                raise Mismatch(f'the value between a {x} and a {y} is not a Dimension')
            d = T.field(v, '0')
            k.require_same(T.field(d, 'unit'), f(db if x == 'Zero' else da, 'unit'), f'the unit between a {x} and a {y}')
            want = between(ZERO if x == 'Zero' else f(da, 'value'), ZERO if y == 'Zero' else f(db, 'value'), t)
            return k.require_same(T.field(d, 'value'), want, f'the value between a {x} and a {y}')
        if x == y == 'Color':
            if T.variant_of(v) != 'Color':
                raise Mismatch('the value between two colours is not a colour')
            for i in range(4):
                channel(k, T.index(T.field(v, '0'), cint(i)), T.index(v0(a, 'Color'), cint(i)), T.index(v0(b, 'Color'), cint(i)), t, f'channel {i} between two colours')
            return
        discrete(k, v, a, b)

    def discrete(k, v, a, b):
        first = k.ask(T.op('lt', t, cflt(0.5)))
        want = a if first else b
        if v == want or k.same(v, want):
            return
        if T.variant_of(v) == 'Dimension' and k.same(T.field(v, '0'), v0(want, 'Dimension')):
            return
        raise Mismatch(f'{"the first" if first else "the second"} half of the way between values of different kinds shows {pp(v)}')
    n = c.compare(segs, whole, 'between', name)
    c.floor(n, 12, 'paths between two key frames', 'between')


@prop('C21')
def progress(c):
    """Where in its current iteration an animation is after some more time."""
    name = c.find('Animator::update')
    segs = c.run(name) if name else None
    if segs is not None:
        self_, dt = c.params(name)
        g = lambda x: f(self_, x)

        def whole(k):
            s = k.seg
            ef = Effects(s.all_events)
            if s.kind != 'ret' or ef.calls or ef.muts or set(ef.writes) - {g('time')}:
                raise Mismatch('the progress of an animation changes more than its time')
            time = ef.writes.get(g('time'), g('time'))
            if not k.ask(T.op('lt', ZERO, g('duration'))):
                if T.variant_of(s.value) != 'None':
                    raise Mismatch('an animation without a duration has some progress')
                return
            now = T.op('add', g('time'), dt) if k.ask(g('running')) else g('time')
            k.require_same(time, now, 'the time an animation was played')
            elapsed = T.op('sub', now, g('delay'))
            if k.ask(T.op('lt', elapsed, ZERO)):
                if T.variant_of(s.value) != 'None':
                    raise Mismatch('an animation has some progress during its delay')
                return
            if T.variant_of(s.value) != 'Some':
                raise Mismatch('an animation has no progress after its delay')
            got = T.field(s.value, '0')
            cycles = T.op('div', elapsed, g('duration'))
            bounded = k.is_(g('iterations'), 'Number')
            limit = v0(g('iterations'), 'Number')
            m = cycles
            if bounded:
                m = T.op('min', cycles, limit)
                if not any(x == m for x in list(iter_terms(s.facts)) + list(iter_terms(got))):
                    over, under = decided(k.facts, T.op('lt', limit, cycles)), decided(k.facts, T.op('lt', cycles, limit))
                    if over is None and under is None:
                        over = k.ask(T.op('lt', limit, cycles))
                    m = limit if (over if over is not None else not under) else cycles
            fract = T.op('fract', m)
            if k.ask(T.mk_eq(fract, ZERO)):
                fract = ZERO
            if fract == ZERO and k.ask(T.op('lt', ZERO, m)):
                return k.require_same(got, ONE, 'the end of an iteration')
            if got != fract and not k.same(got, fract):
                k.require_same(got, fract, 'the progress of an iteration')
        n = c.compare(segs, whole, 'progress', name)
        c.floor(n, 6, 'paths of the progress', 'progress')
    name = c.find('Animator::restart')
    segs = c.run(name) if name else None
    if segs is not None:
        self_ = c.params(name)[0]

        def again(k):
            ef = Effects(k.seg.all_events)
            if k.seg.kind != 'ret' or ef.calls or ef.muts or ef.writes != {f(self_, 'time'): ZERO}:
                raise Mismatch('restarting does not just start to play from the beginning')
        n = c.compare(segs, again, 'restart', name)
        c.floor(n, 1, 'paths of a restart', 'restart')
    name = c.find('Animator::play')
    segs = c.run(name, opaque=('update', 'play_track')) if name else None
    if segs is None:
        return
    self_, dt, tracks, style = c.params(name)

    def play(k):
        s = k.seg
        ef = Effects(s.all_events)
        if s.kind == 'panic' or ef.writes or ef.muts:
            raise Mismatch('playing does something else')
        up = [a for n, a in ef.calls if n == 'update']
        if up != [(self_, dt)]:
            raise Mismatch('time passes not once when an animation is played')
        res = next(t for t in iter_terms(s.facts) if t[0] == 'call' and short_name(t[1]) == 'update')
        plays = [a for n, a in ef.calls if n == 'play_track']
        on = k.is_(res, 'Some')
        if s.kind == 'ret':
            if plays or on and not any(s.doms[x] == {tracks} for x in {e[1] for e in s.all_events if e[0] == 'exit'} if x in s.doms):
                raise Mismatch('not every track of an animation is played')
            return
        if not on or s.dom != tracks:
            raise Mismatch('tracks are played although the animation has no progress')
        t = T.op('mul', cflt(100.0), v0(res, 'Some'))
        if len(plays) != 1:
            raise Mismatch('not every track of an animation is played once')
        a = plays[0]
        if a[0] != self_ or a[1] != el(tracks) or a[3] != style:
            raise Mismatch('something else than the track is played')
        got = a[2]
        if got[0] != 'cast' or got[1:3] != ('f', 'i') or not k.same(got[3], t):
            raise Mismatch(f'a track is played at {pp(got)} and not at the percentage of the progress')
    n = c.compare(segs, play, 'play', name)
    c.floor(n, 3, 'paths of playing', 'play')


@prop('C21')
def track_frames(c):
    """What a track shows at a step: the frame of the step, what is between the frames around it, or the last frame."""
    name = c.find('play_track')
    segs = c.run(name, opaque=('animate',)) if name else None
    if segs is None:
        return
    self_, track, t, style = c.params(name)
    frames, key = f(track, 'frames'), f(f(track, 'descriptor'), 'key')
    A, B = sym('previous step'), sym('next step')
    doms = {('keys', frames), ('pairs', frames)}
    NATURAL = [(T.op('lt', x, cint(0)), FALSE) for x in (A, B, t)]
    at = lambda step: v0(('get', frames, step), 'Some')

    def plain(s):
        m = {}
        for x in list(iter_terms(s.facts)) + list(iter_terms(s.all_events)) + list(iter_terms(s.updates)):
            if x[0] == 'mapv' and x[1] == frames:
                m[x] = at(('mapk', frames, x[2]))
        return refined(s, m) if m else s
    segs = [x for x in map(plain, segs) if x is not None]
    backs = [s for s in segs if s.kind == 'back']
    for s in backs:
        if s.dom not in doms or Effects(s.all_events).order[1:]:
            c.obligations += 1
            c.violate('steps', 'the steps of a track are not walked in order', name)
            return

    def passed(s, b, loop):
        """The state after passing the previous step (as `b` did), in the terms of a later segment."""
        K = ('mapk', frames, 'K')
        m = {K: A}
        for v, init in s.inits.get(loop, {}).items():
            m[('lv', 'K', v)] = sym('unknown')
        known = refined(b, {K: A})
        out = {}
        for v, init in s.inits.get(loop, {}).items():
            out[('lv', loop, v)] = known.updates.get(v, ('lv', loop, v))
        return out, NATURAL + [(x, y[1]) for x, y in known.facts.items() if y[0] == 'eq' and y[1] in (TRUE, FALSE) and not T.mentions(x, lambda z: z[:1] == ('lv',))]

    cases = []
    for s in segs:
        if s.kind == 'back':
            continue
        loops = [e[1] for e in s.all_events if e[0] == 'loop']
        if len(loops) != 1 or s.doms.get(loops[0]) not in [{d} for d in doms]:
            c.obligations += 1
            c.violate('steps', 'the steps of a track are not walked once', name)
            continue
        L = loops[0]
        K = ('mapk', frames, L)
        if abandoned(s.all_events):
            # at the first step, which is 0
            m = {('lv', L, v): i for v, i in s.inits[L].items()}
            m[K] = cint(0)
            x = refined(s, m, NATURAL)
            if x is not None:
                cases.append((x, None, cint(0)))
            for b in backs:
                m, more = passed(s, b, L)
                m[K] = B
                x = refined(s, m, more + [(T.op('lt', A, B), TRUE)])
                if x is not None:
                    cases.append((x, A, B))
        else:
            for b in backs:
                m, more = passed(s, b, L)
                x = refined(s, m, more)
                if x is not None:
                    cases.append((x, A, None))

    def absent(s):
        return any(x[0] == 'get' and x[1] == frames and x[2] in (A, B, cint(0)) and y == ('in', frozenset(['None'])) for x, y in s.facts.items())

    def shown(k, a, b):
        s = k.seg
        if absent(s):
            return
        ef = Effects(s.all_events, skip_call=lambda n: short_name(n) == 'animate')
        if s.kind != 'ret' or ef.calls or ef.writes or len(ef.muts) != 1 or ef.muts[0][0] not in (style, ('lv',)) or ef.muts[0][1] != 'insert':
            raise Mismatch('a track does not set its property')
        d, got = ef.muts[0][2]
        k.require_same(d, f(track, 'descriptor'), 'the property that is set')
        if b is not None and k.eq(t, b):
            return k.require_same(got, at(b), 'the value at a step of a track')
        if b is None:
            return k.require_same(got, at(a), 'the value after the last step of a track')
        if k.ask(T.op('lt', b, t)):
            raise Mismatch('steps of a track before the one it is at are not passed')
        if a is None:
            raise Infeasible()
        if k.eq(t, a):
            return k.require_same(got, at(a), 'the value at a step of a track')
        if got[0] != 'call' or short_name(got[1]) != 'animate':
            raise Mismatch(f'between two steps of a track is {pp(got)}')
        want = T.op('div', T.op('sub', t, a), T.op('sub', b, a))
        args = got[2]
        k.require_same(args[0], key, 'the property that is animated')
        k.require_same(args[1], at(a), 'the frame animated from')
        k.require_same(args[2], at(b), 'the frame animated to')
        x, y = split(args[3])
        if not (k.same(floats(x), T.op('sub', t, a)) and k.same(floats(y), T.op('sub', b, a))):
            raise Mismatch(f'the progress between two steps of a track is {pp(args[3])}')
    n = 0
    for s, a, b in cases:
        n += c.compare([s], lambda k, a=a, b=b: shown(k, a, b), 'track', name)
    c.floor(n, 3, 'paths of a track', 'track')
    c.floor(sum(1 for s, a, b in cases if a is not None and b is not None and s.kind == 'ret'), 2, 'paths between steps', 'track-between')
    c.floor(sum(1 for s, a, b in cases if b is None and s.kind == 'ret'), 1, 'paths after the last step', 'track-last')


def split(q):
    """Numerator and denominator of a quotient."""
    p = T.to_poly(q)
    if len(p) != 1:
        raise Mismatch(f'the progress between two steps of a track is {pp(q)}')
    (mono, coef), = p.items()
    num, den = cflt(coef) if coef != 1 else None, None
    for at, w in mono:
        for _ in range(abs(w)):
            if w > 0:
                num = at if num is None else T.op('mul', num, at)
            else:
                den = at if den is None else T.op('mul', den, at)
    return num or ONE, den or ONE


@prop('C21')
def transitions(c):
    """A transition moves each layer of its property from the value it starts from to the one that styles declare."""
    name = c.find('Transition::play')
    segs = c.run(name, opaque=('animate', 'update', 'restart')) if name else None
    if segs is not None:
        transition_frame(c, name, segs)
    name = c.find('init_after_style_applied')
    segs = c.run(name) if name else None
    if segs is None:
        return
    self_, style = c.params(name)
    key, ranges = f(self_, 'key'), f(self_, 'ranges')

    def start(k):
        s = k.seg
        ef = Effects(s.all_events)
        if s.kind == 'panic' or ef.calls:
            raise Mismatch('the first value of a transition is more than the current value')
        if not k.is_(key, 'Some'):
            if s.kind != 'ret' or ef.writes or ef.muts:
                raise Mismatch('a transition of no property gets values')
            return
        gets = [x for x in s.facts if x[0] == 'get' and x[1] == style]
        if s.kind == 'ret':
            for g in gets:
                d = g[2]
                i = T.field(d, 'index')
                if s.facts[g] == ('in', frozenset(['None'])) and T.field(d, 'key') == v0(key, 'Some') and counter(s, i):
                    return
            raise Mismatch('layers without a value in the transition are left')
        if len(gets) != 1 or not k.is_(gets[0], 'Some') or len(ef.muts) != 1:
            raise Mismatch('a layer of a transition does not get its current value')
        g = gets[0]
        i = T.field(g[2], 'index')
        k.require_same(T.field(g[2], 'key'), v0(key, 'Some'), 'the property of a transition')
        p, m, a = ef.muts[0]
        v = v0(g, 'Some')
        if p != ranges or m != 'push' or not counter(s, i) or not all(k.same(T.field(a[0], x), v) for x in '01'):
            raise Mismatch('a layer of a transition does not start at its current value')
        again = s.updates.get(i[2], i) if i[0] == 'lv' else None
        if i[0] == 'lv' and not k.same(again, T.op('add', i, cint(1))) and not (
                again[0] == 'len' and again[1][:2] == ('m', 'push') and counter(s, ('len', again[1][2]))):
            raise Mismatch('the layers of a transition are not walked one after the other')

    def counter(s, i):
        """The number of the layers that have values already."""
        if i[0] == 'len':
            v = i[1]
            return v == ranges or v[0] == 'lv' and s.inits[v[1]].get(v[2]) == ranges
        return i[0] == 'lv' and s.inits[i[1]].get(i[2]) == ('len', ranges)
    n = c.compare(segs, start, 'start', name)
    c.floor(n, 3, 'paths of the start of a transition', 'start')


def transition_frame(c, name, segs):
    self_, dt, style = c.params(name)
    key, ranges, animator = f(self_, 'key'), f(self_, 'ranges'), f(self_, 'animator')
    prop_ = v0(key, 'Some')
    upd = next((t for s in segs for t in iter_terms(s.facts) if t[0] == 'call' and short_name(t[1]) == 'update'), None)
    if upd is None or upd[2] != (animator, dt):
        c.obligations += 1
        return c.violate('update', 'the time of a transition does not pass', name)

    def desc(t, i):
        return t[0] == 'adt' and T.field(t, 'key') == prop_ and T.field(t, 'index') == i

    def styled_(t):
        return t == style or t[0] == 'lv' and t[2] == 'style'

    def names(s, loop):
        """The flag and the collected layers of the loop over the ranges."""
        flag = [v for v, i in s.inits[loop].items() if i in (TRUE, FALSE)]
        vec = [v for v, i in s.inits[loop].items() if i == EMPTY]
        if len(flag) != 1 or len(vec) != 1:
            raise Mismatch('the layers of a transition are not read as flag and values')
        return flag[0], vec[0]

    def passing(k):
        """The progress that is shown, or None."""
        if not k.is_(key, 'Some'):
            return None
        if not any(n == 'update' for n, a in Effects(k.seg.all_events).calls):
            if k.ask(T.op('lt', ZERO, f(animator, 'duration'))):
                raise Mismatch('the time of a transition does not pass once')
            return None         # nothing is played then
        if k.is_(upd, 'Some'):
            return v0(upd, 'Some')
        return ZERO if k.ask(T.op('lt', ZERO, f(animator, 'duration'))) else None
    first = [False]

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events)
        if s.kind == 'panic':
            raise Mismatch('a transition panics')
        ups = [a for n, a in ef.calls if n == 'update']
        if len(ups) > (1 if k.is_(key, 'Some') else 0):
            raise Mismatch('the time of a transition does not pass once')
        t = passing(k)
        if s.kind == 'back':
            if t is None:
                raise Mismatch('a transition without progress is shown')
            if s.dom == ranges:
                return layer(k, s, ef, t)
            if s.dom is not None and s.dom[0] == 'lv' and s.doms.get(s.dom[1]) == {ranges}:
                return shown(k, s, ef)
            raise Mismatch('a transition walks something else than its layers')
        if t is None:
            if len(ef.order) != len(ups):
                raise Mismatch('a transition without progress does something')
            return
        walks = [L for L in s.doms if s.doms[L] == {ranges}]
        if len(walks) != 1:
            raise Mismatch('the layers of a transition are not walked')
        L = walks[0]
        flag, vec = names(s, L)
        if L in abandoned(s.all_events):
            g = [x for x in s.facts if x[0] == 'get' and styled_(x[1]) and desc(x[2], ('idx', ranges, L))]
            if not any(s.facts[x] == ('in', frozenset(['None'])) for x in g):
                raise Mismatch('layers of a transition are left although they have a value')
        second = [M for M in s.doms if s.doms[M] == {('lv', L, vec)}]
        if not first[0] and (not second or any(M in abandoned(s.all_events) for M in second)):
            raise Mismatch('the layers of a transition do not get the values between')
        raised = k.ask(('lv', L, flag)) == (s.inits[L][flag] == FALSE)
        restarts = [x for x in ef.order if x[0] == 'call' and x[1] == ('restart', (animator,)) or x[:3] == ('w', f(animator, 'time'), ZERO)]
        rest = {p: v for p, v in ef.writes.items() if p != f(animator, 'time')}
        if raised:
            if rest != {ranges: ('lv', L, vec)} or len(restarts) != 1:
                raise Mismatch('a transition to other values does not start from the current ones')
        elif rest or restarts:
            raise Mismatch('a transition starts again although its values did not change')
        if [n for n, a in ef.calls if n not in ('update', 'restart', 'animate')]:
            raise Mismatch('a transition does something else')

    def layer(k, s, ef, t):
        flag, vec = names(s, 'K')
        i = ('idx', ranges, 'K')
        g = [x for x in s.facts if x[0] == 'get' and styled_(x[1]) and desc(x[2], i)]
        if len(g) != 1 or not k.is_(g[0], 'Some'):
            raise Mismatch('a layer without a value is transitioned')
        value = v0(g[0], 'Some')
        frm, to = T.field(el(ranges), '0'), T.field(el(ranges), '1')
        cur = [a for n, a in ef.calls if n == 'animate']
        if len(cur) != 1 or not all(k.same(x, y) for x, y in zip(cur[0], (prop_, frm, to, t))):
            raise Mismatch('a layer of a transition is not between the values it starts from and reaches')
        up = k.simp(s.updates.get(vec, ('unit',)))
        if up[:3] != ('m', 'push', ('lv', 'K', vec)):
            raise Mismatch('the values of a layer of a transition are not kept')
        got = up[3][0]
        if got[0] != 'tup' or not mid(got[1][0]) or not k.same(got[1][1], value):
            raise Mismatch('a layer of a transition does not start again from its current value to the declared one')
        off = s.inits['K'][flag]
        new = k.simp(s.updates.get(flag, ('lv', 'K', flag)))
        on = T.boolop('not', off) if off in (TRUE, FALSE) else None
        want = ('lv', 'K', flag) if k.eq(to, value) else on
        if k.simp(new) != want and not (k.facts.get(('lv', 'K', flag)) == ('eq', want)):
            raise Mismatch('whether the declared value of a layer changed is not noted')
        puts = [m for m in ef.muts if styled_(m[0])]
        if puts:
            if len(puts) != 1 or puts[0][1] != 'insert' or not desc(puts[0][2][0], i) or not mid(puts[0][2][1]):
                raise Mismatch('a layer of a transition does not get the value between')
            first[0] = True

    def mid(t):
        return t[0] == 'call' and short_name(t[1]) == 'animate'

    def shown(k, s, ef):
        flag, vec = names(s, s.dom[1])
        if s.dom[2] != vec:
            raise Mismatch('a transition walks something else than its layers')
        puts = [m for m in ef.muts if styled_(m[0])]
        if len(puts) != 1 or puts[0][1] != 'insert' or not desc(puts[0][2][0], ('idx', s.dom, 'K')) or puts[0][2][1] != T.field(el(s.dom), '0'):
            raise Mismatch('a layer of a transition does not get the value between')
    segs = sorted(segs, key=lambda s: (s.kind != 'back', s.dom != ranges))
    n = c.compare(segs, whole, 'transition', name)
    c.floor(n, 8, 'paths of a transition', 'transition')
    c.floor(sum(1 for s in segs if s.dom == ranges), 2, 'paths of a layer of a transition', 'transition-layer')


@prop('C21')
def tracks(c):
    """The frames of an animation: what its keyframes declare, from and to what the element has otherwise."""
    name = c.find('compute_animation_tracks')
    segs = c.run(name, opaque=('compute_style', 'initial')) if name else None
    if segs is None:
        return
    self_, animation, style = c.params(name)
    frames = f(animation, 'keyframes')
    count = {'value': 0, 'end': 0, 'frame': 0, 'extend': 0, 'missed': 0, 'all': 0, 'grouped': 0}

    def step_style(k, t, step):
        """The declarations of the step so far."""
        if t == ('emap',):
            g = [x for x in k.facts if x[0] == 'get' and x[2] == step]
            return any(k.facts[x] == ('in', frozenset(['None'])) for x in g)
        if t[0] == 'slot':
            # the place of the step, default when it is new
            return t[2] == step
        return t[:1] == ('vf',) and t[1][0] == 'get' and t[1][2] == step

    def whole(k):
        s = k.seg
        ef = Effects(s.all_events, locals_too=True)
        if s.kind == 'panic':
            raise Mismatch('computing the frames of an animation panics')
        here = Effects(s.events, locals_too=True)
        calls = [x for x in ef.calls if x[0] == 'compute_style']
        if s.kind == 'back' and s.dom is not None:
            d = s.dom
            if d[0] in ('values', 'pairs') and d[1][0] == 'lv':
                style_ = el(d) if d[0] == 'values' else ('mapv', d[1], 'K')
                ext = [m for m in ef.muts if m[1] == 'extend' and m[2][0] in (('keys', style_), ('keys', ('mapv', d[1], 'K')))]
                count['all'] += len(ext)
            if d[0] == 'f' and d[2] == 'values':
                return declared(k, s, d, calls)
            if calls:
                raise Mismatch('something else than a declared value is computed')
            if d == frames:
                return keyframe(k, s, ef)
            if d[0] == 'lv' and any(x[0] == 'slot' for x in iter_terms(s.updates) if x[0] == 'slot'):
                return end(k, s, ef, d)
            if d[0] == 'lv' and d[0] != 'pairs' and any(m[1] == 'insert' and m[0][0] == 'slot' for m in ef.muts):
                return end(k, s, ef, d)
            if d[0] == 'pairs' and d[1][0] == 'mapv':
                return frame(k, s, ef, d)
            return
        if s.kind == 'ret':
            if abandoned(s.all_events):
                raise Mismatch('some frames of an animation are left')
            if count['grouped'] and s.value[0] == 'collect':
                # the frames were collected first, the tracks are made of them
                d, key, t = s.value[1:4]
                if d[0] == 'pairs' and d[1][0] == 'lv' and T.field(t, 'descriptor') == ('mapk', d[1], key) and T.field(t, 'frames') == ('mapv', d[1], key):
                    return
            if count['grouped'] or s.value[0] != 'values' or s.value[1][0] != 'lv':
                raise Mismatch(f'the tracks of an animation are {pp(s.value)}')

    def declared(k, s, d, calls):
        outer = [x for x in s.doms if s.doms[x] == {frames}]
        if len(outer) != 1:
            raise Mismatch('declared values are not those of keyframes')
        kf = ('elem', frames, outer[0])
        decls = [x for x in s.doms if s.doms[x] == {f(kf, 'declaration')}]
        decl = d[1]
        if len(decls) != 1 or decl != v0(('elem', f(kf, 'declaration'), decls[0]), 'Property'):
            raise Mismatch('declared values are not those of the declarations of a keyframe')
        if len(calls) != 1:
            raise Mismatch('a declared value of a keyframe is not computed once')
        a = calls[0][1]
        want = (self_, f(decl, 'key'), ('idx', d, 'K'), el(d))
        for x, y, what in zip(a, want, ('cascade', 'property', 'layer', 'value')):
            k.require_same(x, y, f'the {what} of a declared value of a keyframe')
        if not step_style(k, a[4], f(kf, 'step')):
            raise Mismatch('a declared value of a keyframe does not end up in the declarations of its step')
        count['value'] += 1

    def keyframe(k, s, ef):
        kf = el(frames)
        if set(abandoned(s.all_events)) - {'K'}:
            raise Mismatch('some declarations of a keyframe are left')
        if not any(s.doms[x] == {f(kf, 'declaration')} for x in {e[1] for e in s.all_events if e[0] == 'exit'} if x in s.doms):
            raise Mismatch('the declarations of a keyframe are not walked')
        news = [m for m in ef.muts if m[1] == 'insert' and m[2][0] == f(kf, 'step')]
        known = [x for x in k.facts if x[0] == 'get' and x[2] == f(kf, 'step')]
        place = [x for x in iter_terms([s.all_events, s.doms]) if x[:1] == ('slot',) and x[2] == f(kf, 'step')] + \
            [x for x in iter_terms(s.updates) if x[:2] == ('m', 'slot') and x[3] == (f(kf, 'step'),)]
        if not known and not place:
            raise Mismatch('a keyframe does not look for the declarations of its step')
        if known and not k.is_(known[0], 'Some') and not news:
            raise Mismatch('the declarations of a step are lost')
        ext = [m for m in ef.muts if m[1] == 'extend' and m[2][0][0] == 'keys']
        if len(ext) == 1 and step_style(k, ext[0][2][0][1], f(kf, 'step')):
            count['extend'] += 1
        elif not any(b.dom and b.dom[0] == 'keys' and step_style(k, b.dom[1], ('f', ('elem', frames, 'L0'), 'step')) and
                     any(m[1] == 'insert' and m[2][0] == ('mapk', b.dom[1], 'K') for m in Effects(b.events, locals_too=True).muts) for b in segs if b.kind == 'back'):
            count['missed'] += 1

    def end(k, s, ef, d):
        p = el(d)
        puts = [m for m in ef.muts if m[1] == 'insert']
        slots = {x for x in list(iter_terms(s.updates)) + list(iter_terms(s.facts)) if x[0] == 'slot'} | {m[0] for m in puts if m[0][0] == 'slot'}
        steps = {x[2] for x in slots}
        if not steps <= {cint(0), cint(100)} or len(steps) != 1:
            raise Mismatch(f'properties are added to the frames {[pp(x) for x in steps]}')
        has = [x for x in k.facts if x[0] == 'get' and x[1][0] == 'lv' and 'slot' in str(x[1]) and x[2] == p]
        if len(has) != 1:
            raise Mismatch('whether a frame has an animated property is not looked for')
        count['end'] += 1
        if k.is_(has[0], 'Some'):
            if puts:
                raise Mismatch('the first or last frame loses what it declares')
            return
        if len(puts) != 1 or puts[0][2][0] != p:
            raise Mismatch('an animated property that the first or last frame does not declare is missing there')
        cur = ('get', style, p)
        got = puts[0][2][1]
        if k.is_(cur, 'Some'):
            return k.require_same(got, v0(cur, 'Some'), 'the value the first or last frame does not declare')
        if got[0] != 'call' or short_name(got[1]) != 'initial' or got[2] != (f(p, 'key'),):
            raise Mismatch(f'the value that nothing declares is {pp(got)}')

    def frame(k, s, ef, d):
        """The value of a property at a step goes to the track of the property."""
        mv = d[1]
        step, prop_, val = ('mapk', mv[1], mv[2]), ('mapk', mv, 'K'), ('mapv', mv, 'K')
        puts = [m for m in ef.muts if m[1] == 'insert' and m[2] == (step, val)]
        track = [x for x in k.facts if x[0] == 'get' and x[2] == prop_]
        if not track and len(puts) == 1 and puts[0][0][0] == 'slot' and puts[0][0][2] == prop_:
            # frames by property, a new property starts without any
            count['frame'] += 2
            count['grouped'] += 1
            return
        if len(track) == 1 and len(puts) == 1 and puts[0][0][0] == 'place' and not k.is_(track[0], 'Some'):
            # a new track gets its first frame before it is known
            news = [m for m in ef.muts if m[1] == 'insert' and m[2][0] == prop_]
            if len(news) != 1 or T.field(news[0][2][1], 'descriptor') != prop_ or \
                    T.field(news[0][2][1], 'frames') != ('m', 'insert', ('emap',), (step, val)) or ef.muts.index(news[0]) < ef.muts.index(puts[0]):
                raise Mismatch('a new track does not have the frame, has others or is of another property')
            count['frame'] += 1
            return
        if len(track) != 1 or len(puts) != 1 or puts[0][0][0] != 'f' or puts[0][0][2] != 'frames':
            raise Mismatch('the value of a property at a step does not become a frame of its track')
        count['frame'] += 1
        if k.is_(track[0], 'Some'):
            if puts[0][0] != f(v0(track[0], 'Some'), 'frames'):
                raise Mismatch('the value of a property becomes a frame of another track')
            return
        news = [m for m in ef.muts if m[1] == 'insert' and m[2][0] == prop_]
        if len(news) != 1 or T.field(news[0][2][1], 'descriptor') != prop_ or T.field(news[0][2][1], 'frames') != ('emap',):
            raise Mismatch('a new track is not empty or of another property')
    n = c.compare(segs, whole, 'tracks', name, lambda s: s.kind != 'ret')
    n += c.compare(segs, whole, 'tracks', name, lambda s: s.kind == 'ret')
    c.floor(count['value'], 1, 'declared values of keyframes', 'tracks-values')
    c.floor(count['end'], 3, 'properties of first and last frames', 'tracks-ends')
    c.floor(count['frame'], 2, 'values that become frames', 'tracks-frames')
    c.obligation(count['all'] or not count['missed'], 'animated', 'properties that a keyframe declares are not animated', name)
