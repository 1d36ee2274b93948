"""Path-sensitive abstract interpretation of MIR (trace partitioning, no solver, nothing executed).

A function's body is walked over an abstract store of symbolic terms.  Every decision the code takes is
recorded as a fact about a term, every effect as an event.  A loop is walked once, on a generic element,
after the places its body changes have been replaced by loop variables; loops over collections of known
length are unrolled.  The result is a finite set of segments (facts -> events, end, value) which the rules of
/verif/analysis/rules_*.py compare with what the property prescribes.
"""
import re
import sys
from terms import *
import terms as T

sys.setrecursionlimit(20000)

OPT, RES = T.OPT, T.RES
CF = 'std::ops::ControlFlow'


class Unsupported(Exception):
    pass


class Budget(Unsupported):
    pass


class State:
    __slots__ = ('mem', 'facts', 'ev', 'base')

    def __init__(self, mem=None, facts=None, ev=None, base=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev
        self.base = base

    def fork(self):
        return State(dict(self.mem), dict(self.facts), self.ev, self.base)

    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self, base=None):
        out = []
        c = self.ev
        while c is not None and c is not base:
            out.append(c[1])
            c = c[0]
        out.reverse()
        return out


class Segment:
    """One partition: a loop-free path from the entry (or a loop header) to a return, a back edge or a panic."""

    def __init__(self, kind, facts, events, value, where, loop=None, updates=None, all_events=None, mem=None):
        self.kind, self.facts, self.events, self.value = kind, facts, events, value
        self.where, self.loop, self.updates = where, loop, updates or {}
        self.all_events = all_events if all_events is not None else events
        self.mem = mem

    # -- queries used by the rules
    def fact(self, t):
        """True/False when the boolean term is decided on this path, else None."""
        return decided(self.facts, t)

    def variant(self, t):
        v = variant_of(t)
        if v is not None:
            return v
        f = self.facts.get(t)
        if f and f[0] == 'in' and len(f[1]) == 1:
            return next(iter(f[1]))
        return None

    def show(self):
        out = [f"  [{self.kind}{' ' + str(self.loop) if self.loop else ''}] at {self.where}"]
        for t, f in self.facts.items():
            out.append('    if ' + show_fact(t, f))
        for e in self.events:
            out.append('    > ' + show_event(e))
        for k, v in self.updates.items():
            out.append(f'    ~ {k} := {pp(v)}')
        if self.value is not None:
            out.append('    = ' + pp(self.value))
        return '\n'.join(out)


def show_fact(t, f):
    if f[0] == 'in':
        return f"{pp(t)} in {{{', '.join(sorted(map(str, f[1])))}}}"
    if f[0] == 'eq':
        return f"{pp(t)} == {pp(f[1])}"
    return f"{pp(t)} not in {{{', '.join(sorted(pp(c) for c in f[1]))}}}"


def show_event(e):
    if e[0] == 'loop':
        return f'loop({e[1]})'
    return e[0] + '(' + ', '.join(pp(x) if isinstance(x, tuple) else str(x) for x in e[1:]) + ')'


def decided(facts, t):
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t[0] == 'op' and t[1] == 'not':
        r = decided(facts, t[2])
        return None if r is None else (not r)
    if t[0] == 'op' and t[1] in ('and', 'or'):
        rs = [decided(facts, x) for x in t[2:]]
        if t[1] == 'and':
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if t[0] == 'isv':
        v = variant_of(t[1])
        if v is not None:
            return v == t[2]
        f = facts.get(t[1])
        if f and f[0] == 'in':
            if t[2] not in f[1]:
                return False
            if len(f[1]) == 1:
                return True
        return None
    if t[0] == 'op' and t[1] == 'eq' and len(t) == 4:
        x, c = t[2], t[3]
        if c[0] == 'c':
            f = facts.get(x)
            if f:
                if f[0] == 'eq':
                    return f[1] == c
                if f[0] == 'ne' and c in f[1]:
                    return False
            if c[1] in ('int', 'float') and c[2] == 0 and x[0] != 'c':
                up, down = facts.get(('op', 'pos', x)), facts.get(('op', 'pos', T.negpoly(x)))
                if ('eq', TRUE) in (up, down):
                    return False
                if up == down == ('eq', FALSE):
                    return True
            return None
    f = facts.get(t)
    if f and f[0] == 'eq':
        return f[1] == TRUE
    if t[0] == 'op' and t[1] == 'pos':
        n = T.negpoly(t[2])
        back = facts.get(('op', 'pos', n))
        if back == ('eq', TRUE):
            return False
        for x, up in ((t[2], True), (n, False)):
            f = facts.get(x)
            if f and f[0] == 'eq' and f[1][0] == 'c' and f[1][1] in ('int', 'float'):
                return f[1][2] > 0 if up else f[1][2] < 0
            if f and f[0] == 'ne' and back == ('eq', FALSE) and {cflt(0.0), cint(0)} & set(f[1]):
                return True
    return None


def loop_info(body):
    """Natural loops of the non-cleanup CFG: header -> set of blocks."""
    blocks = body['blocks']
    n = len(blocks)
    succ = [[] for _ in range(n)]
    for i, b in enumerate(blocks):
        if b['cleanup']:
            continue
        succ[i] = [s for s in successors(b['t']) if not blocks[s]['cleanup']]
    # DFS back edges (reducible CFGs)
    color = [0] * n
    back = []
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    order = []
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                stack.append((v, iter(succ[v])))
                break
            if color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            order.append(u)
            stack.pop()
    pred = [[] for _ in range(n)]
    for u in range(n):
        if color[u]:
            for v in succ[u]:
                pred[v].append(u)
    loops = {}
    for u, h in back:
        b = loops.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x in b:
                continue
            b.add(x)
            w.extend(pred[x])
    return loops


def successors(t):
    k = t['t']
    if k in ('goto', 'drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [] if t.get('to') is None else [t['to']]
    if k == 'switch':
        return [b for _, b in t['vals']] + ([t['else']] if t['else'] is not None else [])
    return []


class Frame:
    __slots__ = ('id', 'name', 'body', 'loops', 'fn', 'stack', 'prom', 'tmap')

    def ty(self, t):
        """A type, with what the parameters stand for."""
        if not self.tmap or not t:
            return t
        return re.sub(r'\w+', lambda m: self.tmap.get(m.group(0), m.group(0)), t)

    def __init__(self, id, name, fn, body, loops, stack, tmap):
        self.tmap = tmap
        self.id, self.name, self.fn, self.body, self.loops, self.stack = id, name, fn, body, loops, stack


class Engine:
    def __init__(self, facts, opaque=(), overrides=None, inline=None, max_steps=400000, max_segments=60000,
                 assume=None, merge=False, strict=False):
        self.merge = merge
        # strict: every way to stop the program is a path of its own (bounds, assertions, `unreachable!()`)
        self.strict = strict
        self.F = facts
        self.fns = facts['fns']
        self.adts = facts['adts']
        self.opaque = opaque
        self.clo_types = {}
        self.joins = {}
        self.refused = {}
        self.overrides = overrides or {}
        self.max_steps = max_steps
        self.max_segments = max_segments
        self.steps = 0
        self.segments = []
        self.nframe = 0
        self.nheap = 0
        self.moves = {}
        self.returned = None
        self.nloop = 0
        self.record = 0
        self.loopcache = {}
        self.analysed = set()
        self.unknown_calls = set()
        self.asserts = []
        self.stops = set()
        import models
        self.models = models

    # ---------------------------------------------------------------- entry
    def run(self, name, args=None, st=None, merge=False):
        fn = self.fns.get(name)
        if fn is None:
            raise Unsupported(f"no such function: {name}")
        body = fn['body']
        if args is None:
            args = []
            for i in range(1, body['args'] + 1):
                ty, nm = body['locals'][i]
                args.append(sym(nm or f"arg{i}"))
        self.segments = []
        st = st or State()
        outs = self.exec_fn(name, args, st, ())
        for s, v in outs:
            self.segments.append(Segment('ret', dict(s.facts), s.events(), self.val(s, v), name,
                                         mem=s.mem))
        return self.segments

    # ---------------------------------------------------------------- functions
    def exec_fn(self, name, args, st, stack, targs=()):
        fn = self.fns[name]
        self.analysed.add(name)
        body = fn['body']
        # what the type parameters of a generic function stand for in this call
        tps = fn.get('tps') or ()
        tmap = {a: b for a, b in zip(tps, targs) if a != b} if len(tps) == len(targs) else {}
        if fn['kind'] == 'closure' and not tmap:
            tmap = self.clo_types.get(name, {})
        return self.exec_body(name, fn, body, args, st, stack, tmap)

    def exec_body(self, name, fn, body, args, st, stack, tmap={}):
        self.nframe += 1
        fid = self.nframe
        key = id(body)
        if key not in self.loopcache:
            self.loopcache[key] = loop_info(body)
        fr = Frame(fid, name, fn, body, self.loopcache[key], stack + (name,), tmap)
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        outs = []
        for o in self.run_blocks(fr, 0, st, frozenset(), None):
            if o[0] == 'ret':
                s = o[1]
                v = s.mem.get(('L', fid, 0), UNIT)
                outs.append((s, v))
        self.returned = fid
        # forget the dead frame, merge partitions that became identical
        res = []
        seen = {}
        for s, v in outs:
            esc = mentions_frame(v, fid)
            if esc:
                v = self.val(s, v)
            for r in [r for r in s.mem if r[0] == 'L' and r[1] == fid]:
                del s.mem[r]
            if not self.merge:
                res.append((s, v))
                continue
            k = (v, s.ev if s.ev is None else id(s.ev), frozenset(s.mem.items()))
            if k in seen:
                o = seen[k]
                merge_facts(o, s)
                continue
            seen[k] = s
            res.append((s, v))
        return res

    # ---------------------------------------------------------------- blocks
    def run_blocks(self, fr, bb, st, active, within):
        """Yields ('ret', st) and ('back', header, st)."""
        out = []
        work = [(bb, st, True)]
        while work:
            bb, st, first = work.pop()
            while True:
                if within is not None and bb not in within:
                    break
                if bb in fr.loops:
                    if bb in active and not (first and bb in active):
                        out.append(('back', bb, st))
                        break
                    if bb not in active:
                        out.extend(self.handle_loop(fr, bb, st, active, within))
                        break
                first = False
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget(f"step budget exhausted in {fr.name}")
                blk = fr.body['blocks'][bb]
                for s in blk['s']:
                    self.stmt(fr, st, s)
                nxt = self.term(fr, st, blk, bb)
                if nxt is None:
                    break
                if nxt == 'ret':
                    out.append(('ret', st))
                    break
                if len(nxt) == 0:
                    break
                for b2, s2 in nxt[1:][::-1]:
                    work.append((b2, s2, False))
                bb, st = nxt[0]
        return out

    def handle_loop(self, fr, header, st, active, within):
        body = fr.loops[header]
        if self.concrete_loop(fr, header, body, st):
            return self.peel(fr, header, st, active, within)
        self.nloop += 1
        # loop keys are stable per (function, header) so that recon passes and refactorings agree
        key = f"{len(active)}.{header}.{fr.id}"
        act2 = active | {header}
        changed = {}
        self.record += 1
        frames = self.nframe   # every pass names the frames of the calls in the loop alike
        try:
            for _ in range(6):
                self.nframe = frames
                sth = self.havoc(st, changed, key, fr)
                hdr = sth.ev
                new = False
                backs = []
                outs = self.run_blocks(fr, header, sth.fork(), act2, body)
                for o in outs + [('back', header, s) for s in self.refused.pop(key, [])]:
                    if o[0] == 'back' and o[1] == header:
                        backs.append(o[2])
                        for path, kind in self.diff_mem(sth.mem, o[2].mem, key):
                            if path not in changed:
                                changed[path] = kind
                                new = True
                if not new:
                    break
            else:
                raise Unsupported(f"loop in {fr.name} does not stabilise")
        finally:
            self.record -= 1
        grown = self.growth(sth, backs, changed, key, fr)
        if grown is not None:
            # `while v.len() < n { v.push(x) }` makes v as long as n
            path, n, x, lv, test, go = grown
            self.nframe = frames
            out = []
            old = self.val(st, self.read(st, path))
            swap = ('sub', 'add') if go else ('add', 'sub')   # the length is on the lesser side of a test that holds
            test = T.pos(T.op(swap[0], T.op(swap[1], test[2], T.length(lv)), T.length(old)))
            for s, t in self.decide(st.fork(), test):
                if t == go:
                    self.write(s, path, ('m', 'resize', old, (n, x)), silent=True)
                    s.emit('mut', self.place_term(path), 'resize', (n, x))
                out += self.run_blocks(fr, header, s, act2, within)
            if not any(o[0] == 'back' and o[1] == header for o in out):
                return out
        inits = ()
        joins = self.joining(sth, backs, changed, key, st)
        self.joins[key] = joins
        if not self.record:
            inits = tuple(sorted(((self.path_name(p, fr), self.val(st, self.read(st, p))) for p in changed
                                  if changed[p] != 'it'), key=repr))
        self.nframe = frames
        sth = self.havoc(st, changed, key, fr)
        if joins is None:
            sth.emit('loop', key, inits)
        hdr = sth.ev
        out = []
        outs = self.run_blocks(fr, header, sth, act2, within)
        for o in outs + [('back', header, s) for s in self.refused.pop(key, [])]:
            if o[0] == 'back' and o[1] == header:
                s = o[2]
                if not self.record and joins is None:
                    upd = {}
                    for path in changed:
                        if changed[path] == 'it':
                            continue
                        v = self.read(s, path)
                        if path[0][:2] == ('L', fr.id) and not path[1] and fr.body['locals'][path[0][2]][0].startswith('&mut'):
                            # a pointer that moves: the place it moves to
                            upd['&' + self.path_name(path, fr)] = self.place_term(self.deref_loc(v))
                        upd[self.path_name(path, fr)] = self.val(s, v)
                    self.segments.append(Segment('back', dict(s.facts), s.events(hdr), None,
                                                 f"{fr.name}", key, upd, all_events=s.events(), mem=s.mem))
                    if len(self.segments) > self.max_segments:
                        raise Budget(f"segment budget exhausted in {fr.name}")
            else:
                out.append(o)
        return out

    def refuse(self, key, st):
        """An element a filter holds back: for the loop that walks it, a pass without effects."""
        if not isinstance(key, int):
            self.refused.setdefault(key, []).append(st)

    def joining(self, sth, backs, changed, key, st):
        """(place, text before, separator, sequence) of a loop that does nothing but append a separator and each element to a text."""
        if len(backs) != 1 or sorted(k == 'it' for k in changed.values()) != [False, True]:
            return None
        if any(sth.facts.get(t) != f for t, f in backs[0].facts.items()):
            return None
        path = next(p for p, k in changed.items() if k != 'it')
        lv, new = self.val(sth, self.read(sth, path)), self.val(backs[0], self.read(backs[0], path))
        if new[0] != 'cat' or new[1][0] != lv or len(new[1]) not in (2, 3):
            return None
        sep, x = (new[1][1] if len(new[1]) == 3 else T.cstr('')), new[1][-1]
        if sep[0] != 'c' or x[0] != 'elem' or x[2] != key or mentions(x[1], lambda t: t == lv):
            return None
        if any(e[0] not in ('rd', 'dom') for e in backs[0].events(sth.ev)):
            return None
        return path, self.val(st, self.read(st, path)), sep, x[1]

    def growth(self, sth, backs, changed, key, fr):
        """(place, length, element) of a loop that does nothing but add elements until a list has a length."""
        if len(backs) != 1 or len(changed) != 1:
            return None
        (path, kind), = changed.items()
        if kind == 'it':
            return None
        lv, new = self.val(sth, self.read(sth, path)), self.val(backs[0], self.read(backs[0], path))
        while new[0] == 'st' and len(new[2]) == 1:
            # the list is a part of what changes
            proj = path[1]
            if new[1][0] == 'as':
                proj += (('v', new[1][2]),)
            proj += (('f', new[2][0][0]),)
            whole = new[1][1] if new[1][0] == 'as' else new[1]
            if whole != lv:
                return None
            path, new = (path[0], proj), new[2][0][1]
            lv = self.val(sth, self.read(sth, path))
        if new[:3] != ('m', 'push', lv) or mentions(new[3][0], lambda t: t == lv):
            return None
        if [e for e in backs[0].events(sth.ev) if e[0] not in ('mut', 'rd') or e[0] == 'mut' and e[2] != 'push']:
            return None
        facts = [t for t, f in backs[0].facts.items() if sth.facts.get(t) != f]
        if len(facts) != 1 or facts[0][:2] != ('op', 'pos'):
            return None
        if backs[0].facts[facts[0]] == ('eq', TRUE):        # len < n
            n = T.op('add', facts[0][2], T.length(lv))
        elif backs[0].facts[facts[0]] == ('eq', FALSE):     # len <= n - 1
            n = T.op('add', T.op('sub', T.length(lv), facts[0][2]), cint(1))
        else:
            return None
        if mentions(n, lambda t: t == lv):
            return None
        return path, n, new[3][0], lv, facts[0], backs[0].facts[facts[0]] == ('eq', TRUE)

    def peel(self, fr, header, st, active, within):
        out = []
        work = [st]
        n = 0
        while work:
            s0 = work.pop()
            n += 1
            if n > 4000:
                raise Budget(f"unrolling budget exhausted in {fr.name}")
            for o in self.run_blocks(fr, header, s0, active | {header}, within):
                if o[0] == 'back' and o[1] == header:
                    work.append(o[2])
                else:
                    out.append(o)
        return out

    def concrete_loop(self, fr, header, body, st):
        for b in body:
            blk = fr.body['blocks'][b]
            t = blk['t']
            if t['t'] == 'call' and t['f'].get('o') == 'const' and t['f']['c'].get('k') == 'fn' and \
                    t['f']['c']['fn']['p'].endswith('Iterator::next'):
                a = t['a'][0]
                if 'p' not in a or a['p'][1]:
                    continue
                l = a['p'][0]
                for s in blk['s'][::-1]:
                    if s[0] == [l, []] and s[1]['r'] == 'ref':
                        p = s[1]['p']
                        if len(p[1]) == 1 and p[1][0][0] == '*':
                            # a reborrow: follow it to the iterator itself
                            l = p[0]
                            continue
                        try:
                            v = self.read(st, self.place(fr, st, p))
                        except Unsupported:
                            continue
                        # only the loop's own iterator: it exists before the loop is entered
                        if v[0] == 'adt' and 'Range' in v[1]:
                            v = self.models.as_iter(self, st, v)
                        if v[0] == 'it' and self.models.it_concrete(self, st, v):
                            return True
        return False

    def havoc(self, st, changed, key, fr):
        s = st.fork()
        for path, kind in sorted(changed.items(), key=lambda x: (len(x[0][1]), repr(x[0]))):
            if kind == 'it':
                self.write(s, path, self.models.it_widen(self.read(s, path), key), silent=True)
            else:
                self.write(s, path, ('lv', key, self.path_name(path, fr)), silent=True)
        return s

    def path_name(self, path, fr):
        root, proj = path
        if root[0] == 'L':
            if root[1] == fr.id:
                nm = fr.body['locals'][root[2]][1] or f"_{root[2]}"
            else:
                nm = f"f{root[1]}._{root[2]}"
        elif root[0] == 'O':
            nm = pp(root[1])
        else:
            nm = f"heap{root[1]}"
        for p in proj:
            nm += '.' + str(p[1] if not isinstance(p[1], tuple) else pp(p[1]))
        return nm

    def diff_mem(self, a, b, key):
        out = []

        def mk(root, proj):
            return (root, proj)

        def rec(x, y, root, proj):
            if x == y:
                return
            if x[0] == 'it' and y[0] == 'it':
                out.append((mk(root, proj), 'it'))
                return
            if x[0] in ('tup',) and y[0] == x[0] and len(x[1]) == len(y[1]):
                for i, (p, q) in enumerate(zip(x[1], y[1])):
                    rec(p, q, root, proj + (('f', str(i)),))
                return
            if x[0] == 'adt' and y[0] == 'adt' and x[1:3] == y[1:3] and [n for n, _ in x[3]] == [n for n, _ in y[3]]:
                st = T.struct_like(x)
                for (n, p), (_, q) in zip(x[3], y[3]):
                    rec(p, q, root, proj + ((() if st else (('v', x[2]),)) + (('f', n),)))
                return
            if y[0] == 'st' and (y[1] == x or (x[0] == 'st' and x[1] == y[1])) and y[1][0] != 'as':
                xs = dict(x[2]) if x[0] == 'st' and x[1] == y[1] else {}
                for n, q in y[2]:
                    rec(xs.get(n, T.field(y[1], n)), q, root, proj + (('f', n),))
                return
            out.append((mk(root, proj), 'lv'))

        for root, y in b.items():
            if root in a:
                rec(a[root], y, root, ())
            elif root[0] == 'O':
                if mentions(root[1], lambda t: len(t) > 1 and t[0] in ('elem', 'idx', 'lv', 'mapk') and key in t):
                    continue
                rec(root[1], y, root, ())
        return out

    # ---------------------------------------------------------------- memory
    def read(self, st, loc):
        root, proj = loc
        v = st.mem.get(root)
        if v is None:
            v = root[1] if root[0] == 'O' else ('undef',)
        for p in proj:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        k = p[0]
        if k == 'f':
            return T.field(v, p[1])
        if k == 'v':
            return T.as_variant(v, p[1])
        if k == 'i':
            return T.index(v, p[1])
        if k == 'sub':
            return slice_of(v, p[1], p[2], p[3])
        raise Unsupported(f"projection {p}")

    def write(self, st, loc, new, silent=False):
        root, proj = loc
        v = st.mem.get(root)
        if v is None:
            v = root[1] if root[0] == 'O' else ('undef',)
        st.mem[root] = self.update(v, proj, new)
        if not silent and root[0] == 'O':
            st.emit('w', self.place_term(loc), self.val(st, new))

    def update(self, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        if p[0] == 'f':
            if v[0] == 'undef' and len(proj) == 1:
                return ('st', v, ((p[1], new),))
            return T.set_field(v, p[1], self.update(T.field(v, p[1]), proj[1:], new))
        if p[0] == 'v':
            return self.update(T.as_variant(v, p[1]), proj[1:], new)
        if p[0] == 'i':
            old = T.index(v, p[1])
            x = self.update(old, proj[1:], new)
            if v[0] == 'arr' and p[1][0] == 'c':
                l = list(v[1])
                l[p[1][2]] = x
                return ('arr', tuple(l))
            return ('upd', v, p[1], x)
        raise Unsupported(f"update {p}")

    def place_term(self, loc):
        """The symbolic name of a place (independent of what has been written to it)."""
        root, proj = loc
        if root[0] == 'O':
            v = root[1]
        else:
            v = ('place',) + root
        for p in proj:
            if p[0] == 'f':
                v = T.field(v, p[1]) if v[0] != 'ref' else ('f', v, p[1])
            elif p[0] == 'v':
                v = T.as_variant(v, p[1])
            elif p[0] == 'i':
                v = T.index(v, p[1])
            else:
                v = ('f', v, str(p))
        return v

    def deref_loc(self, t):
        """Location a pointer value points to."""
        if t[0] == 'ref':
            return t[1]
        return (('O', t), ())

    def deref(self, st, t):
        if t[0] == 'ref':
            return self.read(st, t[1])
        if ('O', t) in st.mem:
            return st.mem[('O', t)]
        return t

    def val(self, st, t, depth=0):
        """Resolve references: the value a term denotes in this state."""
        if not isinstance(t, tuple) or depth > 30:
            return t
        k = t[0]
        if k == 'ref':
            v = self.read(st, t[1])
            return self.val(st, v, depth + 1)
        if k in ('c', 's', 'unit', 'undef', 'fn', 'lv'):
            return t
        if k == 'adt':
            if not t[3]:
                return t
            return ('adt', t[1], t[2], tuple((n, self.val(st, x, depth + 1)) for n, x in t[3]))
        if k in ('tup', 'arr'):
            return (k, tuple(self.val(st, x, depth + 1) for x in t[1]))
        if k == 'st':
            return ('st', self.val(st, t[1], depth + 1), tuple((n, self.val(st, x, depth + 1)) for n, x in t[2]))
        if k == 'it':
            return t
        if k == 'clo':
            return t
        if has_ref(t):
            return rebuild(t, lambda x: self.val(st, x, depth + 1))
        return t

    def vderef(self, st, t):
        """deref through any number of references, then resolve."""
        n = 0
        while n < 8:
            u = self.deref(st, t)
            if u == t:
                break
            t = u
            n += 1
            if t[0] != 'ref':
                break
        return self.val(st, t)

    def alloc(self, st, v):
        self.nheap += 1
        r = ('H', self.nheap)
        st.mem[r] = v
        return ('ref', (r, ()))

    # ---------------------------------------------------------------- places & operands
    def place(self, fr, st, p):
        root = ('L', fr.id, p[0])
        proj = ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, (root, proj))
                root, proj = self.deref_loc(v)
            elif k == 'f':
                proj = proj + (('f', e[1]),)
                if proj == (('f', e[1]),) or True:
                    # a Box/Unique pointer chain: keep the pointer itself
                    if e[1] == 'pointer' or e[1] == '0':
                        cur = self.read(st, (root, proj[:-1]))
                        if cur[0] == 'ref' and e[1] in ('0', 'pointer'):
                            proj = proj[:-1]
            elif k == 'v':
                proj = proj + (('v', e[1]),)
            elif k == 'i':
                proj = proj + (('i', self.val(st, self.read(st, (('L', fr.id, e[1]), ())))),)
            elif k == 'c':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    cur = self.val(st, self.read(st, (root, proj)))
                    ln = T.length(cur)
                    if ln[0] == 'c':
                        proj = proj + (('i', cint(ln[2] - off)),)
                    else:
                        fact = st.facts.get(ln)
                        if fact is not None and fact[0] == 'eq' and fact[1][0] == 'c':
                            proj = proj + (('i', cint(fact[1][2] - off)),)
                        else:
                            proj = proj + (('i', T.op('sub', ln, cint(off))),)
                else:
                    proj = proj + (('i', cint(off)),)
            elif k == 's':
                proj = proj + (('sub', e[1], e[2], e[3]),)
            else:
                raise Unsupported(f"place elem {e}")
        return (root, proj)

    def operand(self, fr, st, o):
        k = o['o']
        if k in ('copy', 'move'):
            return self.read(st, self.place(fr, st, o['p']))
        if k == 'const':
            return self.const(fr, st, o['c'])
        if k == 'rt':
            return TRUE
        raise Unsupported(f"operand {k}")

    def const(self, fr, st, c):
        k = c['k']
        if k == 'bool':
            return ('c', 'bool', bool(c['v']))
        if k == 'int':
            return cint(c['v'])
        if k == 'char':
            v = c['v']
            return ('c', 'str', v if isinstance(v, str) else chr(v))
        if k == 'float':
            return cflt(c['v'])
        if k == 'str':
            return cstr(c['v'])
        if k == 'bytes':
            return ('c', 'bytes', tuple(c['v']) if isinstance(c['v'], list) else c['v'])
        if k == 'fn':
            f = c['fn']
            targs = tuple(fr.ty(t) for t in f['targs'])
            res = f.get('res')
            if fr.tmap and f.get('trait') and targs and res in (None, f['p']):
                own = f"<{targs[0]} as {f['trait']}>::{f['p'].rsplit('::', 1)[-1]}"
                res = own if own in self.fns else res
            return ('fn', res or f['p'], f['p'], targs)
        if k == 'promoted':
            owner = self.fns.get(c['owner'])
            if owner is None:
                return ('opaque', f"promoted {c['owner']}#{c['v']}")
            body = owner['promoted'][c['v']]
            outs = self.exec_body(f"{c['owner']}::promoted{c['v']}", owner, body, [], st.fork(), ())
            if len(outs) != 1:
                raise Unsupported('promoted')
            s, v = outs[0]
            for r, x in s.mem.items():
                if r not in st.mem:
                    st.mem[r] = x
            v = self.val(s, v)
            return v
        if k == 'variant':
            return adt(c.get('adt') or strip_ty(c['ty']), c['v'])
        if k == 'zst':
            ty = c['ty']
            if ty == '()':
                return UNIT
            if '{closure' in ty:
                return ('clo', c.get('def') or ty, ())
            return adt(strip_ty(ty), strip_ty(ty).rsplit('::', 1)[-1])
        if k in ('array', 'tuple'):
            return ('arr' if k == 'array' else 'tup', tuple(self.const(fr, st, x) for x in c['v']))
        if k == 'struct':
            fs = tuple((n, self.const(fr, st, x)) for n, x in c['v'])
            return adt(c.get('adt') or strip_ty(c['ty']), c.get('variant') or strip_ty(c['ty']).rsplit('::', 1)[-1], fs)
        if k == 'refto':
            return self.const(fr, st, c['v'])
        return ('opaque', c.get('name') or str(c.get('v')) or c['ty'])

    # ---------------------------------------------------------------- statements
    def stmt(self, fr, st, s):
        place, rv, span = s
        v = self.rvalue(fr, st, rv, place)
        if v is None:
            return
        loc = self.place(fr, st, place)
        if not place[1]:
            a = rv.get('a') if rv['r'] == 'use' else None
            src = ('L', fr.id, a['p'][0]) if isinstance(a, dict) and a.get('o') == 'move' and not a['p'][1] else None
            self.moved(fr, place[0], id(s), src)
        self.write(st, loc, v)

    def moved(self, fr, local, site, src):
        """A whole local gets a value: moved from another whole local, or (None) otherwise."""
        self.moves.setdefault(('L', fr.id, local), set()).add((site, src))

    BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt',
           'Ge': 'ge', 'BitXor': 'bitxor', 'BitAnd': 'bitand', 'BitOr': 'bitor', 'Shl': 'shl', 'Shr': 'shr'}

    def rvalue(self, fr, st, r, place):
        k = r['r']
        if k == 'use':
            return self.operand(fr, st, r['a'])
        if k == 'ref':
            loc = self.place(fr, st, r['p'])
            if loc[0][0] == 'O' and not loc[1]:
                return loc[0][1]
            return ('ref', loc)
        if k == 'bin':
            a, b = self.val(st, self.operand(fr, st, r['a'])), self.val(st, self.operand(fr, st, r['b']))
            return self.binop(r['op'], a, b, r.get('ty', ''))
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            if r['op'] == 'PtrMetadata':
                return T.length(self.vderef(st, a))
            a = self.val(st, a)
            if r['op'] == 'Not':
                return T.op('not', a)
            return T.op('neg', a)
        if k == 'discr':
            v = self.read(st, self.place(fr, st, r['p']))
            return ('discr', v, r.get('adt'))
        if k == 'cast':
            a = self.operand(fr, st, r['a'])
            kind = r.get('kind', '')
            if 'Pointer' in kind or 'Transmute' in kind or 'PtrToPtr' in kind:
                return a
            to, frm = r.get('ty', ''), r.get('from', '')
            a = self.val(st, a)
            if a[0] == 'c' and a[1] in ('int', 'float') and to in ('f32', 'f64'):
                return cflt(a[2])
            if a[0] == 'c' and a[1] == 'float' and 0 <= a[2] <= 127 and to in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'usize', 'isize'):
                return cint(int(a[2]))
            if a[0] == 'discr':
                return ('cast', frm, to, a)
            isf = lambda x: x in ('f32', 'f64')
            if frm == 'bool':
                return T.op('b2i', a)
            if isf(to) and isf(frm):
                return a
            if not isf(to) and not isf(frm):
                return a
            return ('cast', 'f' if isf(frm) else 'i', 'f' if isf(to) else 'i', a)
        if k == 'repeat':
            a = self.operand(fr, st, r['a'])
            n = r.get('n')
            try:
                n = int(n)
            except Exception:
                return ('repeat', a, str(n))
            return ('arr', tuple(a for _ in range(n)))
        if k == 'agg':
            kind = r['k']
            a = [self.operand(fr, st, x) for x in r['a']]
            if kind == 'array':
                return ('arr', tuple(a))
            if kind == 'tuple':
                return UNIT if not a else ('tup', tuple(a))
            if kind == 'adt':
                base = self.rest_of(fr, r)
                if base is not None:
                    v = self.val(st, self.read(st, self.place(fr, st, base)))
                    if v[0] != 'adt':
                        for n, o, x in zip(r['names'], r['a'], a):
                            if not (o['o'] in ('copy', 'move') and o['p'][0] == base[0] and x == T.field(v, n)):
                                v = T.set_field(v, n, x)
                        return v
                return T.adt(r['adt'], r['v'], tuple(zip(r['names'], a)))
            if kind == 'closure':
                self.clo_types[r['def']] = fr.tmap
                return ('clo', r['def'], tuple(a))
            return ('opaque', f"agg {kind}")
        if k == 'setdiscr':
            return None
        return ('opaque', f"rvalue {k}")

    def rest_of(self, fr, r):
        """`S { x, ..base }`: the place of base."""
        bases = {}
        for n, o in zip(r['names'], r['a']):
            if o['o'] in ('copy', 'move') and o['p'][1] and o['p'][1][-1][:2] == ['f', n] and all(e[0] == '*' for e in o['p'][1][:-1]):
                bases.setdefault((o['p'][0], len(o['p'][1])), []).append(n)
        for (l, depth), ns in bases.items():
            ty = re.sub(r"^(&(mut )?)+", '', fr.body['locals'][l][0])
            if strip_ty(ty) == r['adt'] and len(ns) > 1:
                return [l, [e for o in r['a'] if o['o'] in ('copy', 'move') and o['p'][0] == l for e in o['p'][1][:-1]][:depth - 1]]
        return None

    def binop(self, op, a, b, ty=''):
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            return ('tup', (self.binop(base, a, b, ty), ('ovf', base, a, b)))
        op = op.replace('Unchecked', '')
        if op == 'Eq':
            return T.mk_eq(a, b)
        if op == 'Ne':
            return T.op('not', T.mk_eq(a, b))
        if op in ('BitAnd', 'BitOr') and ty == 'bool':
            return T.op('and' if op == 'BitAnd' else 'or', a, b)
        n = self.BIN.get(op)
        if n is None:
            return ('op', op.lower(), a, b)
        return T.op(n, a, b)

    # ---------------------------------------------------------------- facts
    def variants(self, path):
        a = self.adts.get(path)
        if a is None:
            if path == OPT:
                return ['None', 'Some']
            if path == RES:
                return ['Ok', 'Err']
            return None
        return [v['name'] for v in a['variants']]

    def fork_variant(self, st, v, variants, groups=None):
        """[(state, variant)] for the variants `v` may have; known variants do not fork."""
        kv = T.variant_of(v)
        if kv is not None:
            return [(st, kv)]
        if v[0] == 'posof':
            pass
        f = st.facts.get(v)
        poss = [x for x in variants if not f or f[0] != 'in' or x in f[1]]
        if len(poss) == 1:
            return [(st, poss[0])]
        out = []
        for x in poss:
            s = st.fork()
            s.facts[v] = ('in', frozenset([x]))
            out.append((s, x))
        return out

    def assume_variant(self, st, v, allowed):
        kv = T.variant_of(v)
        if kv is not None:
            return kv in allowed
        f = st.facts.get(v)
        cur = set(allowed) if not f or f[0] != 'in' else set(allowed) & f[1]
        if not cur:
            return False
        st.facts[v] = ('in', frozenset(cur))
        return True

    def decide(self, st, t):
        """[(state, bool)]"""
        d = decided(st.facts, t)
        if d is not None:
            return [(st, d)]
        if t[0] == 'op' and t[1] == 'not':
            return [(s, not b) for s, b in self.decide(st, t[2])]
        if t[0] == 'op' and t[1] in ('and', 'or'):
            isand = t[1] == 'and'
            out = []
            work = [(st, list(t[2:]))]
            while work:
                s, rest = work.pop()
                if not rest:
                    out.append((s, isand))
                    continue
                for s2, b in self.decide(s, rest[0]):
                    if b != isand:
                        out.append((s2, not isand))
                    else:
                        work.append((s2, rest[1:]))
            return out
        if t[0] == 'isv':
            v, name = t[1], t[2]
            path = t[3] if len(t) > 3 else None
            a, b = st.fork(), st.fork()
            a.facts[v] = ('in', frozenset([name]))
            f = st.facts.get(v)
            if f and f[0] == 'in':
                b.facts[v] = ('in', f[1] - {name})
            else:
                vs = self.variants_guess(v, name, path)
                if vs:
                    b.facts[v] = ('in', frozenset(vs) - {name})
                else:
                    b.facts[t] = ('eq', FALSE)
            return [(a, True), (b, False)]
        if t[0] == 'op' and t[1] == 'eq' and t[3][0] == 'c':
            x, c = t[2], t[3]
            f = st.facts.get(x)
            a, b = st.fork(), st.fork()
            a.facts[x] = ('eq', c)
            b.facts[x] = ('ne', (f[1] if f and f[0] == 'ne' else frozenset()) | {c})
            return [(a, True), (b, False)]
        a, b = st.fork(), st.fork()
        a.facts[t] = ('eq', TRUE)
        b.facts[t] = ('eq', FALSE)
        if not consistent(a.facts, t, True):
            return [(b, False)]
        if not consistent(b.facts, t, False):
            return [(a, True)]
        return [(a, True), (b, False)]

    def variants_guess(self, v, name, path):
        if name in ('Some', 'None'):
            return ['Some', 'None']
        if name in ('Ok', 'Err'):
            return ['Ok', 'Err']
        if path:
            return self.variants(path)
        c = [p for p, a in self.adts.items() if any(x['name'] == name for x in a['variants']) and len(a['variants']) > 1]
        if len(c) == 1:
            return self.variants(c[0])
        return None

    # ---------------------------------------------------------------- terminators
    def term(self, fr, st, blk, bb):
        t = blk['t']
        k = t['t']
        if k in ('goto', 'drop'):
            return [(t['to'], st)]
        if k == 'return':
            return 'ret'
        if k in ('unreachable', 'resume', 'other'):
            return []
        if k == 'assert':
            return self.do_assert(fr, st, t, blk)
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'call':
            return self.do_call(fr, st, t, blk)
        raise Unsupported(f"terminator {k}")

    def do_assert(self, fr, st, t, blk):
        c = self.val(st, self.operand(fr, st, t['c']))
        exp = t['exp']
        if c[0] == 'ovf' or (c[0] == 'op' and c[1] == 'not' and c[2][0] == 'ovf'):
            return [(t['to'], st)]
        want = c if exp else T.op('not', c)
        d = decided(st.facts, want)
        if d is True:
            return [(t['to'], st)]
        if not self.record:
            self.asserts.append((fr.name, t['kind'], want, blk['sp']))
        if d is False:
            return self.panic(st, t['kind'], {'fr': fr, 'sp': blk['sp']}) if self.strict else []
        # the failing side panics; the continuing side knows the condition
        for s, b in self.decide(st, want):
            if self.strict and not b:
                self.panic(s, t['kind'], {'fr': fr, 'sp': blk['sp']})
        for s, b in self.decide(st, want):
            if b:
                # keep path facts small: bounds assumptions are not decisions
                s2 = st
                return [(t['to'], s2)]
        return []

    def switch(self, fr, st, t):
        d = self.operand(fr, st, t['d'])
        if d[0] == 'cast' and d[3][0] == 'discr':
            d = d[3]
        if d[0] == 'discr':
            v = d[1]
            path = d[2]
            a = self.adts.get(path)
            if a is None:
                vs = self.variants(path)
                if vs is None:
                    raise Unsupported(f"discriminant of {path}")
                names = {str(i): n for i, n in enumerate(vs)}
            else:
                names = {str(x['discr']): x['name'] for x in a['variants']}
            v = self.vderef(st, v) if v[0] == 'ref' else self.val(st, v)
            allv = list(names.values())
            kv = T.variant_of(v)
            targets = {names.get(str(x)): b for x, b in t['vals']}
            if kv is not None:
                b = targets.get(kv, t['else'])
                return [(b, st)] if b is not None else []
            f = st.facts.get(v)
            poss = [x for x in allv if not (f and f[0] == 'in') or x in f[1]]
            out = []
            rest = []
            groups = {}
            for x in poss:
                if x in targets:
                    groups.setdefault(targets[x], []).append(x)
                else:
                    rest.append(x)
            if rest and t['else'] is not None and not self.is_unreachable(fr, t['else']):
                groups.setdefault(t['else'], []).extend(rest)
            gs = list(groups.items())
            for i, (b, xs) in enumerate(gs):
                s = st if len(gs) == 1 else st.fork()
                if len(gs) > 1 or len(xs) < len(allv):
                    s.facts[v] = ('in', frozenset(xs))
                out.append((b, s))
            return out
        d = self.val(st, d)
        if t['ty'] == 'bool':
            targets = {str(x): b for x, b in t['vals']}
            fb = targets.get('0', t['else'])
            tb = targets.get('1', t['else'])
            if d[0] in ('lv', 'undef') and self.is_drop_flag(fr, t, tb, fb):
                return [(fb, st)]
            return [(tb if b else fb, s) for s, b in self.decide(st, d)]
        # integers / chars
        if d[0] == 'c':
            for x, b in t['vals']:
                if self.const_matches(d, x, t['ty']):
                    return [(b, st)]
            return [(t['else'], st)] if t['else'] is not None else []
        out = []
        cur = st
        for x, b in t['vals']:
            c = cstr(chr(int(x))) if t['ty'] == 'char' else cint(x)
            nxt = None
            for s, r in self.decide(cur, T.mk_eq(d, c)):
                if r:
                    out.append((b, s))
                else:
                    nxt = s
            if nxt is None:
                cur = None
                break
            cur = nxt
        if cur is not None and t['else'] is not None and not self.is_unreachable(fr, t['else']):
            out.append((t['else'], cur))
        return out

    def const_matches(self, d, x, ty):
        if d[1] == 'str':
            return len(d[2]) == 1 and ord(d[2]) == int(x)
        return int(d[2]) == int(x)

    def is_unreachable(self, fr, bb):
        b = fr.body['blocks'][bb]
        return b['t']['t'] == 'unreachable' and not b['s']

    def is_drop_flag(self, fr, t, tb, fb):
        p = t['d'].get('p')
        if not p or p[1]:
            return False
        b = fr.body['blocks'][tb]
        return fr.body['locals'][p[0]][1] is None and b['t']['t'] == 'drop' and not b['s']

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, st, t, blk):
        fo = t['f']
        args = [self.operand(fr, st, a) for a in t['a']]
        if fo['o'] == 'const' and fo['c'].get('k') == 'fn':
            fv = self.const(fr, st, fo['c'])
            info = fo['c']['fn']
        else:
            fv = self.val(st, self.operand(fr, st, fo))
            info = None
        call = {'at': t['at'], 'dty': fr.ty(t['dty']), 'sp': blk['sp'], 'fr': fr, 'info': info}
        self.returned = None
        outs = self.call(st, fv, args, call, fr.stack)
        if not t['d'][1]:
            self.moved(fr, t['d'][0], id(t), ('L', self.returned, 0) if self.returned and fv[0] == 'fn' and fv[1] in self.F['fns'] else None)
        res = []
        for s, v in outs:
            if t.get('to') is None:
                if self.strict:
                    self.panic(s, f'{short(fv)} is reached', call)
                continue
            self.write(s, self.place(fr, s, t['d']), v)
            res.append((t['to'], s))
        return res

    def call(self, st, fv, args, call, stack):
        if fv[0] == 'ref':
            fv = self.vderef(st, fv)
        if fv[0] == 'clo':
            return self.call_closure(st, fv, args, call, stack)
        if fv[0] != 'fn':
            a = tuple(self.val(st, x) for x in args)
            st.emit('call', 'fnptr', (fv,) + a, self.where(call))
            return [(st, ('call', 'fnptr', (fv,) + a))]
        res, p, targs = fv[1], fv[2], fv[3]
        call = dict(call)
        call.update(res=res, p=p, targs=targs, stack=stack)
        ov = self.lookup(self.overrides, res, p)
        if ov is not None:
            r = ov(self, st, args, call)
            if r is not NotImplemented:
                return r
        m = self.models.lookup(p, res, call)
        fn = self.fns.get(res)
        if p in CALLS and len(args) == 2:
            return m(self, st, args, call) if m is not None else self.models.m_call(self, st, args, call)
        if fn is not None and fn.get('expn') and fn.get('trait') and m is not None:
            return m(self, st, args, call)
        if fn is not None:
            if self.is_opaque(res) or res in stack:
                return self.opaque_call(st, res, args, call)
            if self.nframe > 200000:
                raise Budget('frames')
            return self.exec_fn(res, args, st, stack, targs)
        if m is not None:
            return m(self, st, args, call)
        # enum/struct constructors used as functions
        c = self.ctor(res, p, args, call)
        if c is not None:
            return [(st, c)]
        self.unknown_calls.add(res or p)
        if self.strict and not self.record:
            self.stops.add(res or p)
        return self.opaque_call(st, res or p, args, call)

    def lookup(self, table, res, p):
        for k in (res, p):
            if k in table:
                return table[k]
        return None

    def is_opaque(self, name):
        if callable(self.opaque):
            return self.opaque(name)
        return name in self.opaque

    def ctor(self, res, p, args, call):
        info = call.get('info')
        name = res or p
        if '::' not in name:
            return None
        base, v = name.rsplit('::', 1)
        base = strip_ty(base)
        a = self.adts.get(base)
        if a:
            for x in a['variants']:
                if x['name'] == v:
                    return T.adt(base, v, tuple((n, y) for (n, _), y in zip(x['fields'], args)))
        a = self.adts.get(strip_ty(name))
        if a and len(a['variants']) == 1 and len(a['variants'][0]['fields']) == len(args):
            x = a['variants'][0]
            return T.adt(strip_ty(name), x['name'], tuple((n, y) for (n, _), y in zip(x['fields'], args)))
        return None

    def where(self, call):
        return call['fr'].name if call.get('fr') else ''

    def opaque_call(self, st, name, args, call):
        a = tuple(self.val(st, x) for x in args)
        st.emit('call', name, a, self.where(call))
        if name not in self.fns:
            for x, ty in zip(args, call.get('at') or []):
                if ty.startswith('&mut') and x[0] == 'ref':
                    old = self.val(st, self.read(st, x[1]))
                    self.write(st, x[1], ('m', name, old, a), silent=True)
        return [(st, ('call', name, a))]

    def call_closure(self, st, clo, args, call, stack):
        fn = self.fns.get(clo[1])
        if fn is None:
            raise Unsupported(f"no body for closure {clo[1]}")
        body = fn['body']
        self_ty = body['locals'][1][0]
        selfv = self.alloc(st, clo) if self_ty.startswith('&') else clo
        a = [selfv] + list(args)
        if len(a) != body['args']:
            if len(args) == 1 and args[0][0] == 'tup' and body['args'] == 1 + len(args[0][1]):
                a = [selfv] + list(args[0][1])
            elif len(args) == 1 and args[0] == UNIT and body['args'] == 1:
                a = [selfv]
        if len(a) != body['args']:
            raise Unsupported(f"closure arity {clo[1]} {len(a)} {body['args']}")
        if clo[1] in stack:
            return self.opaque_call(st, clo[1], args, call)
        return self.exec_fn(clo[1], a, st, stack)

    def apply(self, st, f, args, call):
        """Call a function value (closure, fn item, fn pointer)."""
        f2 = self.vderef(st, f) if f[0] == 'ref' else f
        return self.call(st, f2, args, {'at': [], 'dty': '', 'fr': call.get('fr'), 'info': None}, call['stack'])

    def panic(self, st, what, call):
        if not self.record:
            self.segments.append(Segment('panic', dict(st.facts), st.events(), cstr(what), self.where(call)))
        return []


def short(fv):
    return str(fv[1]) if fv[0] == 'fn' else pp(fv)


def consistent(facts, t, val):
    """Reject trivially impossible combinations of order facts."""
    if t[0] == 'op' and t[1] == 'pos' and val:
        if facts.get(('op', 'pos', T.negpoly(t[2]))) == ('eq', TRUE):
            return False
    return True


def canon_cmp(r):
    return r


def merge_facts(a, b):
    """Keep only what both partitions know."""
    out = {}
    for t, f in a.facts.items():
        g = b.facts.get(t)
        if g == f:
            out[t] = f
        elif g and f[0] == 'in' and g[0] == 'in':
            out[t] = ('in', f[1] | g[1])
        elif g and f[0] == 'ne' and g[0] == 'ne':
            c = f[1] & g[1]
            if c:
                out[t] = ('ne', c)
        elif g and f[0] == 'ne' and g[0] == 'eq' and g[1] not in f[1]:
            out[t] = f
        elif g and f[0] == 'eq' and g[0] == 'ne' and f[1] not in g[1]:
            out[t] = g
    a.facts = out


def strip_ty(ty):
    """`a::B<'x, C>` -> `a::B`"""
    out = []
    d = 0
    i = 0
    while i < len(ty):
        if ty.startswith('::<', i):
            d += 1
            i += 3
            continue
        ch = ty[i]
        if ch == '<' and i > 0:
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def has_ref(t):
    return mentions(t, lambda x: len(x) == 2 and x[0] == 'ref' and isinstance(x[1], tuple))


def mentions_frame(t, fid):
    return mentions(t, lambda x: len(x) == 3 and x[0] == 'L' and x[1] == fid)


def rebuild(t, f):
    out = []
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out.append(f(x))
        elif isinstance(x, tuple):
            out.append(tuple(rebuild_item(y, f) for y in x))
        else:
            out.append(x)
    return tuple(out)


def rebuild_item(y, f):
    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple) and y[1] and \
            isinstance(y[1][0], str) and y[0] not in KINDS:
        return (y[0], f(y[1]))
    if isinstance(y, tuple) and y and isinstance(y[0], str):
        return f(y)
    return y


CALLS = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
KINDS = {'ref', 'len', 's', 'opaque', 'tup', 'arr', 'ctx', 'cat', 'place', 'unit', 'disp', 'fmtdbg', 'children'}


def slice_of(v, a, b, from_end):
    if v[0] == 'arr':
        n = len(v[1])
        e = n - b if from_end else b
        return ('arr', v[1][a:e])
    if from_end and a == 0 and b == 0:
        return v
    return ('slice', v, cint(a), T.op('sub', T.length(v), cint(b)) if from_end else cint(b))
