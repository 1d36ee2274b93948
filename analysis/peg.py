"""Whether every text of a given form is parsed into the tree of that form.

The forms are a regular language of texts in which the beginning and end of the pairs are marked (a written-out parse
tree).  A grammar accepts a marked text if parsing the text without marks (ordered choice, possessive repetition, implicit
white space, atomic rules) succeeds and gives exactly the marked pairs.  Both are explored together by derivatives: a
state of the parser is a boolean combination of continuations, where everything ordered choice has to refuse is a
negated continuation on the text without marks.  Nothing is sampled: the exploration covers all texts of the forms."""
import re
from collections import deque
from grammar import GrammarError

# ------------------------------------------------------------------ characters
BLANKS = ' \t\r\n'
TOP = 0x110000


class Set:
    """A set of characters, as sorted disjoint ranges."""

    def __init__(self, ranges):
        out = []
        for a, b in sorted(ranges):
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        self.r = tuple(out)

    def __hash__(self):
        return hash(self.r)

    def __eq__(self, o):
        return isinstance(o, Set) and self.r == o.r

    def __contains__(self, x):
        return any(a <= x <= b for a, b in self.r)


def chars(s):
    """'a-z_' as in a character class; '^...' is the complement."""
    neg = s.startswith('^') and len(s) > 1
    s = s[1:] if neg else s
    out, i = [], 0
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == '-':
            out.append((ord(s[i]), ord(s[i + 2])))
            i += 3
        else:
            out.append((ord(s[i]), ord(s[i])))
            i += 1
    r = Set(out)
    return complement(r) if neg else r


def complement(r):
    out, at = [], 0
    for a, b in r.r:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at < TOP:
        out.append((at, TOP - 1))
    return Set(out)


ANY = Set([(0, TOP - 1)])
CLASSES = {'ANY': ANY, 'ASCII_DIGIT': chars('0-9'), 'ASCII_NONZERO_DIGIT': chars('1-9'), 'ASCII_ALPHA_LOWER': chars('a-z'), 'ASCII_ALPHA_UPPER': chars('A-Z'),
           'ASCII_ALPHA': chars('a-zA-Z'), 'ASCII_ALPHANUMERIC': chars('a-zA-Z0-9'), 'ASCII_HEX_DIGIT': chars('0-9a-fA-F'), 'ASCII_BIN_DIGIT': chars('01'),
           'ASCII_OCT_DIGIT': chars('0-7'), 'ASCII': Set([(0, 127)])}


# ------------------------------------------------------------------ forms
def lit(s):
    return ('seq', [('set', chars(c) if c not in '^-' else Set([(ord(c), ord(c))])) for c in s])


def ilit(s):
    return ('seq', [('set', Set([(ord(c.lower()),) * 2, (ord(c.upper()),) * 2])) for c in s])


def cls(s):
    return ('set', chars(s))


def seq(*xs):
    return ('seq', [lit(x) if isinstance(x, str) else x for x in xs])


def alt(*xs):
    return ('alt', [lit(x) if isinstance(x, str) else x for x in xs])


def star(x):
    return ('star', lit(x) if isinstance(x, str) else x)


def plus(*xs):
    return seq(seq(*xs), star(seq(*xs)))


def opt(*xs):
    return alt(seq(*xs), seq())


def pair(name, *xs):
    """A pair, whose text is exactly this."""
    return seq(('mark', '<', name), *xs, ('mark', '>', name))


def holds(name, *xs):
    """A pair of pairs: it begins here; its end may be earlier in what it is made of, but not before the pairs inside."""
    return seq(('mark', '<', name), *xs, ('mark', '~', name))


def others(first, rest, words, fold=False):
    """Names of `first rest*` except for some words."""
    sets = lambda c: Set([(ord(c.lower()),) * 2, (ord(c.upper()),) * 2]) if fold else Set([(ord(c), ord(c))])

    def minus(a, cs):
        hit = [x for c in cs for x in sets(c).r]
        inv = complement(Set(hit))
        out = []
        for p, q in a.r:
            for r, s in inv.r:
                if max(p, r) <= min(q, s):
                    out.append((max(p, r), min(q, s)))
        return Set(out)

    def go(ws, head, empty):
        """Names from here on, when the words beginning here continue with ws."""
        firsts = sorted({w[0] for w in ws if w})
        parts = [seq(('set', minus(head, firsts)), star(('set', rest)))]
        for c in firsts:
            parts.append(seq(('set', sets(c)), go([w[1:] for w in ws if w and w[0] == c], rest, True)))
        if empty and '' not in ws:
            parts.append(seq())
        return alt(*parts)
    return go([w.lower() if fold else w for w in words], first, False)


def unlike(first, rest, word):
    """Names of `first rest*` that do not begin with a word."""
    out = []
    for i, c in enumerate(word):
        head = first if i == 0 else rest
        inv = complement(Set([(ord(c), ord(c))]))
        less = Set([(max(p, r), min(q, s)) for p, q in head.r for r, s in inv.r if max(p, r) <= min(q, s)])
        out.append(seq(lit(word[:i]), alt(seq(('set', less), star(('set', rest))), *([seq()] if i else []))))
    return alt(*out)


class Forms:
    """Automaton of a form, made deterministic on the way."""

    def __init__(self, e, marks):
        self.marks = marks
        self.eps, self.step, self.n = {}, {}, 0
        a, b = self.build(e)
        self.final = b
        self.memo = {}
        self.start = self.close({a})

    def new(self):
        self.n += 1
        return self.n

    def build(self, e):
        a, b = self.new(), self.new()
        k = e[0]
        if k == 'set':
            if e[1].r:
                self.step.setdefault(a, []).append((e[1], b))
        elif k == 'mark':
            if (e[1], e[2]) in self.marks:
                self.step.setdefault(a, []).append(((e[1], e[2]), b))
            else:
                self.eps.setdefault(a, []).append(b)
        elif k == 'seq':
            cur = a
            for x in e[1]:
                p, q = self.build(x)
                self.eps.setdefault(cur, []).append(p)
                cur = q
            self.eps.setdefault(cur, []).append(b)
        elif k == 'alt':
            for x in e[1]:
                p, q = self.build(x)
                self.eps.setdefault(a, []).append(p)
                self.eps.setdefault(q, []).append(b)
        elif k == 'star':
            p, q = self.build(e[1])
            self.eps.setdefault(a, []).extend((p, b))
            self.eps.setdefault(q, []).extend((p, b))
        else:
            raise GrammarError(k)
        return a, b

    def close(self, xs):
        seen, work = set(xs), list(xs)
        while work:
            for y in self.eps.get(work.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return frozenset(x for x in seen if x in self.step or x == self.final)

    def next(self, state, c):
        """c: a character or a mark."""
        key = (state, c)
        if key not in self.memo:
            out = set()
            for x in state:
                for on, y in self.step.get(x, ()):
                    if (on == c) if isinstance(c, tuple) else isinstance(on, Set) and c in on:
                        out.add(y)
            self.memo[key] = self.close(out)
        return self.memo[key]

    def sets(self):
        return {on for v in self.step.values() for on, y in v if isinstance(on, Set)}


# ------------------------------------------------------------------ the parser
T, F = ('true',), ('false',)
EOI, REST, TAIL = ('eoi',), ('rest',), ('tail',)      # the end; anything (also pairs); anything without pairs


def freeze(e):
    return tuple(freeze(x) for x in e) if isinstance(e, (tuple, list)) else e


class Parser:
    """Continuations of a grammar as boolean combinations, and their derivatives.

    Items: ('set', s) ('mark', m) ('x', e, mode) ('rep', e, mode) EOI REST, in linked lists (head, tail).  Modes: N (implicit white
    space), C (none), A (none, and no pairs)."""

    def __init__(self, g, marked):
        """marked: {name: mark at the end} of the rules whose pairs are marked."""
        self.rules = {n: (k, freeze(e)) for n, (k, e) in g.rules.items()}
        self.marked = marked
        self.memo = {}
        self.ends = {}
        self.nulls = {}
        self.limit = 2000000
        self.node = {}

    # formulas
    def mk(self, t):
        return self.node.setdefault(t, t)

    def neg(self, a):
        if a is T:
            return F
        if a is F:
            return T
        return a[1] if a[0] == 'not' else self.mk(('not', a))

    def junction(self, kind, xs):
        unit, zero = (T, F) if kind == 'and' else (F, T)
        out = set()
        for x in xs:
            if x is zero:
                return zero
            if x is unit:
                continue
            if x[0] == kind:
                out |= x[1]
            else:
                out.add(x)
        for x in out:
            if x[0] == 'not' and x[1] in out:
                return zero
        # absorption
        other = 'or' if kind == 'and' else 'and'
        drop = [x for x in out if x[0] == other and x[1] & out]
        out -= set(drop)
        if not out:
            return unit
        if len(out) == 1:
            return next(iter(out))
        return self.mk((kind, frozenset(out)))

    def conj(self, *xs):
        return self.junction('and', xs)

    def disj(self, *xs):
        return self.junction('or', xs)

    # continuations
    def skip(self):
        """Implicit white space."""
        ws = ('rep', ('rule', 'WHITESPACE'), 'A', True) if 'WHITESPACE' in self.rules else None
        co = ('rule', 'COMMENT') if 'COMMENT' in self.rules else None
        if ws and co:
            return [ws, ('rep', ('cw',), 'A', True)]
        if ws:
            return [ws]
        return [('rep', co, 'A', True)] if co else []

    def push(self, items, k):
        for x in reversed(items):
            k = (x, k)
        return k

    def expand(self, k, raw):
        """A formula of literals ('w', set or mark, continuation, raw) and ends."""
        key = (k, raw)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise GrammarError('left recursion')
            return r
        self.memo[key] = None
        r = self.memo[key] = self.expand_(k, raw)
        return r

    def refuse(self, items):
        return self.neg(self.expand(self.push(items, (REST, None)), True))

    def expand_(self, k, raw):
        if k is None:
            return self.mk(('end',))
        x, rest = k
        go = lambda items, r=rest: self.expand(self.push(items, r), raw)
        if x is REST:
            return T
        if x is TAIL:
            return self.mk(('tail',))
        if x is EOI:
            return self.conj(self.mk(('end',)), go([])) if rest is not None else self.mk(('end',))
        if x[0] == 'set':
            return self.mk(('w', x[1], rest, raw)) if x[1].r else F
        if x[0] == 'mark':
            if raw:
                return go([])
            return self.mk(('lazy', x[1:], go([]))) if x[1] == '~' else self.mk(('w', x[1:], rest, raw))
        if x[0] == 'rep':
            e, mode, plain = x[1], x[2], x[3]
            if e == ('cw',):
                one = [('x', ('rule', 'COMMENT'), 'A'), ('rep', ('rule', 'WHITESPACE'), 'A', True)]
            else:
                one = [('x', e, mode)]
            if not plain and mode == 'N':
                one = self.skip() + one
            return self.disj(go(one + [x]), self.conj(go([]), self.refuse(one)))
        e, mode = x[1], x[2]
        if x[0] == 'opt*':
            # a repetition with white space between its elements, but not after them
            one = [('x', e, mode)]
            return self.disj(go(one + [('rep', e, mode, False)]), self.conj(go([]), self.refuse(one)))
        if x[0] == 'opt':
            one = [('x', e, mode)]
            return self.disj(go(one + ((self.skip() if mode == 'N' else []) + [x[3]] if x[3] else [])), self.conj(go([]), self.refuse(one)))
        kind = e[0]
        if kind == 'str':
            return go([('set', Set([(ord(c), ord(c))])) for c in e[1]])
        if kind == 'istr':
            return go([('set', Set([(ord(c.lower()),) * 2, (ord(c.upper()),) * 2] if c.isascii() else [(ord(c), ord(c))])) for c in e[1]])
        if kind == 'range':
            return go([('set', Set([(ord(e[1]), ord(e[2]))]))])
        if kind == 'seq':
            items = []
            for i, p in enumerate(e[1]):
                if i and mode == 'N':
                    items += self.skip()
                items.append(('x', p, mode))
            return go(items)
        if kind == 'alt':
            out, no = [], []
            for p in e[1]:
                out.append(self.conj(go([('x', p, mode)]), *no))
                no.append(self.refuse([('x', p, mode)]))
            return self.disj(*out)
        if kind == 'look':
            no = self.refuse([('x', e[2], mode)])
            return self.conj(go([]), no if e[1] == '!' else self.neg(no))
        if kind == 'rep':
            lo, hi = e[2], e[3]
            items = []
            for i in range(lo):
                if i and mode == 'N':
                    items += self.skip()
                items.append(('x', e[1], mode))
            if hi is None:
                if lo and mode == 'N':
                    items += self.skip()
                items.append(('opt*', e[1], mode))
            elif hi > lo:
                more = None
                for i in range(hi - lo):
                    more = ('opt', e[1], mode, more)
                if lo and mode == 'N':
                    items += self.skip()
                items.append(more)
            return go(items)
        if kind == 'rule':
            n = e[1]
            if n not in self.rules:
                if n == 'SOI':
                    return go([])
                if n == 'EOI':
                    return self.conj(self.mk(('end',)), go([]))
                if n == 'NEWLINE':
                    return go([('x', ('alt', (('str', '\n'), ('str', '\r\n'), ('str', '\r'))), mode)])
                if n in CLASSES:
                    return go([('set', CLASSES[n])])
                raise GrammarError(f'rule {n} is unknown')
            kind, body = self.rules[n]
            inner = {'@': 'A', '$': 'C', '!': 'N'}.get(kind, mode)
            shown = kind != '_' and (mode != 'A' or kind == '!')
            if kind == '@' and mode == 'A':
                shown = False
            items = [('x', body, inner)]
            if shown and n in self.marked:
                m = self.marked[n]
                items = [('mark', '<', n)] + items + [('mark', m, n)]
            return go(items)
        raise GrammarError(kind)

    # derivatives
    def derive(self, f, c):
        """c: a character or a mark."""
        key = (f, c)
        r = self.ends.get(key)
        if r is not None:
            return r
        k = f[0]
        if k in ('true', 'false'):
            r = f
        elif k == 'end':
            r = f if isinstance(c, tuple) else F
        elif k == 'lazy':
            if isinstance(c, tuple):
                r = f[2] if c == f[1] else F
            else:
                r = self.derive(f[2], c)
                r = F if r is F else self.mk(('lazy', f[1], r))
        elif k == 'tail':
            r = F if isinstance(c, tuple) else f
        elif k == 'w':
            _, on, rest, raw = f
            if isinstance(c, tuple):
                r = f if raw else (self.expand(rest, raw) if on == c else F)
            else:
                r = self.expand(rest, raw) if isinstance(on, Set) and c in on else F
        elif k == 'not':
            r = self.neg(self.derive(f[1], c))
        else:
            r = self.junction(k, [self.derive(x, c) for x in f[1]])
        self.ends[key] = r
        if len(self.ends) > self.limit:
            raise GrammarError('the conditions on the rest of the text grow without end')
        return r

    def null(self, f):
        r = self.nulls.get(f)
        if r is None:
            r = self.nulls[f] = self.null_(f)
        return r

    def null_(self, f):
        k = f[0]
        if k in ('true', 'end', 'tail'):
            return True
        if k in ('false', 'w', 'lazy'):
            return False
        if k == 'not':
            return not self.null(f[1])
        return (all if k == 'and' else any)(self.null(x) for x in f[1])

    def sets(self):
        out = set()

        def walk(e):
            if e[0] == 'str':
                out.update(Set([(ord(c), ord(c))]) for c in e[1])
            elif e[0] == 'istr':
                out.update(Set([(ord(c.lower()),) * 2, (ord(c.upper()),) * 2]) for c in e[1])
            elif e[0] == 'range':
                out.add(Set([(ord(e[1]), ord(e[2]))]))
            elif e[0] == 'rule' and e[1] in CLASSES:
                out.add(CLASSES[e[1]])
            elif e[0] in ('seq', 'alt'):
                for x in e[1]:
                    walk(x)
            elif e[0] == 'rep':
                walk(e[1])
            elif e[0] == 'look':
                walk(e[2])
        for kind, e in self.rules.values():
            walk(e)
        out.update(chars(c) for c in '\r\n')
        return out


def letters(sets):
    """One character of each class of characters that no set distinguishes."""
    cuts = sorted({0} | {x for s in sets for a, b in s.r for x in (a, b + 1) if x < TOP})
    seen = {}
    for a in cuts:
        sig = tuple(a in s for s in sorted(sets, key=lambda s: s.r))
        if sig not in seen or not chr(seen[sig]).isprintable() and chr(a).isprintable():
            seen.setdefault(sig, a)
            if chr(a).isprintable() and not chr(seen[sig]).isprintable():
                seen[sig] = a
    return sorted(seen.values())


def names(e, out):
    """{rule: marks of it in a form}"""
    if e[0] == 'mark':
        out.setdefault(e[2], set()).add(e[1])
    elif e[0] in ('seq', 'alt'):
        for x in e[1]:
            names(x, out)
    elif e[0] == 'star':
        names(e[1], out)
    return out


def check(g, root, form, limit=400000, full=True):
    """(a marked text of the form that the grammar does not parse like that, or None; number of states)"""
    ms = {n: m for n, m in names(form, {}).items() if n in g.rules and g.rules[n][0] != '_'}
    p = Parser(g, {n: '~' if '~' in m else '>' for n, m in ms.items()})
    forms = Forms(form, {(a, n) for n, m in ms.items() for a in m})
    alphabet = letters(p.sets() | forms.sets())
    marks = [(a, n) for n, m in ms.items() for a in sorted(m)]
    start = (forms.start, p.expand((('x', ('rule', root), 'N'), ((EOI if full else TAIL), None)), False))
    back = {start: None}
    work = deque([start])

    def trace(st, extra=()):
        out = list(extra)
        while back[st]:
            st, c = back[st]
            out.append(c)
        return ''.join((f'⟨{c[1]} ' if c[0] == '<' else '⟩') if isinstance(c, tuple) else chr(c) for c in reversed(out))
    while work:
        st = work.popleft()
        q, f = st
        if forms.final in q and not p.null(f):
            return trace(st), len(back)
        for c in marks + alphabet:
            q2 = forms.next(q, c)
            if not q2:
                continue
            f2 = p.derive(f, c)
            if f2 is F:
                return trace(st, [c]), len(back)
            if f2 is T:
                continue
            n = (q2, f2)
            if n not in back:
                back[n] = (st, c)
                work.append(n)
                if len(back) > limit:
                    raise GrammarError('too many states')
    return None, len(back)


MARKS = re.compile(r'⟨(\w+) |⟩')


def plain(text):
    return MARKS.sub('', text)
