"""The pest grammars of the readers: what parse trees can look like.

A grammar is read from its source.  For every rule the sequences of the pairs inside are a regular language (choices
are taken as alternatives, which can only add sequences), given as an automaton; texts are known as far as they are
finite or begin the same.  With this, the paths of a reader (which draw pairs, ask for their rules and texts) are
decided possible or not."""
import functools
import os
import re

TOKEN = re.compile(r'''\s+|//[^\n]*|(?P<s>\^?"(?:\\.|[^"\\])*")|(?P<r>'(?:\\.|[^'\\])*')|(?P<n>[A-Za-z_][A-Za-z_0-9]*|[0-9]+)|(?P<o>\.\.|[=@$!_{}()~|*+?&,\[\]])''')
BUILTIN = {'ANY': None, 'ASCII_ALPHA': 'ascii', 'ASCII_DIGIT': 'ascii', 'ASCII_HEX_DIGIT': 'ascii', 'ASCII_ALPHANUMERIC': 'ascii', 'ASCII_ALPHA_LOWER': 'ascii',
           'ASCII_ALPHA_UPPER': 'ascii', 'ASCII_NONZERO_DIGIT': 'ascii', 'NEWLINE': 'ascii', 'ASCII': 'ascii', 'SOI': 'empty', 'EOI': 'empty'}


class GrammarError(Exception):
    pass


def unquote(t):
    t = t[1:-1]
    return re.sub(r'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)', lambda m: chr(int(m.group(2) or m.group(3), 16)) if m.group(2) or m.group(3) else
                  {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), t)


class Grammar:
    def __init__(self, text):
        self.tokens = []
        i = 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise GrammarError(f'cannot read the grammar at {text[i:i + 30]!r}')
            i = m.end()
            if m.lastgroup:
                self.tokens.append((m.lastgroup, m.group()))
        self.i = 0
        self.rules = {}
        while self.i < len(self.tokens):
            name = self.take('n')
            self.take('o', '=')
            kind = ''
            if self.peek() in ('@', '$', '!', '_'):
                kind = self.peek()
                self.i += 1
            self.take('o', '{')
            e = self.choice()
            self.take('o', '}')
            self.rules[name] = (kind, e)
        self.memo = {}
        self.contexts = {}

    def peek(self):
        return self.tokens[self.i][1] if self.i < len(self.tokens) else ''

    def take(self, kind, text=None):
        k, t = self.tokens[self.i]
        if k != kind or text is not None and t != text:
            raise GrammarError(f'{t!r} instead of {text or kind!r}')
        self.i += 1
        return t

    def choice(self):
        if self.peek() == '|':
            self.i += 1
        alts = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def seq(self):
        parts = [self.term()]
        while self.peek() == '~':
            self.i += 1
            parts.append(self.term())
        return parts[0] if len(parts) == 1 else ('seq', parts)

    def term(self):
        k, t = self.tokens[self.i]
        if t in '!&' and k == 'o':
            self.i += 1
            return ('look', t, self.term())
        self.i += 1
        if t == '(':
            e = self.choice()
            self.take('o', ')')
        elif k == 's':
            e = ('istr', unquote(t[1:])) if t[0] == '^' else ('str', unquote(t))
        elif k == 'r':
            self.take('o', '..')
            e = ('range', unquote(t), unquote(self.take('r')))
        elif k == 'n':
            e = ('rule', t)
        else:
            raise GrammarError(f'{t!r} is not supported')
        while self.peek() in ('*', '+', '?', '{'):
            o = self.take('o')
            if o == '{':
                lo = hi = None
                if self.tokens[self.i][0] == 'n':
                    lo = hi = int(self.take('n'))
                if self.peek() == ',':
                    self.i += 1
                    hi = None
                    if self.tokens[self.i][0] == 'n':
                        hi = int(self.take('n'))
                self.take('o', '}')
                e = ('rep', e, lo or 0, hi)
            else:
                e = ('rep', e, 1 if o == '+' else 0, 1 if o == '?' else None)
        return e

    # -- shapes
    def nfa(self, name, atomic=False):
        """Automaton of the rules of the pairs inside a pair of the rule: (start, accepting, {state: [(rule, state)]})."""
        key = (name, atomic)
        if key not in self.memo:
            self.memo[key] = self.automaton(self.rules[name][1], atomic or self.rules[name][0] == '@', (name,))
        return self.memo[key]

    def automaton(self, e, atomic, stack):
        """Thompson construction, then without empty moves. `atomic`: pairs inside do not show (@)."""
        eps, step = {}, {}
        count = [0]

        def state():
            count[0] += 1
            return count[0]

        def build(e, hidden, stack):
            a, b = state(), state()
            k = e[0]
            if k in ('str', 'istr', 'range', 'look'):
                eps.setdefault(a, set()).add(b)
            elif k == 'rule':
                n = e[1]
                if n not in self.rules:
                    if n == 'EOI' and not hidden:
                        step.setdefault(a, []).append(('EOI', b))
                    elif n in BUILTIN:
                        eps.setdefault(a, set()).add(b)
                    else:
                        raise GrammarError(f'rule {n} is unknown')
                else:
                    kind, inner = self.rules[n]
                    if kind == '_':
                        if n in stack:
                            raise GrammarError(f'silent rule {n} contains itself')
                        x, y = build(inner, hidden, stack + (n,))
                        eps.setdefault(a, set()).add(x)
                        eps.setdefault(y, set()).add(b)
                    elif hidden and kind != '!':
                        eps.setdefault(a, set()).add(b)
                    else:
                        step.setdefault(a, []).append((n, b))
            elif k == 'seq':
                cur = a
                for p in e[1]:
                    x, y = build(p, hidden, stack)
                    eps.setdefault(cur, set()).add(x)
                    cur = y
                eps.setdefault(cur, set()).add(b)
            elif k == 'alt':
                for p in e[1]:
                    x, y = build(p, hidden, stack)
                    eps.setdefault(a, set()).add(x)
                    eps.setdefault(y, set()).add(b)
            elif k == 'rep':
                cur = a
                for _ in range(e[2]):
                    x, y = build(e[1], hidden, stack)
                    eps.setdefault(cur, set()).add(x)
                    cur = y
                if e[3] is not None and self.certain(e[1], frozenset(stack)):
                    for _ in range(e[3] - e[2]):
                        x, y = build(e[1], hidden, stack)
                        eps.setdefault(cur, set()).add(x)
                        cur = y
                elif e[3] is None:
                    x, y = build(e[1], hidden, stack)
                    eps.setdefault(cur, set()).update((x, b))
                    eps.setdefault(y, set()).update((x, b))
                else:
                    for _ in range(e[3] - e[2]):
                        eps.setdefault(cur, set()).add(b)
                        x, y = build(e[1], hidden, stack)
                        eps.setdefault(cur, set()).add(x)
                        cur = y
                eps.setdefault(cur, set()).add(b)
            else:
                raise GrammarError(k)
            return a, b
        s, f = build(e, atomic, stack)

        def close(x):
            seen, work = {x}, [x]
            while work:
                for y in eps.get(work.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            return seen
        accept, moves = set(), {}
        for q in range(1, count[0] + 1):
            c = close(q)
            if f in c:
                accept.add(q)
            moves[q] = sorted({t for x in c for t in step.get(x, ())})
        return s, accept, moves

    def certain(self, e, seen):
        """Whether an expression matches at every place."""
        k = e[0]
        if k == 'rep':
            return e[2] == 0 or self.certain(e[1], seen)
        if k == 'str':
            return e[1] == ''
        if k == 'seq':
            return all(self.certain(x, seen) for x in e[1])
        if k == 'alt':
            return any(self.certain(x, seen) for x in e[1])
        if k == 'rule':
            return e[1] in self.rules and e[1] not in seen and self.certain(self.rules[e[1]][1], seen | {e[1]})
        return False

    def top(self, name):
        """Automaton of the pairs a parse with the rule gives."""
        if self.rules[name][0] == '_':
            key = ('top', name)
            if key not in self.memo:
                self.memo[key] = self.automaton(self.rules[name][1], False, (name,))
            return self.memo[key]
        return 1, {2}, {1: [(name, 2)], 2: []}

    # -- texts
    def contextual(self, roots):
        """For every rule, whether it is only ever used where no blanks are skipped."""
        seen = set()
        work = [(r, False) for r in roots]
        while work:
            n, atomic = work.pop()
            if (n, atomic) in seen or n not in self.rules:
                continue
            seen.add((n, atomic))
            kind, e = self.rules[n]
            inner = True if kind in ('@', '$') else False if kind == '!' else atomic

            def walk(e):
                if e[0] == 'rule':
                    work.append((e[1], inner))
                elif e[0] in ('seq', 'alt'):
                    for x in e[1]:
                        walk(x)
                elif e[0] == 'rep':
                    walk(e[1])
                elif e[0] == 'look':
                    walk(e[2])
            walk(e)
        return {n: all(a or self.rules[n][0] in ('@', '$') for m, a in seen if m == n) for n in {m for m, _ in seen}}

    @functools.cache
    def texts(self, name, tight, limit=200):
        """All texts of a rule, or None when there are too many (or it may contain blanks)."""
        def of(e):
            k = e[0]
            if k == 'str':
                return {e[1]}
            if k == 'look':
                return {''}
            if k == 'rule':
                if e[1] in self.rules:
                    return of(self.rules[e[1]][1])
                return {''} if e[1] in ('SOI', 'EOI') else None
            if k == 'alt':
                out = set()
                for x in e[1]:
                    t = of(x)
                    if t is None:
                        return None
                    out |= t
                return out
            if k == 'seq':
                if not tight:
                    return None
                out = {''}
                for x in e[1]:
                    t = of(x)
                    if t is None or len(out) * len(t) > limit:
                        return None
                    out = {a + b for a in out for b in t}
                return out
            if k == 'rep' and e[2] == 0 and e[3] == 1:
                t = of(e[1])
                return None if t is None else t | {''}
            return None
        try:
            return of(self.rules[name][1])
        except RecursionError:
            return None

    @functools.cache
    def begins(self, name):
        """What every text of a rule begins with."""
        def of(e, depth=0):
            k = e[0]
            if depth > 40:
                return '', False
            if k == 'str':
                return e[1], True
            if k == 'rule' and e[1] in self.rules:
                return of(self.rules[e[1]][1], depth + 1)
            if k == 'seq':
                out = ''
                for x in e[1]:
                    p, whole = of(x, depth + 1)
                    out += p
                    if not whole:
                        return out, False
                    break
                return out, False
            if k == 'alt':
                ps = [of(x, depth + 1)[0] for x in e[1]]
                return os.path.commonprefix(ps), False
            if k == 'rep' and e[2] > 0:
                return of(e[1], depth + 1)[0], False
            return '', False
        return of(self.rules[name][1])[0]

    @functools.cache
    def least(self, name):
        """The least length of a text of a rule."""
        def of(e, seen):
            k = e[0]
            if k in ('str', 'istr'):
                return len(e[1].encode())
            if k == 'range':
                return 1
            if k == 'look':
                return 0
            if k == 'rule':
                if e[1] in self.rules:
                    return 0 if e[1] in seen else of(self.rules[e[1]][1], seen | {e[1]})
                return 0 if BUILTIN.get(e[1]) == 'empty' else 1
            if k == 'seq':
                return sum(of(x, seen) for x in e[1])
            if k == 'alt':
                return min(of(x, seen) for x in e[1])
            return e[2] * of(e[1], seen)
        return of(self.rules[name][1], {name})

    @functools.cache
    def ascii(self, name):
        """Whether every text of a rule is ASCII."""
        def of(e, seen):
            k = e[0]
            if k in ('str', 'istr'):
                return e[1].isascii()
            if k == 'range':
                return e[2].isascii()
            if k == 'look':
                return True
            if k == 'rule':
                if e[1] in self.rules:
                    return e[1] in seen or of(self.rules[e[1]][1], seen | {e[1]})
                return BUILTIN.get(e[1]) is not None
            if k in ('seq', 'alt'):
                return all(of(x, seen) for x in e[1])
            return of(e[1], seen)
        return of(self.rules[name][1], {name})


# ------------------------------------------------------------------ paths of a reader
def parse_of(t, parser):
    """The rule a parse was asked for, when the term is the result of one."""
    if t[0] == 'vf' and t[2] == 'Ok' and t[1][0] == 'call' and t[1][1].endswith('::parse') and t[1][1].startswith(f'<{parser} as pest::Parser<') and t[1][2][0][0] == 'adt':
        return t[1][2][0][2]


def count_of(t):
    """(sequence, n) when the term is the question whether a sequence of pairs has more than n."""
    if t[0] == 'more':
        return t[1], t[2]
    if t[0] == 'op' and t[1] == 'pos':
        p = t[2]
        n = 0
        if p[0] == 'poly' and len(p[1]) == 2:
            d = dict(p[1])
            n = -d.pop((), 1)
            if len(d) != 1:
                return None
            (m, c), = d.items()
            if c != 1 or len(m) != 1 or m[0][1] != 1 or n < 0 or n != int(n):
                return None
            p = m[0][0]
        if p[0] == 'len':
            p = p[1]
            if p[0] == 'collect*' and len(p) == 2:
                p = p[1]
            return p, int(n)
    return None


def place_of(p):
    """Where an element of a sequence is: a number, or (loop, how many were left out before)."""
    t, n = p[1], 0
    while t[0] == 'skip' and t[2][0] == 'c':
        n += t[2][2]
        t = t[1]
    return p[2] + n if isinstance(p[2], int) else (p[2], n)


class Trees:
    """Decides whether what a path found out about pairs can be so."""

    def __init__(self, grammar, roots, parser):
        self.g = grammar
        self.parser = parser
        self.tight = grammar.contextual(roots)
        self.known = {}

    def parse_of(self, t):
        return parse_of(t, self.parser)

    def holder(self, t):
        """The node whose pairs a sequence is."""
        while t[0] == 'skip' and t[2][0] == 'c':
            t = t[1]
        if t[0] == 'inner':
            return t[1]
        if self.parse_of(t):
            return t

    def children(self, rule):
        if rule.startswith('top:'):
            return self.g.top(rule[4:])
        return self.g.nfa(rule) if rule in self.g.rules else (1, {1}, {1: []})

    def facts_of(self, facts):
        """What is known of every pair; kept, since one path is looked at for many rules."""
        key = id(facts)
        if key not in self.known:
            self.known[key] = (facts, self.collect(facts))
        return self.known[key][1]

    def collect(self, facts):
        out = {}

        def node(p):
            return out.setdefault(p, {'rule': None, 'more': {}, 'kids': {}, 'text': []})

        def touch(p):
            """Registers a pair under its parent."""
            node(p)
            if p[0] == 'elem':
                q = self.holder(p[1])
                if q is not None:
                    touch(q)
                    out[q]['kids'][place_of(p)] = p
        for t, x in facts.items():
            c = count_of(t)
            z = t[1] if t[0] == 'len' else None
            if z is not None and z[0] == 'collect*' and len(z) == 2:
                z = z[1]
            if z is not None and x[0] == 'eq' and x[1][0] == 'c' and self.holder(z) is not None:
                q = self.holder(z)
                left = place_of(('elem', z, 0))
                touch(q)
                out[q]['more'][x[1][2] + left] = False
                if x[1][2]:
                    out[q]['more'][x[1][2] + left - 1] = True
                continue
            if t[0] == 'rule':
                touch(t[1])
                if x[0] == 'in':
                    r = out[t[1]]['rule']
                    out[t[1]]['rule'] = x[1] if r is None else r & x[1]
                elif x[0] == 'eq' and x[1][0] == 'adt':
                    out[t[1]]['rule'] = frozenset([x[1][2]])
            elif c is not None and self.holder(c[0]) is not None:
                q = self.holder(c[0])
                touch(q)
                if x[0] == 'eq':
                    out[q]['more'][c[1]] = x[1][2]
            else:
                for y in texts_in(t):
                    touch(y)
                    out[y]['text'].append((t, x))
        return out

    def possible(self, facts, given):
        """Whether the facts can hold together when the root pairs have one of the given rules each."""
        info = self.facts_of(facts)
        for p in list(info):
            if p in given:
                if not any(self.fits(info, p, r) for r in given[p]):
                    return False
            elif self.parse_of(p) and not self.fits(info, p, 'top:' + self.parse_of(p)):
                return False
        return True

    def fits(self, info, p, r):
        i = info.get(p)
        if i is None:
            return True
        if i['rule'] is not None and r not in i['rule']:
            return False
        if not all(self.text_fits(r, p, t, x) for t, x in i['text']):
            return False
        return self.inside(info, i, self.children(r))

    def inside(self, info, i, nfa):
        return bool(self.runs(info, i, nfa)) and self.generic(info, i, nfa)

    def runs(self, info, i, nfa):
        """States after the pairs drawn one by one (those from which the rest can be as found)."""
        start, accept, moves = nfa
        yes = [n for n, b in i['more'].items() if b]
        no = [n for n, b in i['more'].items() if not b]
        drawn = max(yes) + 1 if yes else 0
        if no and min(no) < drawn:
            return set()
        states = {start}
        for n in range(drawn):
            kid = i['kids'].get(n)
            states = {q for s in states for r, q in moves[s] if kid is None or self.fits(info, kid, r)}
        if no:
            ok = set()
            for s in states:
                front = {s}
                for n in range(min(no) - drawn + 1):
                    if front & accept:
                        ok.add(s)
                    front = {q for x in front for r, q in moves[x]}
            states &= ok
        else:
            back = {q: {s for s in moves if any(b == q for _, b in moves[s])} for q in moves}
            alive, work = set(accept), list(accept)
            while work:
                for s in back.get(work.pop(), ()):
                    if s not in alive:
                        alive.add(s)
                        work.append(s)
            states &= alive
        return states

    def generic(self, info, i, nfa):
        start, accept, moves = nfa
        return all(any(self.fits(info, t, r) for r in self.later(info, i, nfa, k[1]))
                   for k, t in i['kids'].items() if not isinstance(k, int))

    def later(self, info, i, nfa, skipped):
        """Rules of the pairs after the first `skipped` ones."""
        start, accept, moves = nfa
        states = {start}
        for n in range(skipped):
            kid = i['kids'].get(n)
            states = {q for s in states for r, q in moves[s] if kid is None or self.fits(info, kid, r)}
        return {r for s in self.reach(states, moves) for r, q in moves[s]}

    def reach(self, states, moves):
        seen, work = set(states), list(states)
        while work:
            for r, q in moves[work.pop()]:
                if q not in seen:
                    seen.add(q)
                    work.append(q)
        return seen

    def candidates(self, facts, p, given):
        """The rules a pair can have on a path (None: it is not a pair of a known tree)."""
        return self.cand(self.facts_of(facts), p, given)

    def cand(self, info, p, given):
        if p in given:
            return {r for r in given[p] if self.fits(info, p, r)}
        if self.parse_of(p):
            return {r for r in ['top:' + self.parse_of(p)] if self.fits(info, p, r)}
        if p[0] == 'elem' and self.holder(p[1]) is not None:
            q, pos = self.holder(p[1]), place_of(p)
            out = set()
            i = info.get(q, {'rule': None, 'more': {}, 'kids': {}, 'text': []})
            rules = self.cand(info, q, given)
            if rules is None:
                return None
            for r in rules:
                start, accept, moves = self.children(r)
                if isinstance(pos, int):
                    states = {start}
                    for n in range(pos):
                        kid = i['kids'].get(n)
                        states = {b for s in states for a, b in moves[s] if kid is None or self.fits(info, kid, a)}
                    out |= {a for s in states for a, b in moves[s] if self.fits(info, p, a)}
                else:
                    out |= {a for a in self.later(info, i, (start, accept, moves), pos[1]) if self.fits(info, p, a)}
            return out
        return None

    def text_fits(self, rule, p, t, x):
        if rule not in self.g.rules:
            return True
        txt = ('text', p)
        tight = self.tight.get(rule, False)
        begin = self.g.begins(rule)
        if t == txt:
            all_ = self.g.texts(rule, tight)
            if x[0] == 'eq' and x[1][0] == 'c':
                return x[1][2].startswith(begin) and (all_ is None or x[1][2] in all_)
            if x[0] == 'ne' and all_ is not None:
                return not all_ <= {c[2] for c in x[1]}
        if t[0] == 'op' and t[1] == 'boundary' and self.g.ascii(rule) and x == ('eq', ('c', 'bool', False)) and t[2] == txt:
            return False
        if t[0] == 'op' and t[1] == 'str_starts_with' and t[2] == txt and t[3][0] == 'c' and x[0] == 'eq':
            w = t[3][2]
            if x[1][2]:
                return begin.startswith(w) or w.startswith(begin)
            return not begin.startswith(w)
        c = count_of(t)
        if c is not None and x[0] == 'eq' and x[1] == ('c', 'bool', False):
            if c[0] == ('chars', txt) and c[1] == 0:
                return self.g.least(rule) == 0
            if c[0] == txt:
                return self.g.least(rule) <= c[1]
        return True


def texts_in(t):
    """The pairs whose texts a term is about."""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'text':
            yield t[1]
            return
        for x in t:
            yield from texts_in(x)


def load(path):
    with open(path) as fh:
        return Grammar(fh.read())
