"""The grammars: texts of the documented forms are parsed into the trees of these forms."""
import os
import peg
from peg import seq, alt, star, plus, opt, pair, holds, others, unlike, lit, ilit, cls, chars
from grammar import GrammarError
from rules_read import CSS, parsers, sheet_roots
from rules_html import HTML
from registry import prop

BLANK = cls(' \t\r\n')
BLANKS_ = ' \t\r\n'


class Common:
    def __init__(self, comment):
        self.ws = star(alt(BLANK, comment))           # any white space
        self.ws1 = seq(self.ws, BLANK, self.ws)       # white space that separates


# ------------------------------------------------------------------ style sheets
COMMENT = seq('/*', star(alt(cls('^*'), seq(plus(lit('*')), cls('^*/')))), plus(lit('*')), '/')
NAME = plus(cls('a-zA-Z0-9_-'))
WORD = chars('a-zA-Z0-9_-')


class Css(Common):
    def __init__(self):
        super().__init__(COMMENT)
        b = star(BLANK)
        d = cls('0-9')
        num = pair('Number', opt('-'), alt(seq(plus(d), opt('.', plus(d))), seq('.', plus(d))))
        self.num = num
        keyword = pair('Keyword', alt('', '-', '--'), cls('a-zA-Z_'), star(('set', WORD)))
        self.string = pair('String', '"', pair('StringLiteral', star(cls('^"'))), '"')
        lone = pair('Number', alt(seq(opt('-'), alt(seq(cls('1-9'), star(d), opt('.', plus(d))), seq(opt('0'), '.', plus(d)))), lit('-0')))
        az = chars('a-zA-Z')
        no = lambda cs: ('set', peg.Set([(a, a) for x, y in az.r for a in range(x, y + 1) if chr(a) not in cs]))
        unit = alt(seq(no('sm'), star(('set', az))), seq('m', opt(no('s'), star(('set', az)))))
        hex_ = cls('0-9a-fA-F')
        explicit = holds('Explicit', alt(
            keyword, self.string, pair('Zero', '0'), lone,
            pair('Percentage', num, '%'),
            pair('Time', num, pair('TimeUnit', alt('ms', 's'))),
            pair('Dimension', num, pair('Unit', unit)),
            pair('Color', '#', alt(*[seq(*[hex_] * n) for n in (3, 4, 6, 8)]))))
        fn = pair('Ident', others(WORD, WORD, ['var']))

        def value(n):
            parts = [explicit]
            inner = value(n - 1) if n else explicit
            parts.append(holds('Var', 'var(', b, keyword, b, opt(',', b, inner, b), ')'))
            parts.append(holds('Function', fn, '(', b, ')') if not n else holds('Function', fn, '(', b, opt(inner, star(seq(b, ',', b, inner)), b), ')'))
            return alt(*parts)
        self.value = value
        self.sep = plus(alt(BLANK, COMMENT))
        ident = pair('Ident', NAME)
        simple = [
            pair('Id', '#', ident), pair('Class', '.', ident), pair('Root', ':root'),
            pair('PseudoClass', ':', pair('Ident', unlike(WORD, WORD, 'root')), opt('(', star(cls('^)')), ')')),
            pair('PseudoElement', '::', ident),
            pair('Attribute', '[', ident, ']'),
            pair('Attribute', '[', ident, pair('Matcher', alt('', '~', '|', '^', '$', '*'), '='), alt(self.string, ident), ']'),
        ]
        name = alt(pair('Type', ident), pair('All', '*'))
        self.compound = pair('Compound', alt(seq(name, star(alt(*simple))), plus(alt(*simple))))

    def declaration(self, depth):
        ws = self.ws
        v = self.value(depth)
        short = holds('Shorthand', v, star(seq(self.sep, v)))
        return holds('Declaration', pair('Property', ('set', WORD), NAME), ws, ':', ws, holds('Values', short, star(seq(ws, ',', ws, short)), ws), ';')

    def block(self, depth):
        return holds('DeclarationBlock', '{', self.ws, holds('Declarations', star(seq(self.declaration(depth), self.ws))), '}')

    def complex(self):
        comb = pair('Combinator', alt('>', '+', '~'))
        return holds('Complex', self.compound, star(seq(alt(self.ws1, seq(self.ws, comb, self.ws)), self.compound)), self.ws)

    def style(self, depth=0):
        return holds('Style', holds('Selectors', self.complex(), star(seq(',', self.ws, self.complex()))), self.block(depth))

    def plain(self, depth):
        """Style sheets of one kind of selector, for all values."""
        type_ = pair('Type', pair('Ident', NAME))
        return seq(self.ws, star(seq(holds('Style', holds('Selectors', holds('Complex', pair('Compound', type_), self.ws)), self.block(depth)), self.ws)))

    def animation(self, depth=0):
        step = alt(pair('Keyword', alt('from', 'to')), pair('Percentage', self.num, '%'))
        frame = holds('Keyframe', step, self.ws, self.block(depth))
        return holds('Animation', '@keyframes', self.ws1, pair('Name', NAME), self.ws, '{', self.ws, star(seq(frame, self.ws)), '}')

    def sheet(self):
        return seq(self.ws, star(seq(alt(self.style(), self.animation()), self.ws)))

    def inline(self, depth):
        return seq(self.ws, holds('Declarations', star(seq(self.declaration(depth), self.ws))))


# ------------------------------------------------------------------ documents
HTML_COMMENT = seq('<!--', star(alt(cls('^-'), seq('-', cls('^-')), seq('--', star('-'), cls('^->')))), '--', star('-'), '>')
VOID = ['area', 'base', 'br', 'col', 'command', 'embed', 'hr', 'img', 'input', 'keygen', 'link', 'meta', 'param', 'source', 'track', 'wbr']
TCHAR = chars('a-zA-Z0-9-')


def first_of(no):
    """Characters other than these."""
    return ('set', chars('^' + no))


class Html(Common):
    def __init__(self):
        super().__init__(HTML_COMMENT)
        b, b1 = star(BLANK), plus(BLANK)
        self.b, self.b1 = b, b1
        key = pair('Key', plus(cls('a-zA-Z0-9_-')))
        getter = holds('Getter', key, star(seq(b, '.', b, key)), b)
        self.binder = binder = holds('Binder', '{', b, getter, star(seq('|', b, holds('Transformer', key, b, star(seq(':', b, getter))))), '}')

        def spans(name, no):
            """Texts and binders, not beginning with white space."""
            rest = first_of(no)
            text = pair(name, plus(rest))
            lead = pair(name, first_of(no + BLANKS_), star(rest))
            return alt(seq(lead, star(seq(binder, opt(text)))), plus(seq(binder, opt(text))))
        name = pair('Name', cls('a-zA-Z_:'), star(cls('a-zA-Z0-9_:.-')))
        eq = seq(b, '=', b)
        q = '"'
        hexd = cls('0-9a-fA-F')
        escape = seq('\\', alt(cls('"\\/bfnrt'), seq('u', hexd, hexd, hexd, hexd)))
        value = pair('Value', opt(alt(first_of('"\\<' + BLANKS_), escape), star(alt(first_of('"\\'), escape))))
        arg = alt(pair('Event', '$event'), binder, key)
        self.bindings = {
            'repeat': holds('RepeatBinding', '*', b, key, eq, q, b, alt(pair('Count'), seq(pair('Count', plus(cls('0-9'))), b)), binder, b, q),
            'alias': holds('AliasBinding', '+', b, key, eq, q, b, binder, b, q),
            'tag': holds('TagBinding', '#', b, key, eq, q, b, binder, b, q),
            'bound': holds('AttributeBinding', '@', b, key, eq, q, b, spans('DoubleQuotedAttributeString', '<>{"'), q),
            'callback': holds('CallbackBinding', '^', b, key, eq, q, b, opt(arg, star(seq(b1, arg)), b), q),
            'visibility': holds('VisibilityBinding', pair('Visible', alt('?', '!')), eq, q, b, binder, b, q),
            'quoted': holds('DoubleQuoted', name, eq, q, b, value, q),
            'unquoted': holds('Unquoted', name, eq, pair('UnquotedValue', plus(first_of('"\'=<>`' + BLANKS_)))),
            'empty': holds('Empty', name),
        }
        self.text = holds('Text', spans('String', '<>{'))
        self.script = holds('Script', '<script>', star(alt(cls('^<'), seq(plus(lit('<')), cls('^</!')), seq(plus(lit('<')), lit('/'), cls('^s<')))), '</script>')

    def attributes(self, only=None):
        every = alt(*[v for k, v in self.bindings.items() if not only or k in only])
        return every

    def open(self, tag, slash):
        b, b1 = self.b, self.b1
        attr = self.attributes()
        none = holds('Attributes')
        if not slash:
            return seq('<', tag, alt(seq(b, none), seq(b1, holds('Attributes', attr, star(seq(b1, attr)), b))), '>')
        closed = alt(*[v for k, v in self.bindings.items() if k != 'unquoted'])
        return seq('<', tag, alt(seq(b, none, opt('/', b)),
                                 seq(b1, holds('Attributes', star(seq(attr, b1)), alt(seq(attr, b), seq(attr, b1, '/', b), seq(closed, b, '/', b))))), '>')

    def void(self):
        tag = pair('VoidTag', alt(*[ilit(w) for w in VOID]))
        return holds('Void', self.open(tag, True))

    def element(self, inside):
        tag = pair('Tag', others(TCHAR, TCHAR, VOID + ['script'], fold=True))
        return holds('Element', self.open(tag, False), self.ws, holds('Children', inside), '</', pair('Tag', plus(('set', TCHAR))), self.b, '>')

    def contents(self, markup):
        return seq(star(alt(seq(opt(self.text), markup, self.ws), seq(self.text, HTML_COMMENT, self.ws))), opt(self.text))

    def markup(self, depth):
        parts = [self.void(), self.script]
        if depth:
            parts.append(self.element(self.contents(self.markup(depth - 1))))
        else:
            parts.append(self.element(opt(self.text)))
        return alt(*parts)

    def document(self, depth):
        return seq(self.ws, alt(self.text, seq(self.markup(depth), self.ws, self.contents(self.markup(depth)))))


# ------------------------------------------------------------------ rules
def whole(g, e, seen=()):
    """Whether an expression only succeeds at the end of the text."""
    k = e[0]
    if k == 'rule':
        if e[1] not in g.rules:
            return e[1] == 'EOI'
        return e[1] not in seen and whole(g, g.rules[e[1]][1], seen + (e[1],))
    if k == 'seq':
        return bool(e[1]) and whole(g, e[1][-1], seen)
    if k == 'alt':
        return all(whole(g, x, seen) for x in e[1])
    if k == 'look':
        return e[1] == '!' and e[2] == ('rule', 'ANY')
    return False


def root_of(c, kind, fn):
    roots = sheet_roots(c, (fn,), kind)
    if len(roots) != 1:
        raise GrammarError(f'{fn} parses with the rules {sorted(roots)}')
    return next(iter(roots))


def agree(c, kind, path, root, forms, full=True):
    g = parsers(c)[kind][1]
    total = 0
    for what, form in forms:
        key = f'form:{what}'
        try:
            bad, n = peg.check(g, root, form, full=full)
        except (GrammarError, RecursionError) as x:
            c.obligation(False, key, f'{path}: {what}: it cannot be established that the grammar reads them into their parts: {x}', root)
            continue
        total += n
        within = ''
        if bad is not None:
            stack = []
            for m in peg.MARKS.finditer(bad):
                if m.group(1):
                    stack.append(m.group(1))
                elif stack:
                    stack.pop()
            within = f' (within {" ".join(stack)})' if stack else ''
        c.obligation(bad is None, key, f'{path}: {what}: the grammar does not read a text that begins {peg.plain(bad)!r} into the parts it has{within}: expected {bad}' if bad is not None else '', root)
        c.notes.append({'form': what, 'rule': root, 'states': n, 'agrees': bad is None})
    c.floor(total, 1000, 'states of texts and parser', 'states')


def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


@prop('C25')
def sheets(c):
    """Texts of style sheets and inline styles are parsed into the rules, selectors, declarations and values they consist of."""
    path = 'src/css/css.pest'
    x = Css()
    n = 2 if thorough() else 1
    sheet, inline = root_of(c, CSS, 'read_css'), root_of(c, CSS, 'read_inline_css')
    g = parsers(c)[CSS][1]
    agree(c, CSS, path, sheet, [
        ('styles', seq(x.ws, star(seq(x.style(0), x.ws)))),
        ('values of declarations', x.plain(n)),
        ('animations', seq(x.ws, star(seq(x.animation(0), x.ws)))),
        ('style sheets', x.sheet()),
    ])
    agree(c, CSS, path, inline, [('inline styles', x.inline(n))], full=False)
    c.obligation(whole(g, ('rule', sheet)), 'whole', f'{path}: {sheet} may end before the end of the text: the rest of a style sheet would be dropped silently', sheet)


@prop('C26')
def documents(c):
    """Texts of documents are parsed into the elements, texts, attributes and bindings they consist of."""
    path = 'src/html/html.pest'
    x = Html()
    root = root_of(c, HTML, 'read_html')
    g = parsers(c)[HTML][1]
    agree(c, HTML, path, root, [(f'elements inside each other, {n} deep', x.document(n)) for n in ((0, 1, 2) if thorough() else (0, 1))])
    c.obligation(whole(g, ('rule', root)), 'whole', f'{path}: {root} may end before the end of the text: the rest of a document would be dropped silently', root)
