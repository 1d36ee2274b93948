C, H = 'src/css/css.pest', 'src/html/html.pest'
B5, B6 = 'C25', 'C26'
VARIANTS = [
    # ---- bugs in the grammar of style sheets
    ('bug-gr-zero-before-percentage', B5, [(C, '    | Percentage\n    | Time\n    | Dimension\n    | Zero\n', '    | Zero\n    | Percentage\n    | Time\n    | Dimension\n')]),
    ('bug-gr-time-after-dimension', B5, [(C, '    | Time\n    | Dimension\n', '    | Dimension\n    | Time\n')]),
    ('bug-gr-number-before-dimension', B5, [(C, '    | Percentage\n', '    | Number\n    | Percentage\n')]),
    ('bug-gr-function-before-var', (B5, 'C22'), [(C, 'Value = _{ Var | Function | Explicit }', 'Value = _{ Function | Var | Explicit }')]),
    ('bug-gr-explicit-before-function', B5, [(C, 'Value = _{ Var | Function | Explicit }', 'Value = _{ Var | Explicit | Function }')]),
    ('bug-gr-root-after-pseudo', B5, [(C, 'Class | Root | PseudoClass |', 'Class | PseudoClass | Root |')]),
    ('bug-gr-comment-star', B5, [(C, '"/*" ~ (!"*/" ~ ANY)* ~ "*/"', '"/*" ~ (!"*" ~ ANY)* ~ "*/"')]),
    ('bug-gr-comment-line', B5, [(C, '"/*" ~ (!"*/" ~ ANY)* ~ "*/"', '"/*" ~ (!("*/" | "\\n") ~ ANY)* ~ "*/"')]),
    ('bug-gr-no-sibling', B5, [(C, 'Combinator = { ">" | "+" | "~" }', 'Combinator = { ">" | "+" }')]),
    ('bug-gr-compound-loose', B5, [(C, 'Compound = ${ Simple+ }', 'Compound = { Simple+ }')]),
    ('bug-gr-shorthand-comment', B5, [(C, '((WHITESPACE | COMMENT)+ ~ Value)*', '(WHITESPACE+ ~ Value)*')]),
    ('bug-gr-no-cr', (B5, B6), [(C, '" " | "\\t" | "\\r" | "\\n"', '" " | "\\t" | "\\n"')]),
    ('bug-gr-unit-three', B5, [(C, 'Unit = { ASCII_ALPHA+ }', 'Unit = { ASCII_ALPHA{1, 3} }')]),
    ('bug-gr-sheet-prefix', B5, [(C, 'SOI ~ Rules ~ EOI', 'SOI ~ Rules')]),
    ('bug-gr-matcher-suffix', B5, [(C, '("~" | "|" | "^" | "$" | "*")?', '("~" | "|" | "^" | "*")?')]),
    ('bug-gr-function-one', B5, [(C, '(WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)*', '(WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)?')]),
    ('bug-gr-function-blank', B5, [(C, '(WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)*', '("," ~ WHITESPACE* ~ Value)*')]),
    ('bug-gr-name-alpha', B5, [(C, 'Name = @{ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }', 'Name = @{ (ASCII_ALPHA | "-" | "_")+ }')]),
    ('bug-gr-values-two', B5, [(C, 'Shorthand ~ ("," ~ Shorthand)*', 'Shorthand ~ ("," ~ Shorthand)?')]),
    ('bug-gr-string-apostrophe', B5, [(C, 'StringLiteral = @{ (!"\\"" ~ ANY)* }', 'StringLiteral = @{ (!("\\"" | "\'") ~ ANY)* }')]),
    ('bug-gr-string-empty', B5, [(C, 'StringLiteral = @{ (!"\\"" ~ ANY)* }', 'StringLiteral = @{ (!"\\"" ~ ANY)+ }')]),
    ('bug-gr-keyword-digits', B5, [(C, '(ASCII_ALPHA | "-" | "_") ~ (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")*', '(ASCII_ALPHA | "-" | "_") ~ (ASCII_ALPHA | "-" | "_")*')]),
    ('bug-gr-color-alpha', (B5, 'C22'), [(C, 'Color = { "#" ~ ASCII_HEX_DIGIT+ }', 'Color = { "#" ~ ASCII_HEX_DIGIT{3, 6} }')]),
    ('bug-gr-number-no-minus', B5, [(C, 'Number = { (ASCII_DIGIT | "-" | ".")+ }', 'Number = { (ASCII_DIGIT | ".")+ }')]),
    ('bug-gr-selectors-two', B5, [(C, 'Complex ~ ("," ~ Complex)*', 'Complex ~ ("," ~ Complex)?')]),
    ('bug-gr-pseudo-args', B5, [(C, '":" ~ Ident ~ "(" ~ (!")" ~ ANY)* ~ ")" |\n    ":" ~ Ident\n', '":" ~ Ident |\n    ":" ~ Ident ~ "(" ~ (!")" ~ ANY)* ~ ")"\n')]),
    ('bug-gr-attribute-string', B5, [(C, '(String | Ident) ~ Modifier?', 'Ident ~ Modifier?')]),
    ('bug-gr-zero-dot', B5, [(C, 'Zero = { "0" ~ !"." }', 'Zero = { "0" }')]),
    ('bug-gr-style-first', (B5, None), [(C, 'Rule = _{ Animation | Style }', 'Rule = _{ Style | Animation }'), (C, 'Type = { Ident }', 'Type = { "@"? ~ Ident }')]),
    ('bug-gr-inline-tight', B5, [(C, 'InlineStyle = _{ SOI ~ Declarations }', 'InlineStyle = _{ Declarations }')]),
    ('bug-gr-values-in-declaration', (B5, 'C24', 'C22'), [(C, 'Declaration = { Property ~ ":" ~ Values ~ ";" }', 'Declaration = { Property ~ ":" ~ Values? ~ ";" }')]),
    # ---- bugs in the grammar of documents
    ('bug-gr-void-prefix', B6, [(H, '    ) ~ !TChar\n', '    )\n')]),
    ('bug-gr-void-case', B6, [(H, '^"img"', '"img"')]),
    ('bug-gr-void-input', B6, [(H, '    | ^"input"\n', '')]),
    ('bug-gr-empty-first', B6, [(H, '    | DoubleQuoted\n    | Unquoted\n    | Empty\n', '    | DoubleQuoted\n    | Empty\n    | Unquoted\n')]),
    ('bug-gr-element-first', B6, [(H, 'Script | Void | Text | Element', 'Script | Element | Text | Void')]),
    ('bug-gr-script-last', B6, [(H, 'Script | Void | Text | Element', 'Void | Text | Element | Script')]),
    ('bug-gr-text-brace', B6, [(H, '!("<" | ">" | "{") ~ ANY\n}\n\nAttributes', '!("<" | ">" | "{" | "}") ~ ANY\n}\n\nAttributes')]),
    ('bug-gr-key-underscore', B6, [(H, 'KChar = { ASCII_ALPHA | ASCII_DIGIT | "-" | "_" }', 'KChar = { ASCII_ALPHA | ASCII_DIGIT | "-" }')]),
    ('bug-gr-transformer-one', B6, [(H, 'Transformer = { Key ~ (":" ~ Getter)* }', 'Transformer = { Key ~ (":" ~ Getter)? }')]),
    ('bug-gr-transformer-key', (B6, 'C23'), [(H, 'Transformer = { Key ~ (":" ~ Getter)* }', 'Transformer = { Key ~ (":" ~ Key)* }')]),
    ('bug-gr-pipe-one', B6, [(H, '("|" ~ Transformer)*', '("|" ~ Transformer)?')]),
    ('bug-gr-binder-atomic', B6, [(H, 'Binder = !{', 'Binder = {')]),
    ('bug-gr-text-loose', B6, [(H, 'Text = ${ (Binder | String)+  }', 'Text = { (Binder | String)+  }')]),
    ('bug-gr-html-comment', B6, [(H, '"<!--" ~ (!"-->" ~ ANY)* ~ "-->"', '"<!--" ~ (!"-" ~ ANY)* ~ "-->"')]),
    ('bug-gr-value-escape', B6, [(H, '    | "\\\\" ~ ("\\"" | "\\\\" | "/" | "b" | "f" | "n" | "r" | "t")\n', '')]),
    ('bug-gr-bound-attr-skip', B6, [(H, '"\\"" ~ WHITESPACE* ~ (Binder', '"\\"" ~ (Binder')]),
    ('bug-gr-bound-attr-loose', B6, [(H, 'AttributeBinding = ${', 'AttributeBinding = {')]),
    ('bug-gr-callback-some', B6, [(H, '(Event | Binder | Key)*', '(Event | Binder | Key)+')]),
    ('bug-gr-callback-one', B6, [(H, '(Event | Binder | Key)*', '(Event | Binder | Key)?')]),
    ('bug-gr-count-one', B6, [(H, 'Count = { ASCII_DIGIT* }', 'Count = { ASCII_DIGIT? }')]),
    ('bug-gr-document-prefix', B6, [(H, 'SOI ~ Content+ ~ EOI', 'SOI ~ Content+')]),
    ('bug-gr-unquoted-path', B6, [(H, 'UnquotedValue = @{ (!("\\"" |', 'UnquotedValue = @{ (!("\\"" | "/" |')]),
    ('bug-gr-void-slash', B6, [(H, 'VoidTag ~ Attributes ~ ("/")? ~ ">"', 'VoidTag ~ Attributes ~ ">"')]),
    ('bug-gr-getter-two', B6, [(H, 'Getter = { Key ~ ("." ~ Key)* }', 'Getter = { Key ~ ("." ~ Key)? }')]),
    ('bug-gr-getter-atomic', B6, [(H, 'Getter = { Key ~', 'Getter = ${ Key ~')]),
    ('bug-gr-visible', (B6, 'C23'), [(H, 'Visible = { "?" | "!" }', 'Visible = { "!" | "?" ~ "?" }')]),
    ('bug-gr-tag-digits', B6, [(H, 'TChar = { ASCII_ALPHA | ASCII_DIGIT | "-" }', 'TChar = { ASCII_ALPHA | "-" }')]),
    ('bug-gr-script-close', B6, [(H, '(!"</script>" ~ ANY)*', '(!"</" ~ ANY)*')]),
    # ---- the same language
    ('ref-gr-timeunit', None, [(C, 'TimeUnit = { "ms" | "s" }', 'TimeUnit = { "s" | "ms" }')]),
    ('ref-gr-simple-order', None, [(C, 'All | Id | Class | Root | PseudoClass | PseudoElement | Attribute | Type', 'Type | Class | Id | PseudoElement | Root | PseudoClass | Attribute | All')]),
    ('ref-gr-keyword-first', None, [(C, '    Color\n    | Keyword\n', '    Keyword\n    | Color\n')]),
    ('ref-gr-string-first', None, [(C, '    Color\n    | Keyword\n', '    String\n    | Color\n    | Keyword\n'), (C, '    | Number\n    | String\n', '    | Number\n')]),
    ('ref-gr-silent-list', None, [(C, 'Values = { Shorthand ~ ("," ~ Shorthand)* }', 'Values = { Shorthand ~ More* }\n\nMore = _{ "," ~ Shorthand }')]),
    ('ref-gr-ident-char', None, [(C, 'Property = { (ASCII_ALPHA | ASCII_DIGIT | "-" | "_")+ }', 'Property = { IdentChar+ }\n\nIdentChar = _{ ASCII_ALPHANUMERIC | "-" | "_" }')]),
    ('ref-gr-function-opt', None, [(C, '''    Ident ~ "(" ~ WHITESPACE* ~ ")" |
    Ident ~ "(" ~ WHITESPACE* ~ Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE* ~ ")"
''', '''    Ident ~ "(" ~ WHITESPACE* ~ (Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE*)? ~ ")"
''')]),
    ('ref-gr-matcher-factored', None, [(C, '''    "[" ~ Ident ~ "]" |
    "[" ~ Ident ~ Matcher ~ (String | Ident) ~ Modifier? ~ "]"
''', '''    "[" ~ Ident ~ (Matcher ~ (String | Ident) ~ Modifier?)? ~ "]"
''')]),
    ('ref-gr-comment-body', None, [(C, '"/*" ~ (!"*/" ~ ANY)* ~ "*/"', '"/*" ~ (!("*" ~ "/") ~ ANY)* ~ "*" ~ "/"')]),
    ('ref-gr-declarations', None, [(C, '''DeclarationBlock = {
    "{" ~ Declarations ~ "}"
}''', 'DeclarationBlock = { "{" ~ Declarations ~ "}" }')]),
    ('ref-gr-attr-order', None, [(H, '''    RepeatBinding
    | AliasBinding
    | TagBinding
    | AttributeBinding
    | CallbackBinding
    | VisibilityBinding
    | DoubleQuoted
    | Unquoted
''', '''    Unquoted
    | DoubleQuoted
    | VisibilityBinding
    | CallbackBinding
    | AttributeBinding
    | TagBinding
    | AliasBinding
    | RepeatBinding
''')]),
    ('ref-gr-quoted-binder', None, [(H, 'AliasBinding = { "+" ~ Key ~ "=" ~ "\\"" ~ Binder ~ "\\"" }', 'AliasBinding = { "+" ~ Key ~ "=" ~ QuotedBinder }\n\nQuotedBinder = _{ "\\"" ~ Binder ~ "\\"" }')]),
    ('ref-gr-void-words', None, [(H, '    ^"area"\n    | ^"base"\n', '    ^"base"\n    | ^"area"\n')]),
    ('ref-gr-void-col', None, [(H, '    | ^"col"\n    | ^"command"\n', '    | ^"command"\n    | ^"col"\n')]),
    ('ref-gr-tchar', None, [(H, 'TChar = { ASCII_ALPHA | ASCII_DIGIT | "-" }', 'TChar = { "-" | ASCII_ALPHANUMERIC }')]),
    ('ref-gr-text-first', None, [(H, 'Script | Void | Text | Element', 'Text | Script | Void | Element')]),
    ('ref-gr-callback-order', None, [(H, '(Event | Binder | Key)*', '(Key | Binder | Event)*')]),
    ('ref-gr-schar', None, [(H, 'String = @{ SChar+ }\n\nSChar = {\n    !("<" | ">" | "{") ~ ANY\n}', 'String = @{ (!("<" | ">" | "{") ~ ANY)+ }')]),
    ('ref-gr-slash', None, [(H, '("/")? ~ ">"', '("/" ~ ">" | ">")')]),
]
