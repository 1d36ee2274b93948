H = 'src/html/reader.rs'
GET = '''                path = next
                    .into_inner()
                    .map(|key| key.as_str().to_string())
                    .collect();
'''
CHILDREN = '''                children: children
                    .into_iter()
                    .enumerate()
                    .map(|(index, child)| parse_content(child, index + 1 == children_count))
                    .collect(),
'''
TEXT0 = '''            let mut prefetch = vec![];
            for span in pair.into_inner() {
                match span.as_rule() {
                    Rule::String => prefetch.push(TextSpan::String(span.as_str().to_string())),
                    Rule::Binder => prefetch.push(TextSpan::Binder(parse_binder(span))),
                    _ => unreachable!(),
                }
            }
            let count = prefetch.len();
            let mut spans = vec![];

            for index in 0..count {
                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
                    true
                } else {
                    false
                };
                let span = prefetch[index].clone();
                match span {
                    TextSpan::String(string) => {
'''
LINES = '''                        let mut text = String::new();
                        for (index, fragment) in string.split("\\n").enumerate() {
                            if index != 0 {
                                let fragment = fragment.trim_start();
                                if !fragment.is_empty() || !is_last_content {
                                    text.push(' ');
                                    text.push_str(fragment);
                                }
                            } else {
                                text.push_str(fragment);
                            }
                        }
'''
ATTRS = '''            let mut attrs = HashMap::new();
            for binding in &bindings {
                match binding {
                    ElementBinding::None(key, value) => {
                        attrs.insert(key.to_string(), value.to_string());
                    }
                    _ => {}
                }
            }
            let children: Vec'''
BINDER = '''    let mut path = vec![];
    let mut pipe = vec![];
    for next in pair.into_inner() {
        match next.as_rule() {
            Rule::Getter => {
                path = next
                    .into_inner()
                    .map(|key| key.as_str().to_string())
                    .collect();
            }
            Rule::Transformer => pipe.push(next.as_str().trim_end().to_string()),
            _ => unreachable!(),
        }
    }
'''
VIS = '''        for binding in &self.bindings {
            if let ElementBinding::Visibility(visible, binder) = binding {
                return Some((*visible, binder));
            }
        }
        None
'''
VARIANTS = [
    ('b-htmlr-last', 'C23', [(H, 'index + 1 == children_count', 'index == children_count')]),
    ('b-htmlr-lasttrue', 'C23', [(H, 'parse_content(child, index + 1 == children_count)', 'parse_content(child, is_last_content && index + 1 == children_count)')]),
    ('b-htmlr-doc', 'C23', [(H, 'let content = parse_content(document, true);', 'let content = parse_content(document, false);')]),
    ('b-htmlr-doclast', 'C23', [(H, '''HtmlParser::parse(Rule::Document, html)?
        .next()''', '''HtmlParser::parse(Rule::Document, html)?
        .last()''')]),
    ('b-htmlr-rev', 'C23', [(H, CHILDREN, CHILDREN.replace('                    .collect()', '                    .rev()\n                    .collect()').replace('.enumerate()', '.collect::<Vec<_>>().into_iter().enumerate()'))]),
    ('b-htmlr-skipfirst', 'C23', [(H, '.map(|(index, child)| parse_content', '.skip(1)\n                    .map(|(index, child)| parse_content')]),
    ('b-htmlr-trim', 'C23', [(H, 'let fragment = fragment.trim_start();', 'let fragment = fragment.trim();')]),
    ('b-htmlr-blank', 'C23', [(H, "!fragment.is_empty() || !is_last_content", "!fragment.is_empty() && !is_last_content")]),
    ('b-htmlr-blank2', 'C23', [(H, "if !fragment.is_empty() || !is_last_content {", "if !fragment.is_empty() {")]),
    ('b-htmlr-nospace', 'C23', [(H, "                                    text.push(' ');\n", "")]),
    ('b-htmlr-empty', 'C23', [(H, 'if !text.is_empty() {', 'if !text.trim().is_empty() {')]),
    ('b-htmlr-getter', 'C23', [(H, GET, GET.replace('.into_inner()\n', '.into_inner()\n                    .take(8)\n'))]),
    ('b-htmlr-getterrev', 'C23', [(H, GET, GET.replace('.into_inner()\n', '.into_inner()\n                    .rev()\n'))]),
    ('b-htmlr-pipe', 'C23', [(H, 'Rule::Transformer => pipe.push(', 'Rule::Transformer => pipe.insert(0, ')]),
    ('b-htmlr-pipe2', 'C23', [(H, 'Rule::Transformer => pipe.push(next.as_str().trim_end().to_string())', 'Rule::Transformer => pipe = vec![next.as_str().trim_end().to_string()]')]),
    ('b-htmlr-pipe3', 'C23', [(H, 'next.as_str().trim_end()', 'next.as_str()')]),
    ('b-htmlr-vis', 'C23', [(H, 'let visible = name == "?";', 'let visible = name != "?";')]),
    ('b-htmlr-count', 'C23', [(H, '''{count}', {error}");
                    0''', '''{count}', {error}");
                    1''')]),
    ('b-htmlr-alias', 'C23', [(H, 'ElementBinding::Alias(name, binder)', 'ElementBinding::Tag(name, binder)')]),
    ('b-htmlr-emptyattr', 'C23', [(H, 'ElementBinding::None(name, "".to_string())', 'ElementBinding::None(name.clone(), name)')]),
    ('b-htmlr-event', 'C23', [(H, 'Rule::Event => CallbackArgument::Event', 'Rule::Event => CallbackArgument::Keyword(pair.as_str().to_string())')]),
    ('b-htmlr-attrtrim', 'C23', [(H, 'spans.push(TextSpan::String(span.as_str().to_string()))\n                        }', 'spans.push(TextSpan::String(span.as_str().trim().to_string()))\n                        }')]),
    ('b-htmlr-dup', 'C23', [(H, '        bindings.push(binding);\n    }', '        if !bindings.contains(&binding) {\n            bindings.push(binding);\n        }\n    }')]),
    ('b-htmlr-script', 'C23', [(H, 'tag: "script".to_string()', 'tag: "".to_string()')]),
    ('b-htmlr-void', 'C23', [(H, '''            Html {
                tag: tag.to_string(),
                bindings,
                text: None,
                children: vec![],
            }''', '''            Html {
                tag: tag.to_lowercase(),
                bindings,
                text: None,
                children: vec![],
            }''')]),
    ('b-htmlr-aslast', 'C23', [(H, VIS, VIS.replace('&self.bindings', 'self.bindings.iter().rev()'))]),
    ('b-htmlr-href', 'C23', [(H, 'if name == "href" {', 'if name == "href" && id.is_none() {')]),
    ('b-htmlr-link', 'C23', [(H, '                        id = Some(value.clone());\n                        continue;', '                        id = Some(value.clone());')]),
    ('b-htmlr-simple', 'C23', [(H, '[TextSpan::String(text)] =>', '[TextSpan::String(text), ..] =>')]),
    ('r-htmlr-attrs', None, [(H, ATTRS, '            let children: Vec')]),
    ('r-htmlr-direct', None, [(H, TEXT0, '''            let mut spans = vec![];
            for pair in pair.into_inner() {
                let span = match pair.as_rule() {
                    Rule::String => TextSpan::String(pair.as_str().to_string()),
                    Rule::Binder => TextSpan::Binder(parse_binder(pair)),
                    _ => unreachable!(),
                };
                match span {
                    TextSpan::String(string) => {
''')]),
    ('r-htmlr-helper', None, [(H, LINES, '                        let text = join_lines(&string, is_last_content);\n'), (H, '''fn parse_binder(pair''', '''fn join_lines(string: &str, is_last_content: bool) -> String {
''' + LINES + '''    text
}

fn parse_binder(pair''')]),
    ('r-htmlr-lines', None, [(H, LINES, '''                        let mut lines = string.split("\\n");
                        let mut text = lines.next().unwrap_or("").to_string();
                        for line in lines {
                            let line = line.trim_start();
                            if line.is_empty() && is_last_content {
                                continue;
                            }
                            text.push(' ');
                            text.push_str(line);
                        }
''')]),
    ('r-htmlr-lines2', None, [(H, LINES, '''                        let mut text = String::new();
                        for (index, line) in string.split('\\n').enumerate() {
                            if index == 0 {
                                text += line;
                                continue;
                            }
                            let line = line.trim_start();
                            if line.is_empty() && is_last_content {
                                continue;
                            }
                            text += &format!(" {line}");
                        }
''')]),
    ('r-htmlr-children', None, [(H, CHILDREN, '''                children: {
                    let mut nodes = Vec::with_capacity(children_count);
                    for (index, child) in children.into_iter().enumerate() {
                        let is_last = index == children_count - 1;
                        nodes.push(parse_content(child, is_last));
                    }
                    nodes
                },
''')]),
    ('r-htmlr-peek', None, [(H, '''            let children: Vec<Pair<Rule>> = children.into_inner().collect();
            let children_count = children.len();
''', '''            let children = children.into_inner();
            let children_count = children.len();
'''), (H, CHILDREN, CHILDREN.replace('                    .into_iter()\n', ''))]),
    ('r-htmlr-binder', None, [(H, BINDER, '''    let mut iter = pair.into_inner();
    let path = iter
        .next()
        .unwrap()
        .into_inner()
        .map(|key| key.as_str().to_string())
        .collect();
    let pipe = iter
        .map(|transformer| transformer.as_str().trim().to_string())
        .collect();
''')]),
    ('r-htmlr-binder2', None, [(H, BINDER, '''    let mut path = vec![];
    let mut pipe = vec![];
    for next in pair.into_inner() {
        if next.as_rule() == Rule::Getter {
            for key in next.into_inner() {
                path.push(key.as_str().to_string());
            }
        } else {
            pipe.push(next.as_str().trim().to_string());
        }
    }
''')]),
    ('r-htmlr-attrmap', None, [(H, '''                let mut spans = vec![];
                for span in iter {
                    match span.as_rule() {
                        Rule::DoubleQuotedAttributeString => {
                            spans.push(TextSpan::String(span.as_str().to_string()))
                        }
                        Rule::Binder => spans.push(TextSpan::Binder(parse_binder(span))),
                        _ => unreachable!(),
                    }
                }
''', '''                let spans = iter
                    .map(|span| match span.as_rule() {
                        Rule::DoubleQuotedAttributeString => {
                            TextSpan::String(span.as_str().to_string())
                        }
                        Rule::Binder => TextSpan::Binder(parse_binder(span)),
                        _ => unreachable!(),
                    })
                    .collect();
''')]),
    ('r-htmlr-match', None, [(H, '''            Rule::DoubleQuoted => {
                let value = iter.next().unwrap().as_str().to_string();
                ElementBinding::None(name, value)
            }
            Rule::Unquoted => {
                let value''', '''            Rule::DoubleQuoted | Rule::Unquoted => {
                let value''')]),
    ('r-htmlr-find', None, [(H, VIS, '''        self.bindings.iter().find_map(|binding| match binding {
            ElementBinding::Visibility(visible, binder) => Some((*visible, binder)),
            _ => None,
        })
''')]),
    ('r-htmlr-vis', None, [(H, '''                let visible = name == "?";
                let binder = parse_binder(iter.next().unwrap());
                ElementBinding::Visibility(visible, binder)''', '''                let binder = parse_binder(iter.next().unwrap());
                match name.as_str() {
                    "!" => ElementBinding::Visibility(false, binder),
                    _ => ElementBinding::Visibility(true, binder),
                }''')]),
]
