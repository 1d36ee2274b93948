"""Behaviour-preserving edits that cut the readers of HTML and CSS into helpers or walk the pairs otherwise."""
from variants_more import HR, CR, src, mid, ded
VARIANTS = []


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


# what the rules do not follow (DESIGN.md, limits)
LIMITS = []


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


def edits_of(name):
    return [list(e) for n, _, es in VARIANTS + LIMITS if n == name for e in es]


def BR(name, prop, base, old, new):
    """A bug inside the text of a refactoring that is accepted."""
    es = edits_of(base)
    hit = [e for e in es if old in e[2]]
    assert len(hit) == 1, (name, len(hit))
    assert hit[0][2].count(old) == 1, (name, hit[0][2].count(old))
    hit[0][2] = hit[0][2].replace(old, new)
    VARIANTS.append((name, prop, [tuple(e) for e in es]))


# ---------------------------------------------------------------- html/reader.rs
BINDER = 'fn parse_binder(pair: Pair<Rule>) -> Binder {'
ELEM = mid(HR, '        Rule::Element => {\n            let mut iter', '        Rule::Text => {')
TEXT = mid(HR, '        Rule::Text => {\n            let mut prefetch', '        Rule::Void => {')
VOIDR = mid(HR, '        Rule::Void => {\n            let mut iter', '        Rule::Script =>')


def inner(arm, n=8):
    return ded(arm.split('\n', 1)[1].rstrip().rsplit('}', 1)[0].rstrip() + '\n', n)


R('rd-hr-split', (HR, ELEM, '        Rule::Element => parse_element(pair),\n'), (HR, TEXT, '        Rule::Text => parse_text(pair, is_last_content),\n'),
  (HR, VOIDR, '        Rule::Void => parse_void(pair),\n'),
  (HR, BINDER, 'fn parse_element(pair: Pair<Rule>) -> Html {\n' + inner(ELEM) + '}\n\nfn parse_text(pair: Pair<Rule>, is_last_content: bool) -> Html {\n' + inner(TEXT) +
   '}\n\nfn parse_void(pair: Pair<Rule>) -> Html {\n' + inner(VOIDR) + '}\n\n' + BINDER))
ATTRS = """            let mut attrs = HashMap::new();
            for binding in &bindings {
                match binding {
                    ElementBinding::None(key, value) => {
                        attrs.insert(key.to_string(), value.to_string());
                    }
                    _ => {}
                }
            }
"""
R('rd-hr-unused-attrs', (HR, ATTRS, ''), (HR, ATTRS, ''), (HR, 'use std::collections::HashMap;\n', ''))
R('rd-hr-element-void', (HR, VOIDR, ''), (HR, ELEM, """        Rule::Element | Rule::Void => {
            let mut parts = pair.into_inner();
            let tag = parts.next().unwrap().as_str().to_string();
            let bindings = parse_element_bindings(parts.next().unwrap());
            let children = match parts.next() {
                None => vec![],
                Some(children) => {
                    let children: Vec<Pair<Rule>> = children.into_inner().collect();
                    let last = children.len().saturating_sub(1);
                    let mut nodes = Vec::with_capacity(children.len());
                    for (index, child) in children.into_iter().enumerate() {
                        nodes.push(parse_content(child, index == last));
                    }
                    nodes
                }
            };
            Html {
                tag,
                bindings,
                text: None,
                children,
            }
        }
"""), (HR, 'use std::collections::HashMap;\n', ''))
R('rd-hr-head', (HR, """            let mut iter = pair.into_inner();
            let tag = iter.next().unwrap().as_str();
            let attrs = iter.next().unwrap();
            let children = iter.next().unwrap();
            let bindings = parse_element_bindings(attrs);
""", """            let mut iter = pair.into_inner();
            let (tag, bindings) = parse_head(&mut iter);
            let children = iter.next().unwrap();
"""), (HR, """            let tag = iter.next().unwrap().as_str();
            let attrs = iter.next().unwrap();

            let bindings = parse_element_bindings(attrs);
""", """            let (tag, bindings) = parse_head(&mut iter);
"""), (HR, 'use pest::iterators::Pair;', 'use pest::iterators::{Pair, Pairs};'), (HR, BINDER, """fn parse_head<'i>(iter: &mut Pairs<'i, Rule>) -> (&'i str, Vec<ElementBinding>) {
    let tag = iter.next().unwrap().as_str();
    let attrs = iter.next().unwrap();
    (tag, parse_element_bindings(attrs))
}

""" + BINDER))
LINES = mid(HR, '                        let mut text = String::new();\n                        for (index, fragment)', '                        if !text.is_empty() {')
R('rd-hr-collapse-fn', (HR, LINES, '                        let text = collapse_lines(&string, is_last_content);\n'), (HR, BINDER,
  'fn collapse_lines(string: &str, is_last_content: bool) -> String {\n' + ded(LINES, 20).replace('let fragment = fragment.trim_start();', 'let fragment = fragment.trim_start();') + '    text\n}\n\n' + BINDER))
R('rd-hr-collapse-next', (HR, LINES, """                        let mut lines = string.split("\\n");
                        let mut text = lines.next().unwrap_or("").to_string();
                        for line in lines.map(|line| line.trim_start()) {
                            if line.is_empty() && is_last_content {
                                continue;
                            }
                            text.push(' ');
                            text += line;
                        }
"""))
R('rd-hr-collapse-continue', (HR, LINES, """                        let mut text = String::with_capacity(string.len());
                        for (index, fragment) in string.split('\\n').enumerate() {
                            if index == 0 {
                                text.push_str(fragment);
                                continue;
                            }
                            let fragment = fragment.trim_start();
                            if is_last_content && fragment.is_empty() {
                                continue;
                            }
                            text.push_str(" ");
                            text.push_str(fragment);
                        }
"""))
PREF = mid(HR, '            let mut prefetch = vec![];', '            let text = TextBinding { spans };\n            Html {')
R('rd-hr-text-one-pass', (HR, PREF, """            let mut spans = vec![];
            for span in pair.into_inner() {
                match span.as_rule() {
                    Rule::Binder => spans.push(TextSpan::Binder(parse_binder(span))),
                    Rule::String => {
""" + ded(LINES, 0).replace('string.split', 'span.as_str().split') + """                        if !text.is_empty() {
                            spans.push(TextSpan::String(text));
                        }
                    }
                    _ => unreachable!(),
                }
            }
"""))
R('rd-hr-text-filter-map', (HR, PREF, """            let spans = pair
                .into_inner()
                .filter_map(|span| match span.as_rule() {
                    Rule::String => {
                        let text = collapse_lines(span.as_str(), is_last_content);
                        if text.is_empty() {
                            None
                        } else {
                            Some(TextSpan::String(text))
                        }
                    }
                    Rule::Binder => Some(TextSpan::Binder(parse_binder(span))),
                    _ => unreachable!(),
                })
                .collect();
"""), (HR, BINDER,
  'fn collapse_lines(string: &str, is_last_content: bool) -> String {\n' + ded(LINES, 20) + '    text\n}\n\n' + BINDER))
ATTR = mid(HR, '                let mut spans = vec![];\n                for span in iter {', '            }\n            Rule::CallbackBinding =>')
R('rd-hr-attr-map', (HR, ATTR, """                let spans = iter
                    .map(|span| match span.as_rule() {
                        Rule::Binder => TextSpan::Binder(parse_binder(span)),
                        Rule::DoubleQuotedAttributeString => {
                            TextSpan::String(span.as_str().to_string())
                        }
                        _ => unreachable!(),
                    })
                    .collect();
                ElementBinding::Attribute(name, TextBinding { spans })
"""))
R('rd-hr-span-fn', (HR, ATTR, """                let spans = iter.map(parse_span).collect();
                ElementBinding::Attribute(name, TextBinding { spans })
"""), (HR, mid(HR, '            for span in pair.into_inner() {\n                match span.as_rule() {\n                    Rule::String', '            let count = prefetch.len();'), """            prefetch.extend(pair.into_inner().map(parse_span));
"""), (HR, BINDER, """fn parse_span(pair: Pair<Rule>) -> TextSpan {
    match pair.as_rule() {
        Rule::String | Rule::DoubleQuotedAttributeString => {
            TextSpan::String(pair.as_str().to_owned())
        }
        Rule::Binder => TextSpan::Binder(parse_binder(pair)),
        _ => unreachable!(),
    }
}

""" + BINDER))
BLOOP = mid(HR, '    let mut bindings = vec![];\n    for pair in pair.into_inner() {', '\x00') if False else None
t = src(HR)
i = t.index('    let mut bindings = vec![];\n    for pair in pair.into_inner() {\n        let rule')
BFN = t[i:t.index('\n}\n', i) + 1]
body = BFN.split('\n', 2)[2]
body = body[:body.index('        bindings.push(binding);')].rstrip()
assert body.endswith('};')
body = ded(body[:-1], 4).replace('let binding = match rule', 'match rule') + '\n'
R('rd-hr-binding-fn', (HR, BFN, '    pair.into_inner().map(parse_element_binding).collect()\n'),
  (HR, BINDER, 'fn parse_element_binding(pair: Pair<Rule>) -> ElementBinding {\n' + body + '}\n\n' + BINDER))
R('rd-hr-plain-values', (HR, mid(HR, '            Rule::DoubleQuoted => {', '            _ => unreachable!(),\n        };\n        bindings.push'), """            Rule::DoubleQuoted | Rule::Unquoted | Rule::Empty => {
                let value = iter.next().map(|value| value.as_str()).unwrap_or_default();
                ElementBinding::None(name, value.to_string())
            }
"""))
R('rd-hr-binder-order', (HR, mid(HR, '    let mut path = vec![];\n    let mut pipe', '    Binder { path, pipe }'), """    let mut iter = pair.into_inner();
    let getter = iter.next().unwrap();
    let path = getter
        .into_inner()
        .map(|key| key.as_str().to_string())
        .collect();
    let pipe = iter
        .map(|transformer| transformer.as_str().trim_end().to_string())
        .collect();
"""))
R('rd-hr-binder-key-fn', (HR, mid(HR, '    let mut path = vec![];\n    let mut pipe', '    Binder { path, pipe }\n}\n'), """    let mut binder = Binder {
        path: vec![],
        pipe: vec![],
    };
    pair.into_inner().for_each(|next| match next.as_rule() {
        Rule::Getter => binder.path = next.into_inner().map(|key| key.as_str().to_owned()).collect(),
        Rule::Transformer => binder.pipe.push(next.as_str().trim_end().to_owned()),
        _ => unreachable!(),
    });
    binder
}
"""), (HR, '    Binder { path, pipe }\n}\n', ''))
VARIANTS.pop()
R('rd-hr-binder-struct', (HR, mid(HR, '    let mut path = vec![];\n    let mut pipe', 'fn parse_element_bindings'), """    let mut binder = Binder {
        path: vec![],
        pipe: vec![],
    };
    for next in pair.into_inner() {
        let rule = next.as_rule();
        if rule == Rule::Getter {
            binder.path = next.into_inner().map(|key| key.as_str().to_owned()).collect();
        } else if rule == Rule::Transformer {
            binder.pipe.push(next.as_str().trim_end().to_owned());
        } else {
            unreachable!()
        }
    }
    binder
}

"""))
CALL = mid(HR, '                let mut arguments = vec![];\n                for pair in iter {', '                ElementBinding::Callback(name, arguments)')
R('rd-hr-callback-fn', (HR, CALL, '                let arguments = iter.map(parse_argument).collect();\n'), (HR, BINDER, """fn parse_argument(pair: Pair<Rule>) -> CallbackArgument {
    let rule = pair.as_rule();
    match rule {
        Rule::Event => CallbackArgument::Event,
        Rule::Binder => CallbackArgument::Binder(parse_binder(pair)),
        Rule::Key => CallbackArgument::Keyword(pair.as_str().to_owned()),
        _ => unreachable!("{rule:?}"),
    }
}

""" + BINDER))
R('rd-hr-repeat-match', (HR, mid(HR, '                let count = iter.next().unwrap().as_str();', '                let binder = parse_binder(iter.next().unwrap());\n                ElementBinding::Repeat'), """                let text = iter.next().unwrap().as_str();
                let count = match text.parse() {
                    Ok(count) => count,
                    Err(error) => {
                        let error: std::num::ParseIntError = error;
                        error!("unable to parse repeat count '{text}', {error}");
                        0
                    }
                };
"""))
R('rd-hr-find-map', (HR, mid(HR, '        for binding in &self.bindings {\n            if let ElementBinding::Visibility', '    }\n\n    pub fn as_repeat'), """        self.bindings.iter().find_map(|binding| match binding {
            ElementBinding::Visibility(visible, binder) => Some((*visible, binder)),
            _ => None,
        })
"""), (HR, mid(HR, '        for binding in &self.bindings {\n            if let ElementBinding::Repeat', '    }\n}\n\n#[derive(Debug, Clone, PartialEq)]\npub enum ElementBinding'), """        let mut repeats = self.bindings.iter().filter_map(|binding| match binding {
            ElementBinding::Repeat(name, count, binder) => Some((name.as_str(), *count, binder)),
            _ => None,
        });
        repeats.next()
"""))
R('rd-hr-link-q', (HR, mid(HR, '        if self.tag == "link" {\n            let mut bindings', '    }\n\n    pub fn as_visibility'), """        if self.tag != "link" {
            return None;
        }
        let mut id = None;
        let mut bindings = Vec::with_capacity(self.bindings.len());
        for binding in self.bindings.iter() {
            match binding {
                ElementBinding::None(name, value) if name == "href" => id = Some(value.clone()),
                binding => bindings.push(binding.clone()),
            }
        }
        Some((id?, bindings))
"""))
R('rd-hr-document', (HR, """        .next()
        .ok_or(ReaderError::EmptyDocument)?;
    let content = parse_content(document, true);
    Ok(content)
""", """        .next()
        .ok_or(ReaderError::EmptyDocument);
    document.map(|document| parse_content(document, true))
"""))

# ---------------------------------------------------------------- css/reader.rs
DECLS = 'fn read_declarations(pair: Pair<Rule>) -> Vec<Declaration> {'
ANIM = mid(CR, '                let mut iter = rule.into_inner();\n                let name = iter.next().unwrap();', '                animations.insert(name.clone()')
R('rd-cr-animation-fn', (CR, ANIM + '                animations.insert(name.clone(), Animation { name, keyframes });\n', """                let animation = read_animation(rule);
                animations.insert(animation.name.clone(), animation);
"""), (CR, DECLS, 'fn read_animation(rule: Pair<Rule>) -> Animation {\n' + ded(ANIM, 12) + '    Animation { name, keyframes }\n}\n\n' + DECLS))
STEP = mid(CR, '                    let step = match step.as_rule() {', '                    let decls = iter.next().unwrap().into_inner()')
R('rd-cr-step-fn', (CR, STEP, '                    let step = read_step(step);\n'), (CR, DECLS, """fn read_step(pair: Pair<Rule>) -> u32 {
    if pair.as_rule() == Rule::Percentage {
        let number = pair.into_inner().next().unwrap();
        return read_number(number) as u32;
    }
    match pair.as_str() {
        "from" => 0,
        "to" => 100,
        keyword => {
            error!("incorrect keyframe step {keyword}");
            0
        }
    }
}

""" + DECLS))
KF = mid(CR, '                let mut keyframes = vec![];\n', '                let name = name.as_str().to_string();')
KFB = KF.split('\n', 2)[2].rsplit('                }\n', 1)[0].replace('keyframes.push(Keyframe { step, declaration });', 'Keyframe { step, declaration }')
R('rd-cr-keyframes-map', (CR, KF, '                let keyframes = iter\n                    .map(|pair| {\n' + KFB + '                    })\n                    .collect();\n'))
STY = mid(CR, '                let mut iter = rule.into_inner();\n                let selectors_list', '            }\n            _ => unreachable!(),\n        }\n    }\n    Ok(Css')
R('rd-cr-style-fn', (CR, STY, '                styles.push(read_style(rule));\n'), (CR, DECLS, 'fn read_style(rule: Pair<Rule>) -> Style {\n' + ded(STY, 12).replace('styles.push(Style {', 'Style {').replace('        declaration,\n    })', '        declaration,\n    }') + '}\n\n' + DECLS))
CPX = mid(CR, '                    let mut components: Vec<Simple> = vec![];', '                    selectors.push(Complex {')
R('rd-cr-complex-fn', (CR, mid(CR, '                let mut selectors = vec![];\n', '                let decls = iter.next().unwrap().into_inner().next().unwrap();\n                let declaration = read_declarations(decls);\n                styles.push'), """                let selectors = selectors_list.into_inner().map(read_complex).collect();
"""), (CR, DECLS, 'fn read_complex(complex: Pair<Rule>) -> Complex {\n' + ded(CPX, 16) + '    Complex { selectors: components }\n}\n\n' + DECLS))
SIMPLE = mid(CR, '                                    let simple_rule = simple.as_rule();', '                                    components.push(component)')
SB = ded(SIMPLE, 32).replace('let component = match simple_rule', 'match simple_rule').rstrip()
assert SB.endswith('};')
R('rd-cr-simple-fn', (CR, SIMPLE, '                                    let component = read_simple(simple);\n'), (CR, DECLS, 'fn read_simple(simple: Pair<Rule>) -> Simple {\n' + SB[:-1] + '\n}\n\n' + DECLS))
R('rd-cr-simple-extend', (CR, mid(CR, '                                for simple in component.into_inner() {', '                            }\n                            Rule::Combinator => components'), '                                components.extend(component.into_inner().map(read_simple));\n'), (CR, DECLS, 'fn read_simple(simple: Pair<Rule>) -> Simple {\n' + SB[:-1] + '\n}\n\n' + DECLS))
MATCHER = mid(CR, '                                            let matcher =\n', '                                            let search')
R('rd-cr-matcher-fn', (CR, MATCHER, '                                            let matcher = read_matcher(iter.next());\n'), (CR, DECLS, """fn read_matcher(pair: Option<Pair<Rule>>) -> Matcher {
    let Some(pair) = pair else {
        return Matcher::Exist;
    };
    match pair.as_str() {
        "=" => Matcher::Equal,
        "~=" => Matcher::Include,
        "|=" => Matcher::DashMatch,
        "^=" => Matcher::Prefix,
        "$=" => Matcher::Suffix,
        "*=" => Matcher::Substring,
        "" => Matcher::Exist,
        _ => unreachable!(),
    }
}

""" + DECLS))
SEARCH = mid(CR, '                                            let search = iter', '                                            Simple::Attribute(ident, matcher')
R('rd-cr-search-fn', (CR, SEARCH, '                                            let search = iter.next().map(read_search).unwrap_or_default();\n'), (CR, DECLS, """fn read_search(pair: Pair<Rule>) -> String {
    let text = match pair.as_rule() {
        Rule::Ident => pair,
        Rule::String => pair.into_inner().next().unwrap(),
        _ => unreachable!(),
    };
    text.as_str().to_string()
}

""" + DECLS))
R('rd-cr-descendant-last', (CR, mid(CR, '                                let is_descendant = components.len() > 0', '                                for simple in component'), """                                if let Some(previous) = components.last() {
                                    if previous.as_combinator().is_none() {
                                        components.push(Simple::Combinator(' '));
                                    }
                                }
"""))
DLOOP = mid(CR, '    let mut declarations = vec![];', '}\n\nfn read_shorthand')
R('rd-cr-decl-fn', (CR, DLOOP, '    pair.into_inner().filter_map(read_declaration).collect()\n'), (CR, 'fn read_shorthand(', """fn read_declaration(property: Pair<Rule>) -> Option<Declaration> {
    let mut iter = property.into_inner();
    let name = iter.next().unwrap().as_str();
    let mut values = iter.next().unwrap().into_inner().map(read_shorthand);
    if name.starts_with("--") {
        return Some(Declaration::Variable(Variable {
            key: name.to_string(),
            shorthand: values.next().unwrap(),
        }));
    }
    let Some(key) = PropertyKey::parse(name) else {
        error!("unable to read property {name}, not supported");
        return None;
    };
    Some(Declaration::Property(Property {
        key,
        values: values.collect(),
    }))
}

fn read_shorthand("""))
R('rd-cr-decl-values', (CR, DLOOP, """    let mut declarations = vec![];
    for property in pair.into_inner() {
        let mut iter = property.into_inner();
        let name = iter.next().unwrap().as_str();
        let mut values: Vec<Shorthand> = iter.next().unwrap().into_inner().map(read_shorthand).collect();
        if name.starts_with("--") {
            let variable = Variable {
                key: name.to_string(),
                shorthand: values.remove(0),
            };
            declarations.push(Declaration::Variable(variable));
        } else if let Some(key) = PropertyKey::parse(name) {
            declarations.push(Declaration::Property(Property { key, values }));
        } else {
            error!("unable to read property {name}, not supported");
        }
    }
    declarations
"""))
R('rd-cr-args-map', (CR, """            let mut arguments = vec![];
            while let Some(arg) = iter.next() {
                arguments.push(read_value_def(arg));
            }
""", """            let arguments = iter.map(read_value_def).collect();
"""))
R('rd-cr-ident-fn', (CR, """            let mut iter = pair.into_inner();
            let name = iter.next().unwrap().as_str().to_string();
            Definition::Var(name)
""", """            Definition::Var(first(pair).as_str().to_string())
"""), (CR, """            Definition::Explicit(read_explicit_value(pair.into_inner().next().unwrap()))
""", """            Definition::Explicit(read_explicit_value(first(pair)))
"""), (CR, """        Rule::String => ComputedValue::Str(pair.into_inner().next().unwrap().as_str().to_string()),
""", """        Rule::String => ComputedValue::Str(first(pair).as_str().to_string()),
"""), (CR, 'fn read_dimension(', """fn first(pair: Pair<Rule>) -> Pair<Rule> {
    pair.into_inner().next().unwrap()
}

fn read_dimension("""))
R('rd-cr-seconds-scale', (CR, mid(CR, '    match unit {\n        "s" => value,', '}\n\nfn read_number'), """    let scale = match unit {
        "s" => 1.0,
        "ms" => 1000.0,
        _ => unreachable!(),
    };
    value / scale
"""))
COLOR = mid(CR, '    let value = pair.as_str();\n    match value.len() {', '        _ => {\n            if value.starts_with("rgb")')
R('rd-cr-color-hex-fn', (CR, mid(CR, '        7 if value.starts_with("#") => {', '        _ => {\n            if value.starts_with("rgb")'), """        7 if value.starts_with("#") => {
            [read_hex(&value[1..3]), read_hex(&value[3..5]), read_hex(&value[5..7]), 255]
        }
        9 if value.starts_with('#') => {
            [read_hex(&value[1..3]), read_hex(&value[3..5]), read_hex(&value[5..7]), read_hex(&value[7..9])]
        }
"""), (CR, 'fn read_color(', """fn read_hex(digits: &str) -> u8 {
    u8::from_str_radix(digits, 16).unwrap_or_default()
}

fn read_color("""))
R('rd-cr-color-split', (CR, mid(CR, '        7 if value.starts_with("#") => {', '        _ => {\n            if value.starts_with("rgb")'), """        7 | 9 if value.starts_with("#") => {
            let channel = |index: usize| u8::from_str_radix(&value[index..index + 2], 16).unwrap_or(0);
            let a = if value.len() == 9 { channel(7) } else { 255 };
            [channel(1), channel(3), channel(5), a]
        }
"""))
R('rd-cr-rgb-fn', (CR, mid(CR, '                let mut iter = pair.into_inner();\n                let r: u8', '            } else {\n                error!("unable to parse color'), """                read_rgb(pair)
"""), (CR, 'fn read_color(', """fn read_rgb(pair: Pair<Rule>) -> [u8; 4] {
    let mut iter = pair.into_inner();
    let mut channel = || iter.next().unwrap().as_str().parse::<u8>().unwrap_or(0);
    let [r, g, b] = [channel(), channel(), channel()];
    let alpha = match iter.next() {
        Some(alpha) => alpha.as_str().parse::<f32>().unwrap_or(1.0),
        None => 1.0,
    };
    [r, g, b, (255.0 * alpha.max(0.0).min(1.0)) as u8]
}

fn read_color("""))
# bugs inside these forms
BR('bd-hr-split', 'C23', 'rd-hr-split', 'index + 1 == children_count', 'index == 0 || index + 1 == children_count')
BR('bd-hr-element-void', 'C23', 'rd-hr-element-void', 'index == last)', 'index == 0)')
BR('bd-hr-collapse-fn', 'C23', 'rd-hr-collapse-fn', '|| !is_last_content', '&& !is_last_content')
BR('bd-hr-collapse-next', 'C23', 'rd-hr-collapse-next', 'line.trim_start()', 'line.trim()')
BR('bd-hr-collapse-continue', 'C23', 'rd-hr-collapse-continue', 'is_last_content && fragment.is_empty()', 'fragment.is_empty()')
BR('bd-hr-text-one-pass', 'C23', 'rd-hr-text-one-pass', 'if !text.is_empty() {', 'if !text.trim().is_empty() {')
BR('bd-hr-text-filter-map', 'C23', 'rd-hr-text-filter-map', 'Rule::Binder => Some(TextSpan::Binder(parse_binder(span))),', 'Rule::Binder => None,')
BR('bd-hr-attr-map', 'C23', 'rd-hr-attr-map', 'span.as_str().to_string()', 'span.as_str().trim().to_string()')
BR('bd-hr-span-fn', 'C23', 'rd-hr-span-fn', 'let spans = iter.map(parse_span)', 'let spans = iter.skip(1).map(parse_span)')
BR('bd-hr-binding-fn', 'C23', 'rd-hr-binding-fn', 'let visible = name == "?";', 'let visible = name != "?";')
BR('bd-hr-plain-values', 'C23', 'rd-hr-plain-values', 'ElementBinding::None(name, value.to_string())', 'ElementBinding::None(name, value.trim().to_string())')
BR('bd-hr-binder-order', 'C23', 'rd-hr-binder-order', 'let getter = iter.next().unwrap();', 'let getter = iter.next_back().unwrap();')
BR('bd-hr-binder-struct', 'C23', 'rd-hr-binder-struct', 'binder.pipe.push(', 'binder.pipe.insert(0, ')
BR('bd-hr-callback-fn', 'C23', 'rd-hr-callback-fn', 'Rule::Event => CallbackArgument::Event', 'Rule::Event => CallbackArgument::Keyword(pair.as_str().to_owned())')
BR('bd-hr-repeat-match', 'C23', 'rd-hr-repeat-match', '                        0\n', '                        1\n')
BR('bd-hr-link-q', 'C23', 'rd-hr-link-q', 'name == "href"', 'name == "href" && id.is_none()')
BR('bd-cr-step-fn', 'C22', 'rd-cr-step-fn', '"to" => 100,', '"to" => 99,')
BR('bd-cr-complex-fn', 'C22', 'rd-cr-complex-fn', "components.push(Simple::Combinator(' '));", "components.push(Simple::Combinator('>'));")
BR('bd-cr-simple-fn', 'C22', 'rd-cr-simple-fn', 'Rule::PseudoElement => Simple::PseudoElement(ident)', 'Rule::PseudoElement => Simple::PseudoClass(ident)')
BR('bd-cr-matcher-fn', 'C22', 'rd-cr-matcher-fn', '"*=" => Matcher::Substring', '"*=" => Matcher::Include')
BR('bd-cr-search-fn', 'C22', 'rd-cr-search-fn', 'text.as_str().to_string()', 'text.as_str().to_lowercase()')
BR('bd-cr-decl-fn', 'C22', 'rd-cr-decl-fn', 'name.starts_with("--")', 'name.starts_with("-")')
BR('bd-cr-decl-fn-2', 'C22', 'rd-cr-decl-fn', 'values: values.collect()', 'values: values.take(4).collect()')
BR('bd-cr-decl-values', 'C22', 'rd-cr-decl-values', 'values.remove(0)', 'values.concat()')
BR('bd-cr-seconds-scale', 'C22', 'rd-cr-seconds-scale', '"s" => 1.0', '"s" => 10.0')
BR('bd-cr-color-hex-fn', 'C22', 'rd-cr-color-hex-fn', 'read_hex(&value[7..9])', '255')
BR('bd-cr-color-split', 'C22', 'rd-cr-color-split', 'channel(7)', 'channel(5)')
BR('bd-cr-style-fn', 'C22', 'rd-cr-style-fn', "chars().next().unwrap()", "chars().last().unwrap()")
