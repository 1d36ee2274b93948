C = 'src/css/reader.rs'
H = 'src/html/reader.rs'
CP = 'src/css/css.pest'
HP = 'src/html/html.pest'
KEYF = '''                    let step = match step.as_rule() {
                        Rule::Percentage => read_number(step.into_inner().next().unwrap()) as u32,
                        Rule::Keyword => match step.as_str() {
                            "from" => 0,
                            "to" => 100,
                            keyword => {
                                error!("incorrect keyframe step {keyword}");
                                0
                            }
                        },
                        _ => unreachable!(),
                    };
'''
VALUES = '''            let values = shorthands
                .into_inner()
                .map(|value| read_shorthand(value))
                .collect();
'''
ARGS = '''            let mut arguments = vec![];
            while let Some(arg) = iter.next() {
                arguments.push(read_value_def(arg));
            }
'''
DESC = '''                                let is_descendant = components.len() > 0
                                    && components[components.len() - 1].as_combinator().is_none();
                                if is_descendant {
'''
VARIANTS = [
    ('b-cssr-radix', 'C22', [(C, 'let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);', 'let g = u8::from_str_radix(&value[2..4], 16).unwrap_or(0);')]),
    ('b-cssr-short', 'C22', [(C, '.map(|value| value * 17)', '.map(|value| value * 16)')]),
    ('b-cssr-alpha', 'C22', [(C, 'if value.len() == 5 { digit(4) } else { 255 }', 'if value.len() == 5 { digit(4) } else { 0 }')]),
    ('b-cssr-percent', 'C22', [(C, 'value / 100.0', 'value / 10.0')]),
    ('b-cssr-ms', 'C22', [(C, '"ms" => value / 1000.0', '"ms" => value / 100.0')]),
    ('b-cssr-unit', 'C22', [('src/css/model.rs', '"vmin" => Units::Vmin', '"vmin" => Units::Vmax')]),
    ('b-cssr-name', 'C22', [('src/css/model.rs', '"min-height" =>', '"min-heigth" =>')]),
    ('b-cssr-matcher', 'C22', [(C, '"^=" => Matcher::Prefix', '"^=" => Matcher::Suffix')]),
    ('b-cssr-string', 'C22', [(C, 'Rule::String => ComputedValue::Str(pair.into_inner().next().unwrap().as_str().to_string())', 'Rule::String => ComputedValue::Str(pair.as_str().to_string())')]),
    ('b-cssr-attr-string', 'C22', [(C, '''                                                    Rule::String => pair
                                                        .into_inner()
                                                        .next()
                                                        .unwrap()
                                                        .as_str()
                                                        .to_string(),''', '''                                                    Rule::String => pair.as_str().to_string(),''')]),
    ('b-cssr-descendant', 'C22', [(C, DESC, DESC.replace('''
                                    && components[components.len() - 1].as_combinator().is_none()''', ''))]),
    ('b-cssr-descendant2', 'C22', [(C, DESC, DESC.replace('components.len() > 0', 'components.len() > 1'))]),
    ('b-cssr-step', 'C22', [(C, '"to" => 100', '"to" => 99')]),
    ('b-cssr-selectors', 'C22', [(C, 'for complex in selectors_list.into_inner() {', 'for complex in selectors_list.into_inner().skip(1) {')]),
    ('b-cssr-unknown', 'C22', [(C, '''                    error!("unable to read property {key}, not supported");
                    continue;''', '''                    error!("unable to read property {key}, not supported");
                    break;''')]),
    ('b-cssr-var', 'C22', [(C, 'shorthand: values[0].clone()', 'shorthand: values[values.len() - 1].clone()')]),
    ('b-cssr-args', 'C22', [(C, ARGS, ARGS.replace('while let', 'if let'))]),
    ('b-cssr-values', 'C22', [(C, VALUES, VALUES.replace('.into_inner()\n', '.into_inner()\n                .take(8)\n'))]),
    ('b-cssr-anim', 'C22', [(C, 'animations.insert(name.clone(), Animation { name, keyframes });', 'animations.entry(name.clone()).or_insert(Animation { name, keyframes });')]),
    ('b-cssr-first', 'C22', [(C, '''                styles.push(Style {
                    selectors,
                    declaration,
                })''', '''                styles.insert(0, Style {
                    selectors,
                    declaration,
                })''')]),
    ('r-cssr-values', None, [(C, VALUES, '''            let mut values = vec![];
            for value in shorthands.into_inner() {
                values.push(read_shorthand(value));
            }
''')]),
    ('r-cssr-args', None, [(C, ARGS, '''            let arguments = iter.map(read_value_def).collect();
''')]),
    ('r-cssr-step', None, [(C, KEYF, '''                    let step = read_step(step);
'''), (C, 'fn read_declarations(', '''fn read_step(step: Pair<Rule>) -> u32 {
    if step.as_rule() == Rule::Percentage {
        let number = step.into_inner().next().unwrap();
        return read_number(number) as u32;
    }
    match step.as_str() {
        "to" => 100,
        "from" => 0,
        keyword => {
            error!("incorrect keyframe step {keyword}");
            0
        }
    }
}

fn read_declarations(''')]),
    ('r-cssr-desc', None, [(C, DESC, '''                                if matches!(components.last(), Some(last) if last.as_combinator().is_none()) {
''')]),
    ('r-cssr-desc2', None, [(C, DESC, '''                                let is_descendant = match components.last() {
                                    None => false,
                                    Some(Simple::Combinator(_)) => false,
                                    Some(_) => true,
                                };
                                if is_descendant {
''')]),
    ('r-cssr-color', None, [(C, '''        7 if value.starts_with("#") => {
            let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
            let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
            let b = u8::from_str_radix(&value[5..7], 16).unwrap_or(0);
            let a = 255;
            [r, g, b, a]
        }
''', '''        7 if value.starts_with("#") => {
            let channel = |at: usize| u8::from_str_radix(&value[at..at + 2], 16).unwrap_or_default();
            [channel(1), channel(3), channel(5), u8::MAX]
        }
''')]),
    ('r-cssr-simple', None, [(C, '''Rule::Combinator => components.push(Simple::Combinator(
                                component.as_str().chars().next().unwrap(),
                            )),''', '''Rule::Combinator => {
                                let sign = component.as_str().chars().next();
                                components.push(Simple::Combinator(sign.unwrap()));
                            }''')]),
    ('r-cssr-map', None, [(C, 'pair.into_inner().map(read_value_def).collect()', '''{
        let mut shorthand = Shorthand::new();
        for value in pair.into_inner() {
            shorthand.push(read_value_def(value));
        }
        shorthand
    }''')]),
    ('r-cssr-number', None, [(C, '''    number.parse::<f32>().unwrap_or_else(|error| {
        error!("unable to parse number value {number}, {error}");
        0.0
    })''', '''    match number.parse() {
        Ok(value) => value,
        Err(error) => {
            error!("unable to parse number value {number}, {error}");
            0.0
        }
    }''')]),
    ('r-cssr-name-match', None, [(C, '''            let key = match PropertyKey::parse(key) {
                Some(key) => key,
                None => {
                    error!("unable to read property {key}, not supported");
                    continue;
                }
            };
''', '''            let Some(key) = PropertyKey::parse(key) else {
                error!("unable to read property {key}, not supported");
                continue;
            };
''')]),
    ('b-end-step', 'C24', [(CP, 'Step = _{ Keyword | Percentage  }', 'Step = _{ Keyword | Percentage | Zero }')]),
    ('b-end-time', 'C24', [(CP, 'TimeUnit = { "ms" | "s" }', 'TimeUnit = { "ms" | "s" | "min" }')]),
    ('b-end-color', 'C24', [(CP, 'Color = { "#" ~ ASCII_HEX_DIGIT+ }', 'Color = { "#" ~ (!(" " | ";" | ",") ~ ANY)+ }')]),
    ('r-end-block', None, [(CP, '"{" ~ Declarations ~ "}"', '"{" ~ Declarations? ~ "}"')]),
    ('r-end-string', None, [(CP, 'String = { "\\"" ~ StringLiteral ~ "\\"" }', 'String = { "\\"" ~ StringLiteral? ~ "\\"" }')]),
    ('b-end-unquoted-none', 'C24', [(HP, 'Unquoted = { Name ~ "=" ~ UnquotedValue }', 'Unquoted = { Name ~ "=" ~ UnquotedValue? }')]),
    ('b-end-digit', 'C24', [(C, 'digit(4) } else', 'digit(5) } else')]),
    ('b-end-color8', 'C24', [(C, '''            let a = u8::from_str_radix(&value[7..9], 16).unwrap_or(0);''', '''            let a = u8::from_str_radix(&value[8..10], 16).unwrap_or(0);''')]),
    ('b-end-matcher', 'C24', [(C, '''                                                "*=" => Matcher::Substring,
''', '')]),
    ('b-end-string', 'C24', [(CP, 'String = { "\\"" ~ StringLiteral ~ "\\"" }', 'String = { "\\"" ~ StringLiteral ~ "\\"" | "\'\'" }')]),
    ('r-end-let', None, [(C, '''            let name = iter.next().unwrap().as_str().to_string();
            Definition::Var(name)''', '''            match iter.next() {
                Some(name) => Definition::Var(name.as_str().to_string()),
                None => unreachable!(),
            }''')]),
    ('r-end-grammar', None, [(CP, 'Color = { "#" ~ ASCII_HEX_DIGIT+ }', 'Color = { "#" ~ Hex }\n\nHex = _{ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT* }')]),
]
