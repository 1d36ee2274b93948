M = 'src/css/matching.rs'
V = 'src/view.rs'
SIB = '''                children
                    .iter()
                    .skip(1)
                    .position(|child| *child == *target)
                    .and_then(|child| children.get(child).cloned())'''
LOOP = '''        match component.as_combinator() {
            None => {
                if !match_simple_selector(component, element, matcher) {
                    return false;
                }
            }
            Some(combinator) => {
                if !find_next_target(combinator, &mut target, tree) {
                    return false;
                } else {
                    element = tree.get_node_context(target).unwrap();
                }
            }
        }
'''
STATIC = '''            let is_static = !has_dynamic_context
                && (!hints.has_dynamic_properties()
                    || (!style.has_attrs_selector(&hints.dynamic_attrs)
                        && (!hints.has_dynamic_classes || !style.has_class_selector())
                        && (!hints.has_dynamic_id || !style.has_id_selector())));
'''
KEEP = '''            if matches_ignoring_pseudo {
                if is_static && !has_pseudo {
                    element.styles.push(ElementStyle::Static(style.clone()));
                } else {
                    element.styles.push(ElementStyle::Dynamic(style.clone()));
                }
            } else {
                if is_static {
                    // discard, we do not handle styles that will never be applied
                } else {
                    element.styles.push(ElementStyle::Dynamic(style.clone()));
                }
            }
'''
VARIANTS = [
    ('b-sel-all', 'C14', [(M, '        .any(|selector| match_complex_selector(', '        .all(|selector| match_complex_selector(')]),
    ('b-sel-first', 'C14', [(M, '''        .selectors
        .iter()
        .any(|selector| match_complex''', '''        .selectors
        .iter()
        .take(1)
        .any(|selector| match_complex''')]),
    ('b-sel-forward', 'C14', [(M, 'selector.selectors.iter().rev()', 'selector.selectors.iter()')]),
    ('b-sel-sib-pos', 'C14', [(M, '                    .skip(1)\n', '')]),
    ('b-sel-sib-skip2', 'C14', [(M, '.skip(1)', '.skip(2)')]),
    ('b-sel-sib-first', 'C14', [(M, SIB, '                children.first().cloned()')]),
    ('b-sel-gt', 'C14', [(M, "'>' => tree.parent(*target),", "'>' => tree.parent(*target).and_then(|p| tree.parent(p).or(Some(p))),")]),
    ('b-sel-element', 'C14', [(M, '''                } else {
                    element = tree.get_node_context(target).unwrap();
                }''', '''                }
                if combinator == '>' {
                    element = tree.get_node_context(target).unwrap();
                }''')]),
    ('b-sel-prefix', 'C14', [(M, 'Matcher::Prefix => attr.starts_with(value)', 'Matcher::Prefix => attr.contains(value)')]),
    ('b-sel-suffix', 'C14', [(M, 'Matcher::Suffix => attr.ends_with(value)', 'Matcher::Suffix => attr.starts_with(value)')]),
    ('b-sel-include', 'C14', [(M, 'attr.split_ascii_whitespace().any(|word| word == value)', "attr.split(' ').any(|word| word == value)")]),
    ('b-sel-include-sub', 'C14', [(M, 'attr.split_ascii_whitespace().any(|word| word == value)', "attr.contains(value)")]),
    ('b-sel-dash', 'C14', [(M, 'attr == value || attr.starts_with(&format!("{value}-"))', 'attr.starts_with(&format!("{value}-"))')]),
    ('b-sel-exist', 'C14', [(M, 'Matcher::Exist => true', 'Matcher::Exist => !attr.is_empty()')]),
    ('b-sel-class', 'C14', [(M, 'classes.split_ascii_whitespace().any(|class| class == ident)', 'classes.contains(ident)')]),
    ('b-sel-class-one', 'C14', [(M, 'classes.split_ascii_whitespace().any(|class| class == ident)', 'classes == ident')]),
    ('b-sel-id', 'C14', [(M, '            .get("id")', '            .get("name")')]),
    ('b-sel-default', 'C14', [(M, '''                    Matcher::Suffix => attr.ends_with(value),
                })
                .unwrap_or(false)''', '''                    Matcher::Suffix => attr.ends_with(value),
                })
                .unwrap_or(value.is_empty())''')]),
    ('b-sel-state', 'C14', [(V, '"active" => element.state.active', '"active" => element.state.active && element.state.hover')]),
    ('b-sel-state2', 'C14', [(V, '"focus" => element.state.focus', '"focus" => element.state.active')]),
    ('b-feat-class', 'C15', [(M, 'Simple::Class(_) => true', 'Simple::Id(_) => true')]),
    ('b-feat-all', 'C15', [(M, '''    pub fn has_pseudo_class_selector(&self) -> bool {
        self.selectors.iter().any(''', '''    pub fn has_pseudo_class_selector(&self) -> bool {
        self.selectors.iter().all(''')]),
    ('b-feat-last', 'C15', [(M, '''    pub fn has_id_selector(&self) -> bool {
        self.selectors.iter().any(|complex| {
            complex.selectors.iter().any(|''', '''    pub fn has_id_selector(&self) -> bool {
        self.selectors.iter().any(|complex| {
            complex.selectors.iter().rev().take(1).any(|''')]),
    ('b-feat-attrs', 'C15', [(M, 'attrs.contains(name)', '!attrs.contains(name)')]),
    ('b-static-class', 'C15', [(V, '(!hints.has_dynamic_classes || !style.has_class_selector())', '(!hints.has_dynamic_classes || !style.has_id_selector())')]),
    ('b-static-pseudo', 'C15', [(V, 'if is_static && !has_pseudo {', 'if is_static {')]),
    ('b-static-drop', 'C15', [(V, '''                if is_static {
                    // discard''', '''                if is_static || has_pseudo {
                    // discard''')]),
    ('b-sel-sib-windows', 'C14', [(M, SIB, '''                let mut previous = children.first().cloned();
                for child in children {
                    if child == *target {
                        break;
                    }
                    previous = Some(child);
                }
                previous''')]),
    ('r-static-all', None, [(V, '''                if is_static {
                    // discard, we do not handle styles that will never be applied
                } else {''', '''                {''')]),
    ('b-static-context', 'C15', [(V, 'style.has_combinator() && !self.model.bindings.is_empty()', 'style.has_combinator() && self.model.bindings.is_empty()')]),
    ('b-static-strict', 'C15', [(V, '''            fn has_pseudo_class(&self, _element: &Element, _class: &str) -> bool {
                true''', '''            fn has_pseudo_class(&self, _element: &Element, _class: &str) -> bool {
                _element.state.hover''')]),
    ('b-static-child', 'C15', [(V, '''        let children = self.tree.children(node)?;
        for child in children {
            self.calculate_elements_stylesheet(child)?;''', '''        let children = self.tree.children(node)?;
        for child in children.into_iter().skip(1) {
            self.calculate_elements_stylesheet(child)?;''')]),
    ('b-static-insert', 'C15', [(V, 'element.styles.push(ElementStyle::Static(style.clone()));', 'element.styles.insert(0, ElementStyle::Static(style.clone()));')]),

    ('r-sel-loop', None, [(M, LOOP, '''        if let Some(combinator) = component.as_combinator() {
            if !find_next_target(combinator, &mut target, tree) {
                return false;
            }
        } else if !match_simple_selector(component, tree.get_node_context(target).unwrap(), matcher) {
            return false;
        }
'''), (M, '    let mut element = tree.get_node_context(target).unwrap();\n', '')]),
    ('r-sel-any', None, [(M, '''    style
        .selectors
        .iter()
        .any(|selector| match_complex_selector(selector, node, tree, matcher))''', '''    for selector in style.selectors.iter() {
        if match_complex_selector(selector, node, tree, matcher) {
            return true;
        }
    }
    false''')]),
    ('r-sel-sib', None, [(M, SIB, '''                let at = children.iter().position(|child| child == target)?;
                if at == 0 {
                    None
                } else {
                    Some(children[at - 1])
                }''')]),
    ('r-sel-sib-checked', None, [(M, SIB, '''                children
                    .iter()
                    .position(|child| child == target)
                    .and_then(|at| at.checked_sub(1))
                    .map(|at| children[at])''')]),
    ('r-sel-sib-windows', None, [(M, SIB, '''                let mut previous = None;
                for child in children {
                    if child == *target {
                        break;
                    }
                    previous = Some(child);
                }
                previous''')]),
    ('r-sel-attr', None, [(M, '''                    Matcher::Include => attr.split_ascii_whitespace().any(|word| word == value),''', '''                    Matcher::Include => match_class(attr, value),''')]),
    ('r-sel-dash', None, [(M, 'attr == value || attr.starts_with(&format!("{value}-"))', '''match attr.strip_prefix(value) {
                        Some(rest) => rest.is_empty() || rest.starts_with('-'),
                        None => false,
                    }''')]),
    ('r-sel-id', None, [(M, '''        Simple::Id(ident) => element
            .attrs
            .get("id")
            .map(|id| id.as_str() == ident.as_str())
            .unwrap_or(false),''', '''        Simple::Id(ident) => match element.attrs.get("id") {
            Some(id) => id == ident,
            None => false,
        },''')]),
    ('r-sel-id2', None, [(M, '''            .map(|id| id.as_str() == ident.as_str())
            .unwrap_or(false),''', '''            .is_some_and(|id| id.as_str() == ident.as_str()),''')]),
    ('r-feat', None, [(M, '''        self.selectors.iter().any(|complex| {
            complex.selectors.iter().any(|selector| match selector {
                Simple::Id(_) => true,
                _ => false,
            })
        })''', '''        for complex in self.selectors.iter() {
            for selector in complex.selectors.iter() {
                if let Simple::Id(_) = selector {
                    return true;
                }
            }
        }
        false''')]),
    ('r-feat2', None, [(M, '''        self.selectors.iter().any(|complex| {
            complex.selectors.iter().any(|selector| match selector {
                Simple::Id(_) => true,
                _ => false,
            })
        })''', '''        self.selectors
            .iter()
            .flat_map(|complex| complex.selectors.iter())
            .any(|selector| matches!(selector, Simple::Id(_)))''')]),
    ('r-static-order', None, [(V, STATIC, '''            let dynamic_attrs = style.has_attrs_selector(&hints.dynamic_attrs);
            let dynamic_class = hints.has_dynamic_classes && style.has_class_selector();
            let dynamic_id = hints.has_dynamic_id && style.has_id_selector();
            let is_static = !(has_dynamic_context || dynamic_attrs || dynamic_class || dynamic_id);
''')]),
    ('r-static-keep', None, [(V, KEEP, '''            let matches = matches_ignoring_pseudo;
            if is_static && !matches {
                continue;
            }
            let style = if is_static && !has_pseudo {
                ElementStyle::Static(style.clone())
            } else {
                ElementStyle::Dynamic(style.clone())
            };
            element.styles.push(style);
''')]),
    ('r-static-match', None, [(V, KEEP, '''            match (matches_ignoring_pseudo, is_static) {
                (true, true) if !has_pseudo => {
                    element.styles.push(ElementStyle::Static(style.clone()))
                }
                (false, true) => {}
                _ => element.styles.push(ElementStyle::Dynamic(style.clone())),
            }
''')]),
]
