"""Larger behaviour-preserving edits: functions split or merged, helper types, other shapes of the same walk."""
from variants_more import M, V, A, AP, CS, ST, TR, FN, CR, HR, MA, MO, RE, EL, src, mid, ded
VARIANTS = []


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


# what the rules do not follow (DESIGN.md, limits)
LIMITS = []


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


FA = 'src/fonts.rs'
CF = 'src/styles/compute_function.rs'
DF = 'src/styles/default.rs'

# ---------------------------------------------------------------- matching.rs
R('rd-ma-target-option', (MA, mid(MA, '            Some(combinator) => {\n                if !find', '        }\n    }\n    true'), '''            Some(combinator) => match find_next_target(combinator, target, tree) {
                Some(next) => {
                    target = next;
                    element = tree.get_node_context(target).unwrap();
                }
                None => return false,
            },
'''), (MA, mid(MA, 'fn find_next_target(', '    let next = match combinator'), '''fn find_next_target(combinator: char, target: NodeId, tree: &TaffyTree<Element>) -> Option<NodeId> {
'''), (MA, 'let next = match combinator {', 'match combinator {'), (MA, 'tree.parent(*target)', 'tree.parent(target)'),
  (MA, '''        '+' => tree
            .parent(*target)''', '''        '+' => tree
            .parent(target)'''), (MA, '*child == *target', '*child == target'), (MA, mid(MA, '    };\n    match next {\n', 'fn match_simple_selector'), '''    }
}

'''))
R('rd-ma-closure-simple', (MA, mid(MA, '    let mut element = tree.get_node_context(target).unwrap();', '    true\n}'), '''    for component in selector.selectors.iter().rev() {
        let matches = match component.as_combinator() {
            Some(combinator) => find_next_target(combinator, &mut target, tree),
            None => {
                let element = tree.get_node_context(target).unwrap();
                match_simple_selector(component, element, matcher)
            }
        };
        if !matches {
            return false;
        }
    }
'''))
R('rd-ma-try-fold', (MA, mid(MA, '    let mut target = node;\n', '}\n\nfn find_next_target'), '''    let mut target = node;
    selector.selectors.iter().rev().all(|component| {
        if let Some(combinator) = component.as_combinator() {
            return find_next_target(combinator, &mut target, tree);
        }
        tree.get_node_context(target)
            .map(|element| match_simple_selector(component, element, matcher))
            .unwrap()
    })
'''))
R('rd-ma-parts', (MA, '''        Simple::Id(ident) => element
            .attrs
            .get("id")
            .map(|id| id.as_str() == ident.as_str())
            .unwrap_or(false),
        Simple::Class(ident) => element
            .attrs
            .get("class")
            .map(|classes| match_class(classes, ident.as_str()))
            .unwrap_or(false),''', '''        Simple::Id(ident) => attribute(element, "id", |id| id == ident),
        Simple::Class(ident) => attribute(element, "class", |classes| match_class(classes, ident)),'''),
  (MA, 'fn match_simple_selector', '''fn attribute(element: &Element, name: &str, test: impl Fn(&str) -> bool) -> bool {
    match element.attrs.get(name) {
        Some(value) => test(value),
        None => false,
    }
}

fn match_simple_selector'''))
R('rd-ma-attr-fn-element', (MA, mid(MA, '            let value = value.as_str();\n', '        // there is no html element'), '''            match_attribute(element, name, operator, value)
        }
'''), (MA, 'fn match_simple_selector', '''fn match_attribute(element: &Element, name: &str, operator: &Matcher, value: &str) -> bool {
    let Some(attr) = element.attrs.get(name) else {
        return false;
    };
    match operator {
        Matcher::Exist => return true,
        Matcher::Equal => {}
        Matcher::Include => {
            for word in attr.split_ascii_whitespace() {
                if word == value {
                    return true;
                }
            }
            return false;
        }
        Matcher::DashMatch => {
            let mut prefix = String::from(value);
            prefix.push('-');
            if attr.starts_with(&prefix) {
                return true;
            }
        }
        Matcher::Prefix => return attr.starts_with(value),
        Matcher::Substring => return attr.contains(value),
        Matcher::Suffix => return attr.ends_with(value),
    }
    attr == value
}

fn match_simple_selector'''))
R('rd-ma-feature-fn', (MA, mid(MA, '    pub fn has_id_selector(&self) -> bool {\n', '    pub fn has_class_selector'), '''    fn has_selector(&self, kind: impl Fn(&Simple) -> bool) -> bool {
        for complex in &self.selectors {
            for selector in &complex.selectors {
                if kind(selector) {
                    return true;
                }
            }
        }
        false
    }

    pub fn has_id_selector(&self) -> bool {
        self.has_selector(|selector| matches!(selector, Simple::Id(_)))
    }

'''))

# ---------------------------------------------------------------- styles/mod.rs
R('rd-st-dynamic-let', (ST, mid(ST, '            match style {\n', '        // 2: inline'), '''            let style = match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    style
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    if !match_style(style, node, tree, matcher) {
                        continue;
                    }
                    style
                }
            };
            self.compute_declaration_block(&style.declaration, &mut computed_style);
        }
'''))
R('rd-st-compute-fn', (ST, mid(ST, '        // 1: css rules\n', '        // animations and transitions that'), '''        let mut computed_style = self.compute_declared(node, tree, element, matcher);
'''), (ST, '''    pub fn take_variables''', '''    fn compute_declared(
        &mut self,
        node: NodeId,
        tree: &TaffyTree<Element>,
        element: &Element,
        matcher: &impl PseudoClassMatcher,
    ) -> ComputedStyle {
        let mut computed_style = ComputedStyle::new();
        for style in &element.styles {
            match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    self.compute_declaration_block(&style.declaration, &mut computed_style);
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    if match_style(&style, node, tree, matcher) {
                        self.compute_declaration_block(&style.declaration, &mut computed_style);
                    }
                }
            }
        }
        if !element.style.is_empty() {
            self.compute_declaration_block(&element.style, &mut computed_style);
        }
        computed_style
    }

    pub fn take_variables'''))
R('rd-st-animate-fn', (ST, mid(ST, '        // 3: animations\n', '        // values that are not declared anymore'), '''        self.play_animations(input.time.as_secs_f32(), element, &mut computed_style);
'''), (ST, '''    pub fn take_variables''', '''    fn play_animations(&self, time: f32, element: &mut Element, style: &mut ComputedStyle) {
        for animator in &mut element.animators {
            if let Some(animation) = self.css.animations.get(&animator.name) {
                let tracks = self.compute_animation_tracks(animation, style);
                animator.play(time, &tracks, style);
            } else {
                error!("unable to play animation {}, not found", animator.name);
            }
        }
        for transition in &mut element.transitions {
            transition.play(time, style);
        }
    }

    pub fn take_variables'''))
R('rd-st-apply-fn', (ST, mid(ST, '        for (property, value) in &computed_style {\n', '        for transition in element.transitions.iter_mut() {\n            transition.init'), '''        self.apply_all(&computed_style, layout, element);
'''), (ST, '''    pub fn take_variables''', '''    fn apply_all(&mut self, style: &ComputedStyle, layout: &mut taffy::Style, element: &mut Element) {
        let mut failed = 0;
        for (property, value) in style.iter() {
            match self.apply(property.key, property.index, value, layout, element) {
                Ok(_) => {}
                Err(error) => {
                    error!("unable to apply {property:?}:{value:?} because of {error:?}");
                    failed += 1;
                }
            }
        }
        self.stats.apply_error += failed;
        self.stats.apply_ok += style.len() - failed;
    }

    pub fn take_variables'''))
R('rd-st-truncate-if', (ST, '''        element.animators.truncate(animators);''', '''        if element.animators.len() > animators {
            element.animators.truncate(animators);
        }'''))
L('rd-st-truncate-pop', (ST, '''        element.transitions.truncate(transitions);''', '''        while element.transitions.len() > transitions {
            element.transitions.pop();
        }'''))
R('rd-st-truncate-drain', (ST, '''        element.animators.truncate(animators);''', '''        if animators < element.animators.len() {
            element.animators.drain(animators..);
        }'''))
R('rd-st-block-two', (ST, mid(ST, '        for declaration in block {\n', '    }\n\n    fn compute_shorthand'), '''        for declaration in block {
            self.compute_declaration(declaration, style);
        }
'''), (ST, '    fn compute_shorthand(', '''    fn compute_declaration(&mut self, declaration: &Declaration, style: &mut ComputedStyle) {
        let property = match declaration {
            Declaration::Variable(variable) => {
                self.set_variable(variable);
                return;
            }
            Declaration::Property(property) => property,
        };
        for (index, definition) in property.values.iter().enumerate() {
            self.compute_style(property.key, index, definition, style);
        }
    }

    fn compute_shorthand('''))
R('rd-st-shorthand-var-fn', (ST, mid(ST, '                    let definition = match self.get_variable(name)', '                Definition::Function'), '''                    if !self.compute_variable(name, shorthand, resolving) {
                        shorthand.push(ComputedValue::Error);
                    }
                }
'''), (ST, '    fn set_variable', '''    fn compute_variable(
        &self,
        name: &String,
        shorthand: &mut Vec<ComputedValue>,
        resolving: &mut Vec<String>,
    ) -> bool {
        let Some(definition) = self.get_variable(name) else {
            error!("unable to compute variable {name}, not found");
            return false;
        };
        if resolving.iter().any(|known| known == name) {
            error!("unable to compute variable {name}, refers to itself");
            return false;
        }
        resolving.push(name.to_string());
        self.compute_shorthand(definition, shorthand, resolving);
        resolving.pop();
        true
    }

    fn set_variable'''))
R('rd-st-shorthand-unit', (ST, '''        resolving: &mut Vec<String>,
    ) -> bool {
        for value in definition {''', '''        resolving: &mut Vec<String>,
    ) {
        for value in definition {'''), (ST, '''                Definition::Explicit(value) => shorthand.push(value.clone()),
            }
        }
        true
    }''', '''                Definition::Explicit(value) => shorthand.push(value.clone()),
            }
        }
    }'''), (CS, '''        if !self.compute_shorthand(definition, &mut shorthand, &mut vec![]) {
            return;
        }''', '''        self.compute_shorthand(definition, &mut shorthand, &mut vec![]);'''))
R('rd-st-shorthand-clone', (ST, mid(ST, '                    resolving.push(name.clone());\n', '                }\n                Definition::Function'), '''                    let mut nested = resolving.clone();
                    nested.push(name.clone());
                    self.compute_shorthand(definition, shorthand, &mut nested);
'''))
R('rd-st-shorthand-vec', (CS, '''        let mut shorthand = vec![];
        if !self.compute_shorthand(definition, &mut shorthand, &mut vec![]) {
            return;
        }''', '''        let shorthand = self.resolve(definition);'''), (CS, '''    pub(crate) fn compute_style(''', '''    fn resolve(&self, definition: &[Definition]) -> Vec<ComputedValue> {
        let mut values = Vec::with_capacity(definition.len());
        let mut resolving = Vec::new();
        self.compute_shorthand(definition, &mut values, &mut resolving);
        values
    }

    pub(crate) fn compute_style('''))

# ---------------------------------------------------------------- compute_function.rs, fonts.rs
R('rd-cf-channel', (CF, src(CF)[src(CF).index('#[inline(always)]\nfn map_c'):], '''fn map_c(value: &ComputedValue) -> u8 {
    channel(value, 1.0)
}

fn map_a(value: &ComputedValue) -> u8 {
    channel(value, 255.0)
}

fn channel(value: &ComputedValue, scale: f32) -> u8 {
    let value = match value {
        ComputedValue::Percentage(value) => value * 255.0,
        Number(value) => value * scale,
        _ => 0.0,
    };
    value as u8
}
'''))
R('rd-cf-nested', (CF, mid(CF, '        let computed_value = match (name, arg', '        shorthand.push(computed_value);'), '''        let computed_value = match (name, &arguments[..]) {
            ("rgb", [red, green, blue]) => Some(Color([map_c(red), map_c(green), map_c(blue), u8::MAX])),
            ("rgba", [rgb @ .., alpha]) if rgb.len() == 3 => {
                Some(Color([map_c(&rgb[0]), map_c(&rgb[1]), map_c(&rgb[2]), map_a(alpha)]))
            }
            ("url", [Str(path)]) => Some(Str(path.clone())),
            _ => None,
        };
        let computed_value = computed_value.unwrap_or_else(|| {
            error!("unable to compute function {name}({arguments:?}), not supported");
            ComputedValue::Error
        });
'''))
R('rd-cf-if', (CF, mid(CF, '        let computed_value = match (name, arg', '        shorthand.push(computed_value);'), '''        let computed_value = match name {
            "rgb" if arguments.len() == 3 => {
                let [r, g, b] = [0, 1, 2].map(|i| map_c(&arguments[i]));
                Color([r, g, b, 255])
            }
            "rgba" if arguments.len() == 4 => Color([
                map_c(&arguments[0]),
                map_c(&arguments[1]),
                map_c(&arguments[2]),
                map_a(&arguments[3]),
            ]),
            "url" => match arguments.as_slice() {
                [Str(path)] => Str(path.to_owned()),
                _ => ComputedValue::Error,
            },
            _ => {
                error!("unable to compute function {name}({arguments:?}), not supported");
                ComputedValue::Error
            }
        };
'''))

# ---------------------------------------------------------------- default.rs
R('rd-df-borders', (DF, '''        borders: Borders {
            top: Default::default(),
            bottom: Default::default(),
            right: Default::default(),
            left: Default::default(),
            radius: [Length::zero(); 4],
        },''', '''        borders: no_borders(),'''),
  (DF, '''    element.borders = Borders {
        top: Default::default(),
        bottom: Default::default(),
        right: Default::default(),
        left: Default::default(),
        radius: [Length::zero(); 4],
    };''', '''    element.borders = no_borders();'''),
  (DF, 'pub fn create_element', '''fn no_borders() -> Borders {
    let side = crate::MyBorder::default;
    Borders {
        top: side(),
        bottom: side(),
        right: side(),
        left: side(),
        radius: [Length::zero(); 4],
    }
}

pub fn create_element'''))
R('rd-df-font', (DF, mid(DF, '    element.font = FontFace {', '    element.self_opacity'), '''    element.font = FontFace::initial();
'''), (DF, mid(DF, '        font: FontFace {', '        listeners:'), '''        font: FontFace::initial(),
'''), (DF, '''    // pub const DEFAULT_FONT_STRETCH''', '''    fn initial() -> Self {
        let family = Self::DEFAULT_FONT_FAMILY;
        Self {
            family: family.into(),
            size: 16.0,
            style: String::from("normal"),
            weight: Self::DEFAULT_FONT_WEIGHT,
            line_height: 1.0,
            align: TextAlign::Start,
        }
    }
    // pub const DEFAULT_FONT_STRETCH'''))
R('rd-df-layout-short', (DF, '''        inset: Rect::auto(),
        margin: Rect::zero(),
        padding: Rect::zero(),
        border: Rect::zero(),
        size: taffy::Size::auto(),
        min_size: taffy::Size::auto(),
        max_size: taffy::Size::auto(),
        aspect_ratio: None,
        gap: taffy::Size::zero(),
        align_items: None,
        align_self: None,
        justify_items: None,
        justify_self: None,
        align_content: None,
        justify_content: None,
''', '''        aspect_ratio: None,
        size: taffy::Size::auto(),
        min_size: taffy::Size::auto(),
        max_size: taffy::Size::auto(),
'''))
R('rd-df-layout-mut', (DF, '''    taffy::Style {
        display: taffy::Display::Block,''', '''    let mut layout = taffy::Style {'''), (DF, '''        ..Default::default()
    }''', '''        ..Default::default()
    };
    layout.display = taffy::Display::Block;
    layout'''))
R('rd-in-destructure', ('src/styles/inherit.rs', 'pub fn inherit(parent: &Element, element: &mut Element) {', '''pub fn inherit(parent: &Element, child: &mut Element) {
    let element = child;'''))
FO = mid(FA, '        let width = text.len()', '    }\n}')
R('rd-fa-if', (FA, FO, '''        let width = face.size * 0.75 * text.len() as f32;
        let Some(max_width) = max_width else {
            return [width, face.size];
        };
        if max_width == 0.0 {
            return [0.0; 2];
        }
        let lines = (width / max_width).floor() + 1.0;
        [max_width, face.size * lines]
'''))
R('rd-fa-match', (FA, FO, '''        let line = [text.len() as f32 * face.size * 0.75, face.size];
        match max_width {
            Some(max_width) if max_width == 0.0 => [0.0, 0.0],
            Some(max_width) => [max_width, (1.0 + (line[0] / max_width).floor()) * line[1]],
            None => line,
        }
'''))

# ---------------------------------------------------------------- view.rs
R('rd-v-reaction-fns', (V, mid(V, '                let element_text = self\n', '            }\n            Reaction::Reattach'), '''                self.set_text(node, span, text)?;
'''), (V, mid(V, '                let element = self.tree.get_element_mut(node)?;\n                if tag {', '            }\n            Reaction::Bind'), '''                self.set_tag(node, key, tag)?;
'''), (V, '    // Why this function is needed?', '''    fn set_text(&mut self, node: NodeId, span: usize, text: String) -> Result<(), ViewError> {
        let text_content = match self.tree.get_node_context_mut(node) {
            Some(element) => element.text.as_mut(),
            None => None,
        };
        let Some(content) = text_content else {
            return Err(ViewError::ElementTextContentNotFound);
        };
        content.set(span, text);
        self.tree.mark_dirty(node)?;
        Ok(())
    }

    fn set_tag(&mut self, node: NodeId, key: String, present: bool) -> Result<(), ViewError> {
        let attrs = &mut self.tree.get_element_mut(node)?.attrs;
        if !present {
            attrs.remove(&key);
            return Ok(());
        }
        attrs.insert(key.clone(), key);
        Ok(())
    }

    // Why this function is needed?'''))
R('rd-v-show-hide', (V, mid(V, '                let definition = self\n', '            }\n            Reaction::Repeat'), '''                if visible {
                    self.show(parent, node)?;
                } else {
                    self.hide(parent, node)?;
                }
'''), (V, '    // Why this function is needed?', '''    fn definition(&self, parent: NodeId, node: NodeId) -> Result<(Vec<NodeId>, usize), ViewError> {
        let definition = self.tree.get_element(parent)?.children.clone();
        match definition.iter().position(|child| *child == node) {
            Some(index) => Ok((definition, index)),
            None => Err(ViewError::ChildNotFound(node)),
        }
    }

    fn show(&mut self, parent: NodeId, node: NodeId) -> Result<(), ViewError> {
        let (definition, definition_index) = self.definition(parent, node)?;
        let current = self.tree.children(parent)?;
        if current.contains(&node) {
            return Ok(());
        }
        let mut index = current.len().min(definition_index);
        while index > 0 {
            let sibling = current[index - 1];
            let sibling_index = definition
                .iter()
                .position(|child| child == &sibling)
                .ok_or(ViewError::ChildNotFound(sibling))?;
            if sibling_index < definition_index {
                break;
            }
            index -= 1;
        }
        self.tree.insert_child_at_index(parent, index, node)?;
        Ok(())
    }

    fn hide(&mut self, parent: NodeId, node: NodeId) -> Result<(), ViewError> {
        self.definition(parent, node)?;
        let current = self.tree.children(parent)?;
        if let Some(index) = current.iter().position(|child| child == &node) {
            self.tree.remove_child_at_index(parent, index)?;
        }
        Ok(())
    }

    // Why this function is needed?'''))
R('rd-v-repeat-toggle', (V, mid(V, '                let shown = &children[start..cursor];', '            }\n            Reaction::Tag'), '''                for (offset, node) in children[start..end].iter().copied().enumerate() {
                    let visible = start + offset < cursor;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
'''))
R('rd-v-update-phases', (V, mid(V, '        let reactions = self.model.bind(&value);\n', '        // detect viewport'), '''        self.react(&value)?;
'''), (V, mid(V, '        self.tree.compute_layout_with_measure(', '        // TODO: clipping of viewport'), '''        let fonts = self.fonts.as_ref();
        self.tree.compute_layout_with_measure(
            self.body,
            Size::MAX_CONTENT,
            |size, space, _node, element, _style| measure_text(fonts, size, space, element),
        )?;
'''), (V, '    fn compute_final_positions_and_clipping(\n', '''    fn react(&mut self, value: &Value) -> Result<(), ViewError> {
        self.model
            .bind(value)
            .into_iter()
            .try_for_each(|reaction| self.update_tree(reaction))
    }

    fn compute_final_positions_and_clipping(
'''))
R('rd-v-final-element', (V, mid(V, '        element.opacity = opacity * element.self_opacity;', '        let mut location = layout.location;'), '''        element.clipping = clipping;
        element.opacity = element.self_opacity * opacity;
        element.scrolling = Scrolling::ensure(&layout, &element.scrolling);
        let Point { x, y } = layout.location;
        element.position = [x, y];
        let Size { width, height } = layout.size;
        element.size = [width, height];
        let content = layout.content_size;
        element.content_size = [content.width, content.height];
'''))
R('rd-v-final-scroll-match', (V, mid(V, '        let mut location = layout.location;', '        opacity = element.opacity;'), '''        let (location, clipping) = match &element.scrolling {
            None => (layout.location, clipping),
            Some(scrolling) => (
                Point {
                    x: layout.location.x - scrolling.x,
                    y: layout.location.y - scrolling.y,
                },
                Some(layout),
            ),
        };
'''), (V, '        mut clipping: Option<Layout>,', '        clipping: Option<Layout>,'))
R('rd-v-final-clip', (V, '''        if let Some(scrolling) = element.scrolling.as_ref() {
            clipping = Some(layout.clone());
            location.x -= scrolling.x;
            location.y -= scrolling.y;
        }''', '''        let shift = element.scrolling.as_ref().map(|scrolling| (scrolling.x, scrolling.y));
        if element.scrolling.is_some() {
            clipping = Some(layout);
        }
        let (dx, dy) = shift.unwrap_or((0.0, 0.0));
        location = Point { x: location.x - dx, y: location.y - dy };'''))
R('rd-v-stylesheet-classify', (V, mid(V, '            if matches_ignoring_pseudo {\n', '        let children = self.tree.children(node)?;\n        for child in children {\n            self.calculate'), '''            let kind = match (is_static, matches_ignoring_pseudo) {
                (true, false) => continue,
                (true, true) if !has_pseudo => ElementStyle::Static,
                _ => ElementStyle::Dynamic,
            };
            element.styles.push(kind(style.clone()));
        }
'''))
R('rd-v-stylesheet-collect', (V, mid(V, '            if matches_ignoring_pseudo {\n', '        let children = self.tree.children(node)?;\n        for child in children {\n            self.calculate'), '''            let style = style.clone();
            if is_static && matches_ignoring_pseudo && !has_pseudo {
                element.styles.push(ElementStyle::Static(style));
            } else if !is_static || matches_ignoring_pseudo {
                element.styles.push(ElementStyle::Dynamic(style));
            }
        }
'''))
R('rd-v-styles-children-fn', (V, mid(V, '            _ => {\n                let children = self.tree.children(node)?;\n                for child in children {\n                    sizes', '        }\n\n        Ok(())\n    }\n\n    #[inline(always)]\n    pub fn get_element_by_id'), '''            _ => {
                sizes.parent_font_size = element.font.size;
                sizes.parent_color = element.color;
                self.tree
                    .children(node)?
                    .into_iter()
                    .try_for_each(|child| self.apply_styles(child, input, sizes, variables.clone()))?;
            }
'''))
R('rd-v-measure', (V, mid(V, '    let element = match element {\n', '    Size::ZERO\n}'), '''    let Some(element) = element else {
        return Size::ZERO;
    };
    let Some(text) = &element.text else {
        return Size::ZERO;
    };
    let max_width = match (size.width, space.width) {
        (Some(width), _) => Some(width),
        (None, AvailableSpace::MinContent) => Some(0.0),
        (None, AvailableSpace::MaxContent) => None,
        (None, AvailableSpace::Definite(width)) => Some(width),
    };
    let [width, height] = fonts.measure(&text.to_string(), &element.font, max_width);
    return Size { width, height };
}
''') if False else (V, mid(V, '        let max_width = size.width.map(Some)', '        let [width, height] = fonts.measure'), '''        let max_width = match (size.width, space.width) {
            (Some(width), _) => Some(width),
            (None, AvailableSpace::MinContent) => Some(0.0),
            (None, AvailableSpace::MaxContent) => None,
            (None, AvailableSpace::Definite(width)) => Some(width),
        };
'''))
R('rd-v-measure-or', (V, mid(V, '        let max_width = size.width.map(Some)', '        let [width, height] = fonts.measure'), '''        let available = match space.width {
            AvailableSpace::MinContent => Some(0.0),
            AvailableSpace::MaxContent => None,
            AvailableSpace::Definite(width) => Some(width),
        };
        let max_width = size.width.or(available);
'''))
R('rd-v-pseudo-if', (V, '''            "blank" => false,
            _ => {
                error!("unable to match unknown pseudo class {class}");
                false
            }''', '''            unknown => {
                if unknown != "blank" {
                    error!("unable to match unknown pseudo class {unknown}");
                }
                false
            }'''))

# ---------------------------------------------------------------- animation.rs
R('rd-a-play-early', (A, mid(A, '        if let Some(time) = self.update(time) {\n', '    }\n\n    pub fn play_track'), '''        let Some(progress) = self.update(time) else {
            return;
        };
        let step = (100.0 * progress) as u32;
        tracks.iter().for_each(|track| self.play_track(track, step, style));
'''))
R('rd-a-track-fn', (A, mid(A, '        let mut a = 0;\n        let mut b = 0;\n', '    }\n\n    pub fn update'), '''        let (a, b) = Self::frames_around(track, t);
        let value = if a < b {
            let progress = (t - a) as f32 / (b - a) as f32;
            animate(track.descriptor.key, &track.frames[&a], &track.frames[&b], progress)
        } else {
            track.frames[&a].clone()
        };
        style.insert(track.descriptor, value);
    }

    fn frames_around(track: &AnimationTrack, t: u32) -> (u32, u32) {
        let mut before = 0;
        let mut after = 0;
        for &step in track.frames.keys() {
            if step <= t {
                before = step;
            }
            if step >= t {
                after = step;
                break;
            }
        }
        (before, after)
'''))
R('rd-a-update-split', (A, mid(A, '        let t = self.time - self.delay;\n', '    }\n}\n\npub fn animate'), '''        self.progress()
    }

    fn progress(&self) -> Option<f32> {
        let elapsed = self.time - self.delay;
        if elapsed < 0.0 {
            return None;
        }
        let mut cycles = elapsed / self.duration;
        if let AnimationIterations::Number(limit) = self.iterations {
            cycles = cycles.min(limit);
        }
        match cycles.fract() {
            rest if rest == 0.0 && cycles > 0.0 => Some(1.0),
            rest => Some(rest),
        }
'''))
R('rd-a-transition-progress', (A, mid(A, '        let time = match self.animator.update(time) {', '        let mut changed = false;'), '''        let progress = self.animator.update(time);
        if progress.is_none() && self.animator.duration <= 0.0 {
            return;
        }
        let time = progress.unwrap_or(0.0);
'''))
R('rd-a-transition-let', (A, '''            let value = match style.get(&PropertyDescriptor::new(key, index)) {
                Some(value) => value.clone(),
                None => break,
            };
            changed |= to != &value;
            layers.push((animate(key, from, to, time), value));''', '''            let descriptor = PropertyDescriptor::new(key, index);
            let Some(value) = style.get(&descriptor).cloned() else {
                break;
            };
            if value != *to {
                changed = true;
            }
            let current = animate(key, from, to, time);
            layers.push((current, value));'''))
R('rd-a-animate-lerp', (A, mid(A, 'fn percentage(a: &f32', 'fn _transform'), '''fn percentage(a: &f32, b: &f32, t: f32) -> ComputedValue {
    Percentage(lerp(*a, *b, t))
}

fn number(a: &f32, b: &f32, t: f32) -> ComputedValue {
    Number(lerp(*a, *b, t))
}

fn lerp(a: f32, b: f32, t: f32) -> f32 {
    let distance = b - a;
    a + distance * t
}

'''))
R('rd-a-color-loop', (A, mid(A, '    let r = (x[0] as f32', 'fn dimension('), '''    let mut result = [0u8; 4];
    for i in 0..4 {
        let (from, to) = (x[i] as f32, y[i] as f32);
        result[i] = (from + (to - from) * t).max(0.0) as u8;
    }
    Color(result)
}

'''))
R('rd-a-ends', (A, '''    if t == 0.0 {
        return a.clone();
    }
    if t == 1.0 {
        return b.clone();
    }
    match (a, b) {''', '''    match (a, b) {
        _ if t == 0.0 => a.clone(),
        _ if t == 1.0 => b.clone(),'''))
