"""Larger behaviour-preserving edits over all files (whole functions split, loops rewritten, tables instead of matches)."""
M, V, A = 'src/view_model.rs', 'src/view.rs', 'src/animation.rs'
AP, CS, ST, TR, FN = ('src/styles/' + x for x in ('apply.rs', 'compute_style.rs', 'mod.rs', 'compute_animation_tracks.rs', 'compute_function.rs'))
CR, HR, MA, MO = 'src/css/reader.rs', 'src/html/reader.rs', 'src/css/matching.rs', 'src/css/model.rs'
RE, EL = 'src/rendering.rs', 'src/element.rs'
VARIANTS = []


def src(f):
    return open('/repo/' + f).read()


def mid(f, a, b, after=''):
    t = src(f)
    i = t.index(after) if after else 0
    i = t.index(a, i)
    return t[i:t.index(b, i)]


def ded(t, n):
    return '\n'.join(l[n:] if l[:n].strip() == '' else l for l in t.split('\n'))


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


# rewrites to another algorithm that the rules do not follow: they raise an alarm (DESIGN.md, limits)
LIMITS = []


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


# --- input dispatch split into methods
move = mid(M, '                    self.mouse = position;\n', '                InputEvent::MouseButtonDown(button) => {')
move = move[:move.rindex('                }')]
down = mid(M, '                    if let Some(focus) = self.focus {\n                        if !self.elements', '                InputEvent::MouseButtonUp(button) => {')
down = down[:down.rindex('                }')]
up = mid(M, '                    let elements_under_mouse = self.elements_under_mouse.clone();\n                    for node in elements_under_mouse.iter().rev()', '                InputEvent::MouseWheel(_)')
up = up[:up.rindex('                }')]
hit = '    fn calculate_mouse_hovers(\n'


def method(sig, body):
    return f'    fn {sig} -> Result<(), ViewError> {{\n' + ded(body, 12) + '        Ok(())\n    }\n\n'


R('rm-dispatch-methods',
  (M, move, '                    self.handle_mouse_move(position, body, tree)?;\n'),
  (M, down, '                    self.handle_mouse_down(button, tree)?;\n'),
  (M, up, '                    self.handle_mouse_up(button, tree)?;\n'),
  (M, hit, method('handle_mouse_move(&mut self, position: [f32; 2], body: NodeId, tree: &mut TaffyTree<Element>)', move)
   + method('handle_mouse_down(&mut self, button: MouseButtons, tree: &mut TaffyTree<Element>)', down)
   + method('handle_mouse_up(&mut self, button: MouseButtons, tree: &mut TaffyTree<Element>)', up) + hit))

R('rm-dispatch-one-event',
  (M, '''        for event in events {
            match event {
                InputEvent::Unknown => {}
                InputEvent::MouseMove(position)''', '''        events.into_iter().try_for_each(|event| self.handle_event(event, body, tree))
    }

    fn handle_event(
        &mut self,
        event: InputEvent,
        body: NodeId,
        tree: &mut TaffyTree<Element>,
    ) -> Result<(), ViewError> {
        {
            match event {
                InputEvent::Unknown => {}
                InputEvent::MouseMove(position)'''))

R('rm-mouse-emit', *[(M, x, y) for x, y in [
    ('''                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseleave", event);
                            if self.drag.is_some() {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragleave", event);
                            }
''', '''                            self.emit_mouse(element, "onmouseleave");
                            if self.drag.is_some() {
                                self.emit_mouse(element, "ondragleave");
                            }
'''),
    ('''                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseenter", event);
                            if self.drag.is_some() {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragenter", event);
                            }
''', '''                            self.emit_mouse(element, "onmouseenter");
                            if self.drag.is_some() {
                                self.emit_mouse(element, "ondragenter");
                            }
'''),
    (hit, '''    fn emit_mouse(&mut self, element: &Element, handler: &str) {
        let event = MouseEvent::new(self.mouse, element);
        self.emit(element, handler, event);
    }

''' + hit)]])

R('rm-blur-helper',
  (M, '''                            self.focus = None;
                            let element = tree.get_element_mut(focus)?;
                            element.state.focus = false;
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(&element, "onblur", event);
''', '''                            self.blur(focus, tree)?;
'''),
  (M, '''                                    self.focus = None;
                                    element = tree.get_element_mut(focus)?;
                                    element.state.focus = false;
                                    let event = MouseEvent::new(self.mouse, element);
                                    self.emit(&element, "onblur", event);
                                    element = tree.get_element_mut(node)?;
''', '''                                    self.blur(focus, tree)?;
                                    element = tree.get_element_mut(node)?;
'''),
  (M, hit, '''    fn blur(&mut self, focus: NodeId, tree: &mut TaffyTree<Element>) -> Result<(), ViewError> {
        self.focus = None;
        let element = tree.get_element_mut(focus)?;
        element.state.focus = false;
        let event = MouseEvent::new(self.mouse, element);
        self.emit(&element, "onblur", event);
        Ok(())
    }

''' + hit))

R('rm-keyboard-helper',
  (M, mid(M, '                InputEvent::KeyDown(key) => {', '                InputEvent::Char(char) => {'), '''                InputEvent::KeyDown(key) => self.handle_key(key, "onkeydown", tree)?,
                InputEvent::KeyUp(key) => self.handle_key(key, "onkeyup", tree)?,
'''),
  (M, hit, '''    fn handle_key(
        &mut self,
        key: Keys,
        handler: &str,
        tree: &TaffyTree<Element>,
    ) -> Result<(), ViewError> {
        let node = match self.focus {
            Some(node) => node,
            None => return Ok(()),
        };
        let element = tree.get_element(node)?;
        self.emit(element, handler, KeyboardEvent::new(key, element));
        Ok(())
    }

''' + hit))

R('rm-hovers-bounds', (M, '''    let x = point[0] - element.position[0];
    let y = point[1] - element.position[1];
    x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]''', '''    let [x, y] = point;
    let [left, top] = element.position;
    let [width, height] = element.size;
    let inside = |value: f32, start: f32, length: f32| {
        let offset = value - start;
        (0.0..length).contains(&offset)
    };
    inside(x, left, width) && inside(y, top, height)'''))

R('rm-hovers-loop', (M, '''    let x = point[0] - element.position[0];
    let y = point[1] - element.position[1];
    x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]''', '''    (0..2).all(|axis| {
        let offset = point[axis] - element.position[axis];
        offset >= 0.0 && offset < element.size[axis]
    })'''))

R('rm-contains-any', (M, 'if !self.elements_under_mouse.contains(node) {', 'if self.elements_under_mouse.iter().all(|current| current != node) {'))

# --- data
R('rm-bind-array-fn',
  (M, mid(M, '                let mut array_changed = false;\n', '            (Value::Array(current), Value::Null) => {').rstrip()[:-1].rstrip() + '\n', '''                Self::bind_array(
                    current,
                    src,
                    next,
                    path,
                    arrays_path,
                    bindings,
                    reactions,
                    transformers,
                    default,
                )
'''),
  (M, '    #[inline]\n    fn react(', '''    fn bind_array(
        current: &mut Vec<Value>,
        src: &Value,
        next: &Vec<Value>,
        path: &str,
        arrays_path: &str,
        bindings: &Bindings,
        reactions: &mut Vec<Reaction>,
        transformers: &HashMap<String, Transformer>,
        default: &HashMap<String, Value>,
    ) -> bool {
''' + ded(mid(M, '                let mut array_changed = false;\n', '            (Value::Array(current), Value::Null) => {').rstrip()[:-1].rstrip(), 8) + '\n    }\n\n    #[inline]\n    fn react('))

obj = mid(M, '            (Value::Object(object), Value::Object(src)) => {', '            (dst, src) => {\n')
R('rm-bind-object-merge',
  (M, obj, '''            (Value::Object(object), Value::Object(_)) | (Value::Object(object), Value::Null) => {
                let fields = src.as_object();
                let undefined = Value::Null;
                let mut object_changed = false;
                for (key, dst) in object.iter_mut() {
                    let field = fields.and_then(|fields| fields.get(key)).unwrap_or(&undefined);
                    object_changed |= Self::bind_value(
                        dst,
                        field,
                        &format!("{path}/{key}"),
                        &format!("{arrays_path}/{key}"),
                        bindings,
                        reactions,
                        transformers,
                        default,
                    );
                }
                if object_changed {
                    let value = if fields.is_some() { json!({}) } else { Value::Null };
                    Self::react(path, &value, bindings, reactions, transformers);
                }
                object_changed
            }
'''))

R('rm-bind-fold', (M, '''                for (index, dst) in current.iter_mut().enumerate() {
                    let src = &next[index];
                    let path = format!("{path}/{index}");
                    let changed = Self::bind_value(
                        dst,
                        src,
                        &path,
                        &items_path,
                        bindings,
                        reactions,
                        transformers,
                        default,
                    );
                    array_changed = array_changed || changed;
                }
                array_changed''', '''                current
                    .iter_mut()
                    .zip(next.iter())
                    .enumerate()
                    .fold(array_changed, |changed, (index, (dst, src))| {
                        let path = format!("{path}/{index}");
                        Self::bind_value(
                            dst,
                            src,
                            &path,
                            &items_path,
                            bindings,
                            reactions,
                            transformers,
                            default,
                        ) || changed
                    })'''))

R('rm-bind-context',
  (M, '''        Self::bind_value(
            &mut self.model,
            value,
            "",
            "",
            &self.bindings,
            &mut reactions,
            &self.transformers,
            &self.model_array_default,
        );
        reactions''', '''        let model = &mut self.model;
        let (bindings, transformers) = (&self.bindings, &self.transformers);
        Self::bind_value(
            model,
            value,
            "",
            "",
            bindings,
            &mut reactions,
            transformers,
            &self.model_array_default,
        );
        reactions'''))

R('rm-default-first', (M, '''            Value::Array(array) => {
                default.insert(type_path.to_string(), array[0].clone());
                Self::memorize_array_default(&format!("{type_path}/0"), &array[0], default)
            }
''', '''            Value::Array(array) => {
                let item = &array[0];
                Self::memorize_array_default(&format!("{type_path}/0"), item, default);
                default.insert(type_path.to_string(), item.clone());
            }
'''))

R('rm-reaction-ref', (M, mid(M, '        match self.params.clone() {\n', '            BindingParams::Repeat(parent, start, size) => {'), '''        match &self.params {
            &BindingParams::Visibility(parent, node, visible) => Reaction::Reattach {
                parent,
                node,
                visible: value.eval_boolean() == visible,
            },
            BindingParams::Tag(node, key) => {
                let tag = value.eval_boolean();
                Reaction::Tag { node: *node, key: key.to_string(), tag }
            }
            BindingParams::Attribute(node, key, span) => Reaction::Bind {
                node: *node,
                key: key.clone(),
                span: *span,
                text: value.eval_string(),
            },
            &BindingParams::Text(node, span) => Reaction::Type { node, span, text: value.eval_string() },
'''), (M, '            BindingParams::Repeat(parent, start, size) => {\n', '            &BindingParams::Repeat(parent, start, size) => {\n'))

L('rm-schema-recursion', (M, mid(M, '    fn define_value(mut target', '\n}\n\nfn default_transformers'), '''    fn define_value(target: &mut Value, pointer: &str) {
        if pointer != Schema::THIS {
            let tokens: Vec<&str> = pointer.split('/').skip(1).collect();
            Self::define_tokens(target, &tokens);
        }
    }

    fn define_tokens(target: &mut Value, tokens: &[&str]) {
        let (token, rest) = match tokens.split_first() {
            Some(parts) => parts,
            None => return,
        };
        let next = match token.parse::<usize>() {
            Ok(index) => {
                if !target.is_array() {
                    *target = json!([]);
                }
                let array = target.as_array_mut().unwrap();
                if array.len() <= index {
                    array.resize(index + 1, Value::Null);
                }
                &mut array[index]
            }
            _ => {
                if !target.is_object() {
                    *target = json!({});
                }
                let object = target.as_object_mut().unwrap();
                object.entry(token.to_string()).or_insert(Value::Null)
            }
        };
        Self::define_tokens(next, rest);
    }'''))

R('rm-pointer-join', (M, '''        let tail = &self.path[1..];
        if tail.len() > 0 {
            format!("{head}/{}", tail.join("/"))
        } else {
            format!("{head}")
        }''', '''        let mut pointer = head.clone();
        for name in &self.path[1..] {
            pointer.push('/');
            pointer.push_str(name);
        }
        pointer'''))

# --- view
up1 = mid(V, '        // detect viewport changes\n', '        let sizes = Sizes {')
R('rm-update-viewport-fn', (V, up1, '''        let [viewport_width, viewport_height] = input.viewport;
        self.update_viewport(viewport_width, viewport_height)?;
'''), (V, '    fn compute_final_positions_and_clipping(\n', '''    fn update_viewport(&mut self, width: f32, height: f32) -> Result<(), ViewError> {
        let mut root_layout = self.tree.style(self.root).unwrap().clone();
        if root_layout.size.width != length(width) && root_layout.size.height != length(height) {
            root_layout.size = Size {
                width: length(width),
                height: length(height),
            };
            self.tree.set_style(self.root, root_layout)?;
        }
        Ok(())
    }

    fn compute_final_positions_and_clipping(
'''))
R('rm-update-split', (V, '''        self.tree.compute_layout_with_measure(
            self.body,
            Size::MAX_CONTENT,
            |size, space, _, view, _| measure_text(self.fonts.as_ref(), size, space, view),
        )?;
        // TODO: clipping of viewport
''', '''        self.compute_layout()?;
        // TODO: clipping of viewport
'''), (V, '    fn compute_final_positions_and_clipping(\n', '''    fn compute_layout(&mut self) -> Result<(), ViewError> {
        let fonts = self.fonts.as_ref();
        self.tree.compute_layout_with_measure(
            self.body,
            Size::MAX_CONTENT,
            |size, space, _node, element, _style| measure_text(fonts, size, space, element),
        )?;
        Ok(())
    }

    fn compute_final_positions_and_clipping(
'''))
reat = mid(V, '                let definition = self\n', '            Reaction::Repeat {')
reat = reat[:reat.rindex('            }')]
R('rm-reattach-fn', (V, reat, '                self.reattach(parent, node, visible)?;\n'),
  (V, '    // Why this function is needed?\n', '''    fn reattach(&mut self, parent: NodeId, node: NodeId, visible: bool) -> Result<(), ViewError> {
''' + ded(reat, 8) + '        Ok(())\n    }\n\n    // Why this function is needed?\n'))
bindr = mid(V, '                let element = self.tree.get_element_mut(node)?;\n                let attribute', '    // Why this function is needed?\n')
bindr = bindr[:bindr.index('            }\n        }\n        Ok(())')]
R('rm-bind-attribute-fn', (V, bindr, '                self.bind_attribute(node, key, span, text)?;\n'),
  (V, '    // Why this function is needed?\n', '''    fn bind_attribute(&mut self, node: NodeId, key: String, span: usize, text: String) -> Result<(), ViewError> {
''' + ded(bindr, 8) + '        Ok(())\n    }\n\n    // Why this function is needed?\n'))
R('rm-reattach-count', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let mut index = 0;
                        for (position, sibling) in current.iter().enumerate() {
                            let sibling_index = definition
                                .iter()
                                .position(|child| child == sibling)
                                .ok_or(ViewError::ChildNotFound(*sibling))?;
                            if sibling_index < definition_index {
                                index = position + 1;
                            }
                        }
'''))
R('rm-repeat-enumerate', (V, mid(V, '                let shown = &children[start..cursor];', '            Reaction::Tag {'), '''                for (offset, node) in children[start..end].iter().copied().enumerate() {
                    let visible = start + offset < cursor;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
            }
'''))
R('rm-default-state-flat', (V, mid(V, '        for bindings in self.model.bindings.values() {\n', '        for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        Ok(())', after='fn apply_default_bindings_state'), '''        for binding in self.model.bindings.values().flatten() {
            if let BindingParams::Visibility(parent, node, visible) = binding.params {
                // values are null by default, only negative conditions are satisfied
                reactions.push(Reaction::Reattach {
                    parent,
                    node,
                    visible: !visible,
                });
            }
        }
'''))
R('rm-templates-fn', (V, mid(V, '        let mut body = Html::empty();\n', '        let mut renderer = Renderer::new'), '''        let (body, templates) = Self::split_document(html.children);

'''), (V, '    pub fn fonts(mut self', '''    fn split_document(children: Vec<Html>) -> (Html, HashMap<String, Html>) {
        let mut templates = HashMap::new();
        for child in children {
            match child.tag.as_str() {
                "template" => {
                    let id = child.bindings.iter().rev().find_map(|binding| match binding {
                        ElementBinding::None(key, value) if key == "id" => Some(value.clone()),
                        _ => None,
                    });
                    if let (Some(id), [content]) = (id, child.children.as_slice()) {
                        templates.insert(format!("#{id}"), content.clone());
                    }
                }
                "body" => return (child, templates),
                _ => {}
            }
        }
        (Html::empty(), templates)
    }

    pub fn fonts(mut self'''))
R('rm-styles-sizes', (V, '''                for child in children {
                    sizes.parent_font_size = element.font.size;
                    sizes.parent_color = element.color;
                    self.apply_styles(child, input, sizes, variables.clone())?;
                }''', '''                let sizes = Sizes {
                    parent_font_size: element.font.size,
                    parent_color: element.color,
                    ..sizes
                };
                for child in children {
                    self.apply_styles(child, input, sizes, variables.clone())?;
                }'''), (V, '        mut sizes: Sizes,\n        variables', '        sizes: Sizes,\n        variables'))
R('rm-void-const', (V, mid(V, '        match element.tag.as_str() {\n            "img" => {\n                // self', '        Ok(())\n    }\n\n    #[inline(always)]\n    pub fn get_element'), '''        const VOID: [&str; 16] = [
            "img", "input", "area", "base", "br", "col", "command", "embed", "hr", "keygen", "link", "meta", "param",
            "source", "track", "wbr",
        ];
        if VOID.contains(&element.tag.as_str()) {
            return Ok(());
        }
        sizes.parent_font_size = element.font.size;
        sizes.parent_color = element.color;
        for child in self.tree.children(node)? {
            self.apply_styles(child, input, sizes, variables.clone())?;
        }
'''))

# --- styles
lay = mid(AP, '            //\n            // Layout\n            //\n', '            //\n            // Transition\n            //\n')
R('rm-apply-layout-fn', (AP, lay, ''), (AP, '            _ => return Err(CascadeError::PropertyNotSupported),\n        }\n        Ok(())\n    }\n', '''            (key, value) => return self.apply_layout(key, value, layout),
        }
        Ok(())
    }

    fn apply_layout(
        &mut self,
        key: PropertyKey,
        value: &ComputedValue,
        layout: &mut taffy::Style,
    ) -> Result<(), CascadeError> {
        match (key, value) {
''' + lay + '''            _ => return Err(CascadeError::PropertyNotSupported),
        }
        Ok(())
    }
'''))
R('rm-color-table', (AP, '''        ComputedValue::Keyword(keyword) => match keyword.as_str() {
            "black" => [0, 0, 0, 255],
            "white" => [255, 255, 255, 255],
            "red" => [255, 0, 0, 255],
            "blue" => [0, 0, 255, 255],
            "green" => [0, 255, 0, 255],
            "transparent" => [0, 0, 0, 0],
            "currentcolor" | "currentColor" => cascade.sizes.parent_color,
            keyword => return Err(CascadeError::InvalidKeyword(keyword.to_string())),
        },''', '''        ComputedValue::Keyword(keyword) => named_color(keyword.as_str(), cascade)
            .ok_or_else(|| CascadeError::InvalidKeyword(keyword.to_string()))?,'''),
  (AP, 'fn resolve_timing(', '''fn named_color(name: &str, cascade: &Cascade) -> Option<[u8; 4]> {
    let color = match name {
        "black" => [0, 0, 0, 255],
        "white" => [255, 255, 255, 255],
        "red" => [255, 0, 0, 255],
        "blue" => [0, 0, 255, 255],
        "green" => [0, 255, 0, 255],
        "transparent" => [0, 0, 0, 0],
        "currentcolor" | "currentColor" => cascade.sizes.parent_color,
        _ => return None,
    };
    Some(color)
}

fn resolve_timing('''))
R('rm-color-const', (AP, '''            "black" => [0, 0, 0, 255],
            "white" => [255, 255, 255, 255],
''', '''            "black" => BLACK,
            "white" => WHITE,
'''), (AP, 'fn resolve_timing(', '''const BLACK: [u8; 4] = [0, 0, 0, 255];
const WHITE: [u8; 4] = [u8::MAX; 4];

fn resolve_timing('''))
R('rm-units-base', (AP, mid(AP, '    let value = dimension.value;\n    let sizes', '\nfn dimension('), '''    let sizes = cascade.sizes;
    let viewport = [sizes.viewport_width, sizes.viewport_height];
    let value = match dimension.unit {
        Units::Px => dimension.value,
        Units::Em => dimension.value * sizes.parent_font_size,
        Units::Rem => dimension.value * sizes.root_font_size,
        unit => {
            let base = match unit {
                Units::Vw => viewport[0],
                Units::Vh => viewport[1],
                Units::Vmax => viewport[0].max(viewport[1]),
                _ => viewport[0].min(viewport[1]),
            };
            base / 100.0 * dimension.value
        }
    };
    Ok(value)
}
'''))
R('rm-align-direct', (AP, mid(AP, '    let align = match keyword {\n        "normal" => return Ok(None),\n        "start" => taffy::AlignItems', '\nfn map_align_content'), '''    match keyword {
        "normal" => Ok(None),
        "start" => Ok(Some(taffy::AlignItems::Start)),
        "end" => Ok(Some(taffy::AlignItems::End)),
        "flex-start" => Ok(Some(taffy::AlignItems::FlexStart)),
        "flex-end" => Ok(Some(taffy::AlignItems::FlexEnd)),
        "center" => Ok(Some(taffy::AlignItems::Center)),
        "baseline" => Ok(Some(taffy::AlignItems::Baseline)),
        "stretch" => Ok(Some(taffy::AlignItems::Stretch)),
        keyword => CascadeError::invalid_keyword(keyword),
    }
}
'''))
R('rm-length-share', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Zero => LengthPercentageAuto', '\nfn resolve_overflow'), '''    match value {
        ComputedValue::Keyword(keyword) if keyword == "auto" => Ok(LengthPercentageAuto::Auto),
        value => lengthp(value, cascade).map(LengthPercentageAuto::from),
    }
}
'''))
R('rm-alpha-number', (AP, mid(AP, 'fn resolve_alpha(', '\nfn resolve_number'), '''fn resolve_alpha(value: &ComputedValue) -> Result<f32, CascadeError> {
    match value {
        ComputedValue::Percentage(value) => Ok(*value),
        value => resolve_number(value),
    }
}
'''))
R('rm-border-helper', (AP, '''                element.borders.top.width = dimension_length(value, self)?;
                layout.border.top = LengthPercentage::Length(element.borders.top.width);
''', '''                let width = dimension_length(value, self)?;
                element.borders.top.width = width;
                layout.border.top = LengthPercentage::Length(width);
'''), (AP, '''                element.borders.right.width = dimension_length(value, self)?;
                layout.border.right = LengthPercentage::Length(element.borders.right.width);
''', '''                layout.border.right = set_border_width(&mut element.borders.right, dimension_length(value, self)?);
'''), (AP, 'fn resolve_timing(', '''fn set_border_width(border: &mut crate::MyBorder, width: f32) -> LengthPercentage {
    border.width = width;
    LengthPercentage::Length(width)
}

fn resolve_timing('''))
R('rm-layers-match', (AP, mid(AP, '    matches!(\n        key,\n        PropertyKey::BackgroundColor', '\nfn resolve_font_weight'), '''    match key {
''' + ''.join(f'        PropertyKey::{x} => true,\n' for x in 'BackgroundColor BackgroundImage BackgroundPositionX BackgroundPositionY TransitionProperty TransitionDuration TransitionDelay TransitionTimingFunction AnimationName AnimationDelay AnimationDirection AnimationDuration AnimationFillMode AnimationIterationCount AnimationPlayState AnimationTimingFunction'.split()) + '''        _ => false,
    }
}
'''))
R('rm-style-sides', (CS, mid(CS, '            (PropertyKey::Padding, [top, right, bottom, left]) => {', '            (PropertyKey::Margin, [top, right'), '''            (PropertyKey::Padding, values @ ([_] | [_, _] | [_, _, _] | [_, _, _, _])) => {
                let [top, right, bottom, left] = match values {
                    [top, right, bottom, left] => [top, right, bottom, left],
                    [top, h, bottom] => [top, h, bottom, h],
                    [v, h] => [v, h, v, h],
                    values => [&values[0]; 4],
                };
                overwrite(PropertyKey::PaddingTop, top);
                overwrite(PropertyKey::PaddingRight, right);
                overwrite(PropertyKey::PaddingBottom, bottom);
                overwrite(PropertyKey::PaddingLeft, left);
            }
'''))
R('rm-style-loop', (CS, mid(CS, '            (PropertyKey::BorderColor, [value]) => {', '            (PropertyKey::BorderRadius, [a, b, c, d])'), '''            (PropertyKey::BorderColor, [value]) => {
                for side in [
                    PropertyKey::BorderTopColor,
                    PropertyKey::BorderRightColor,
                    PropertyKey::BorderBottomColor,
                    PropertyKey::BorderLeftColor,
                ] {
                    overwrite(side, value);
                }
            }
'''))
R('rm-style-return', (CS, '''        let mut shorthand = vec![];
        if !self.compute_shorthand(definition, &mut shorthand, &mut vec![]) {
            return;
        }
''', '''        let mut shorthand = Vec::with_capacity(definition.len());
        let mut resolving = Vec::new();
        let complete = self.compute_shorthand(definition, &mut shorthand, &mut resolving);
        if !complete {
            return;
        }
'''))
R('rm-set-layer', (CS, '''    let mut above = index + 1;
    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }
''', '''    for above in index + 1.. {
        let descriptor = PropertyDescriptor::new(key, above);
        if style.remove(&descriptor).is_none() {
            break;
        }
    }
'''))
R('rm-cascade-steps', (ST, mid(ST, '        // animations and transitions that are not declared anymore are over\n', '        // 3: animations\n'), '''        Self::forget_undeclared(element, &computed_style);
'''), (ST, '    pub fn take_variables(self)', '''    fn forget_undeclared(element: &mut Element, style: &ComputedStyle) {
        let animators = count_layers(style, PropertyKey::AnimationName);
        let transitions = count_layers(style, PropertyKey::TransitionProperty);
        element.animators.truncate(animators);
        element.transitions.truncate(transitions);
    }

    pub fn take_variables(self)'''))
R('rm-cascade-play-fn', (ST, mid(ST, '        for animator in element.animators.iter_mut() {\n            // TODO: animation blending', '        // TODO: !important\n'), '''        self.play_animations(time, element, &mut computed_style);
'''), (ST, '    pub fn take_variables(self)', '''    fn play_animations(&self, time: f32, element: &mut Element, style: &mut ComputedStyle) {
        // TODO: animation blending
        for animator in element.animators.iter_mut() {
            if let Some(animation) = self.css.animations.get(&animator.name) {
                // TODO: cache animation computation ?
                let tracks = self.compute_animation_tracks(animation, style);
                animator.play(time, &tracks, style);
            } else {
                error!("unable to play animation {}, not found", animator.name);
            }
        }
    }

    pub fn take_variables(self)'''))
R('rm-matched-styles', (ST, mid(ST, '        for style in element.styles.iter() {\n            match style {', '        // 2: inline css\n'), '''        for style in element.styles.iter() {
            let (style, is_matched) = match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    (style, true)
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    (style, match_style(style, node, tree, matcher))
                }
            };
            if is_matched {
                self.compute_declaration_block(&style.declaration, &mut computed_style);
            }
        }
'''))
R('rm-shorthand-fn', (ST, mid(ST, '                    let definition = match self.get_variable(name) {', '                Definition::Function(function) => {'), '''                    self.compute_variable(name, shorthand, resolving);
                }
'''), (ST, '    fn set_variable(&mut self', '''    fn compute_variable(
        &self,
        name: &String,
        shorthand: &mut Vec<ComputedValue>,
        resolving: &mut Vec<String>,
    ) {
        match self.get_variable(name) {
            None => {
                error!("unable to compute variable {name}, not found");
                shorthand.push(ComputedValue::Error);
            }
            Some(_) if resolving.contains(name) => {
                error!("unable to compute variable {name}, refers to itself");
                shorthand.push(ComputedValue::Error);
            }
            Some(definition) => {
                resolving.push(name.clone());
                self.compute_shorthand(definition, shorthand, resolving);
                resolving.pop();
            }
        }
    }

    fn set_variable(&mut self'''))
R('rm-function-channels', (FN, '''            ("rgb", [r, g, b]) => {
                Color([map_c(r), map_c(g), map_c(b), 255])
            }
            ("rgba", [r, g, b, a]) => {
                Color([map_c(r), map_c(g), map_c(b), map_a(a)])
            }
''', '''            ("rgb", [r, g, b]) => rgba(r, g, b, 255),
            ("rgba", [r, g, b, a]) => rgba(r, g, b, map_a(a)),
'''), (FN, '#[inline(always)]\nfn map_c', '''fn rgba(r: &ComputedValue, g: &ComputedValue, b: &ComputedValue, alpha: u8) -> ComputedValue {
    let [r, g, b] = [r, g, b].map(map_c);
    Color([r, g, b, alpha])
}

#[inline(always)]
fn map_c'''))

# --- animation
L('rm-play-layers', (A, mid(A, '        let mut changed = false;\n        let mut layers = vec![];', '        for (index, (current, _)) in layers'), '''        let layers: Vec<(ComputedValue, ComputedValue)> = self
            .ranges
            .iter()
            .enumerate()
            .map_while(|(index, (from, to))| {
                let value = style.get(&PropertyDescriptor::new(key, index))?;
                Some((animate(key, from, to, time), value.clone()))
            })
            .collect();
        let changed = layers.iter().zip(&self.ranges).any(|((_, value), (_, to))| to != value);
'''))
R('rm-play-split', (A, '''        let mut changed = false;
        let mut layers = vec![];
''', '''        self.move_layers(key, time, style);
    }

    fn move_layers(&mut self, key: PropertyKey, time: f32, style: &mut ComputedStyle) {
        let mut changed = false;
        let mut layers = Vec::with_capacity(self.ranges.len());
'''))
R('rm-init-ranges', (A, mid(A, '        let mut index = self.ranges.len();\n', '    pub fn play(&mut self, time: f32, style'), '''        loop {
            let descriptor = PropertyDescriptor::new(key, self.ranges.len());
            match style.get(&descriptor) {
                Some(value) => self.ranges.push((value.clone(), value.clone())),
                None => break,
            }
        }
    }

'''))
R('rm-animate-zero', (A, mid(A, '        (Number(a), Zero) => number(a', '        (Color(a), Color(b))'), '''        (Number(a), Zero) => number(a, &0.0, t),
        (Zero, Number(b)) => number(&0.0, b, t),
        (Dimension(a), Dimension(b)) => dimension(a, b, t),
        (Zero, Dimension(b)) => {
            let a = Dim::new(0.0, b.unit);
            dimension(&a, b, t)
        }
        (Dimension(a), Zero) => {
            let b = Dim::new(0.0, a.unit);
            dimension(a, &b, t)
        }
'''))
R('rm-tracks-helper', (TR, mid(TR, '        let from = computed_keyframe_styles.entry(0)', '        let mut tracks: HashMap'), '''        let declared = |property: &PropertyDescriptor| match style.get(property) {
            Some(value) => value.clone(),
            None => initial(property.key),
        };
        for step in [0, 100] {
            let frame = computed_keyframe_styles.entry(step).or_default();
            for property in &animated_properties {
                frame.entry(*property).or_insert_with(|| declared(property));
            }
        }
'''))
R('rm-update-cycles', (A, mid(A, '        let cycles = t / self.duration;\n', '        let rest = cycles.fract();'), '''        let mut cycles = t / self.duration;
        if let AnimationIterations::Number(iterations) = self.iterations {
            cycles = cycles.min(iterations);
        }
'''))
R('rm-update-fn', (A, mid(A, '        let rest = cycles.fract();\n', '\npub fn animate('), '''        Some(progress(cycles))
    }
}

fn progress(cycles: f32) -> f32 {
    match cycles.fract() {
        // stop at last frame 1.0 (100%)
        rest if rest == 0.0 && cycles > 0.0 => 1.0,
        rest => rest,
    }
}
'''))

# --- matching
R('rm-match-next', (MA, mid(MA, '    let mut target = node;\n', 'fn find_next_target('), '''    let mut target = node;
    selector.selectors.iter().rev().all(|component| match component.as_combinator() {
        Some(combinator) => find_next_target(combinator, &mut target, tree),
        None => {
            let element = tree.get_node_context(target).unwrap();
            match_simple_selector(component, element, matcher)
        }
    })
}

'''))
R('rm-match-attr-fn', (MA, mid(MA, '                .map(|attr| match operator {\n', '        // there is no html element'), '''                .is_some_and(|attr| match_attribute(attr, *operator, value))
        }
'''), (MA, '#[inline(always)]\nfn match_class', '''fn match_attribute(attr: &str, operator: Matcher, value: &str) -> bool {
    match operator {
        Matcher::Exist => true,
        Matcher::Equal => attr == value,
        Matcher::Include => attr.split_ascii_whitespace().any(|word| word == value),
        Matcher::DashMatch => match attr.strip_prefix(value) {
            Some(rest) => rest.is_empty() || rest.starts_with('-'),
            None => false,
        },
        Matcher::Prefix => attr.starts_with(value),
        Matcher::Substring => attr.contains(value),
        Matcher::Suffix => attr.ends_with(value),
    }
}

#[inline(always)]
fn match_class'''))
R('rm-feature-any', (MA, mid(MA, '    pub fn has_id_selector(&self) -> bool {\n', '    pub fn has_attrs_selector'), '''    fn has_selector(&self, predicate: impl Fn(&Simple) -> bool) -> bool {
        self.selectors
            .iter()
            .any(|complex| complex.selectors.iter().any(|selector| predicate(selector)))
    }

    pub fn has_id_selector(&self) -> bool {
        self.has_selector(|selector| matches!(selector, Simple::Id(_)))
    }

    pub fn has_class_selector(&self) -> bool {
        self.has_selector(|selector| matches!(selector, Simple::Class(_)))
    }

'''))
R('rm-feature-flat', (MA, mid(MA, '    pub fn has_id_selector(&self) -> bool {\n', '    pub fn has_class_selector'), '''    pub fn has_id_selector(&self) -> bool {
        self.selectors
            .iter()
            .flat_map(|complex| &complex.selectors)
            .any(|selector| matches!(selector, Simple::Id(_)))
    }

'''))
R('rm-pseudo-state', (V, '''            "hover" => element.state.hover,
            "active" => element.state.active,
''', '''            "active" => element.state.active,
            "hover" => element.state.hover,
'''))

# --- readers
anim = mid(CR, '                let mut iter = rule.into_inner();\n                let name = iter.next().unwrap();\n                let mut keyframes', '            Rule::Style => {')
anim = anim[:anim.rindex('            }')]
sty = mid(CR, '                let mut iter = rule.into_inner();\n                let selectors_list', '            _ => unreachable!(),\n        }\n    }\n    Ok(Css')
sty = sty[:sty.rindex('            }')]
R('rm-css-rule-fns', (CR, anim, '''                let animation = read_animation(rule);
                animations.insert(animation.name.clone(), animation);
'''), (CR, sty, '                styles.push(read_style(rule));\n'),
  (CR, 'fn read_declarations(', 'fn read_animation(rule: Pair<Rule>) -> Animation {\n' + ded(anim, 12).replace('    animations.insert(name.clone(), Animation { name, keyframes });\n', '    Animation { name, keyframes }\n') + '}\n\nfn read_style(rule: Pair<Rule>) -> Style {\n'
   + ded(sty, 12).replace('    styles.push(Style {\n        selectors,\n        declaration,\n    })\n', '    Style {\n        selectors,\n        declaration,\n    }\n') + '}\n\nfn read_declarations('))
simp = mid(CR, '                                    let simple_rule = simple.as_rule();', '                                    components.push(component)\n')
R('rm-css-simple-fn', (CR, simp + '                                    components.push(component)\n', '                                    components.push(read_simple(simple))\n'),
  (CR, 'fn read_declarations(', 'fn read_simple(simple: Pair<Rule>) -> Simple {\n' + ded(simp, 32).replace('    let component = match', '    match').rstrip().rstrip(';') + '\n}\n\nfn read_declarations('))
R('rm-css-decl-filter', (CR, mid(CR, '    let mut declarations = vec![];\n', 'fn read_shorthand('), '''    pair.into_inner().filter_map(read_declaration).collect()
}

fn read_declaration(pair: Pair<Rule>) -> Option<Declaration> {
    let mut iter = pair.into_inner();
    let key = iter.next().unwrap().as_str();
    let mut values = iter.next().unwrap().into_inner().map(read_shorthand);
    if key.starts_with("--") {
        let shorthand = values.next().unwrap();
        return Some(Declaration::Variable(Variable {
            key: key.to_string(),
            shorthand,
        }));
    }
    match PropertyKey::parse(key) {
        Some(key) => Some(Declaration::Property(Property {
            key,
            values: values.collect(),
        })),
        None => {
            error!("unable to read property {key}, not supported");
            None
        }
    }
}

'''))
R('rm-css-color-channels', (CR, mid(CR, '        7 if value.starts_with("#") => {', '        _ => {\n            if value.starts_with("rgb")'), '''        7 | 9 if value.starts_with("#") => {
            let channel = |start: usize| u8::from_str_radix(&value[start..start + 2], 16).unwrap_or(0);
            let alpha = if value.len() == 9 { channel(7) } else { u8::MAX };
            [channel(1), channel(3), channel(5), alpha]
        }
'''))
L('rm-css-color-strip', (CR, mid(CR, '        7 if value.starts_with("#") => {', '        9 if value.starts_with'), '''        7 if value.starts_with("#") => {
            let number = u32::from_str_radix(&value[1..], 16).unwrap_or(0);
            let [_, r, g, b] = number.to_be_bytes();
            [r, g, b, 255]
        }
'''))
elem = mid(HR, '            let mut iter = pair.into_inner();\n            let tag = iter.next().unwrap().as_str();\n            let attrs = iter.next().unwrap();\n            let children', '        Rule::Text => {')
elem = elem[:elem.rindex('        }')]
txt = mid(HR, '            let mut prefetch = vec![];', '        Rule::Void => {')
txt = txt[:txt.rindex('        }')]
R('rm-html-fns', (HR, elem, '            parse_element(pair)\n'), (HR, txt, '            parse_text(pair, is_last_content)\n'),
  (HR, 'fn parse_binder(', 'fn parse_element(pair: Pair<Rule>) -> Html {\n' + ded(elem, 8) + '}\n\nfn parse_text(pair: Pair<Rule>, is_last_content: bool) -> Html {\n' + ded(txt, 8) + '}\n\nfn parse_binder('))
R('rm-html-spans', (HR, txt, '''            let mut spans = vec![];
            for span in pair.into_inner() {
                match span.as_rule() {
                    Rule::String => {
                        let text = collapse_lines(span.as_str(), is_last_content);
                        if !text.is_empty() {
                            spans.push(TextSpan::String(text));
                        }
                    }
                    Rule::Binder => spans.push(TextSpan::Binder(parse_binder(span))),
                    _ => unreachable!(),
                }
            }
            Html {
                tag: "".to_string(),
                bindings: vec![],
                text: Some(TextBinding { spans }),
                children: vec![],
            }
'''), (HR, 'fn parse_binder(', '''fn collapse_lines(string: &str, is_last_content: bool) -> String {
    let mut lines = string.split("\\n");
    let mut text = lines.next().unwrap_or_default().to_string();
    for line in lines {
        let line = line.trim_start();
        if line.is_empty() && is_last_content {
            continue;
        }
        text.push(' ');
        text.push_str(line);
    }
    text
}

fn parse_binder('''))
R('rm-html-attr-fn', (HR, '''    let mut bindings = vec![];
    for pair in pair.into_inner() {
        let rule = pair.as_rule();
''', '''    pair.into_inner().map(parse_element_binding).collect()
}

fn parse_element_binding(pair: Pair<Rule>) -> ElementBinding {
    {
        let rule = pair.as_rule();
'''), (HR, '''        bindings.push(binding);
    }
    bindings
}''', '''        binding
    }
}'''))
R('rm-html-link', (HR, mid(HR, '        if self.tag == "link" {\n', '    pub fn as_visibility'), '''        if self.tag != "link" {
            return None;
        }
        let is_href = |binding: &ElementBinding| matches!(binding, ElementBinding::None(name, _) if name == "href");
        let id = self.bindings.iter().rev().find_map(|binding| match binding {
            ElementBinding::None(name, value) if name == "href" => Some(value.clone()),
            _ => None,
        })?;
        let bindings = self.bindings.iter().filter(|binding| !is_href(binding)).cloned().collect();
        Some((id, bindings))
    }

'''))
R('rm-html-find-map', (HR, mid(HR, '        for binding in &self.bindings {\n            if let ElementBinding::Repeat', '    }\n}\n\n#[derive'), '''        self.bindings.iter().find_map(|binding| match binding {
            ElementBinding::Repeat(name, count, binder) => Some((name.as_str(), *count, binder)),
            _ => None,
        })
'''))

# --- renderer
R('rm-ren-register', *[(RE, x, y) for x, y in [
    ('''                    let path = self.schema.field(&binder, &mut self.locals);
                    let params = BindingParams::Tag(node, key.clone());
                    let binding = Binding {
                        params,
                        pipe: binder.pipe.clone(),
                    };
                    self.bindings.entry(path).or_default().push(binding);
''', '''                    self.register(&binder, BindingParams::Tag(node, key.clone()));
'''),
    ('''                    let path = self.schema.field(&binder, &mut self.locals);
                    let params = BindingParams::Text(node, index);
                    let binding = Binding {
                        params,
                        pipe: binder.pipe.clone(),
                    };
                    self.bindings.entry(path).or_default().push(binding);
''', '''                    self.register(&binder, BindingParams::Text(node, index));
'''),
    ('''                        let array = self.schema.field(binder, &self.locals);
                        let start = children.len();
                        let params = BindingParams::Repeat(node, start, count);
                        let binding = Binding {
                            params,
                            pipe: binder.pipe.clone(),
                        };
                        self.bindings
                            .entry(array.clone())
                            .or_default()
                            .push(binding);
''', '''                        let start = children.len();
                        self.register(binder, BindingParams::Repeat(node, start, count));
'''),
    ('    fn render_element(&mut self', '''    fn register(&mut self, binder: &crate::view_model::Binder, params: BindingParams) {
        let path = self.schema.field(binder, &self.locals);
        let pipe = binder.pipe.clone();
        let bindings = self.bindings.entry(path).or_insert_with(Vec::new);
        bindings.push(Binding { params, pipe });
    }

    fn render_element(&mut self''')]])
R('rm-ren-text-loop', (RE, mid(RE, '        let spans = text\n            .spans\n            .into_iter()\n            .enumerate()\n            .map(|(index, span)| match span {\n                TextSpan::String(span) => self', '        let text = TextContent::new(spans);'), '''        let mut spans = Vec::with_capacity(text.spans.len());
        for (index, span) in text.spans.into_iter().enumerate() {
            let span = match span {
                TextSpan::String(span) => self.translator.translate(span),
                TextSpan::Binder(binder) => {
                    let path = self.schema.field(&binder, &self.locals);
                    let text = binder.to_string();
                    let binding = Binding {
                        params: BindingParams::Text(node, index),
                        pipe: binder.pipe,
                    };
                    self.bindings.entry(path).or_default().push(binding);
                    text
                }
            };
            spans.push(span);
        }
'''))
R('rm-ren-restore', (RE, '''                    for (key, value) in overridden {
                        if let Some(value) = value {
                            self.locals.insert(key, value);
                        } else {
                            self.locals.remove(&key);
                        }
                    }
''', '''                    self.restore_locals(overridden);
'''), (RE, '    fn render_element(&mut self', '''    fn restore_locals(&mut self, overridden: HashMap<String, Option<String>>) {
        overridden.into_iter().for_each(|(name, previous)| {
            match previous {
                Some(path) => self.locals.insert(name, path),
                None => self.locals.remove(&name),
            };
        });
    }

    fn render_element(&mut self'''))
R('rm-ren-static-attr', (RE, mid(RE, '                    if key == "style" {\n', '                    element.attrs.insert(key, value);\n'), '''                    match key.as_str() {
                        "style" => match read_inline_css(&value) {
                            Ok(style) => element.style = style,
                            Err(error) => {
                                error!("unable to parse inline style of {}, {error:?}", element.tag);
                            }
                        },
                        "id" => {
                            self.static_id.insert(value.clone(), node);
                        }
                        _ => {}
                    }
'''))
R('rm-ren-callback-fn', (RE, mid(RE, '                    let arguments = arguments\n', '                    element.listeners.insert'), '''                    let arguments = arguments.into_iter().map(|argument| self.render_argument(argument)).collect();
'''), (RE, '    fn render_element(&mut self', '''    fn render_argument(&mut self, argument: CallbackArgument) -> HandlerArgument {
        match argument {
            CallbackArgument::Keyword(key) => HandlerArgument::Keyword(key),
            CallbackArgument::Event => HandlerArgument::Event,
            CallbackArgument::Binder(binder) => HandlerArgument::Binder {
                path: self.schema.field(&binder, &self.locals),
                pipe: binder.pipe,
            },
        }
    }

    fn render_element(&mut self'''))

# --- element, host
R('rm-el-background', (EL, '''        if index >= self.backgrounds.len() {
            self.backgrounds.resize_with(index + 1, Background::default);
        }
        &mut self.backgrounds[index]''', '''        while self.backgrounds.len() <= index {
            self.backgrounds.push(Background::default());
        }
        &mut self.backgrounds[index]'''))
R('rm-el-layer-generic', (EL, '''        if index >= self.animators.len() {
            self.animators.resize_with(index + 1, Animator::default);
        }
        &mut self.animators[index]''', '''        layer_mut(&mut self.animators, index)'''), (EL, '''        if index >= self.transitions.len() {
            self.transitions.resize_with(index + 1, Transition::default);
        }
        &mut self.transitions[index]''', '''        layer_mut(&mut self.transitions, index)'''), (EL, '''#[derive(Clone)]
pub struct TextContent {''', '''fn layer_mut<T: Default>(layers: &mut Vec<T>, index: usize) -> &mut T {
    if index >= layers.len() {
        layers.resize_with(index + 1, T::default);
    }
    &mut layers[index]
}

#[derive(Clone)]
pub struct TextContent {'''))
R('rm-el-drag', (EL, '''        match self.attrs.get("draggable") {
            Some(value) => value == "true",
            None => false,
        }''', '''        self.attrs.get("draggable").is_some_and(|value| value == "true")'''))
R('rm-el-drag2', (EL, '''        match self.attrs.get("draggable") {
            Some(value) => value == "true",
            None => false,
        }''', '''        self.attrs.get("draggable").map(String::as_str) == Some("true")'''))
R('rm-el-concat', (EL, '        self.spans.join("").to_string()', '        self.spans.concat()'))
R('rm-el-set', (EL, mid(EL, '        if span >= self.spans.len() {', '    #[inline(always)]\n    pub fn to_string'), '''        match self.spans.get_mut(span) {
            Some(text) => *text = value,
            None => error!(
                "unable to bind text span {span} to {value}, text consists of {} spans",
                self.spans.len()
            ),
        }
    }

'''))
R('rm-el-scroll', ('src/styles/scrolling.rs', mid('src/styles/scrolling.rs', '        if content.width > size.width ||', '    pub fn offset'), '''        let scroll_x = (content.width - size.width).max(0.0);
        let scroll_y = (content.height - size.height).max(0.0);
        if scroll_x == 0.0 && scroll_y == 0.0 {
            return None;
        }
        Some(Scrolling {
            x: x.min(scroll_x),
            y: y.min(scroll_y),
            scroll_x,
            scroll_y,
        })
    }

'''))
R('rm-el-img', ('src/controls/img.rs', '''        child.get_background_mut(0).image = Some(src);
        child.get_background_mut(0).is_src = true;
''', '''        let background = child.get_background_mut(BACKGROUND);
        background.is_src = true;
        background.image = Some(src);
'''))
