"""Behaviour-preserving edits to view_model.rs: arms split into methods, helpers, other shapes of the same dispatch."""
from variants_more import M, src, mid, ded
VARIANTS = []


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


# what the rules do not follow (DESIGN.md, limits)
LIMITS = []


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


def edits_of(name):
    return [list(e) for n, _, es in VARIANTS + LIMITS if n == name for e in es]


def BR(name, prop, base, old, new):
    """A bug inside the text of a refactoring that is accepted."""
    es = edits_of(base)
    hit = [e for e in es if old in e[2]]
    assert len(hit) == 1, (name, len(hit))
    assert hit[0][2].count(old) == 1, (name, hit[0][2].count(old))
    hit[0][2] = hit[0][2].replace(old, new)
    VARIANTS.append((name, prop, [tuple(e) for e in es]))


def arm(head, end):
    t = mid(M, '                ' + head, '                ' + end)
    body = t.split('\n', 1)[1]
    return t, ded(body[:body.rstrip().rindex('}')].rstrip() + '\n', 12)


MOVE = arm('InputEvent::MouseMove(position) => {\n                    self.mouse', 'InputEvent::MouseButtonDown(button)')
DOWN = arm('InputEvent::MouseButtonDown(button)', 'InputEvent::MouseButtonUp(button)')
UP = arm('InputEvent::MouseButtonUp(button)', 'InputEvent::MouseWheel(_)')
HOVERFN = '    fn calculate_mouse_hovers(\n        &mut self,'


def meth(sig, body):
    return sig + ' {\n' + body + '        Ok(())\n    }\n\n'


METHODS = meth("""    fn on_mouse_move(
        &mut self,
        position: [f32; 2],
        body: NodeId,
        tree: &mut TaffyTree<Element>,
    ) -> Result<(), ViewError>""", MOVE[1]) + meth("""    fn on_button_down(
        &mut self,
        button: MouseButtons,
        tree: &mut TaffyTree<Element>,
    ) -> Result<(), ViewError>""", DOWN[1]) + meth("""    fn on_button_up(
        &mut self,
        button: MouseButtons,
        tree: &mut TaffyTree<Element>,
    ) -> Result<(), ViewError>""", UP[1])
R('rd-vm-event-methods',
  (M, MOVE[0], '                InputEvent::MouseMove(position) => self.on_mouse_move(position, body, tree)?,\n'),
  (M, DOWN[0], '                InputEvent::MouseButtonDown(button) => self.on_button_down(button, tree)?,\n'),
  (M, UP[0], '                InputEvent::MouseButtonUp(button) => self.on_button_up(button, tree)?,\n'),
  (M, HOVERFN, METHODS + HOVERFN))
L('rd-vm-loop-in-output',
  (M, 'self.handle_elements_input(events, body, tree)?;', 'for event in events {\n            self.handle_event(event, body, tree)?;\n        }'),
  (M, mid(M, '    fn handle_elements_input(', '            match event {\n                InputEvent::Unknown'), """    fn handle_event(
        &mut self,
        event: InputEvent,
        body: NodeId,
        tree: &mut TaffyTree<Element>,
    ) -> Result<(), ViewError> {
        {
"""))
R('rd-vm-notify',
  (M, """                let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseleave", event);
                            if self.drag.is_some() {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragleave", event);
                            }""", """                self.notify_hover(element, "onmouseleave", "ondragleave");"""),
  (M, """                let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseenter", event);
                            if self.drag.is_some() {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragenter", event);
                            }""", """                self.notify_hover(element, "onmouseenter", "ondragenter");"""),
  (M, """                        let event = MouseEvent::new(self.mouse, element);
                        self.emit(element, "onmousemove", event);
                        if self.drag.is_some() {
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "ondragover", event);
                        }""", """                        self.notify_hover(element, "onmousemove", "ondragover");"""),
  (M, HOVERFN, """    fn notify_hover(&mut self, element: &Element, handler: &str, drag_handler: &str) {
        self.notify(element, handler);
        if self.drag.is_some() {
            self.notify(element, drag_handler);
        }
    }

    fn notify(&mut self, element: &Element, handler: &str) {
        let event = MouseEvent::new(self.mouse, element);
        self.emit(element, handler, event);
    }

""" + HOVERFN))
R('rd-vm-emit-split', (M, mid(M, '        if let Some(handler) = element.listeners.get(handler) {', '''
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct KeyboardEvent'''), """        if let Some(handler) = element.listeners.get(handler) {
            let mut key = "Undefined".to_string();
            let mut arguments = vec![];
            for (index, argument) in handler.arguments.iter().enumerate() {
                let Some(argument) = self.eval_argument(argument, &event) else {
                    continue;
                };
                if index == 0 {
                    key = argument.eval_string();
                } else {
                    arguments.push(argument);
                }
            }
            self.output.messages.push(Self::create_message(key, arguments));
        }
    }

    fn eval_argument<T: Serialize>(&self, argument: &HandlerArgument, event: &T) -> Option<Value> {
        match argument {
            HandlerArgument::Keyword(keyword) => Some(Value::String(keyword.clone())),
            HandlerArgument::Event => serde_json::to_value(event)
                .map_err(|error| error!("unable to serialize event, {error:?}"))
                .ok(),
            HandlerArgument::Binder { path, pipe } => {
                let Some(value) = self.model.pointer(path) else {
                    error!("unable to get value at {path:?}, not found");
                    return None;
                };
                let mut value = value.clone();
                for name in pipe {
                    if let Some(transform) = self.transformers.get(name) {
                        value = transform(value);
                    } else {
                        error!("unable to get value {path:?}, transformer {name} not found");
                    }
                }
                Some(value)
            }
        }
    }

    fn create_message(key: String, mut arguments: Vec<Value>) -> Value {
        if arguments.is_empty() {
            return Value::String(key);
        }
        let payload = if arguments.len() == 1 {
            arguments.remove(0)
        } else {
            Value::Array(arguments)
        };
        let mut object = Map::new();
        object.insert(key, payload);
        Value::Object(object)
    }
}
"""))
R('rd-vm-emit-early', (M, '        if let Some(handler) = element.listeners.get(handler) {\n            let mut key', '        let Some(handler) = element.listeners.get(handler) else {\n            return;\n        };\n        {\n            let mut key'))
R('rd-vm-emit-values', (M, mid(M, '                if index == 0 {\n                    key', '            self.output.messages.push(message);'), """                if index == 0 {
                    key = argument.eval_string();
                    continue;
                }
                arguments.push(argument);
            }
            let payload = match arguments.len() {
                0 => None,
                1 => arguments.pop(),
                _ => Some(Value::Array(arguments)),
            };
            let message = match payload {
                None => Value::String(key),
                Some(payload) => json!({ key: payload }),
            };
"""))
PIPE = mid(M, '                if binding.pipe.len() > 0 {\n                    let mut value = value.clone();', '            }\n        }\n    }\n\n    pub fn handle_output')
R('rd-vm-pipe-helper', (M, PIPE, """                let value = Self::transform(value, &binding.pipe, transformers);
                reactions.push(binding.react_value_change(&value));
"""), (M, '    pub fn handle_output(', """    fn transform(
        value: &Value,
        pipe: &[String],
        transformers: &HashMap<String, Transformer>,
    ) -> Value {
        pipe.iter().fold(value.clone(), |value, name| match transformers.get(name) {
            None => {
                error!("unable to bind value, transformer {name} not found");
                value
            }
            Some(transform) => transform(value),
        })
    }

    pub fn handle_output("""))
R('rd-vm-pipe-filter', (M, PIPE, """                let mut value = value.clone();
                for transform in binding.pipe.iter().filter_map(|name| transformers.get(name)) {
                    value = transform(value);
                }
                reactions.push(binding.react_value_change(&value));
"""))
R('rd-vm-react-map', (M, mid(M, '        if let Some(bindings) = bindings.get(path) {\n            for binding', '    pub fn handle_output'), """        let Some(bindings) = bindings.get(path) else {
            return;
        };
        reactions.extend(bindings.iter().map(|binding| {
            let mut value = value.clone();
            for name in binding.pipe.iter() {
                match transformers.get(name) {
                    Some(transform) => value = transform(value),
                    None => error!("unable to bind value, transformer {name} not found"),
                }
            }
            binding.react_value_change(&value)
        }));
    }

"""))
REPEAT = mid(M, '                if let Some(value) = value.as_array() {\n                    let count', '            }\n        }\n    }\n}\n\n#[derive(Debug, PartialEq)]\npub enum Reaction')
R('rd-vm-repeat-min', (M, REPEAT, """                let count = match value {
                    Value::Array(items) => {
                        if items.len() > size {
                            error!("unable to repeat all items of {parent:?}, expect {size}");
                        }
                        items.len().min(size)
                    }
                    _ => {
                        error!("unable to repeat, value must be array");
                        0
                    }
                };
                Reaction::Repeat {
                    parent,
                    start,
                    cursor: start + count,
                    end: start + size,
                }
"""))
R('rd-vm-repeat-map-or', (M, REPEAT, """                let end = start + size;
                let cursor = value
                    .as_array()
                    .map_or(start, |items| end.min(start + items.len()));
                Reaction::Repeat { parent, start, cursor, end }
"""))
R('rd-vm-react-expected', (M, 'match self.params.clone() {\n            BindingParams::Visibility(parent, node, visible) => {\n                let visible = value.eval_boolean() == visible;', 'match self.params.clone() {\n            BindingParams::Visibility(parent, node, expected) => {\n                let visible = if expected { value.eval_boolean() } else { !value.eval_boolean() };'))
HOVERS = mid(M, '    let x = point[0] - element.position[0];', '}\n\npub struct Schema')
R('rd-vm-hovers-ranges', (M, HOVERS, """    let inside = |axis: usize| {
        let offset = point[axis] - element.position[axis];
        (0.0..element.size[axis]).contains(&offset)
    };
    inside(0) && inside(1)
"""))
R('rd-vm-hovers-all', (M, HOVERS, """    (0..2).all(|axis| {
        let offset = point[axis] - element.position[axis];
        offset >= 0.0 && offset < element.size[axis]
    })
"""))
R('rd-vm-hovers-early', (M, HOVERS, """    let [left, top] = element.position;
    let [width, height] = element.size;
    let [x, y] = [point[0] - left, point[1] - top];
    if x < 0.0 || y < 0.0 {
        return false;
    }
    x < width && y < height
"""))
R('rd-vm-move-any', (M, mid(M, '        let mut has_mouse_move = false;', '        if !has_mouse_move {'), """        let mut events = input.events.clone();
        let has_mouse_move = events
            .iter()
            .any(|event| matches!(event, InputEvent::MouseMove(_)));
"""))
R('rd-vm-move-vec', (M, mid(M, '        let mut has_mouse_move = false;', '        self.output = Output::new();\n        self.handle'), """        let mut events = vec![];
        if !input
            .events
            .iter()
            .any(|event| matches!(event, InputEvent::MouseMove(_)))
        {
            events.push(InputEvent::MouseMove(self.mouse));
        }
        events.extend(input.events.iter().cloned());
"""))
R('rd-vm-captured', (M, mid(M, '        self.output.is_input_captured = ', '        Ok(take('), """        let idle = self.elements_under_mouse.is_empty()
            && self.elements_in_action.is_empty()
            && self.drag.is_none()
            && self.focus.is_none();
        self.output.is_input_captured = !idle;
"""))
POINTERLOOP = mid(M, '        for node in self.elements_under_mouse.iter() {\n            if let Ok', '        self.output.is_input_captured')
R('rd-vm-pointer-last', (M, POINTERLOOP, """        let pointer = self
            .elements_under_mouse
            .iter()
            .rev()
            .filter_map(|node| tree.get_element(*node).ok())
            .map(|element| element.pointer)
            .find(|pointer| !matches!(pointer, Pointer::Auto));
        if let Some(pointer) = pointer {
            self.output.pointer = pointer;
        }
"""))
R('rd-vm-pointer-matches', (M, POINTERLOOP, """        for node in &self.elements_under_mouse {
            let Ok(element) = tree.get_element(*node) else {
                continue;
            };
            match element.pointer {
                Pointer::Auto => {}
                pointer => self.output.pointer = pointer,
            }
        }
"""))
R('rd-vm-left-filter', (M, """                    for node in previous_update.iter().rev() {
                        if !self.elements_under_mouse.contains(node) {
                            let element""", """                    let current = self.elements_under_mouse.clone();
                    for node in previous_update.iter().rev().filter(|node| !current.contains(node)) {
                        {
                            let element"""), (M, '                    let current = self.elements_under_mouse.clone();\n                    for node in current', '                    for node in current'))
R('rd-vm-left-collect', (M, """                    for node in previous_update.iter().rev() {
                        if !self.elements_under_mouse.contains(node) {
                            let element = tree.get_element_mut(*node)?;""", """                    let left: Vec<NodeId> = previous_update
                        .iter()
                        .rev()
                        .copied()
                        .filter(|node| !self.elements_under_mouse.contains(node))
                        .collect();
                    for node in left {
                        {
                            let element = tree.get_element_mut(node)?;"""))
R('rd-vm-hover-flag', (M, 'if !previous_update.contains(node) {\n', 'let entered = !previous_update.contains(node);\n                        if entered {\n'))
R('rd-vm-blur-helper', (M, """                            self.focus = None;
                            let element = tree.get_element_mut(focus)?;
                            element.state.focus = false;
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(&element, "onblur", event);
""", """                            self.blur(focus, tree)?;
"""), (M, """                                    self.focus = None;
                                    element = tree.get_element_mut(focus)?;
                                    element.state.focus = false;
                                    let event = MouseEvent::new(self.mouse, element);
                                    self.emit(&element, "onblur", event);
                                    element""", """                                    self.blur(focus, tree)?;
                                    element"""), (M, HOVERFN, """    fn blur(&mut self, node: NodeId, tree: &mut TaffyTree<Element>) -> Result<(), ViewError> {
        self.focus = None;
        let element = tree.get_element_mut(node)?;
        element.state.focus = false;
        let event = MouseEvent::new(self.mouse, element);
        self.emit(element, "onblur", event);
        Ok(())
    }

""" + HOVERFN))
R('rd-vm-focus-match', (M, mid(M, '                            if let Some(focus) = self.focus {\n                                if focus != node', '                        let event = MouseEvent::new(self.mouse, element);\n                        self.emit(&element, "onmousedown"'), """                            if self.focus != Some(node) {
                                if let Some(focus) = self.focus.take() {
                                    element = tree.get_element_mut(focus)?;
                                    element.state.focus = false;
                                    let event = MouseEvent::new(self.mouse, element);
                                    self.emit(&element, "onblur", event);
                                    element = tree.get_element_mut(node)?;
                                }
                                self.focus = Some(node);
                                element.state.focus = true;
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, "onfocus", event);
                            }
                        }

"""))
R('rd-vm-drop-take', (M, mid(M, '                        if let Some(drag) = self.drag.as_mut() {', '                        } else {\n                            if button == MouseButtons::Left && element.state'), """                        if let Some(source) = self.drag.as_ref().map(|drag| drag.source) {
                            if element.listeners.contains_key("ondrop") {
                                // valid drop target
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondrop", event);
                                self.drag = None;
                                let element = tree.get_element_mut(source)?;
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragend", event);
                            }
"""))
R('rd-vm-click-match', (M, mid(M, '                            if button == MouseButtons::Left && element.state', '                        }\n                    }\n                    if let Some(drag) = self.drag.take()'), """                            let handler = match button {
                                MouseButtons::Left if element.state.active => Some("onclick"),
                                MouseButtons::Right => Some("oncontextmenu"),
                                _ => None,
                            };
                            if let Some(handler) = handler {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, handler, event);
                            }
"""))
R('rd-vm-release-drain', (M, """for node in take(&mut self.elements_in_action) {
                        let element = tree.get_element_mut(node)?;
                        element.state.active = false;""", """for node in self.elements_in_action.drain(..) {
                        tree.get_element_mut(node)?.state.active = false;"""))
L('rd-vm-hover-stack', (M, mid(M, '        let element = tree.get_element(node)?;\n        if element.pointer_events', '        Ok(())\n    }\n\n    pub(crate) fn emit'), """        let mut pending = vec![node];
        while let Some(node) = pending.pop() {
            let element = tree.get_element(node)?;
            if element.pointer_events == PointerEvents::Auto
                && element.visible
                && hovers(position, &element)
            {
                self.elements_under_mouse.push(node);
            }
            pending.extend(tree.children(node)?.into_iter().rev());
        }
"""))
L('rd-vm-hover-return', (M, mid(M, '    fn calculate_mouse_hovers(\n', '    pub(crate) fn emit'), """    fn calculate_mouse_hovers(
        tree: &TaffyTree<Element>,
        node: NodeId,
        position: [f32; 2],
        found: &mut Vec<NodeId>,
    ) -> Result<(), ViewError> {
        let element = tree.get_element(node)?;
        let reachable = element.visible && element.pointer_events == PointerEvents::Auto;
        if reachable && hovers(position, element) {
            found.push(node);
        }
        tree.children(node)?
            .into_iter()
            .try_for_each(|child| Self::calculate_mouse_hovers(tree, child, position, found))
    }

"""), (M, 'self.calculate_mouse_hovers(tree, body, position)?;', 'Self::calculate_mouse_hovers(tree, body, position, &mut self.elements_under_mouse)?;'))
POINTER = mid(M, '        let head = &self.path[0];', '    }\n}\n\n#[derive(Debug, Clone)]\npub struct Binding {')
R('rd-vm-pointer-path', (M, POINTER, """        let head = &self.path[0];
        let mut pointer = match locals.get(head) {
            Some(local) => local.clone(),
            None => format!("/{head}"),
        };
        for name in &self.path[1..] {
            pointer.push('/');
            pointer.push_str(name);
        }
        pointer
"""))
R('rd-vm-pointer-split', (M, POINTER, """        let (head, tail) = self.path.split_first().expect("not empty path");
        let head = locals
            .get(head)
            .cloned()
            .unwrap_or_else(|| format!("/{head}"));
        if tail.is_empty() {
            head
        } else {
            format!("{head}/{}", tail.join("/"))
        }
"""))
R('rd-vm-keys-helper', (M, mid(M, '                InputEvent::KeyDown(key) => {', '                InputEvent::Char(char) => {'), """                InputEvent::KeyDown(key) => self.emit_key(key, "onkeydown", tree)?,
                InputEvent::KeyUp(key) => self.emit_key(key, "onkeyup", tree)?,
"""), (M, HOVERFN, """    fn emit_key(
        &mut self,
        key: Keys,
        handler: &str,
        tree: &TaffyTree<Element>,
    ) -> Result<(), ViewError> {
        let Some(node) = self.focus else {
            return Ok(());
        };
        let element = tree.get_element(node)?;
        self.emit(element, handler, KeyboardEvent::new(key, element));
        Ok(())
    }

""" + HOVERFN))
NULLARM = mid(M, '            (Value::Object(object), Value::Null) => {', '            (dst, src) => {\n')
OBJARM = mid(M, '            (Value::Object(object), Value::Object(src)) => {', '            (Value::Object(object), Value::Null) => {')
R('rd-vm-object-merged', (M, NULLARM, ''), (M, OBJARM, """            (Value::Object(object), Value::Object(_) | Value::Null) => {
                let mut object_changed = false;
                for (key, dst) in object.iter_mut() {
                    let path = format!("{path}/{key}");
                    let arrays_path = format!("{arrays_path}/{key}");
                    let changed = Self::bind_value(
                        dst,
                        src.get(key).unwrap_or(&Value::Null),
                        &path,
                        &arrays_path,
                        bindings,
                        reactions,
                        transformers,
                        default,
                    );
                    object_changed |= changed;
                }
                if object_changed {
                    let value = if src.is_null() { Value::Null } else { json!({}) };
                    Self::react(path, &value, bindings, reactions, transformers);
                }
                object_changed
            }
"""))
R('rd-vm-array-zip', (M, mid(M, '                for (index, dst) in current.iter_mut().enumerate() {\n', '                array_changed\n            }'), """                for (index, (dst, src)) in current.iter_mut().zip(next).enumerate() {
                    let path = format!("{path}/{index}");
                    if Self::bind_value(
                        dst,
                        src,
                        &path,
                        &items_path,
                        bindings,
                        reactions,
                        transformers,
                        default,
                    ) {
                        array_changed = true;
                    }
                }
"""))
R('rd-vm-scalar-early', (M, mid(M, '            (dst, src) => {\n                if *dst != src', '        }\n    }\n\n    #[inline]'), """            (dst, src) => {
                let changed = **dst != *src;
                if changed {
                    Self::react(path, src, bindings, reactions, transformers);
                    **dst = src.clone();
                }
                changed
            }
"""))
R('rd-vm-default-first', (M, mid(M, '            Value::Array(array) => {\n                default.insert', '            Value::Object(object) => {\n                for (key, value) in object {\n                    Self::memorize'), """            Value::Array(array) => {
                let item = &array[0];
                Self::memorize_array_default(&format!("{type_path}/0"), item, default);
                default.insert(type_path.to_string(), item.clone());
            }
"""))
# bugs inside these forms
BR('bd-vm-event-methods', 'C04', 'rd-vm-event-methods', 'if button == MouseButtons::Left && element.state.active {', 'if button == MouseButtons::Left {')
BR('bd-vm-event-methods-2', 'C03', 'rd-vm-event-methods', 'if Some(node) != self.focus {', 'if self.focus.is_none() || self.drag.is_none() {')
BR('bd-vm-notify', 'C02', 'rd-vm-notify', '"onmouseenter", "ondragenter"', '"onmouseenter", "ondragover"')
BR('bd-vm-emit-split', 'C06', 'rd-vm-emit-split', 'if arguments.is_empty() {', 'if arguments.len() < 1 || key.is_empty() {')
BR('bd-vm-emit-split-2', 'C06', 'rd-vm-emit-split', 'arguments.remove(0)', 'Value::Array(arguments)')
BR('bd-vm-emit-values', 'C06', 'rd-vm-emit-values', '                    continue;\n', '')
BR('bd-vm-pipe-helper', 'C10', 'rd-vm-pipe-helper', '                error!("unable to bind value, transformer {name} not found");\n                value', '                error!("unable to bind value, transformer {name} not found");\n                Value::Null')
BR('bd-vm-pipe-filter', 'C10', 'rd-vm-pipe-filter', 'binding.pipe.iter().filter_map', 'binding.pipe.iter().rev().filter_map')
BR('bd-vm-react-map', 'C10', 'rd-vm-react-map', 'bindings.iter().map', 'bindings.iter().take(8).map')
BR('bd-vm-repeat-min', 'C10', 'rd-vm-repeat-min', 'items.len().min(size)', 'items.len()')
BR('bd-vm-repeat-map-or', 'C10', 'rd-vm-repeat-map-or', '.map_or(start,', '.map_or(end,')
BR('bd-vm-expected', 'C10', 'rd-vm-react-expected', 'else { !value.eval_boolean() }', 'else { true }')
BR('bd-vm-hovers-ranges', 'C01', 'rd-vm-hovers-ranges', '(0.0..element.size[axis])', '(0.0..=element.size[axis])')
BR('bd-vm-hovers-all', 'C01', 'rd-vm-hovers-all', '(0..2).all', '(0..2).any')
BR('bd-vm-hovers-early', 'C01', 'rd-vm-hovers-early', 'x < width && y < height', 'x < width && y < width')
BR('bd-vm-move-vec', 'C05', 'rd-vm-move-vec', 'events.extend(input.events.iter().cloned());', 'events.extend(input.events.iter().rev().cloned());')
BR('bd-vm-captured', 'C07', 'rd-vm-captured', '            && self.focus.is_none();', ';')
BR('bd-vm-pointer-last', 'C07', 'rd-vm-pointer-last', '            .rev()\n', '')
BR('bd-vm-pointer-matches', 'C07', 'rd-vm-pointer-matches', 'continue;', 'break;')
BR('bd-vm-left-filter', 'C02', 'rd-vm-left-filter', '!current.contains(node)', 'current.contains(node)')
BR('bd-vm-left-collect', 'C02', 'rd-vm-left-collect', '!self.elements_under_mouse.contains(node)', '!self.elements_in_action.contains(node)')
BR('bd-vm-left-collect-rev', 'C02', 'rd-vm-left-collect', '                        .rev()\n', '')
BR('bd-vm-left-collect-take', 'C02', 'rd-vm-left-collect', '                        .copied()\n', '                        .copied()\n                        .take(16)\n')
BR('bd-vm-blur-helper', 'C03', 'rd-vm-blur-helper', 'element.state.focus = false;\n        let event', 'let event')
BR('bd-vm-focus-match', 'C03', 'rd-vm-focus-match', 'if self.focus != Some(node) {', 'if self.focus.is_none() {')
BR('bd-vm-drop-take', 'C04', 'rd-vm-drop-take', 'self.drag = None;\n', '')
BR('bd-vm-click-match', 'C04', 'rd-vm-click-match', 'MouseButtons::Right => Some', '_ if element.state.active => Some')
BR('bd-vm-release-drain', 'C04', 'rd-vm-release-drain', 'drain(..)', 'drain(1..)')
BR('bd-vm-pointer-path', 'C29', 'rd-vm-pointer-path', "pointer.push('/');", "pointer.push('.');")
BR('bd-vm-pointer-split', 'C29', 'rd-vm-pointer-split', 'unwrap_or_else(|| format!("/{head}"))', 'unwrap_or_else(|| format!("{head}"))')
BR('bd-vm-keys-helper', 'C05', 'rd-vm-keys-helper', 'self.emit_key(key, "onkeyup", tree)', 'self.emit_key(key, "onkeydown", tree)')
BR('bd-vm-object-merged', 'C09', 'rd-vm-object-merged', 'object_changed |= changed;', 'object_changed = changed;')
BR('bd-vm-object-merged-2', 'C09', 'rd-vm-object-merged', 'unwrap_or(&Value::Null)', 'unwrap_or(src)')
BR('bd-vm-array-zip', 'C09', 'rd-vm-array-zip', '.zip(next).enumerate()', '.enumerate().take(1).map(|(i, d)| (i, (d, &next[i])))')
BR('bd-vm-scalar-early', 'C09', 'rd-vm-scalar-early', 'src.clone();\n', 'Value::Null;\n')
BR('bd-vm-default-first', 'C09', 'rd-vm-default-first', '"{type_path}/0"', '"{type_path}"')
