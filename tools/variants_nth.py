"""Another independent batch of behaviour-preserving edits: idioms another maintainer could prefer, file by file."""
from variants_more import M, V, A, AP, CS, ST, TR, FN, CR, HR, MA, MO, RE, EL, src, mid, ded
VARIANTS = []


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


# what the rules do not follow (DESIGN.md, limits)
LIMITS = []


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


# ---------------------------------------------------------------- view_model.rs
R('rn-vm-new-move', (M, '''        let mut has_mouse_move = false;
        let mut events = input.events.clone();
        for event in events.iter() {
            match *event {
                InputEvent::MouseMove(_) => {
                    has_mouse_move = true;
                }
                _ => {}
            }
        }
        if !has_mouse_move {''', '''        let mut events = input.events.clone();
        let has_mouse_move = events
            .iter()
            .any(|event| matches!(event, InputEvent::MouseMove(_)));
        if !has_mouse_move {'''))
R('rn-vm-move-find', (M, '''        let mut has_mouse_move = false;
        let mut events = input.events.clone();
        for event in events.iter() {
            match *event {
                InputEvent::MouseMove(_) => {
                    has_mouse_move = true;
                }
                _ => {}
            }
        }
        if !has_mouse_move {''', '''        let mut events = Vec::with_capacity(input.events.len() + 1);
        let still = |event: &InputEvent| !matches!(event, InputEvent::MouseMove(_));
        events.extend(input.events.iter().cloned());
        if events.iter().all(still) {'''))
R('rn-vm-move-chain', (M, mid(M, '        let mut has_mouse_move = false;', '        self.output = Output::new();'), '''        let mut events = vec![];
        if !input.events.iter().any(|event| matches!(event, InputEvent::MouseMove(_))) {
            events.push(InputEvent::MouseMove(self.mouse));
        }
        events.extend_from_slice(&input.events);
'''))
R('rn-vm-pointer', (M, '''        for node in self.elements_under_mouse.iter() {
            if let Ok(element) = tree.get_element(*node) {
                if let Pointer::Auto = element.pointer {
                } else {
                    self.output.pointer = element.pointer;
                }
            }
        }''', '''        for node in self.elements_under_mouse.iter() {
            let Ok(element) = tree.get_element(*node) else {
                continue;
            };
            match element.pointer {
                Pointer::Auto => {}
                pointer => self.output.pointer = pointer,
            }
        }'''))
R('rn-vm-pointer-rev', (M, '''        for node in self.elements_under_mouse.iter() {
            if let Ok(element) = tree.get_element(*node) {
                if let Pointer::Auto = element.pointer {
                } else {
                    self.output.pointer = element.pointer;
                }
            }
        }''', '''        for node in self.elements_under_mouse.iter().rev() {
            match tree.get_element(*node) {
                Ok(element) if element.pointer != Pointer::Auto => {
                    self.output.pointer = element.pointer;
                    break;
                }
                _ => {}
            }
        }'''))
R('rn-vm-captured', (M, '''        self.output.is_input_captured = !self.elements_under_mouse.is_empty()
            || self.drag.is_some()
            || self.focus.is_some()
            || !self.elements_in_action.is_empty();
        Ok(take(&mut self.output))''', '''        let is_idle = self.elements_under_mouse.is_empty()
            && self.elements_in_action.is_empty()
            && self.drag.is_none()
            && self.focus.is_none();
        let mut output = take(&mut self.output);
        output.is_input_captured = !is_idle;
        Ok(output)'''))
R('rn-vm-memorize', (M, '''        match value {
            Value::Array(array) => {
                default.insert(type_path.to_string(), array[0].clone());
                Self::memorize_array_default(&format!("{type_path}/0"), &array[0], default)
            }''', '''        match value {
            Value::Array(array) => {
                let item = &array[0];
                default.insert(type_path.to_string(), item.clone());
                let item_path = format!("{type_path}/0");
                Self::memorize_array_default(&item_path, item, default)
            }'''))
R('rn-vm-memorize-if', (M, mid(M, '        match value {\n            Value::Array(array) => {\n                default.insert', '    }\n\n    pub fn bind('), '''        if let Value::Array(array) = value {
            default.insert(type_path.to_owned(), array[0].clone());
            Self::memorize_array_default(&(type_path.to_owned() + "/0"), &array[0], default);
        } else if let Value::Object(object) = value {
            object.iter().for_each(|(key, value)| {
                Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
            });
        }
'''))
R('rn-vm-bind-len', (M, '''                let mut array_changed = false;
                let items_path = format!("{arrays_path}/0");
                if current.len() != next.len() {
                    array_changed = true;
''', '''                let items_path = format!("{arrays_path}/0");
                let mut array_changed = current.len() != next.len();
                if array_changed {
'''), (M, '                    array_changed = array_changed || changed;', '                    array_changed |= changed;'))
R('rn-vm-bind-clear', (M, '''                if current.len() != 0 {
                    current.clear();
                    Self::react(
                        path,
                        &Value::Array(vec![]),
                        bindings,
                        reactions,
                        transformers,
                    );
                    true
                } else {
                    false
                }''', '''                if current.is_empty() {
                    return false;
                }
                *current = vec![];
                let empty = json!([]);
                Self::react(path, &empty, bindings, reactions, transformers);
                true'''))
R('rn-vm-bind-equal', (M, '''            (dst, src) => {
                if *dst != src {
                    **dst = src.clone();
                    Self::react(path, src, bindings, reactions, transformers);
                    true
                } else {
                    false
                }
            }''', '''            (dst, src) if *dst == src => false,
            (dst, src) => {
                Self::react(path, src, bindings, reactions, transformers);
                **dst = src.clone();
                true
            }'''))
R('rn-vm-bind-src', (M, '''                    let undefined = Value::Null;
                    let src = match src.get(key) {
                        Some(src) => src,
                        None => {
                            // error!("unable to bind '{path}', must be specified");
                            &undefined
                        }
                    };
''', '''                    let src = src.get(key).unwrap_or(&Value::Null);
'''))
R('rn-vm-react', (M, '''                if binding.pipe.len() > 0 {
                    let mut value = value.clone();
                    for name in &binding.pipe {
                        match transformers.get(name) {
                            None => {
                                error!("unable to bind value, transformer {name} not found")
                            }
                            Some(transform) => {
                                value = transform(value);
                            }
                        }
                    }
                    reactions.push(binding.react_value_change(&value));
                } else {
                    reactions.push(binding.react_value_change(value))
                }''', '''                let mut value = value.clone();
                for name in &binding.pipe {
                    if let Some(transform) = transformers.get(name) {
                        value = transform(value);
                    } else {
                        error!("unable to bind value, transformer {name} not found")
                    }
                }
                reactions.push(binding.react_value_change(&value));'''))
R('rn-vm-react-flat', (M, '''        if let Some(bindings) = bindings.get(path) {
            for binding in bindings {
                if binding.pipe''', '''        {
            for binding in bindings.get(path).into_iter().flatten() {
                if binding.pipe'''))
R('rn-vm-react-extend', (M, mid(M, '        if let Some(bindings) = bindings.get(path) {\n            for binding', '    pub fn handle_output'), '''        let Some(bindings) = bindings.get(path) else {
            return;
        };
        reactions.extend(bindings.iter().map(|binding| {
            let value = Self::transform(value.clone(), &binding.pipe, transformers);
            binding.react_value_change(&value)
        }));
    }

    fn transform(
        value: Value,
        pipe: &[String],
        transformers: &HashMap<String, Transformer>,
    ) -> Value {
        pipe.iter().fold(value, |value, name| match transformers.get(name) {
            Some(transform) => transform(value),
            None => {
                error!("unable to bind value, transformer {name} not found");
                value
            }
        })
    }

'''))
R('rn-vm-hover-get', (M, '''                        let element = tree.get_element_mut(*node)?;
                        let event = MouseEvent::new(self.mouse, element);
                        self.emit(element, "onmousemove", event);
                        if self.drag.is_some() {
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "ondragover", event);
                        }''', '''                        let element = tree.get_element(*node)?;
                        let event = MouseEvent::new(position, element);
                        self.emit(element, "onmousemove", event);
                        if self.drag.is_some() {
                            self.emit(element, "ondragover", event);
                        }'''))
R('rn-vm-leave-filter', (M, '''                    for node in previous_update.iter().rev() {
                        if !self.elements_under_mouse.contains(node) {
                            let element''', '''                    let hovered = self.elements_under_mouse.clone();
                    for node in previous_update.iter().rev().filter(|node| !hovered.contains(node)) {
                        {
                            let element'''))
R('rn-vm-up-iter', (M, '''                    for node in take(&mut self.elements_in_action) {
                        let element = tree.get_element_mut(node)?;
                        element.state.active = false;
                    }''', '''                    let pressed = std::mem::replace(&mut self.elements_in_action, Vec::new());
                    for node in &pressed {
                        tree.get_element_mut(*node)?.state.active = false;
                    }'''))
R('rn-vm-up-match', (M, '''                            if button == MouseButtons::Left && element.state.active {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, "onclick", event);
                            }
                            if button == MouseButtons::Right {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, "oncontextmenu", event);
                            }''', '''                            let event = MouseEvent::new(self.mouse, element);
                            match button {
                                MouseButtons::Left if element.state.active => {
                                    self.emit(&element, "onclick", event)
                                }
                                MouseButtons::Right => self.emit(&element, "oncontextmenu", event),
                                _ => {}
                            }'''))
R('rn-vm-down-split', (M, '''                        if element.listeners.contains_key("oninput") {
                            // valid focus target''', '''                        let is_focusable = element.listeners.get("oninput").is_some();
                        if is_focusable {'''),
  (M, '''                        if button == MouseButtons::Left && element.draggable() {
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "ondragstart", event);
                            self.drag = DragContext::new(node);
                        }''', '''                        if button != MouseButtons::Left || !element.draggable() {
                            continue;
                        }
                        self.emit(element, "ondragstart", event);
                        self.drag = DragContext::new(node);'''))
R('rn-vm-down-focus', (M, '''                    if let Some(focus) = self.focus {
                        if !self.elements_under_mouse.contains(&focus) {
                            self.focus = None;
                            let element''', '''                    if let Some(focus) = self.focus.filter(|focus| !self.elements_under_mouse.contains(focus)) {
                        {
                            self.focus = None;
                            let element'''))
R('rn-vm-down-focus-take', (M, '''                    if let Some(focus) = self.focus {
                        if !self.elements_under_mouse.contains(&focus) {
                            self.focus = None;
                            let element = tree.get_element_mut(focus)?;
                            element.state.focus = false;
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(&element, "onblur", event);
                        }
                    }''', '''                    match self.focus {
                        Some(focus) if !self.elements_under_mouse.contains(&focus) => {
                            self.focus.take();
                            let element = tree.get_element_mut(focus)?;
                            element.state.focus = false;
                            self.emit(&element, "onblur", MouseEvent::new(self.mouse, element));
                        }
                        _ => {}
                    }'''))
R('rn-vm-keys-or', (M, mid(M, '                InputEvent::KeyDown(key) => {', '                InputEvent::Char(char) => {'), '''                InputEvent::KeyDown(key) | InputEvent::KeyUp(key) => {
                    if let Some(node) = self.focus {
                        let handler = match event {
                            InputEvent::KeyDown(_) => "onkeydown",
                            _ => "onkeyup",
                        };
                        let element = tree.get_element(node)?;
                        self.emit(element, handler, KeyboardEvent::new(key, element))
                    }
                }
'''))
R('rn-vm-keys-else', (M, '''                    if let Some(node) = self.focus {
                        let element = tree.get_element(node)?;
                        let event = TextEvent::new(char, element);
                        self.emit(element, "oninput", event)
                    }''', '''                    let Some(node) = self.focus else {
                        continue;
                    };
                    let element = tree.get_element(node)?;
                    self.emit(element, "oninput", TextEvent::new(char, element))'''))
R('rn-vm-emit-let', (M, '''                    HandlerArgument::Event => match serde_json::to_value(&event) {
                        Ok(event) => event,
                        Err(error) => {
                            error!("unable to serialize event, {error:?}");
                            continue;
                        }
                    },''', '''                    HandlerArgument::Event => {
                        let event = serde_json::to_value(&event);
                        if let Err(error) = &event {
                            error!("unable to serialize event, {error:?}");
                            continue;
                        }
                        event.unwrap()
                    }'''))
R('rn-vm-emit-message', (M, '''                1 => {
                    let mut object = Map::new();
                    object.insert(key, arguments.into_iter().next().expect("one argument"));
                    Value::Object(object)
                }
                _ => {
                    let mut object = Map::new();
                    object.insert(key, Value::Array(arguments));
                    Value::Object(object)
                }''', '''                1 => json!({ key: arguments.remove(0) }),
                _ => json!({ key: arguments }),'''))
R('rn-vm-emit-message2', (M, '''            let message = match arguments.len() {
                0 => Value::String(key),
                1 => {
                    let mut object = Map::new();
                    object.insert(key, arguments.into_iter().next().expect("one argument"));
                    Value::Object(object)
                }
                _ => {
                    let mut object = Map::new();
                    object.insert(key, Value::Array(arguments));
                    Value::Object(object)
                }
            };''', '''            let message = if arguments.is_empty() {
                Value::String(key)
            } else {
                let value = if arguments.len() == 1 {
                    arguments.pop().unwrap()
                } else {
                    Value::Array(arguments)
                };
                Value::Object(Map::from_iter([(key, value)]))
            };'''))
R('rn-vm-emit-args', (M, mid(M, '            let mut key = "Undefined".to_string();', '            let message = match arguments.len() {'), '''            let mut key = "Undefined".to_string();
            let mut arguments = vec![];
            for (index, argument) in handler.arguments.iter().enumerate() {
                let Some(argument) = self.eval_argument(argument, &event) else {
                    continue;
                };
                match index {
                    0 => key = argument.eval_string(),
                    _ => arguments.push(argument),
                }
            }
'''), (M, '''    pub(crate) fn emit<T: Serialize>(''', '''    fn eval_argument<T: Serialize>(&self, argument: &HandlerArgument, event: &T) -> Option<Value> {
        match argument {
            HandlerArgument::Keyword(keyword) => Some(Value::String(keyword.clone())),
            HandlerArgument::Event => serde_json::to_value(event)
                .map_err(|error| error!("unable to serialize event, {error:?}"))
                .ok(),
            HandlerArgument::Binder { path, pipe } => {
                let Some(mut value) = self.model.pointer(path).cloned() else {
                    error!("unable to get value at {path:?}, not found");
                    return None;
                };
                for name in pipe {
                    match self.transformers.get(name) {
                        Some(transform) => value = transform(value),
                        None => error!("unable to get value {path:?}, transformer {name} not found"),
                    }
                }
                Some(value)
            }
        }
    }

    pub(crate) fn emit<T: Serialize>('''))
R('rn-vm-binder-format', (M, '''        let path = self.path.join(".");
        if self.pipe.len() > 0 {
            let pipe = self.pipe.join(" | ");
            format!("{{ {path} | {pipe} }}")
        } else {
            format!("{{ {path} }}")
        }''', '''        let mut text = format!("{{ {}", self.path.join("."));
        for name in &self.pipe {
            text.push_str(" | ");
            text.push_str(name);
        }
        text.push_str(" }");
        text'''))
R('rn-vm-pointer-push', (M, '''        let head = &self.path[0];
        let default = &format!("/{head}");
        let head = locals.get(head).unwrap_or(default);
        let tail = &self.path[1..];
        if tail.len() > 0 {
            format!("{head}/{}", tail.join("/"))
        } else {
            format!("{head}")
        }''', '''        let head = &self.path[0];
        let mut pointer = match locals.get(head) {
            Some(local) => local.clone(),
            None => format!("/{head}"),
        };
        for key in &self.path[1..] {
            pointer.push('/');
            pointer.push_str(key);
        }
        pointer'''))
R('rn-vm-pointer-split', (M, '''        let head = &self.path[0];
        let default = &format!("/{head}");
        let head = locals.get(head).unwrap_or(default);
        let tail = &self.path[1..];
        if tail.len() > 0 {
            format!("{head}/{}", tail.join("/"))
        } else {
            format!("{head}")
        }''', '''        let (head, tail) = self.path.split_first().expect("path");
        let head = locals
            .get(head)
            .cloned()
            .unwrap_or_else(|| format!("/{head}"));
        if tail.is_empty() {
            return head;
        }
        head + "/" + &tail.join("/")'''))
R('rn-vm-repeat', (M, mid(M, '                if let Some(value) = value.as_array() {\n                    let count', '            }\n        }\n    }\n}\n\n#[derive(Debug, PartialEq)]\npub enum Reaction'), '''                let count = match value {
                    Value::Array(items) if items.len() > size => {
                        let count = items.len();
                        let slice = &items[size..count.min(size + 3)];
                        error!("unable to repeat all items of {parent:?}, expect {size} but {count}, drop {slice:?} ...");
                        size
                    }
                    Value::Array(items) => items.len(),
                    _ => {
                        error!("unable to repeat, value must be array");
                        0
                    }
                };
                Reaction::Repeat {
                    parent,
                    start,
                    cursor: start + count,
                    end: start + size,
                }
'''))
R('rn-vm-duration', (M, '''        match value.as_f64() {
            None => value,
            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
                Ok(duration) => Value::String(format!("{duration:?}")),
                Err(_) => value,
            },
        }''', '''        value
            .as_f64()
            .and_then(|seconds| Duration::try_from_secs_f64(seconds).ok())
            .map(|duration| Value::String(format!("{duration:?}")))
            .unwrap_or(value)'''))
R('rn-vm-transformers', (M, '''    let mut transformers = HashMap::new();
    transformers.insert("duration".to_string(), duration as Transformer);
    transformers''', '''    HashMap::from([("duration".to_string(), duration as Transformer)])'''))
R('rn-vm-schema-let', (M, '''            match token.parse::<usize>() {
                Ok(index) => {
                    if !target.is_array() {
                        *target = json!([]);
                    }
                    let array = target.as_array_mut().unwrap();
                    if array.len() <= index {
                        array.resize(index + 1, Value::Null);
                    }
                    target = &mut array[index];
                }
                _ => {''', '''            match token.parse::<usize>() {
                Ok(index) => {
                    if !target.is_array() {
                        *target = Value::Array(Vec::new());
                    }
                    let array = target.as_array_mut().unwrap();
                    while array.len() <= index {
                        array.push(Value::Null);
                    }
                    target = array.get_mut(index).unwrap();
                }
                Err(_) => {'''))
R('rn-vm-hovers', (M, '''    let x = point[0] - element.position[0];
    let y = point[1] - element.position[1];
    x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]''', '''    let [width, height] = element.size;
    let [left, top] = element.position;
    let (x, y) = (point[0] - left, point[1] - top);
    if x < 0.0 || y < 0.0 {
        return false;
    }
    x < width && y < height'''))
R('rn-vm-hover-stack', (M, '''        for child in tree.children(node)? {
            self.calculate_mouse_hovers(tree, child, position)?;
        }
        Ok(())''', '''        let children = tree.children(node)?;
        children
            .into_iter()
            .try_for_each(|child| self.calculate_mouse_hovers(tree, child, position))'''))

# ---------------------------------------------------------------- view.rs
R('rn-view-link-drop', (V, '''            if child.tag == "link" {
                let mut attrs = HashMap::new();
                for binding in &child.bindings {
                    if let ElementBinding::None(key, value) = binding {
                        attrs.insert(key.clone(), value.as_str());
                    }
                }
            }
''', ''))
R('rn-view-match-tag', (V, mid(V, '            if child.tag == "template" {\n', '        let mut renderer = Renderer::new'), '''            match child.tag.as_str() {
                "template" => {
                    let mut id = None;
                    for binding in &child.bindings {
                        match binding {
                            ElementBinding::None(key, value) if key == "id" => id = Some(value.clone()),
                            _ => {}
                        }
                    }
                    let Some(id) = id else { continue };
                    if let [content] = child.children.as_slice() {
                        templates.insert(format!("#{id}"), content.clone());
                    }
                }
                "body" => {
                    body = child;
                    break;
                }
                _ => {}
            }
        }

'''))
R('rn-view-id-filter-map', (V, mid(V, '                let mut id = None;\n', '                if let Some(id) = id {'), '''                let id = child
                    .bindings
                    .iter()
                    .filter_map(|binding| match binding {
                        ElementBinding::None(key, value) if key == "id" => Some(value.clone()),
                        _ => None,
                    })
                    .last();
'''))
R('rn-view-id-rev', (V, mid(V, '                let mut id = None;\n', '                if let Some(id) = id {'), '''                let id = child.bindings.iter().rev().find_map(|binding| match binding {
                    ElementBinding::None(key, value) if key == "id" => Some(value.clone()),
                    _ => None,
                });
'''))
R('rn-view-template-pop', (V, '''                    if child.children.len() == 1 {
                        templates.insert(format!("#{id}"), child.children[0].clone());
                    }''', '''                    let mut content = child.children;
                    if content.len() == 1 {
                        if let Some(content) = content.pop() {
                            templates.insert(format!("#{id}"), content);
                        }
                    }'''))
R('rn-view-create-inline', (V, '''        let bindings = renderer.bindings;
        let schema = renderer.schema;
        let tree = renderer.tree;
        let identified = renderer.static_id;
        let model = ViewModel::create(bindings, schema.value);
        let mut view = Self {
            model,
            tree,
            root,
            body,
            css,
            resources: resources.to_string(),
            fonts: Box::new(fonts),
            metrics: ViewMetrics::new(),
            identified,
        };''', '''        let Renderer {
            bindings,
            schema,
            tree,
            static_id: identified,
            ..
        } = renderer;
        let mut view = Self {
            model: ViewModel::create(bindings, schema.value),
            tree,
            root,
            body,
            css,
            resources: resources.to_owned(),
            fonts: Box::new(fonts),
            metrics: ViewMetrics::new(),
            identified,
        };'''))
R('rn-view-pipe-entry', (V, '''        self.model
            .transformers
            .insert(name.to_string(), transformer);
        self''', '''        let name = String::from(name);
        let transformers = &mut self.model.transformers;
        transformers.insert(name, transformer);
        self'''))
R('rn-view-update-into', (V, '''        for reaction in reactions {
            self.update_tree(reaction)?;
        }
        // detect''', '''        reactions
            .into_iter()
            .try_for_each(|reaction| self.update_tree(reaction))?;
        // detect'''))
R('rn-view-viewport-demorgan', (V, '''        if root_layout.size.width != length(viewport_width)
            && root_layout.size.height != length(viewport_height)
        {
            root_layout.size = Size {
                width: length(viewport_width),
                height: length(viewport_height),
            };
            self.tree.set_style(self.root, root_layout)?;
        }''', '''        let (width, height) = (length(viewport_width), length(viewport_height));
        if !(root_layout.size.width == width || root_layout.size.height == height) {
            root_layout.size.width = width;
            root_layout.size.height = height;
            self.tree.set_style(self.root, root_layout)?;
        }'''))
R('rn-view-viewport-nested', (V, '''        if root_layout.size.width != length(viewport_width)
            && root_layout.size.height != length(viewport_height)
        {
            root_layout.size = Size {
                width: length(viewport_width),
                height: length(viewport_height),
            };
            self.tree.set_style(self.root, root_layout)?;
        }''', '''        let viewport = Size {
            width: length(viewport_width),
            height: length(viewport_height),
        };
        let size = root_layout.size;
        if size.width != viewport.width {
            if size.height != viewport.height {
                root_layout.size = viewport;
                self.tree.set_style(self.root, root_layout)?;
            }
        }'''))
R('rn-view-final-locals', (V, mid(V, '        self.metrics.elements_shown.inc();\n', '    fn update_tree'), '''        self.metrics.elements_shown.inc();
        let computed = self.tree.get_final_layout(node);
        let mut layout = *computed;
        let absolute = Point {
            x: computed.location.x + location.x,
            y: computed.location.y + location.y,
        };
        layout.location = absolute;
        let element = self.tree.get_element_mut(node)?;
        opacity *= element.self_opacity;
        element.opacity = opacity;
        element.position = [absolute.x, absolute.y];
        element.size = [layout.size.width, layout.size.height];
        element.content_size = [layout.content_size.width, layout.content_size.height];
        element.clipping = clipping;
        element.scrolling = Scrolling::ensure(&layout, &element.scrolling);
        let origin = match &element.scrolling {
            Some(scrolling) => {
                clipping = Some(layout);
                Point {
                    x: absolute.x - scrolling.x,
                    y: absolute.y - scrolling.y,
                }
            }
            None => absolute,
        };
        let children = self.tree.children(node)?;
        for child in children {
            self.compute_final_positions_and_clipping(child, origin, opacity, clipping)?;
        }
        Ok(())
    }

'''))
R('rn-view-final-shift', (V, '''        let mut location = layout.location;
        if let Some(scrolling) = element.scrolling.as_ref() {
            clipping = Some(layout.clone());
            location.x -= scrolling.x;
            location.y -= scrolling.y;
        }
        opacity = element.opacity;
        for child in self.tree.children(node)? {
            self.compute_final_positions_and_clipping(child, location, opacity, clipping)?;
        }
        Ok(())''', '''        let [dx, dy] = match element.scrolling.as_ref() {
            Some(scrolling) => [scrolling.x, scrolling.y],
            None => [0.0, 0.0],
        };
        if element.scrolling.is_some() {
            clipping = Some(layout.clone());
        }
        opacity = element.opacity;
        let location = Point {
            x: layout.location.x - dx,
            y: layout.location.y - dy,
        };
        self.tree
            .children(node)?
            .into_iter()
            .try_for_each(|child| {
                self.compute_final_positions_and_clipping(child, location, opacity, clipping)
            })'''))
R('rn-view-type-else', (V, '''                let element_text = self
                    .tree
                    .get_node_context_mut(node)
                    .and_then(|element| element.text.as_mut())
                    .ok_or(ViewError::ElementTextContentNotFound)?;
                element_text.set(span, text);''', '''                let Some(element) = self.tree.get_node_context_mut(node) else {
                    return Err(ViewError::ElementTextContentNotFound);
                };
                match element.text.as_mut() {
                    Some(content) => content.set(span, text),
                    None => return Err(ViewError::ElementTextContentNotFound),
                }'''))
R('rn-view-reattach-match', (V, mid(V, '                if visible {\n                    if current_index.is_some() {', '            Reaction::Repeat {'), '''                match (visible, current_index) {
                    (true, None) => {
                        let mut index = current.len().min(definition_index);
                        while index > 0 {
                            let sibling = current[index - 1];
                            let sibling_index = definition
                                .iter()
                                .position(|child| *child == sibling)
                                .ok_or(ViewError::ChildNotFound(sibling))?;
                            if sibling_index < definition_index {
                                break;
                            }
                            index -= 1;
                        }
                        self.tree.insert_child_at_index(parent, index, node)?;
                    }
                    (false, Some(current_index)) => {
                        self.tree.remove_child_at_index(parent, current_index)?;
                    }
                    _ => {}
                }
            }
'''))
R('rn-view-reattach-filter', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let index = current
                            .iter()
                            .filter(|sibling| definition[..definition_index].contains(sibling))
                            .count();
'''))
R('rn-view-reattach-rpos', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let index = current
                            .iter()
                            .rposition(|sibling| before.contains(sibling))
                            .map(|index| index + 1)
                            .unwrap_or(0);
'''))
R('rn-view-reattach-while', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let index = current
                            .iter()
                            .take_while(|sibling| before.contains(sibling))
                            .count();
'''))
R('rn-view-reattach-rest', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        // the place of the first one that follows
                        let after = &definition[definition_index + 1..];
                        let index = current
                            .iter()
                            .position(|sibling| after.contains(sibling))
                            .unwrap_or(current.len());
'''))
R('rn-view-repeat-fn', (V, '''                for node in shown.iter().copied() {
                    let visible = true;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
                for node in hidden.iter().copied() {
                    let visible = false;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }''', '''                for (nodes, visible) in [(shown, true), (hidden, false)] {
                    for &node in nodes {
                        self.update_tree(Reaction::Reattach { parent, node, visible })?;
                    }
                }'''))
R('rn-view-repeat-chain', (V, '''                for node in shown.iter().copied() {
                    let visible = true;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
                for node in hidden.iter().copied() {
                    let visible = false;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }''', '''                let shown = shown.iter().map(|node| (*node, true));
                let hidden = hidden.iter().map(|node| (*node, false));
                for (node, visible) in shown.chain(hidden) {
                    self.update_tree(Reaction::Reattach {
                        parent,
                        node,
                        visible,
                    })?;
                }'''))
R('rn-view-repeat-index', (V, mid(V, '                let shown = &children[start..cursor];', '            Reaction::Tag {'), '''                for index in start..end {
                    self.update_tree(Reaction::Reattach {
                        parent,
                        node: children[index],
                        visible: index < cursor,
                    })?;
                }
            }
'''))
R('rn-view-repeat-skip', (V, mid(V, '                let shown = &children[start..cursor];', '            Reaction::Tag {'), '''                for (index, node) in children.into_iter().enumerate().take(end).skip(start) {
                    let visible = index < cursor;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
            }
'''))
R('rn-view-tag-clone', (V, '''                if tag {
                    element.attrs.insert(key.clone(), key.clone());
                } else {
                    element.attrs.remove(&key);
                };''', '''                if !tag {
                    element.attrs.remove(&key);
                    return Ok(());
                }
                let value = key.clone();
                element.attrs.insert(key, value);'''))
R('rn-view-bind-match', (V, mid(V, '                if key == "style" {\n', '            }\n        }\n        Ok(())\n    }\n\n    // Why'), '''                match key.as_str() {
                    "style" => match read_inline_css(&value) {
                        Ok(style) => element.style = style,
                        Err(error) => {
                            error!("unable to parse styles of {}, {error:?}", element.tag);
                        }
                    },
                    "id" => {
                        // the element is no longer known by its previous id
                        self.identified.retain(|_, identified| *identified != node);
                        self.identified.insert(value, node);
                    }
                    "src" if element.tag == "img" => {
                        self.model.update_img_src(node, value, &mut self.tree)?;
                    }
                    _ => {}
                }
'''))
R('rn-view-bind-early', (V, '''                    .ok_or(ViewError::AttributeBindingNotFound(key.clone()))?;
                attribute.set(span, text);
                let value = attribute.to_string();
                element.attrs.insert(key.clone(), value.clone());''', '''                    .ok_or_else(|| ViewError::AttributeBindingNotFound(key.clone()))?;
                attribute.set(span, text);
                let value = attribute.to_string();
                match element.attrs.get_mut(&key) {
                    Some(current) => *current = value.clone(),
                    None => {
                        element.attrs.insert(key.clone(), value.clone());
                    }
                }'''))
L('rn-view-bind-id', (V, '''                    self.identified.retain(|_, identified| *identified != node);
                    self.identified.insert(value.clone(), node);''', '''                    let previous: Vec<String> = self
                        .identified
                        .iter()
                        .filter(|(_, identified)| **identified == node)
                        .map(|(id, _)| id.clone())
                        .collect();
                    for id in previous {
                        self.identified.remove(&id);
                    }
                    self.identified.insert(value.clone(), node);'''))
R('rn-view-bind-style', (V, '''                    match read_inline_css(&value) {
                        Ok(style) => element.style = style,
                        Err(error) => {
                            error!("unable to parse styles of {}, {error:?}", element.tag);
                        }
                    }''', '''                    let declarations = read_inline_css(&value);
                    if let Err(error) = &declarations {
                        error!("unable to parse styles of {}, {error:?}", element.tag);
                    }
                    if let Ok(declarations) = declarations {
                        element.style = declarations;
                    }'''))
R('rn-view-default-flatten', (V, mid(V, '        let mut reactions = vec![];\n        for bindings in', '        for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        Ok(())\n    }\n\n    fn calc'), '''        let mut reactions = Vec::new();
        for binding in self.model.bindings.values().flatten() {
            if let BindingParams::Visibility(parent, node, condition) = binding.params {
                // values are null by default, only negative conditions are satisfied
                let visible = !condition;
                reactions.push(Reaction::Reattach { parent, node, visible })
            }
        }
'''))
R('rn-view-default-filter', (V, mid(V, '        let mut reactions = vec![];\n        for bindings in', '        for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        Ok(())\n    }\n\n    fn calc'), '''        let reactions: Vec<_> = self
            .model
            .bindings
            .values()
            .flat_map(|bindings| bindings.iter())
            .filter_map(|binding| match binding.params {
                BindingParams::Visibility(parent, node, visible) => Some((parent, node, !visible)),
                _ => None,
            })
            .map(|(parent, node, visible)| Reaction::Reattach { parent, node, visible })
            .collect();
'''))
R('rn-view-static-nested', (V, mid(V, '            let is_static = !has_dynamic_context\n', '        let children = self.tree.children(node)?;\n        for child in children {\n            self.calculate'), '''            let depends_on_attrs = style.has_attrs_selector(&hints.dynamic_attrs);
            let depends_on_classes = hints.has_dynamic_classes && style.has_class_selector();
            let depends_on_id = hints.has_dynamic_id && style.has_id_selector();
            let depends_on_self = hints.has_dynamic_properties()
                && (depends_on_attrs || depends_on_classes || depends_on_id);
            let is_dynamic = has_dynamic_context || depends_on_self;
            let style = style.clone();
            match (matches_ignoring_pseudo, is_dynamic) {
                (true, false) if !has_pseudo => element.styles.push(ElementStyle::Static(style)),
                (false, false) => {
                    // discard, we do not handle styles that will never be applied
                }
                _ => element.styles.push(ElementStyle::Dynamic(style)),
            }
        }
'''))
R('rn-view-static-fn', (V, mid(V, '            let is_static = !has_dynamic_context\n', '            if matches_ignoring_pseudo {'), '''            let is_static = !has_dynamic_context && !depends_on_bindings(style, hints);
'''), (V, 'fn measure_text<F', '''fn depends_on_bindings(style: &crate::css::Style, hints: &crate::element::ElementStyleHints) -> bool {
    if !hints.has_dynamic_properties() {
        return false;
    }
    if hints.has_dynamic_id && style.has_id_selector() {
        return true;
    }
    if hints.has_dynamic_classes && style.has_class_selector() {
        return true;
    }
    style.has_attrs_selector(&hints.dynamic_attrs)
}

fn measure_text<F'''))
R('rn-view-static-wrap', (V, mid(V, '            if matches_ignoring_pseudo {\n                if is_static && !has_pseudo', '        let children = self.tree.children(node)?;\n        for child in children {\n            self.calculate'), '''            if is_static && !matches_ignoring_pseudo {
                // discard, we do not handle styles that will never be applied
                continue;
            }
            let constant = is_static && !has_pseudo;
            let wrap = if constant { ElementStyle::Static } else { ElementStyle::Dynamic };
            element.styles.push(wrap(style.clone()));
        }
'''))
R('rn-view-styles-text', (V, '''        if element.text.is_some() {
            let font = element.font.clone();
            inherit(parent, element);
            if element.font != font {
                // the size of text depends on its font
                self.tree.mark_dirty(node)?;
            }
            return Ok(());
        }
''', '''        if let Some(_) = &element.text {
            let before = element.font.clone();
            inherit(parent, element);
            // the size of text depends on its font
            return if before == element.font {
                Ok(())
            } else {
                self.tree.mark_dirty(node)?;
                Ok(())
            };
        }
'''))
R('rn-view-styles-guard', (V, mid(V, '        match element.tag.as_str() {\n            "img" => {\n                // self', '        Ok(())\n    }\n\n    #[inline(always)]\n    pub fn get_element_by_id'), '''        let is_void = matches!(
            element.tag.as_str(),
            "img" | "input" | "area" | "base" | "br" | "col" | "command" | "embed" | "hr"
                | "keygen" | "link" | "meta" | "param" | "source" | "track" | "wbr"
        );
        if is_void {
            return Ok(());
        }
        let sizes = Sizes {
            parent_font_size: element.font.size,
            parent_color: element.color,
            ..sizes
        };
        for child in self.tree.children(node)? {
            self.apply_styles(child, input, sizes, variables.clone())?;
        }

'''), (V, '''        input: &Input,
        mut sizes: Sizes,''', '''        input: &Input,
        sizes: Sizes,'''))
R('rn-view-styles-layout', (V, '''        if self.tree.style(node)? != &layout {
            self.metrics.layouts.inc();
            self.tree.set_style(node, layout)?;
        }''', '''        let unchanged = *self.tree.style(node)? == layout;
        if !unchanged {
            self.tree.set_style(node, layout)?;
            self.metrics.layouts.inc();
        }'''))
R('rn-view-fragment-loop', (V, mid(V, '        match self.tree.children(self.element.node) {', '    }\n}\n\nimpl Deref'), '''        let mut fragments = vec![];
        match self.tree.children(self.element.node) {
            Ok(children) => {
                for node in children {
                    fragments.push(Fragment {
                        element: self.tree.get_node_context(node).unwrap(),
                        tree: self.tree,
                    });
                }
            }
            Err(error) => error!("unable to traverse fragment, {error:?}"),
        }
        fragments
'''))
R('rn-view-by-id', (V, '''        self.identified
            .get(id)
            .and_then(|node| self.tree.get_element(*node).ok())''', '''        let node = *self.identified.get(id)?;
        match self.tree.get_element(node) {
            Ok(element) => Some(element),
            Err(_) => None,
        }'''))
R('rn-view-reattach-revpos', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let following = current.iter().rev().position(|sibling| before.contains(sibling));
                        let index = match following {
                            Some(following) => current.len() - following,
                            None => 0,
                        };
'''))


def B(name, prop, *edits):
    VARIANTS.append((name, prop, list(edits)))


B('bn-reattach-filter', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let index = current
                            .iter()
                            .filter(|sibling| definition[definition_index..].contains(sibling))
                            .count();
'''))
B('bn-reattach-filter2', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let index = current
                            .iter()
                            .filter(|sibling| definition[..definition_index].contains(sibling) && *sibling != &definition[0])
                            .count();
'''))
B('bn-reattach-rpos', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let index = current
                            .iter()
                            .rposition(|sibling| before.contains(sibling))
                            .unwrap_or(0);
'''))
B('bn-reattach-revpos', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let following = current.iter().rev().position(|sibling| before.contains(sibling));
                        let index = match following {
                            Some(following) => current.len() - following - 1,
                            None => 0,
                        };
'''))
B('bn-reattach-pos', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let index = current
                            .iter()
                            .position(|sibling| before.contains(sibling))
                            .map(|index| index + 1)
                            .unwrap_or(0);
'''))
B('bn-reattach-rest', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let after = &definition[definition_index + 2..];
                        let index = current
                            .iter()
                            .position(|sibling| after.contains(sibling))
                            .unwrap_or(current.len());
'''))
B('bn-reattach-while', 'C11', (V, mid(V, '                        let mut index = current.len().min', '                        self.tree.insert_child_at_index'), '''                        let before = &definition[..definition_index];
                        let index = current
                            .iter()
                            .take_while(|sibling| before.contains(sibling))
                            .skip(1)
                            .count();
'''))
B('bn-update-filter', 'C12', (V, '''        for reaction in reactions {
            self.update_tree(reaction)?;
        }
        // detect''', '''        for reaction in reactions
            .into_iter()
            .filter(|reaction| !matches!(reaction, Reaction::Tag { tag: false, .. }))
        {
            self.update_tree(reaction)?;
        }
        // detect'''))
B('bn-final-filter', 'C13', (V, '''        for child in self.tree.children(node)? {
            self.compute_final''', '''        let shown = self.tree.children(node)?;
        let shown = shown.into_iter().filter(|child| {
            self.tree.get_element(*child).map(|child| child.text.is_none()).unwrap_or(true)
        });
        for child in shown.collect::<Vec<_>>() {
            self.compute_final'''))
B('bn-styles-filter', 'C12', (V, '''                let children = self.tree.children(node)?;
                for child in children {
                    sizes''', '''                let children = self.tree.children(node)?;
                let root = self.root;
                for child in children.into_iter().filter(|child| *child != root) {
                    sizes'''))
B('bn-default-filter', 'C11', (V, mid(V, '        let mut reactions = vec![];\n        for bindings in', '        for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        Ok(())\n    }\n\n    fn calc'), '''        let reactions: Vec<_> = self
            .model
            .bindings
            .values()
            .flat_map(|bindings| bindings.iter())
            .filter_map(|binding| match binding.params {
                BindingParams::Visibility(parent, node, visible) if binding.pipe.is_empty() => Some((parent, node, !visible)),
                _ => None,
            })
            .map(|(parent, node, visible)| Reaction::Reattach { parent, node, visible })
            .collect();
'''))
B('bn-hover-filter', 'C01', (M, '''        for child in tree.children(node)? {
            self.calculate''', '''        for child in tree.children(node)?.into_iter().filter(|child| *child != node) {
            self.calculate'''))

# ---------------------------------------------------------------- animation.rs, scrolling.rs, inherit.rs, compute_function.rs
SC, IN = 'src/styles/scrolling.rs', 'src/styles/inherit.rs'
R('rn-an-default-derive', (A, mid(A, 'impl Default for Transition {', 'impl Transition {'), ''), (A, """#[derive(Clone)]
pub struct Transition {""", """#[derive(Clone, Default)]
pub struct Transition {"""))
R('rn-an-init-for', (A, mid(A, '        let mut index = self.ranges.len();\n', '    pub fn play(&mut self, time: f32, style'), """        for index in self.ranges.len().. {
            let Some(value) = style.get(&PropertyDescriptor::new(key, index)) else {
                break;
            };
            self.ranges.push((value.clone(), value.clone()));
        }
    }

"""))
R('rn-an-init-loop', (A, mid(A, '        let key = match self.key {\n            Some(key) => key,\n            None => return,\n        };\n        let mut index', '    pub fn play(&mut self, time: f32, style'), """        let Some(key) = self.key else { return };
        loop {
            let layer = PropertyDescriptor::new(key, self.ranges.len());
            match style.get(&layer) {
                Some(value) => {
                    let value = value.clone();
                    self.ranges.push((value.clone(), value));
                }
                None => break,
            }
        }
    }

"""))
R('rn-an-init-iflet', (A, mid(A, '        let key = match self.key {\n            Some(key) => key,\n            None => return,\n        };\n        let mut index', '    pub fn play(&mut self, time: f32, style'), """        if let Some(key) = self.key {
            let mut index = self.ranges.len();
            while let Some(value) = style.get(&PropertyDescriptor::new(key, index)).cloned() {
                self.ranges.push((value.clone(), value));
                index = self.ranges.len();
            }
        }
    }

"""))
R('rn-an-play-else', (A, """        let time = match self.animator.update(time) {
            Some(time) => time,
            // the value to start from is in effect during the delay
            None if self.animator.duration > 0.0 => 0.0,
            None => return,
        };""", """        let time = match self.animator.update(time) {
            Some(time) => time,
            None => {
                if self.animator.duration <= 0.0 {
                    return;
                }
                // the value to start from is in effect during the delay
                0.0
            }
        };"""))
R('rn-an-play-dur', (A, """        let time = match self.animator.update(time) {
            Some(time) => time,
            // the value to start from is in effect during the delay
            None if self.animator.duration > 0.0 => 0.0,
            None => return,
        };""", """        if !(self.animator.duration > 0.0) {
            return;
        }
        // the value to start from is in effect during the delay
        let time = self.animator.update(time).unwrap_or(0.0);"""))
R('rn-an-play-vecs', (A, mid(A, '        let mut layers = vec![];\n        for (index, (from, to))', '        if changed {\n            self.ranges = layers;'), """        let mut layers = Vec::with_capacity(self.ranges.len());
        for (index, range) in self.ranges.iter().enumerate() {
            let layer = PropertyDescriptor::new(key, index);
            let Some(value) = style.get(&layer).cloned() else {
                break;
            };
            let (from, to) = range;
            if *to != value {
                changed = true;
            }
            let current = animate(key, from, to, time);
            layers.push((current, value));
        }
        for (index, layer) in layers.iter().enumerate() {
            let (current, _) = layer;
            style.insert(PropertyDescriptor::new(key, index), current.clone());
        }
"""))
L('rn-an-play-any', (A, mid(A, '        let mut changed = false;\n        let mut layers = vec![];', '        if changed {\n            self.ranges = layers;'), """        let mut layers = vec![];
        for (index, (from, to)) in self.ranges.iter().enumerate() {
            let value = match style.get(&PropertyDescriptor::new(key, index)) {
                Some(value) => value.clone(),
                None => break,
            };
            layers.push((animate(key, from, to, time), value));
        }
        let changed = layers
            .iter()
            .zip(self.ranges.iter())
            .any(|((_, value), (_, to))| to != value);
        for (index, (current, _)) in layers.iter().enumerate() {
            style.insert(PropertyDescriptor::new(key, index), current.clone());
        }
"""))
R('rn-an-reset-fields', (A, """        *self = Self {
            name: std::mem::take(&mut self.name),
            time: self.time,
            ..Self::default()
        };""", """        let initial = Self::default();
        self.delay = initial.delay;
        self.direction = initial.direction;
        self.duration = initial.duration;
        self.fill_mode = initial.fill_mode;
        self.timing = initial.timing;
        self.iterations = initial.iterations;
        self.running = initial.running;"""))
R('rn-an-reset-replace', (A, """        *self = Self {
            name: std::mem::take(&mut self.name),
            time: self.time,
            ..Self::default()
        };""", """        let previous = std::mem::take(self);
        self.name = previous.name;
        self.time = previous.time;"""))
R('rn-an-play-tracks', (A, """        if let Some(time) = self.update(time) {
            let step = (time * 100.0) as u32;
            for track in tracks {
                self.play_track(track, step, style);
            }
        }""", """        let Some(progress) = self.update(time) else {
            return;
        };
        let step = (progress * 100.0) as u32;
        tracks
            .iter()
            .for_each(|track| self.play_track(track, step, style));"""))
R('rn-an-track-range', (A, mid(A, '        let mut a = 0;\n        let mut b = 0;\n', '        if b > a {'), """        let mut a = 0;
        let mut b = 0;
        for &step in track.frames.keys() {
            if step <= t {
                a = step;
            }
            if step >= t {
                b = step;
                break;
            }
        }
"""))
R('rn-an-track-two', (A, mid(A, '        let mut a = 0;\n        let mut b = 0;\n', '        if b > a {'), """        let mut a = 0;
        let mut b = 0;
        for step in track.frames.keys().copied() {
            if t < step {
                b = step;
                break;
            }
            a = step;
            if t == step {
                b = step;
                break;
            }
        }
"""))
L('rn-an-track-last', (A, mid(A, '        let mut a = 0;\n        let mut b = 0;\n', '        if b > a {'), """        let a = track.frames.keys().copied().filter(|step| *step <= t).last().unwrap_or(0);
        let b = track.frames.keys().copied().find(|step| *step >= t).unwrap_or(0);
"""))
R('rn-an-track-early', (A, mid(A, '        if b > a {\n            let t = ', '    pub fn update'), """        let result = if b <= a {
            // last or exact frame (no interpolation)
            track.frames[&a].clone()
        } else {
            let progress = (t - a) as f32 / (b - a) as f32;
            animate(track.descriptor.key, &track.frames[&a], &track.frames[&b], progress)
        };
        style.insert(track.descriptor, result);
    }

"""))
R('rn-an-update-if', (A, mid(A, '        if self.running {\n            self.time += time;', '\npub fn animate('), """        self.time += if self.running { time } else { 0.0 };
        let played = self.time - self.delay;
        if played < 0.0 {
            return None;
        }
        let mut cycles = played / self.duration;
        if let AnimationIterations::Number(iterations) = self.iterations {
            cycles = cycles.min(iterations);
        }
        match cycles.fract() {
            // stop at last frame 1.0 (100%)
            rest if rest == 0.0 && cycles > 0.0 => Some(1.0),
            rest => Some(rest),
        }
    }
}
"""))
R('rn-an-animate-if', (A, """        (Percentage(a), Zero) => {
            let percentage = percentage(a, &0.0, t);
            if Percentage(0.0) == percentage {
                Zero
            } else {
                percentage
            }
        }""", """        (Percentage(a), Zero) => match percentage(a, &0.0, t) {
            Percentage(value) if value == 0.0 => Zero,
            percentage => percentage,
        },"""))
R('rn-an-animate-discrete', (A, """        (a, b) => {
            // discrete
            (if t < 0.5 { a } else { b }).clone()
        }""", """        // discrete
        (a, _) if t < 0.5 => a.clone(),
        (_, b) => b.clone(),"""))
R('rn-an-color-fn', (A, mid(A, '    let r = (x[0] as f32', '    Color([r, g, b, a])'), """    let channel = |i: usize| {
        let (from, to) = (x[i] as f32, y[i] as f32);
        (from + (to - from) * t).max(0.0) as u8
    };
    let [r, g, b, a] = [channel(0), channel(1), channel(2), channel(3)];
"""))
R('rn-an-color-fromfn', (A, mid(A, '    let r = (x[0] as f32', '}\n\nfn dimension('), """    let mut color = [0; 4];
    for i in 0..4 {
        let (from, to) = (x[i] as f32, y[i] as f32);
        color[i] = (from + (to - from) * t).max(0.0) as u8;
    }
    Color(color)
"""))
R('rn-an-lerp', (A, 'value: a.value + (b.value - a.value) * t,', 'value: lerp(a.value, b.value, t),'), (A, 'Percentage(a + (b - a) * t)', 'Percentage(lerp(*a, *b, t))'), (A, 'Number(a + (b - a) * t)', 'Number(lerp(*a, *b, t))'), (A, 'fn percentage(a: &f32', """#[inline]
fn lerp(from: f32, to: f32, t: f32) -> f32 {
    let distance = to - from;
    from + distance * t
}

fn percentage(a: &f32"""))
R('rn-an-dim-early', (A, mid(A, '    // TODO: convertable units\n', 'fn percentage('), """    if a.unit == b.unit {
        let mut dim = *a;
        dim.value += (b.value - a.value) * t;
        return Dimension(dim);
    }
    // TODO: convertable units
    match t < 0.5 {
        true => Dimension(*a),
        false => Dimension(*b),
    }
}

"""))
R('rn-sc-guard', (SC, mid(SC, '        let content = layout.content_size;\n', '    pub fn offset'), """        let (content, size) = (layout.content_size, layout.size);
        if content.width <= size.width && content.height <= size.height {
            return None;
        }
        let (x, y) = match current {
            Some(current) => (current.x, current.y),
            None => (0.0, 0.0),
        };
        // content may exceed the box in one direction only
        let scroll_x = f32::max(content.width - size.width, 0.0);
        let scroll_y = f32::max(content.height - size.height, 0.0);
        Some(Scrolling {
            x: f32::min(x, scroll_x),
            y: f32::min(y, scroll_y),
            scroll_x,
            scroll_y,
        })
    }

"""))
R('rn-sc-clone', (SC, mid(SC, '        let [x, y] = current\n', '        } else {\n            None'), """        if content.width > size.width || content.height > size.height {
            let mut scrolling = current.clone().unwrap_or_default();
            // content may exceed the box in one direction only
            scrolling.scroll_x = (content.width - size.width).max(0.0);
            scrolling.scroll_y = (content.height - size.height).max(0.0);
            scrolling.x = scrolling.x.min(scrolling.scroll_x);
            scrolling.y = scrolling.y.min(scrolling.scroll_y);
            Some(scrolling)
"""))
R('rn-sc-offset-clamp', (SC, mid(SC, '        let [x, y] = wheel;\n', '    }\n}\n'), """        const STEP: f32 = 50.0;
        let [x, y] = wheel;
        if x != 0.0 {
            let target = self.x + STEP * x.signum();
            self.x = target.min(self.scroll_x).max(0.0);
        }
        if y != 0.0 {
            let target = self.y - STEP * y.signum();
            self.y = target.min(self.scroll_y).max(0.0);
        }
"""))
R('rn-sc-offset-fn', (SC, mid(SC, '        if x != 0.0 {\n', '    }\n}\n'), """        if x != 0.0 {
            self.x = limit(self.x + x.signum() * 50.0, self.scroll_x);
        }
        if y != 0.0 {
            self.y = limit(self.y - y.signum() * 50.0, self.scroll_y);
        }
"""), (SC, 'impl Scrolling {', """fn limit(offset: f32, max: f32) -> f32 {
    offset.min(max).max(0.0)
}

impl Scrolling {"""))
R('rn-in-destructure', (IN, '    element.font.family = parent.font.family.clone();', """    let font = &parent.font;
    element.font.family.clone_from(&font.family);"""), (IN, '    element.font.size = parent.font.size;', '    element.font.size = font.size;'))
R('rn-in-whole', (IN, '    element.font.family = parent.font.family.clone();\n', """    element.font = FontFace {
        family: parent.font.family.clone(),
        size: parent.font.size,
        style: parent.font.style.clone(),
        weight: parent.font.weight,
        line_height: parent.font.line_height,
        align: element.font.align.clone(),
    };
"""), (IN, '    element.font.size = parent.font.size;\n', ''), (IN, '    element.font.style = parent.font.style.clone();\n', ''), (IN, '    element.font.weight = parent.font.weight;\n', ''), (IN, '    element.font.line_height = parent.font.line_height;\n', ''), (IN, 'use crate::Element;', 'use crate::{Element, FontFace};'))
R('rn-fn-shared', (FN, mid(FN, '#[inline(always)]\nfn map_c', '~END~') if False else """        ComputedValue::Zero => 0,
        ComputedValue::Percentage(value) => (*value * 255.0) as u8,
        Number(value) => *value as u8,
        _ => 0
    }""", """        ComputedValue::Percentage(value) => (value * 255.0) as u8,
        Number(value) => *value as u8,
        _ => 0,
    }"""))
R('rn-fn-opaque', (FN, """            ("rgb", [r, g, b]) => {
                Color([map_c(r), map_c(g), map_c(b), 255])
            }
            ("rgba", [r, g, b, a]) => {
                Color([map_c(r), map_c(g), map_c(b), map_a(a)])
            }""", """            ("rgb", [r, g, b]) => color([r, g, b], u8::MAX),
            ("rgba", [r, g, b, a]) => color([r, g, b], map_a(a)),"""), (FN, """#[inline(always)]
fn map_c""", """fn color(channels: [&ComputedValue; 3], alpha: u8) -> ComputedValue {
    let [r, g, b] = channels.map(map_c);
    Color([r, g, b, alpha])
}

#[inline(always)]
fn map_c"""))
R('rn-fn-name-match', (FN, mid(FN, '        let computed_value = match (name', '        shorthand.push(computed_value);'), """        let computed_value = match name {
            "rgb" if arguments.len() == 3 => Color([
                map_c(&arguments[0]),
                map_c(&arguments[1]),
                map_c(&arguments[2]),
                255,
            ]),
            "rgba" if arguments.len() == 4 => {
                let alpha = map_a(&arguments[3]);
                Color([map_c(&arguments[0]), map_c(&arguments[1]), map_c(&arguments[2]), alpha])
            }
            // "url" => Str(format!("{}/{}", self.resources, path)),
            "url" if matches!(arguments.as_slice(), [Str(_)]) => arguments[0].clone(),
            _ => {
                error!("unable to compute function {name}({arguments:?}), not supported");
                ComputedValue::Error
            }
        };
"""))
R('rn-fn-return', (FN, mid(FN, '            // ("url", [Str(path)]) => Str(f', '        shorthand.push(computed_value);'), """            // ("url", [Str(path)]) => Str(format!("{}/{}", self.resources, path)),
            ("url", [Str(path)]) => Str(path.clone()),
            _ => {
                error!("unable to compute function {name}({arguments:?}), not supported");
                return shorthand.push(ComputedValue::Error);
            }
        };
"""))

# ---------------------------------------------------------------- styles/mod.rs, compute_style.rs, compute_animation_tracks.rs, css/matching.rs
R('rn-st-match-or', (ST, mid(ST, '        for style in element.styles.iter() {\n', '        // 2: inline css'), '''        for style in element.styles.iter() {
            let style = match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    style
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    if !match_style(style, node, tree, matcher) {
                        continue;
                    }
                    style
                }
            };
            self.compute_declaration_block(&style.declaration, &mut computed_style);
        }
'''))
R('rn-st-match-flag', (ST, mid(ST, '        for style in element.styles.iter() {\n', '        // 2: inline css'), '''        for style in &element.styles {
            let (style, matches) = match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    (style, true)
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    (style, match_style(&style, node, tree, matcher))
                }
            };
            if matches {
                self.compute_declaration_block(&style.declaration, &mut computed_style);
            }
        }
'''))
R('rn-st-inline-always', (ST, '''        if !element.style.is_empty() {
            self.compute_declaration_block(&element.style, &mut computed_style);
        }''', '''        let inline = element.style.as_slice();
        self.compute_declaration_block(inline, &mut computed_style);'''))
R('rn-st-truncate-fn', (ST, mid(ST, '        let animators = count_layers(&computed_style, PropertyKey::AnimationName);\n', '        // 3: animations'), '''        let layers = |key: PropertyKey| count_layers(&computed_style, key);
        element.animators.truncate(layers(PropertyKey::AnimationName));
        element.transitions.truncate(layers(PropertyKey::TransitionProperty));
'''))
R('rn-st-anim-iflet', (ST, mid(ST, '            // TODO: animation blending\n', '        // TODO: !important'), '''            // TODO: animation blending
            if let Some(animation) = self.css.animations.get(animator.name.as_str()) {
                // TODO: cache animation computation ?
                let tracks = self.compute_animation_tracks(animation, &computed_style);
                animator.play(time, &tracks, &mut computed_style);
            } else {
                error!("unable to play animation {}, not found", animator.name);
            }
        }
'''))
R('rn-st-anim-else', (ST, mid(ST, '            // TODO: animation blending\n', '        // TODO: !important'), '''            // TODO: animation blending
            let Some(animation) = self.css.animations.get(&animator.name) else {
                error!("unable to play animation {}, not found", animator.name);
                continue;
            };
            animator.play(
                time,
                &self.compute_animation_tracks(animation, &computed_style),
                &mut computed_style,
            );
        }
'''))
R('rn-st-reset-chain', (ST, '''        for animator in element.animators.iter_mut() {
            animator.reset();
        }
        for transition in element.transitions.iter_mut() {
            transition.animator.reset();
        }''', '''        element.animators.iter_mut().for_each(|animator| animator.reset());
        element
            .transitions
            .iter_mut()
            .map(|transition| &mut transition.animator)
            .for_each(Animator::reset);'''), (ST, 'use crate::styles::stats', 'use crate::animation::Animator;\nuse crate::styles::stats'))
R('rn-st-apply-match', (ST, mid(ST, '            if let Err(error) = self.apply(property.key', '        for transition in element.transitions.iter_mut() {\n            transition.init'), '''            let applied = self.apply(property.key, property.index, value, layout, element);
            match applied {
                Ok(()) => self.stats.apply_ok += 1,
                Err(error) => {
                    self.stats.apply_error += 1;
                    error!("unable to apply {property:?}:{value:?} because of {error:?}");
                }
            }
        }
'''))
R('rn-st-block-enumerate', (ST, '''                    for index in 0..property.values.len() {
                        self.compute_style(property.key, index, &property.values[index], style);
                    }''', '''                    for (layer, definition) in property.values.iter().enumerate() {
                        self.compute_style(property.key, layer, definition, style);
                    }'''))
R('rn-st-block-each', (ST, mid(ST, '        for declaration in block {\n', '    }\n\n    fn compute_shorthand'), '''        block.iter().for_each(|declaration| match declaration {
            Declaration::Variable(variable) => self.set_variable(variable),
            Declaration::Property(property) => property
                .values
                .iter()
                .enumerate()
                .for_each(|(index, value)| self.compute_style(property.key, index, value, style)),
        });
'''))
R('rn-st-block-while', (ST, '''                    for index in 0..property.values.len() {
                        self.compute_style(property.key, index, &property.values[index], style);
                    }''', '''                    let mut index = 0;
                    while index < property.values.len() {
                        let definition = &property.values[index];
                        self.compute_style(property.key, index, definition, style);
                        index += 1;
                    }'''))
R('rn-st-var-match', (ST, mid(ST, '                    let definition = match self.get_variable(name) {', '                Definition::Function(function) => {'), '''                    match self.get_variable(name) {
                        None => {
                            error!("unable to compute variable {name}, not found");
                            shorthand.push(ComputedValue::Error);
                        }
                        Some(_) if resolving.contains(name) => {
                            error!("unable to compute variable {name}, refers to itself");
                            shorthand.push(ComputedValue::Error);
                        }
                        Some(definition) => {
                            resolving.push(name.to_string());
                            self.compute_shorthand(definition, shorthand, resolving);
                            resolving.pop();
                        }
                    }
                }
'''))
R('rn-st-var-any', (ST, 'if resolving.contains(name) {', 'if resolving.iter().any(|other| other == name) {'))
R('rn-st-var-fail', (ST, mid(ST, '                    let definition = match self.get_variable(name) {', '                Definition::Function(function) => {'), '''                    let resolved = self
                        .get_variable(name)
                        .ok_or("not found")
                        .and_then(|definition| {
                            if resolving.contains(name) {
                                Err("refers to itself")
                            } else {
                                Ok(definition)
                            }
                        });
                    match resolved {
                        Ok(definition) => {
                            resolving.push(name.clone());
                            self.compute_shorthand(definition, shorthand, resolving);
                            resolving.pop();
                        }
                        Err(reason) => {
                            error!("unable to compute variable {name}, {reason}");
                            shorthand.push(ComputedValue::Error);
                        }
                    }
                }
'''))
R('rn-st-set-entry', (ST, '''        self.variables
            .insert(variable.key.clone(), variable.shorthand.clone());''', '''        let Variable { key, shorthand } = variable;
        self.variables.insert(key.to_owned(), shorthand.to_vec());'''))
R('rn-st-count-iter', (ST, mid(ST, '    let mut index = 0;\n    while style.contains_key', '}\n\n#[derive(Clone, Copy)]\npub struct Sizes'), '''    (0..)
        .take_while(|index| style.contains_key(&PropertyDescriptor::new(key, *index)))
        .count()
'''))
R('rn-st-count-loop', (ST, mid(ST, '    let mut index = 0;\n    while style.contains_key', '}\n\n#[derive(Clone, Copy)]\npub struct Sizes'), '''    let mut count = 0;
    loop {
        let layer = PropertyDescriptor::new(key, count);
        if !style.contains_key(&layer) {
            return count;
        }
        count += 1;
    }
'''))
R('rn-st-count-get', (ST, 'while style.contains_key(&PropertyDescriptor::new(key, index)) {', 'while style.get(&PropertyDescriptor { key, index }).is_some() {'))
R('rn-cs-layer-loop', (CS, mid(CS, '    let mut above = index + 1;\n', '~') if False else '''    let mut above = index + 1;
    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }''', '''    for above in index + 1.. {
        if style.remove(&PropertyDescriptor::new(key, above)).is_none() {
            break;
        }
    }'''))
R('rn-cs-layer-let', (CS, '''    let mut above = index + 1;
    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }''', '''    let mut layer = PropertyDescriptor::new(key, index + 1);
    while let Some(_) = style.remove(&layer) {
        layer.index += 1;
    }'''))
R('rn-cs-layer-contains', (CS, '''    let mut above = index + 1;
    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }''', '''    let mut above = index + 1;
    while style.contains_key(&PropertyDescriptor::new(key, above)) {
        style.remove(&PropertyDescriptor::new(key, above));
        above += 1;
    }'''))
R('rn-cs-layer-retain', (CS, '''    let mut above = index + 1;
    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }''', '''    style.retain(|layer, _| layer.key != key || layer.index <= index);'''))
R('rn-cs-shorthand-order', (CS, '''                overwrite(PropertyKey::BackgroundImage, &Keyword("none".to_string()));
                overwrite(PropertyKey::BackgroundColor, color);''', '''                overwrite(PropertyKey::BackgroundColor, color);
                let none = Keyword(String::from("none"));
                overwrite(PropertyKey::BackgroundImage, &none);'''))
R('rn-cs-animation-tail', (CS, '''                overwrite(PropertyKey::AnimationDelay, &Time(*delay));
                overwrite(PropertyKey::AnimationDuration, duration);
                overwrite(PropertyKey::AnimationName, name);
                overwrite(PropertyKey::AnimationTimingFunction, timing);
            }''', '''                let delay = Time(*delay);
                overwrite(PropertyKey::AnimationDuration, duration);
                overwrite(PropertyKey::AnimationTimingFunction, timing);
                overwrite(PropertyKey::AnimationDelay, &delay);
                overwrite(PropertyKey::AnimationName, name);
            }'''))
R('rn-cs-each', (CS, '''            (PropertyKey::Padding, [value]) => {
                overwrite(PropertyKey::PaddingTop, value);
                overwrite(PropertyKey::PaddingRight, value);
                overwrite(PropertyKey::PaddingBottom, value);
                overwrite(PropertyKey::PaddingLeft, value);
            }''', '''            (PropertyKey::Padding, [value]) => [
                PropertyKey::PaddingTop,
                PropertyKey::PaddingRight,
                PropertyKey::PaddingBottom,
                PropertyKey::PaddingLeft,
            ]
            .into_iter()
            .for_each(|side| overwrite(side, value)),'''))
R('rn-cs-zip', (CS, '''            (PropertyKey::Margin, [top, right, bottom, left]) => {
                overwrite(PropertyKey::MarginTop, top);
                overwrite(PropertyKey::MarginRight, right);
                overwrite(PropertyKey::MarginBottom, bottom);
                overwrite(PropertyKey::MarginLeft, left);
            }''', '''            (PropertyKey::Margin, values) if values.len() == 4 => {
                let sides = [
                    PropertyKey::MarginTop,
                    PropertyKey::MarginRight,
                    PropertyKey::MarginBottom,
                    PropertyKey::MarginLeft,
                ];
                for (side, value) in sides.into_iter().zip(values) {
                    overwrite(side, value);
                }
            }'''))
R('rn-tr-default', (TR, '.or_insert_with(HashMap::new);', '.or_default();'), (TR, 'let mut computed_keyframe_styles = BTreeMap::new();', 'let mut computed_keyframe_styles: BTreeMap<u32, ComputedStyle> = BTreeMap::new();'))
R('rn-tr-iflet', (TR, mid(TR, '                match declaration {\n', '            animated_properties.extend'), '''                let property = match declaration {
                    Declaration::Property(property) => property,
                    Declaration::Variable(variable) => {
                        error!(
                            "can't define variable {} in animation {} keyframe {}, not supported",
                            variable.key, animation.name, keyframe.step
                        );
                        continue;
                    }
                };
                for (index, value) in property.values.iter().enumerate() {
                    self.compute_style(property.key, index, value, keyframe_style);
                }
            }
'''))
R('rn-tr-extend-loop', (TR, '            animated_properties.extend(keyframe_style.keys());\n', '''            for property in keyframe_style.keys() {
                animated_properties.insert(*property);
            }
'''))
R('rn-tr-extend-late', (TR, '            animated_properties.extend(keyframe_style.keys());\n', ''), (TR, '        let from = computed_keyframe_styles', '''        for keyframe_style in computed_keyframe_styles.values() {
            animated_properties.extend(keyframe_style.keys().copied());
        }
        let from = computed_keyframe_styles'''))
R('rn-tr-ends-entry', (TR, '''            if !from.contains_key(property) {
                let value = match style.get(property) {
                    Some(value) => value.clone(),
                    None => initial(property.key),
                };
                from.insert(*property, value);
            }''', '''            from.entry(*property).or_insert_with(|| {
                style
                    .get(property)
                    .cloned()
                    .unwrap_or_else(|| initial(property.key))
            });'''))
R('rn-tr-ends-loop', (TR, mid(TR, '        let from = computed_keyframe_styles.entry(0)', '        let mut tracks: HashMap'), '''        for step in [0, 100] {
            let keyframe_style = computed_keyframe_styles.entry(step).or_default();
            for property in &animated_properties {
                if keyframe_style.contains_key(property) {
                    continue;
                }
                let value = match style.get(property) {
                    Some(value) => value.clone(),
                    None => initial(property.key),
                };
                keyframe_style.insert(*property, value);
            }
        }
'''))
R('rn-tr-ends-fn', (TR, mid(TR, '        let from = computed_keyframe_styles.entry(0)', '        let mut tracks: HashMap'), '''        let complete = |keyframe_style: &mut ComputedStyle| {
            for property in &animated_properties {
                if !keyframe_style.contains_key(property) {
                    let value = style.get(property).cloned();
                    let value = value.unwrap_or_else(|| initial(property.key));
                    keyframe_style.insert(*property, value);
                }
            }
        };
        complete(computed_keyframe_styles.entry(0).or_default());
        complete(computed_keyframe_styles.entry(100).or_default());
'''))
R('rn-tr-tracks-match', (TR, mid(TR, '                let track =\n', '        tracks.into_values()'), '''                match tracks.get_mut(&property) {
                    Some(track) => {
                        track.frames.insert(step, value);
                    }
                    None => {
                        let mut frames = BTreeMap::new();
                        frames.insert(step, value);
                        let track = AnimationTrack {
                            descriptor: property,
                            frames,
                        };
                        tracks.insert(property, track);
                    }
                }
            }
        }
'''))
R('rn-tr-tracks-frames', (TR, mid(TR, '        let mut tracks: HashMap<', '    }\n}\n'), '''        let mut tracks: HashMap<PropertyDescriptor, BTreeMap<u32, _>> = HashMap::new();
        for (step, style) in computed_keyframe_styles {
            for (property, value) in style {
                tracks.entry(property).or_default().insert(step, value);
            }
        }
        tracks
            .into_iter()
            .map(|(descriptor, frames)| AnimationTrack { descriptor, frames })
            .collect()
'''))
R('rn-ma-style-loop', (MA, '''    style
        .selectors
        .iter()
        .any(|selector| match_complex_selector(selector, node, tree, matcher))''', '''    for selector in &style.selectors {
        if match_complex_selector(selector, node, tree, matcher) {
            return true;
        }
    }
    false'''))
R('rn-ma-complex-all', (MA, mid(MA, '    let mut element = tree.get_node_context(target).unwrap();\n', 'fn find_next_target'), '''    selector.selectors.iter().rev().all(|component| {
        match component.as_combinator() {
            Some(combinator) => find_next_target(combinator, &mut target, tree),
            None => {
                let element = tree.get_node_context(target).unwrap();
                match_simple_selector(component, element, matcher)
            }
        }
    })
}

'''))
R('rn-ma-complex-index', (MA, mid(MA, '    for component in selector.selectors.iter().rev() {\n', 'fn find_next_target'), '''    let mut index = selector.selectors.len();
    while index > 0 {
        index -= 1;
        let component = &selector.selectors[index];
        let matches = match component.as_combinator() {
            None => match_simple_selector(component, element, matcher),
            Some(combinator) => {
                let found = find_next_target(combinator, &mut target, tree);
                if found {
                    element = tree.get_node_context(target).unwrap();
                }
                found
            }
        };
        if !matches {
            return false;
        }
    }
    true
}

'''))
R('rn-ma-next-sibling', (MA, mid(MA, "        '+' => tree\n", '        _ => {\n            // TODO: multi'), '''        '+' => tree
            .parent(*target)
            .and_then(|parent| tree.children(parent).ok())
            .and_then(|children| {
                let index = children.iter().position(|child| child == target)?;
                if index == 0 {
                    return None;
                }
                Some(children[index - 1])
            }),
'''))
R('rn-ma-next-checked', (MA, mid(MA, "        '+' => tree\n", '        _ => {\n            // TODO: multi'), '''        '+' => {
            let children = match tree.parent(*target) {
                Some(parent) => tree.children(parent).unwrap_or_default(),
                None => vec![],
            };
            children
                .iter()
                .position(|child| child == target)
                .and_then(|index| index.checked_sub(1))
                .map(|index| children[index])
        }
'''))
R('rn-ma-next-windows', (MA, mid(MA, "        '+' => tree\n", '        _ => {\n            // TODO: multi'), '''        '+' => tree
            .parent(*target)
            .and_then(|parent| tree.children(parent).ok())
            .and_then(|children| {
                children
                    .windows(2)
                    .find(|pair| pair[1] == *target)
                    .map(|pair| pair[0])
            }),
'''))
R('rn-ma-next-iflet', (MA, mid(MA, '    match next {\n        None => false,', 'fn match_simple_selector'), '''    let Some(next) = next else {
        return false;
    };
    *target = next;
    true
}

'''))
R('rn-ma-id-and', (MA, '''        Simple::Id(ident) => element
            .attrs
            .get("id")
            .map(|id| id.as_str() == ident.as_str())
            .unwrap_or(false),''', '''        Simple::Id(ident) => element.attrs.get("id").is_some_and(|id| id == ident),'''))
R('rn-ma-id-eq', (MA, '''        Simple::Id(ident) => element
            .attrs
            .get("id")
            .map(|id| id.as_str() == ident.as_str())
            .unwrap_or(false),''', '''        Simple::Id(ident) => element.attrs.get("id") == Some(ident),'''))
R('rn-ma-class-match', (MA, '''        Simple::Class(ident) => element
            .attrs
            .get("class")
            .map(|classes| match_class(classes, ident.as_str()))
            .unwrap_or(false),''', '''        Simple::Class(ident) => match element.attrs.get("class") {
            Some(classes) => match_class(classes.as_str(), ident),
            None => false,
        },'''))
R('rn-ma-attr-else', (MA, mid(MA, '            element\n                .attrs\n                .get(name.as_str())', '        // there is no html element'), '''            let Some(attr) = element.attrs.get(name) else {
                return false;
            };
            match operator {
                Matcher::Exist => true,
                Matcher::Equal => attr.as_str() == value,
                Matcher::Include => match_class(attr, value),
                Matcher::DashMatch => match attr.strip_prefix(value) {
                    Some(rest) => rest.is_empty() || rest.starts_with('-'),
                    None => false,
                },
                Matcher::Prefix => attr.starts_with(value),
                Matcher::Substring => attr.contains(value),
                Matcher::Suffix => attr.ends_with(value),
            }
        }
'''))
R('rn-ma-has', (MA, mid(MA, '    pub fn has_id_selector(&self) -> bool {\n', '    pub fn has_attrs_selector'), '''    fn has(&self, predicate: impl Fn(&Simple) -> bool) -> bool {
        self.selectors
            .iter()
            .any(|complex| complex.selectors.iter().any(&predicate))
    }

    pub fn has_id_selector(&self) -> bool {
        self.has(|selector| matches!(selector, Simple::Id(_)))
    }

    pub fn has_class_selector(&self) -> bool {
        self.has(|selector| matches!(selector, Simple::Class(_)))
    }

'''))
R('rn-ma-class-loop', (MA, '    classes.split_ascii_whitespace().any(|class| class == ident)\n', '''    for class in classes.split_ascii_whitespace() {
        if class == ident {
            return true;
        }
    }
    false
'''))

# ------------------------------------------------------------------ loops counted by hand that are wrong
IDX = '''    let mut index = selector.selectors.len();
    while index > %s {
        index -= %s;
        let component = &selector.selectors[index];
        let matches = match component.as_combinator() {
            None => match_simple_selector(component, element, matcher),
            Some(combinator) => {
                let found = find_next_target(combinator, &mut target, tree);
                if found {
                    element = tree.get_node_context(target).unwrap();
                }
                found
            }
        };
        if !matches {
            return %s;
        }
    }
    true
}

'''
for _n, _a in (('first', ('1', '1', 'false')), ('two', ('1', '2', 'false')), ('true', ('0', '1', 'index == 0'))):
    B('bn-ma-index-' + _n, 'C14', (MA, mid(MA, '    for component in selector.selectors.iter().rev() {\n', 'fn find_next_target'), IDX % _a))
B('bn-ma-windows-any', 'C14', (MA, mid(MA, "        '+' => tree\n", '        _ => {\n            // TODO: multi'), '''        '+' => tree
            .parent(*target)
            .and_then(|parent| tree.children(parent).ok())
            .and_then(|children| {
                children
                    .windows(3)
                    .find(|pair| pair[2] == *target)
                    .map(|pair| pair[1])
            }),
'''))
B('bn-ma-windows-next', 'C14', (MA, mid(MA, "        '+' => tree\n", '        _ => {\n            // TODO: multi'), '''        '+' => tree
            .parent(*target)
            .and_then(|parent| tree.children(parent).ok())
            .and_then(|children| {
                children
                    .windows(2)
                    .find(|pair| pair[0] == *target)
                    .map(|pair| pair[1])
            }),
'''))
B('bn-ma-class-last', 'C14', (MA, '    classes.split_ascii_whitespace().any(|class| class == ident)\n', '''    let mut found = false;
    for class in classes.split_ascii_whitespace() {
        found = class == ident;
    }
    found
'''))
B('bn-ma-class-first', 'C14', (MA, '    classes.split_ascii_whitespace().any(|class| class == ident)\n', '''    for class in classes.split_ascii_whitespace() {
        return class == ident;
    }
    false
'''))
B('bn-st-count-from-one', 'C16', (ST, mid(ST, '    let mut index = 0;\n    while style.contains_key', '}\n\n#[derive(Clone, Copy)]\npub struct Sizes'), '''    (1..)
        .take_while(|index| style.contains_key(&PropertyDescriptor::new(key, *index)))
        .count()
'''))
B('bn-cs-zip-short', 'C18', (CS, '''            (PropertyKey::Margin, [top, right, bottom, left]) => {
                overwrite(PropertyKey::MarginTop, top);
                overwrite(PropertyKey::MarginRight, right);
                overwrite(PropertyKey::MarginBottom, bottom);
                overwrite(PropertyKey::MarginLeft, left);
            }''', '''            (PropertyKey::Margin, values) if values.len() == 4 => {
                let sides = [
                    PropertyKey::MarginTop,
                    PropertyKey::MarginRight,
                    PropertyKey::MarginLeft,
                    PropertyKey::MarginBottom,
                ];
                for (side, value) in sides.into_iter().zip(values) {
                    overwrite(side, value);
                }
            }'''))
B('bn-cs-retain-same', 'C18', (CS, '''    let mut above = index + 1;
    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }''', '''    style.retain(|layer, _| layer.key != key || layer.index < index);'''))
B('bn-tr-tracks-other', 'C21', (TR, mid(TR, '        let mut tracks: HashMap<', '    }\n}\n'), '''        let mut tracks: HashMap<PropertyDescriptor, BTreeMap<u32, _>> = HashMap::new();
        for (step, style) in computed_keyframe_styles {
            for (property, value) in style {
                tracks.entry(property).or_default().entry(step).or_insert(value);
            }
        }
        tracks
            .into_iter()
            .filter(|(_, frames)| frames.len() > 2)
            .map(|(descriptor, frames)| AnimationTrack { descriptor, frames })
            .collect()
'''))

# ------------------------------------------------------------------ apply.rs, element.rs
AP, EL2 = 'src/styles/apply.rs', 'src/element.rs'
R('rn-ap-guard-early', (AP, '''        match (key, value) {
            //
            // Unused''', '''        if index > 0 && !has_layers(key) {
            return match key {
                PropertyKey::Outline | PropertyKey::FontFamily => Ok(()),
                _ => Err(CascadeError::ValueNotSupported),
            };
        }
        match (key, value) {
            //
            // Unused'''), (AP, '''            (PropertyKey::FontFamily, _value) if index > 0 => {}
            (key, _value) if index > 0 && !has_layers(key) => {
                return Err(CascadeError::ValueNotSupported)
            }
''', ''))
R('rn-ap-image-match', (AP, mid(AP, '            (PropertyKey::BackgroundImage, Keyword(keyword)) => {', '            (PropertyKey::BackgroundPositionX, value) => {'), '''            (PropertyKey::BackgroundImage, value) => {
                let image = match value {
                    Keyword(keyword) if keyword == "none" => None,
                    Keyword(keyword) => {
                        return Err(CascadeError::InvalidKeyword(keyword.clone()))
                    }
                    Str(value) => Some(value.clone()),
                    _ => return Err(CascadeError::PropertyNotSupported),
                };
                element.get_background_mut(index).image = image;
            }
'''))
R('rn-ap-position-first', (AP, '''                let background = element.get_background_mut(index);
                background.src[0] = -resolve_length(value, self, 0.0)?;
''', '''                let x = resolve_length(value, self, 0.0)?;
                element.get_background_mut(index).src[0] = -x;
'''))
R('rn-ap-position-both', (AP, mid(AP, '            (PropertyKey::BackgroundPositionX, value) => {', '            (PropertyKey::Color, value)'), '''            (
                key @ (PropertyKey::BackgroundPositionX | PropertyKey::BackgroundPositionY),
                value,
            ) => {
                let axis = usize::from(key == PropertyKey::BackgroundPositionY);
                let background = element.get_background_mut(index);
                background.src[axis] = -resolve_length(value, self, 0.0)?;
            }
'''))
R('rn-ap-fontstyle-or', (AP, '''                    "normal" => "normal".to_string(),
                    "italic" => "italic".to_string(),
                    "oblique" => "oblique".to_string(),
                    keyword''', '''                    style @ ("normal" | "italic" | "oblique") => style.to_string(),
                    keyword'''))
R('rn-ap-border-width-fn', (AP, mid(AP, '            (PropertyKey::BorderTopWidth, value) => {', '            (PropertyKey::BorderTopColor, value) => {'), '''            (PropertyKey::BorderTopWidth, value) => {
                layout.border.top = self.apply_border(value, &mut element.borders.top.width)?;
            }
            (PropertyKey::BorderRightWidth, value) => {
                layout.border.right = self.apply_border(value, &mut element.borders.right.width)?;
            }
            (PropertyKey::BorderBottomWidth, value) => {
                layout.border.bottom = self.apply_border(value, &mut element.borders.bottom.width)?;
            }
            (PropertyKey::BorderLeftWidth, value) => {
                layout.border.left = self.apply_border(value, &mut element.borders.left.width)?;
            }
'''), (AP, '''        Ok(())
    }
}
''', '''        Ok(())
    }

    fn apply_border(
        &self,
        value: &ComputedValue,
        width: &mut f32,
    ) -> Result<LengthPercentage, CascadeError> {
        *width = dimension_length(value, self)?;
        Ok(LengthPercentage::Length(*width))
    }
}
'''))
R('rn-ap-radius-corner', (AP, mid(AP, '            (PropertyKey::BorderTopLeftRadius, value) => {', '            //\n            // Layout\n'), '''            (
                PropertyKey::BorderTopLeftRadius
                | PropertyKey::BorderTopRightRadius
                | PropertyKey::BorderBottomRightRadius
                | PropertyKey::BorderBottomLeftRadius,
                value,
            ) => {
                let corner = match key {
                    PropertyKey::BorderTopLeftRadius => 0,
                    PropertyKey::BorderTopRightRadius => 1,
                    PropertyKey::BorderBottomRightRadius => 2,
                    _ => 3,
                };
                element.borders.radius[corner] = length(value, self)?;
            }
'''))
R('rn-ap-display-value', (AP, '''            (PropertyKey::Display, Keyword(keyword)) => match keyword.as_str() {
                "flow" => layout.display = taffy::Display::Block,
                "block" => layout.display = taffy::Display::Block,
                "flex" => layout.display = taffy::Display::Flex,
                "grid" => layout.display = taffy::Display::Grid,
                keyword => return CascadeError::invalid_keyword(keyword),
            },''', '''            (PropertyKey::Display, Keyword(keyword)) => {
                layout.display = match keyword.as_str() {
                    "flow" | "block" => taffy::Display::Block,
                    "flex" => taffy::Display::Flex,
                    "grid" => taffy::Display::Grid,
                    keyword => return CascadeError::invalid_keyword(keyword),
                }
            }'''))
R('rn-ap-visible-eq', (AP, '''                element.visible = match keyword.as_str() {
                    "visible" => true,
                    "hidden" => false,
                    keyword => return CascadeError::invalid_keyword(keyword),
                }''', '''                let visible = keyword == "visible";
                if !visible && keyword != "hidden" {
                    return CascadeError::invalid_keyword(keyword);
                }
                element.visible = visible;'''))
R('rn-ap-transition-letelse', (AP, '''                let key = match PropertyKey::parse(name) {
                    Some(key) => key,
                    None => return CascadeError::invalid_keyword(name),
                };
                let transition = element.get_transition_mut(index);
                if transition.key != Some(key) {
                    transition.key = Some(key);
                    transition.ranges.clear();
                }''', '''                let Some(key) = PropertyKey::parse(name) else {
                    return CascadeError::invalid_keyword(name);
                };
                let transition = element.get_transition_mut(index);
                if transition.key.replace(key) != Some(key) {
                    transition.ranges.clear();
                }'''))
R('rn-ap-transition-same', (AP, '''                let transition = element.get_transition_mut(index);
                if transition.key != Some(key) {
                    transition.key = Some(key);
                    transition.ranges.clear();
                }''', '''                let transition = element.get_transition_mut(index);
                match transition.key {
                    Some(current) if current == key => {}
                    _ => {
                        transition.ranges.clear();
                        transition.key = Some(key);
                    }
                }'''))
R('rn-ap-animation-ne', (AP, '''                let animator = element.get_animator_mut(index);
                if &animator.name != name {
                    animator.name = name.to_string();
                    animator.restart();
                }''', '''                let animator = element.get_animator_mut(index);
                if animator.name.as_str() == name.as_str() {
                    return Ok(());
                }
                animator.restart();
                animator.name.clear();
                animator.name.push_str(name);'''))
R('rn-ap-timing-bind', (AP, '''                let timing = resolve_timing(timing, self)?;
                element.get_transition_mut(index).animator.timing = timing;''', '''                let animator = &mut element.get_transition_mut(index).animator;
                animator.timing = resolve_timing(timing, self)?;'''))
R('rn-ap-layers-match', (AP, mid(AP, '    matches!(\n        key,\n        PropertyKey::BackgroundColor', 'fn resolve_font_weight'), '''    match key {
        PropertyKey::BackgroundColor
        | PropertyKey::BackgroundImage
        | PropertyKey::BackgroundPositionX
        | PropertyKey::BackgroundPositionY => true,
        PropertyKey::TransitionProperty
        | PropertyKey::TransitionDuration
        | PropertyKey::TransitionDelay
        | PropertyKey::TransitionTimingFunction => true,
        PropertyKey::AnimationName
        | PropertyKey::AnimationDelay
        | PropertyKey::AnimationDirection
        | PropertyKey::AnimationDuration
        | PropertyKey::AnimationFillMode
        | PropertyKey::AnimationIterationCount
        | PropertyKey::AnimationPlayState
        | PropertyKey::AnimationTimingFunction => true,
        _ => false,
    }
}

'''))
R('rn-ap-layers-table', (AP, mid(AP, 'fn has_layers(key: PropertyKey) -> bool {', 'fn resolve_font_weight'), '''const LAYERED: [PropertyKey; 16] = [
    PropertyKey::BackgroundColor,
    PropertyKey::BackgroundImage,
    PropertyKey::BackgroundPositionX,
    PropertyKey::BackgroundPositionY,
    PropertyKey::TransitionProperty,
    PropertyKey::TransitionDuration,
    PropertyKey::TransitionDelay,
    PropertyKey::TransitionTimingFunction,
    PropertyKey::AnimationName,
    PropertyKey::AnimationDelay,
    PropertyKey::AnimationDirection,
    PropertyKey::AnimationDuration,
    PropertyKey::AnimationFillMode,
    PropertyKey::AnimationIterationCount,
    PropertyKey::AnimationPlayState,
    PropertyKey::AnimationTimingFunction,
];

fn has_layers(key: PropertyKey) -> bool {
    LAYERED.contains(&key)
}

'''))
R('rn-ap-weight-range', (AP, 'ComputedValue::Number(value) if *value >= 1.0 && *value <= 1000.0 => *value as u16,', 'ComputedValue::Number(value) if (1.0..=1000.0).contains(value) => *value as u16,'))
R('rn-ap-weight-if', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Number(value) if', 'fn resolve_color('), '''    match value {
        ComputedValue::Number(value) => {
            if *value < 1.0 || *value > 1000.0 || value.is_nan() {
                return Err(CascadeError::ValueNotSupported);
            }
            Ok(*value as u16)
        }
        ComputedValue::Keyword(keyword) => match keyword.as_str() {
            "normal" => Ok(400),
            "bold" => Ok(700),
            keyword => Err(CascadeError::InvalidKeyword(keyword.to_string())),
        },
        _ => Err(CascadeError::ValueNotSupported),
    }
}

'''))
R('rn-ap-color-rgb', (AP, '''            "black" => [0, 0, 0, 255],
            "white" => [255, 255, 255, 255],
            "red" => [255, 0, 0, 255],
            "blue" => [0, 0, 255, 255],
            "green" => [0, 255, 0, 255],
''', '''            "black" => opaque(0, 0, 0),
            "white" => opaque(u8::MAX, u8::MAX, u8::MAX),
            "red" => opaque(u8::MAX, 0, 0),
            "blue" => opaque(0, 0, u8::MAX),
            "green" => opaque(0, u8::MAX, 0),
'''), (AP, 'fn resolve_timing(', '''fn opaque(r: u8, g: u8, b: u8) -> [u8; 4] {
    [r, g, b, u8::MAX]
}

fn resolve_timing('''))
R('rn-ap-timing-flat', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Keyword(keyword) => match keyword.as_str() {\n            "ease"', 'fn _resolve_transforms'), '''    let ComputedValue::Keyword(keyword) = value else {
        return Err(CascadeError::ValueNotSupported);
    };
    match keyword.as_str() {
        "linear" => Ok(TimingFunction::Linear),
        "ease" => Ok(TimingFunction::Ease),
        "ease-in" => Ok(TimingFunction::EaseIn),
        "ease-out" => Ok(TimingFunction::EaseOut),
        "ease-in-out" => Ok(TimingFunction::EaseInOut),
        "step-start" => Ok(TimingFunction::StepStart),
        "step-end" => Ok(TimingFunction::StepEnd),
        _ => Err(CascadeError::ValueNotSupported),
    }
}

'''))
R('rn-ap-iterations-guard', (AP, '''        ComputedValue::Keyword(keyword) => match keyword.as_str() {
            "infinite" => AnimationIterations::Infinite,
            _ => return Err(CascadeError::ValueNotSupported),
        },
        ComputedValue::Zero => AnimationIterations::Number(0.0),
        ComputedValue::Number(number) => AnimationIterations::Number(*number),
        _ =>''', '''        ComputedValue::Keyword(keyword) if keyword == "infinite" => AnimationIterations::Infinite,
        ComputedValue::Zero | ComputedValue::Number(_) => {
            AnimationIterations::Number(resolve_number(value)?)
        }
        _ =>'''))
R('rn-ap-alpha-number', (AP, '''        ComputedValue::Zero => 0.0,
        ComputedValue::Number(value) => *value,
        ComputedValue::Percentage(value) => *value,
        _ => return Err(CascadeError::ValueNotSupported),
    };
    Ok(value)''', '''        ComputedValue::Percentage(value) => *value,
        value => return resolve_number(value),
    };
    Ok(value)'''))
R('rn-ap-length-rest', (AP, '''        ComputedValue::Zero => 0.0,
        ComputedValue::Dimension(dimension) => parse_dimension_length(dimension, cascade)?,
        ComputedValue::Percentage(percent) => percent * base,
        ComputedValue::Number(value) => *value,
        _ => return Err(CascadeError::ValueNotSupported),
    };
    Ok(value)''', '''        ComputedValue::Percentage(percent) => base * percent,
        _ => dimension_length(value, cascade)?,
    };
    Ok(value)'''))
R('rn-ap-lengthp-auto-via', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Zero => LengthPercentageAuto', 'fn resolve_overflow'), '''    match value {
        ComputedValue::Keyword(keyword) if keyword == "auto" => Ok(LengthPercentageAuto::Auto),
        value => lengthp(value, cascade).map(LengthPercentageAuto::from),
    }
}

'''))
R('rn-ap-lengthp-auto-match', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Zero => LengthPercentageAuto', 'fn resolve_overflow'), '''    if let ComputedValue::Keyword(keyword) = value {
        if keyword == "auto" {
            return Ok(LengthPercentageAuto::Auto);
        }
    }
    let value = match lengthp(value, cascade)? {
        LengthPercentage::Length(length) => LengthPercentageAuto::Length(length),
        LengthPercentage::Percent(percent) => LengthPercentageAuto::Percent(percent),
    };
    Ok(value)
}

'''))
R('rn-ap-overflow-ok', (AP, mid(AP, '    let overflow = match keyword {', 'fn map_align_items'), '''    match keyword {
        "visible" => Ok(Overflow::Visible),
        "hidden" => Ok(Overflow::Hidden),
        "clip" => Ok(Overflow::Clip),
        "scroll" | "auto" => Ok(Overflow::Scroll),
        keyword => CascadeError::invalid_keyword(keyword),
    }
}

'''))
R('rn-ap-units-let', (AP, mid(AP, '    let value = dimension.value;\n    let sizes', 'fn dimension('), '''    let Dim { value, unit } = dimension;
    let sizes = &cascade.sizes;
    let one = match unit {
        Units::Px => 1.0,
        Units::Em => sizes.parent_font_size,
        Units::Rem => sizes.root_font_size,
        Units::Vw => sizes.viewport_width / 100.0,
        Units::Vh => sizes.viewport_height / 100.0,
        Units::Vmax => f32::max(sizes.viewport_width, sizes.viewport_height) / 100.0,
        Units::Vmin => f32::min(sizes.viewport_width, sizes.viewport_height) / 100.0,
    };
    Ok(value * one)
}

'''))
R('rn-el-layer-generic', (EL2, mid(EL2, '    pub fn get_background_mut(', '#[derive(Clone)]\npub struct TextContent'), '''    pub fn get_background_mut(&mut self, index: usize) -> &mut Background {
        layer(&mut self.backgrounds, index)
    }

    pub fn get_animator_mut(&mut self, index: usize) -> &mut Animator {
        layer(&mut self.animators, index)
    }

    pub fn get_transition_mut(&mut self, index: usize) -> &mut Transition {
        layer(&mut self.transitions, index)
    }
}

fn layer<T: Default>(layers: &mut Vec<T>, index: usize) -> &mut T {
    if layers.len() <= index {
        layers.resize_with(index + 1, T::default);
    }
    &mut layers[index]
}

'''))
R('rn-el-layer-push', (EL2, '''        if index >= self.animators.len() {
            self.animators.resize_with(index + 1, Animator::default);
        }
''', '''        while self.animators.len() <= index {
            self.animators.push(Animator::default());
        }
'''))
L('rn-el-layer-extend', (EL2, '''        if index >= self.transitions.len() {
            self.transitions.resize_with(index + 1, Transition::default);
        }
''', '''        let missing = (index + 1).saturating_sub(self.transitions.len());
        self.transitions.extend((0..missing).map(|_| Transition::default()));
'''))
R('rn-el-span-get', (EL2, '''        if span >= self.spans.len() {
            error!(
                "unable to bind text span {span} to {value}, text consists of {} spans",
                self.spans.len()
            )
        } else {
            self.spans[span] = value;
        }''', '''        match self.spans.get_mut(span) {
            Some(text) => *text = value,
            None => error!(
                "unable to bind text span {span} to {value}, text consists of {} spans",
                self.spans.len()
            ),
        }'''))
R('rn-el-spans-concat', (EL2, 'self.spans.join("").to_string()', 'self.spans.concat()'))
R('rn-el-spans-collect', (EL2, 'self.spans.join("").to_string()', 'self.spans.iter().map(String::as_str).collect()'))
R('rn-el-borders-then', (EL2, '''        if self.top.width > 0.0 {
            Some(self.top)
        } else {
            None
        }''', '''        (self.top.width > 0.0).then_some(self.top)'''))
R('rn-el-borders-fn', (EL2, '''        if self.right.width > 0.0 {
            Some(self.right)
        } else {
            None
        }''', '''        Some(self.right).filter(|border| 0.0 < border.width)'''))


# ---------------------------------------------------------------- scrolling, inherit, value, tree, img, input
SC = 'src/styles/scrolling.rs'
R('rn-rs-ensure-early', (SC, '''        let content = layout.content_size;
        let size = layout.size;
        let [x, y] = current
            .as_ref()
            .map(|current| [current.x, current.y])
            .unwrap_or_default();
        if content.width > size.width || content.height > size.height {''', '''        let content = layout.content_size;
        let size = layout.size;
        if content.width <= size.width && content.height <= size.height {
            return None;
        }
        let (x, y) = match current {
            Some(Scrolling { x, y, .. }) => (*x, *y),
            None => (0.0, 0.0),
        };
        {'''), (SC, '''            Some(scrolling)
        } else {
            None
        }''', '''            Some(scrolling)
        }'''))
R('rn-rs-ensure-clamp-fn', (SC, '''            let scroll_x = (content.width - size.width).max(0.0);
            let scroll_y = (content.height - size.height).max(0.0);''', '''            let beyond = |content: f32, size: f32| f32::max(0.0, content - size);
            let scroll_x = beyond(content.width, size.width);
            let scroll_y = beyond(content.height, size.height);'''))
R('rn-rs-ensure-if', (SC, '''            let scroll_x = (content.width - size.width).max(0.0);''', '''            let scroll_x = if content.width > size.width {
                content.width - size.width
            } else {
                0.0
            };'''))
R('rn-rs-ensure-then', (SC, '''        if content.width > size.width || content.height > size.height {
            // content may exceed the box in one direction only
            let scroll_x = (content.width - size.width).max(0.0);
            let scroll_y = (content.height - size.height).max(0.0);
            let scrolling = Scrolling {
                x: x.min(scroll_x),
                y: y.min(scroll_y),
                scroll_x,
                scroll_y,
            };
            Some(scrolling)
        } else {
            None
        }''', '''        let scroll_x = (content.width - size.width).max(0.0);
        let scroll_y = (content.height - size.height).max(0.0);
        (scroll_x > 0.0 || scroll_y > 0.0).then(|| Scrolling {
            x: x.min(scroll_x),
            y: y.min(scroll_y),
            scroll_x,
            scroll_y,
        })'''))
R('rn-rs-offset-helper', (SC, '''        if x != 0.0 {
            self.x += x.signum() * 50.0;
            self.x = self.x.min(self.scroll_x).max(0.0);
        }
        if y != 0.0 {
            self.y -= y.signum() * 50.0;
            self.y = self.y.min(self.scroll_y).max(0.0);
        }
    }
''', '''        Self::step(&mut self.x, x, self.scroll_x);
        Self::step(&mut self.y, -y, self.scroll_y);
    }

    fn step(current: &mut f32, wheel: f32, limit: f32) {
        if wheel == 0.0 {
            return;
        }
        *current = (*current + 50.0 * wheel.signum()).min(limit).max(0.0);
    }
'''))
R('rn-rs-offset-match', (SC, '''        if x != 0.0 {
            self.x += x.signum() * 50.0;
            self.x = self.x.min(self.scroll_x).max(0.0);
        }''', '''        let step = if x > 0.0 {
            50.0
        } else if x < 0.0 {
            -50.0
        } else {
            0.0
        };
        if step != 0.0 {
            self.x = (self.x + step).min(self.scroll_x).max(0.0);
        }'''))
R('rn-rs-offset-const', (SC, '''            self.y -= y.signum() * 50.0;
            self.y = self.y.min(self.scroll_y).max(0.0);''', '''            const STEP: f32 = 50.0;
            let next = self.y - STEP.copysign(y);
            self.y = f32::max(0.0, f32::min(next, self.scroll_y));'''))
IH = 'src/styles/inherit.rs'
R('rn-rs-inherit-destructure', (IH, '''    element.font.family = parent.font.family.clone();
    // font-size
    element.font.size = parent.font.size;''', '''    let font = &parent.font;
    element.font.family.clone_from(&font.family);
    // font-size
    element.font.size = font.size;'''))
R('rn-rs-inherit-font', (IH, '''    element.font.style = parent.font.style.clone();''', '''    let own = &mut element.font;
    own.style = parent.font.style.to_owned();'''))
VA = 'src/value.rs'
R('rn-rs-value-array', (VA, '''            Value::Array(array) => array.iter().map(|value| value.eval_string()).collect(),''', '''            Value::Array(array) => {
                let mut strings = Vec::with_capacity(array.len());
                for value in array {
                    strings.push(value.eval_string());
                }
                strings
            }'''))
R('rn-rs-value-array-fn', (VA, 'array.iter().map(|value| value.eval_string()).collect()', 'array.iter().map(Self::eval_string).collect::<Vec<_>>()'))
R('rn-rs-value-bool', (VA, '''            Value::Bool(value) => {
                if *value {
                    1
                } else {
                    0
                }
            }''', '''            Value::Bool(value) => u64::from(*value),'''))
R('rn-rs-value-bool-cast', (VA, '''            Value::Bool(value) => {
                if *value {
                    1
                } else {
                    0
                }
            }''', '''            Value::Bool(true) => 1,'''), (VA, '''            Value::Array(_) => 0,
            Value::Object(_) => 0,''', '''            _ => 0,'''))
R('rn-rs-value-num', (VA, '''            Value::Number(number) => match number.as_f64() {
                None => 0,
                Some(number) => number as u64,
            },''', '''            Value::Number(number) => number.as_f64().map(|number| number as u64).unwrap_or_default(),'''))
R('rn-rs-value-truth', (VA, '''            Value::Number(number) => number.as_f64().map(|value| value != 0.0).unwrap_or(false),
            Value::String(string) => string.len() > 0,
            Value::Array(array) => array.len() > 0,''', '''            Value::Number(number) => match number.as_f64() {
                Some(value) => value != 0.0,
                None => false,
            },
            Value::String(string) => !string.is_empty(),
            Value::Array(array) => !array.is_empty(),'''))
R('rn-rs-value-truth-matches', (VA, '''            Value::Null => false,
            Value::Bool(value) => *value,
            Value::Number(number) => number.as_f64().map(|value| value != 0.0).unwrap_or(false),''', '''            Value::Null | Value::Bool(false) => false,
            Value::Bool(true) => true,
            Value::Number(number) => matches!(number.as_f64(), Some(value) if value != 0.0),'''))
R('rn-rs-value-string', (VA, '''            Value::Null => "".to_string(),
            Value::Bool(value) => value.to_string(),''', '''            Value::Null => String::new(),
            Value::Bool(true) => String::from("true"),
            Value::Bool(false) => String::from("false"),'''))
R('rn-rs-value-string-early', (VA, '''        match self {
            Value::Null => "".to_string(),
            Value::Bool(value) => value.to_string(),''', '''        if let Some(string) = self.as_str() {
            return string.to_string();
        }
        match self {
            Value::Null => "".to_string(),
            Value::Bool(value) => format!("{value}"),'''))
R('rn-rs-value-eval', (VA, '''        serde_json::from_value(self.clone()).unwrap_or_else(|error| {
            error!("unable to eval JSON value, {error}");
            T::default()
        })''', '''        match serde_json::from_value(self.clone()) {
            Ok(value) => value,
            Err(error) => {
                error!("unable to eval JSON value, {error}");
                T::default()
            }
        }'''))
TR3 = 'src/tree.rs'
R('rn-rs-tree-match', (TR3, '''        self.get_node_context_mut(node)
            .ok_or(ViewError::ElementNotFound(node))''', '''        match self.get_node_context_mut(node) {
            Some(element) => Ok(element),
            None => Err(ViewError::ElementNotFound(node)),
        }'''))
R('rn-rs-tree-else', (TR3, '''        self.get_node_context(node)
            .ok_or(ViewError::ElementNotFound(node))''', '''        let Some(element) = self.get_node_context(node) else {
            return Err(ViewError::ElementNotFound(node));
        };
        Ok(element)'''))
IM = 'src/controls/img.rs'
R('rn-rs-img-cloned', (IM, '''        let undefined = String::new();
        let src = img.attrs.get("src").unwrap_or(&undefined);
        let background = self.render_bg_image(src.clone())?;
        Ok([background])''', '''        let src = img.attrs.get("src").cloned().unwrap_or_default();
        self.render_bg_image(src).map(|background| [background])'''))
R('rn-rs-img-bg', (IM, '''        child.get_background_mut(0).image = Some(src);
        child.get_background_mut(0).is_src = true;''', '''        let background = child.get_background_mut(0);
        background.is_src = true;
        background.image.replace(src);'''))
R('rn-rs-img-children', (IM, '''        let child_node = tree.child_at_index(img, BACKGROUND)?;
        let child = tree.get_element_mut(child_node)?;''', '''        let child_node = tree.child_at_index(img, 0)?;
        let child = tree
            .get_node_context_mut(child_node)
            .ok_or(ViewError::ElementNotFound(child_node))?;'''))
IN = 'src/input.rs'
R('rn-rs-input-struct', (IN, '''    pub fn time(mut self, time: Duration) -> Self {
        self.time = time;
        self
    }''', '''    pub fn time(self, time: Duration) -> Self {
        Self { time, ..self }
    }'''), (IN, '''        self.events.push(event);
        self''', '''        self.events.extend([event]);
        self'''))
R('rn-rs-input-new', (IN, '''            time: Duration::from_micros(0),
            viewport: [800.0, 600.0],
            events: vec![],''', '''            time: Duration::ZERO,
            viewport: [800.0, 600.0],
            events: Vec::new(),'''))

# ---------------------------------------------------------------- rendering.rs
RE2 = 'src/rendering.rs'
R('rn-re-render-match', (RE2, '''        if let Some(text) = template.text {
            self.render_text(text)
        } else {
            self.render_element(template)
        }''', '''        match template.text {
            None => self.render_element(template),
            Some(text) => self.render_text(text),
        }'''))
R('rn-re-render-root', (RE2, '''        let root = self.tree.new_leaf(default_layout())?;
        self.tree
            .set_node_context(root, Some(create_element(root)))?;
        let body = self.render_node(body)?;
        self.tree.add_child(root, body)?;''', '''        let body = self.render_node(body)?;
        let root = self.tree.new_leaf(default_layout())?;
        let element = create_element(root);
        self.tree.set_node_context(root, Some(element))?;
        self.tree.add_child(root, body)?;'''))
R('rn-re-text-loop', (RE2, '''        let spans = text
            .spans
            .into_iter()
            .enumerate()
            .map(|(index, span)| match span {
                TextSpan::String(span) => self.translator.translate(span),
                TextSpan::Binder(binder) => {
                    let path = self.schema.field(&binder, &mut self.locals);
                    let params = BindingParams::Text(node, index);
                    let binding = Binding {
                        params,
                        pipe: binder.pipe.clone(),
                    };
                    self.bindings.entry(path).or_default().push(binding);
                    binder.to_string()
                }
            })
            .collect();
''', '''        let mut spans = Vec::with_capacity(text.spans.len());
        for (index, span) in text.spans.into_iter().enumerate() {
            let span = match span {
                TextSpan::String(span) => self.translator.translate(span),
                TextSpan::Binder(binder) => {
                    let path = self.schema.field(&binder, &self.locals);
                    let text = binder.to_string();
                    self.bind(path, BindingParams::Text(node, index), binder.pipe);
                    text
                }
            };
            spans.push(span);
        }
'''), (RE2, '''    fn render_node(&mut self''', '''    fn bind(&mut self, path: String, params: BindingParams, pipe: Vec<String>) {
        let binding = Binding { params, pipe };
        self.bindings.entry(path).or_default().push(binding);
    }

    fn render_node(&mut self'''))
R('rn-re-attr-loop', (RE2, '''                    let spans = text
                        .spans
                        .into_iter()
                        .enumerate()
                        .map(|(index, span)| match span {
                            TextSpan::String(span) => span.to_string(),
                            TextSpan::Binder(binder) => {
                                let path = self.schema.field(&binder, &mut self.locals);
                                let params = BindingParams::Attribute(node, key.clone(), index);
                                let binding = Binding {
                                    params,
                                    pipe: binder.pipe.clone(),
                                };
                                self.bindings.entry(path).or_default().push(binding);
                                binder.to_string()
                            }
                        })
                        .collect();
''', '''                    let mut spans: Vec<String> = vec![];
                    for span in text.spans {
                        let index = spans.len();
                        spans.push(match span {
                            TextSpan::String(span) => span,
                            TextSpan::Binder(binder) => {
                                let path = self.schema.field(&binder, &self.locals);
                                let params = BindingParams::Attribute(node, key.clone(), index);
                                let pipe = binder.pipe.clone();
                                self.bindings.entry(path).or_default().push(Binding { params, pipe });
                                binder.to_string()
                            }
                        });
                    }
'''))
R('rn-re-hints', (RE2, '''                    if key == "class" {
                        element.style_hints.has_dynamic_classes = true;
                    }
                    if key == "id" {
                        element.style_hints.has_dynamic_id = true;
                    }
                    element.style_hints.dynamic_attrs.insert(key);''', '''                    let hints = &mut element.style_hints;
                    match key.as_str() {
                        "class" => hints.has_dynamic_classes = true,
                        "id" => hints.has_dynamic_id = true,
                        _ => {}
                    }
                    hints.dynamic_attrs.insert(key);'''))
R('rn-re-hints-or', (RE2, '''                    if key == "class" {
                        element.style_hints.has_dynamic_classes = true;
                    }
                    if key == "id" {
                        element.style_hints.has_dynamic_id = true;
                    }
                    element.style_hints.dynamic_attrs.insert(key);''', '''                    element.style_hints.has_dynamic_classes |= key == "class";
                    element.style_hints.has_dynamic_id |= key == "id";
                    element.style_hints.dynamic_attrs.insert(key);'''))
R('rn-re-static-match', (RE2, '''                    if key == "style" {
                        match read_inline_css(&value) {
                            Ok(style) => element.style = style,
                            Err(error) => {
                                error!(
                                    "unable to parse inline style of {}, {error:?}",
                                    element.tag
                                );
                            }
                        }
                    }
                    if key == "id" {
                        self.static_id.insert(value.clone(), node);
                    }''', '''                    match key.as_str() {
                        "style" => {
                            let style = read_inline_css(&value);
                            if let Err(error) = &style {
                                error!("unable to parse inline style of {}, {error:?}", element.tag);
                            }
                            if let Ok(style) = style {
                                element.style = style;
                            }
                        }
                        "id" => {
                            self.static_id.insert(value.clone(), node);
                        }
                        _ => {}
                    }'''))
R('rn-re-void-const', (RE2, '''            "input" => {}
            "area" => {}
            "base" => {}
            "br" => {}
            "col" => {}
            "command" => {}
            "embed" => {}
            "hr" => {}
            "keygen" => {}
            "link" => {}
            "meta" => {}
            "param" => {}
            "source" => {}
            "track" => {}
            "wbr" => {}
            _ => {''', '''            "input" | "area" | "base" | "br" | "col" | "command" | "embed" | "hr" | "keygen" => {}
            "link" | "meta" | "param" | "source" | "track" | "wbr" => {}
            _ => {'''))
R('rn-re-void-matches', (RE2, '''        match element.tag.as_str() {
            // void elements
            "img" => {
                children.extend(self.render_img(&mut element)?);
            }
            "input" => {}
            "area" => {}
            "base" => {}
            "br" => {}
            "col" => {}
            "command" => {}
            "embed" => {}
            "hr" => {}
            "keygen" => {}
            "link" => {}
            "meta" => {}
            "param" => {}
            "source" => {}
            "track" => {}
            "wbr" => {}
            _ => {''', '''        match element.tag.as_str() {
            "img" => {
                let [background] = self.render_img(&mut element)?;
                children.push(background);
            }
            tag if VOID_ELEMENTS.contains(&tag) => {}
            _ => {'''), (RE2, '''pub trait RendererTranslator {''', '''const VOID_ELEMENTS: [&str; 15] = [
    "input", "area", "base", "br", "col", "command", "embed", "hr", "keygen", "link", "meta",
    "param", "source", "track", "wbr",
];

pub trait RendererTranslator {'''))
R('rn-re-restore-match', (RE2, '''                        if let Some(overridden) = overridden {
                            self.locals.insert(name.to_string(), overridden);
                        } else {
                            self.locals.remove(name);
                        }''', '''                        match overridden {
                            Some(path) => self.locals.insert(name.to_string(), path),
                            None => self.locals.remove(name),
                        };'''))
R('rn-re-restore-fn', (RE2, '''                    for (key, value) in overridden {
                        if let Some(value) = value {
                            self.locals.insert(key, value);
                        } else {
                            self.locals.remove(&key);
                        }
                    }''', '''                    overridden
                        .into_iter()
                        .for_each(|(name, previous)| self.restore(name, previous));'''), (RE2, '''    fn render_node(&mut self''', '''    fn restore(&mut self, name: String, previous: Option<String>) {
        match previous {
            Some(path) => {
                self.locals.insert(name, path);
            }
            None => {
                self.locals.remove(&name);
            }
        }
    }

    fn render_node(&mut self'''))
R('rn-re-repeat-loop', (RE2, '''                        for path in items {
                            self.locals.insert(name.to_string(), path);
                            let child = child.clone();
                            let child = self.render_node(child)?;
                            children.push(child);
                        }''', '''                        children.reserve(items.len());
                        for path in items.into_iter() {
                            self.locals.insert(name.to_string(), path);
                            children.push(self.render_node(child.clone())?);
                        }'''))
R('rn-re-repeat-loop-items', (RE2, '''                        let items: Vec<String> = (0..count)
                            .map(|n| self.schema.index(binder, n, &self.locals))
                            .collect();''', '''                        let mut items: Vec<String> = Vec::with_capacity(count);
                        for n in 0..count {
                            items.push(self.schema.index(binder, n, &self.locals));
                        }'''))
R('rn-re-repeat-snapshot', (RE2, '''                        let overridden = self.locals.remove(name);
                        for path in items {''', '''                        let overridden = self.locals.get(name).cloned();
                        for path in items {'''))
R('rn-re-alias-filter', (RE2, '''                    for binding in &child.bindings {
                        if let ElementBinding::Alias(name, binder) = binding {
                            let path = self.schema.field(binder, &mut self.locals);
                            let previous = self.locals.insert(name.to_string(), path);
                            // a name can be given more than once, by a link and its template
                            overridden.entry(name.to_string()).or_insert(previous);
                        }
                    }''', '''                    for binding in child.bindings.iter() {
                        let (name, binder) = match binding {
                            ElementBinding::Alias(name, binder) => (name, binder),
                            _ => continue,
                        };
                        let path = self.schema.field(binder, &self.locals);
                        let previous = self.locals.insert(name.clone(), path);
                        if !overridden.contains_key(name) {
                            overridden.insert(name.clone(), previous);
                        }
                    }'''))
R('rn-re-template-match', (RE2, '''                    let mut used = None;
                    let child = if let Some((id, mut bindings)) = child.as_template_link() {
                        // a template is not available to itself, rendering must end
                        let definition = self
                            .templates
                            .remove(&id)
                            .ok_or(ViewError::TemplateNotFound(id.clone()))?;
                        let mut template = definition.clone();
                        used = Some((id, definition));
                        // handle link bindings first
                        bindings.extend(template.bindings);
                        template.bindings = bindings;
                        template
                    } else {
                        child
                    };
''', '''                    let (child, used) = match child.as_template_link() {
                        Some((id, mut bindings)) => {
                            let Some(definition) = self.templates.remove(&id) else {
                                return Err(ViewError::TemplateNotFound(id));
                            };
                            let mut template = definition.clone();
                            bindings.append(&mut template.bindings);
                            template.bindings = bindings;
                            (template, Some((id, definition)))
                        }
                        None => (child, None),
                    };
'''))
R('rn-re-template-chain', (RE2, '''                        let mut template = definition.clone();
                        used = Some((id, definition));
                        // handle link bindings first
                        bindings.extend(template.bindings);
                        template.bindings = bindings;
                        template''', '''                        bindings.extend(definition.bindings.iter().cloned());
                        let template = Html {
                            bindings,
                            ..definition.clone()
                        };
                        used = Some((id, definition));
                        template'''))
R('rn-re-visibility-order', (RE2, '''                        let path = self.schema.field(&binder, &self.locals);
                        let pipe = binder.pipe.clone();
                        let child_id = self.render_node(child)?;
                        children.push(child_id);
                        hidden.push(child_id);
                        let params''', '''                        let pipe = binder.pipe.clone();
                        let path = self.schema.field(&binder, &self.locals);
                        let child_id = self.render_node(child)?;
                        hidden.push(child_id);
                        children.push(child_id);
                        let params'''))
R('rn-re-visibility-no-hidden', (RE2, '''        let mut hidden = vec![];
''', ''), (RE2, '''                        hidden.push(child_id);
''', ''))
R('rn-re-finish', (RE2, '''        element.children = children.clone();
        self.tree.set_node_context(node, Some(element))?;
        self.tree.set_children(node, &children)?;''', '''        self.tree.set_children(node, &children)?;
        element.children = children;
        self.tree.set_node_context(node, Some(element))?;'''))
R('rn-re-bg-size', (RE2, '''        layout.size = Size {
            width: Dimension::Percent(1.0),
            height: Dimension::Percent(1.0),
        };
        layout.min_size = Size {
            width: Dimension::Percent(1.0),
            height: Dimension::Percent(1.0),
        };''', '''        let full = Dimension::Percent(1.0);
        let full = Size { width: full, height: full };
        layout.min_size = full;
        layout.size = full;'''))
R('rn-re-bg-push', (RE2, '''        element.get_background_mut(0).image = Some(src);
        element.get_background_mut(0).is_src = true;''', '''        let background = element.get_background_mut(0);
        background.image = Some(src);
        background.is_src = true;'''))
R('rn-re-callback-loop', (RE2, '''                    let arguments = arguments
                        .into_iter()
                        .map(|argument| match argument {
                            CallbackArgument::Keyword(key) => HandlerArgument::Keyword(key),
                            CallbackArgument::Event => HandlerArgument::Event,
                            CallbackArgument::Binder(binder) => {
                                let path = self.schema.field(&binder, &mut self.locals);
                                let pipe = binder.pipe.clone();
                                HandlerArgument::Binder { path, pipe }
                            }
                        })
                        .collect();
                    element.listeners.insert(event, Handler { arguments });''', '''                    let mut handler = Handler { arguments: vec![] };
                    for argument in arguments {
                        handler.arguments.push(match argument {
                            CallbackArgument::Event => HandlerArgument::Event,
                            CallbackArgument::Keyword(key) => HandlerArgument::Keyword(key),
                            CallbackArgument::Binder(binder) => HandlerArgument::Binder {
                                path: self.schema.field(&binder, &self.locals),
                                pipe: binder.pipe,
                            },
                        });
                    }
                    element.listeners.insert(event, handler);'''))
R('rn-re-attr-simple', (RE2, '''            let binding = match binding {
                ElementBinding::Attribute(key, text) => match text.as_simple_text() {
                    Some(value) => {
                        warn!(
                            "element {} attribute {} has no bindings, you can just use HTML tag",
                            element.tag, key
                        );
                        ElementBinding::None(key, value)
                    }
                    None => ElementBinding::Attribute(key, text),
                },
                binding => binding,
            };''', '''            let simple = match &binding {
                ElementBinding::Attribute(key, text) => {
                    text.as_simple_text().map(|value| (key.clone(), value))
                }
                _ => None,
            };
            let binding = if let Some((key, value)) = simple {
                warn!("element {} attribute {} has no bindings", element.tag, key);
                ElementBinding::None(key, value)
            } else {
                binding
            };'''))

# ---------------------------------------------------------------- css/reader.rs
CR2 = 'src/css/reader.rs'
R('rn-cr-inline-match', (CR2, '''    let block = CssParser::parse(Rule::InlineStyle, block)?
        .next()
        .ok_or(ReaderError::EmptyStyleSheet)?;
    Ok(read_declarations(block))''', '''    let mut pairs = CssParser::parse(Rule::InlineStyle, block)?;
    match pairs.next() {
        Some(block) => Ok(read_declarations(block)),
        None => Err(ReaderError::EmptyStyleSheet),
    }'''))
R('rn-cr-inline-map', (CR2, '''    let block = CssParser::parse(Rule::InlineStyle, block)?
        .next()
        .ok_or(ReaderError::EmptyStyleSheet)?;
    Ok(read_declarations(block))''', '''    CssParser::parse(Rule::InlineStyle, block)?
        .next()
        .map(read_declarations)
        .ok_or(ReaderError::EmptyStyleSheet)'''))
R('rn-cr-frame-fn', (CR2, '''                for pair in iter {
                    let mut iter = pair.into_inner();
                    let step = iter.next().unwrap();
                    let step = match step.as_rule() {
                        Rule::Percentage => read_number(step.into_inner().next().unwrap()) as u32,
                        Rule::Keyword => match step.as_str() {
                            "from" => 0,
                            "to" => 100,
                            keyword => {
                                error!("incorrect keyframe step {keyword}");
                                0
                            }
                        },
                        _ => unreachable!(),
                    };
                    let decls = iter.next().unwrap().into_inner().next().unwrap();
                    let declaration = read_declarations(decls);
                    keyframes.push(Keyframe { step, declaration });
                }
''', '''                keyframes.extend(iter.map(read_keyframe));
'''), (CR2, '''fn read_declarations(''', '''fn read_keyframe(pair: Pair<Rule>) -> Keyframe {
    let mut iter = pair.into_inner();
    let step = iter.next().unwrap();
    let step = match (step.as_rule(), step.as_str()) {
        (Rule::Percentage, _) => read_number(step.into_inner().next().unwrap()) as u32,
        (Rule::Keyword, "from") => 0,
        (Rule::Keyword, "to") => 100,
        (Rule::Keyword, keyword) => {
            error!("incorrect keyframe step {keyword}");
            0
        }
        _ => unreachable!(),
    };
    let decls = iter.next().unwrap().into_inner().next().unwrap();
    Keyframe {
        step,
        declaration: read_declarations(decls),
    }
}

fn read_declarations('''))
R('rn-cr-frame-collect', (CR2, '''                let mut keyframes = vec![];
                for pair in iter {''', '''                let keyframes: Vec<Keyframe> = iter.map(|pair| {'''), (CR2, '''                    keyframes.push(Keyframe { step, declaration });
                }
''', '''                    Keyframe { step, declaration }
                }).collect();
'''))
R('rn-cr-anim-key', (CR2, '''                let name = name.as_str().to_string();
                animations.insert(name.clone(), Animation { name, keyframes });''', '''                let name = name.as_str();
                let animation = Animation {
                    name: name.to_owned(),
                    keyframes,
                };
                animations.insert(name.to_string(), animation);'''))
R('rn-cr-descendant-last', (CR2, '''                                let is_descendant = components.len() > 0
                                    && components[components.len() - 1].as_combinator().is_none();
                                if is_descendant {
                                    components.push(Simple::Combinator(' '));
                                }''', '''                                if let Some(last) = components.last() {
                                    if last.as_combinator().is_none() {
                                        components.push(Simple::Combinator(' '));
                                    }
                                }'''))
R('rn-cr-descendant-map', (CR2, '''                                let is_descendant = components.len() > 0
                                    && components[components.len() - 1].as_combinator().is_none();
                                if is_descendant {''', '''                                let is_descendant = components
                                    .last()
                                    .map(|last| !matches!(last, Simple::Combinator(_)))
                                    .unwrap_or(false);
                                if is_descendant {'''))
R('rn-cr-descendant-is-some', (CR2, '''                                let is_descendant = components.len() > 0
                                    && components[components.len() - 1].as_combinator().is_none();
                                if is_descendant {''', '''                                let combined = match components.last() {
                                    None => true,
                                    Some(simple) => simple.as_combinator().is_some(),
                                };
                                if !combined {'''))
R('rn-cr-simple-fn', (CR2, '''                                for simple in component.into_inner() {
                                    let simple_rule = simple.as_rule();''', '''                                for simple in component.into_inner() {
                                    components.push(read_simple(simple));
                                }
                            }
                            Rule::Combinator => components.push(Simple::Combinator(
                                component.as_str().chars().next().unwrap(),
                            )),
                            _ => unreachable!(),
                        }
                    }
                    selectors.push(Complex {
                        selectors: components,
                    })
                }

                let decls = iter.next().unwrap().into_inner().next().unwrap();
                let declaration = read_declarations(decls);
                styles.push(Style {
                    selectors,
                    declaration,
                })
            }
            _ => unreachable!(),
        }
    }
    Ok(Css { styles, animations })
}

fn read_simple(simple: Pair<Rule>) -> Simple {
                                    let simple_rule = simple.as_rule();'''), (CR2, '''                                    let component = match simple_rule {
                                        Rule::All''', '''                                    match simple_rule {
                                        Rule::All'''), (CR2, '''                                        Rule::PseudoElement => Simple::PseudoElement(ident),
                                        _ => unreachable!(),
                                    };
                                    components.push(component)
                                }
                            }
                            Rule::Combinator => components.push(Simple::Combinator(
                                component.as_str().chars().next().unwrap(),
                            )),
                            _ => unreachable!(),
                        }
                    }
                    selectors.push(Complex {
                        selectors: components,
                    })
                }

                let decls = iter.next().unwrap().into_inner().next().unwrap();
                let declaration = read_declarations(decls);
                styles.push(Style {
                    selectors,
                    declaration,
                })
            }
            _ => unreachable!(),
        }
    }
    Ok(Css { styles, animations })
}''', '''                                        Rule::PseudoElement => Simple::PseudoElement(ident),
                                        _ => unreachable!(),
                                    }
}'''))
R('rn-cr-ident-lazy', (CR2, '''                                    let ident = iter
                                        .next()
                                        .map(|pair| pair.as_str().to_string())
                                        .unwrap_or(String::new());''', '''                                    let ident = match iter.next() {
                                        Some(pair) => pair.as_str().to_owned(),
                                        None => String::new(),
                                    };'''))
R('rn-cr-matcher-option', (CR2, '''                                            let matcher =
                                                iter.next().map(|pair| pair.as_str()).unwrap_or("");
                                            let matcher = match matcher {
                                                "" => Matcher::Exist,
                                                "=" => Matcher::Equal,
                                                "~=" => Matcher::Include,
                                                "|=" => Matcher::DashMatch,
                                                "^=" => Matcher::Prefix,
                                                "$=" => Matcher::Suffix,
                                                "*=" => Matcher::Substring,
                                                _ => unreachable!(),
                                            };''', '''                                            let matcher = match iter.next().map(|pair| pair.as_str()) {
                                                None | Some("") => Matcher::Exist,
                                                Some("=") => Matcher::Equal,
                                                Some("~=") => Matcher::Include,
                                                Some("|=") => Matcher::DashMatch,
                                                Some("^=") => Matcher::Prefix,
                                                Some("$=") => Matcher::Suffix,
                                                Some("*=") => Matcher::Substring,
                                                Some(_) => unreachable!(),
                                            };'''))
R('rn-cr-search-match', (CR2, '''                                            let search = iter
                                                .next()
                                                .map(|pair| match pair.as_rule() {
                                                    Rule::String => pair
                                                        .into_inner()
                                                        .next()
                                                        .unwrap()
                                                        .as_str()
                                                        .to_string(),
                                                    Rule::Ident => pair.as_str().to_string(),
                                                    _ => unreachable!(),
                                                })
                                                .unwrap_or(String::new());''', '''                                            let mut search = String::new();
                                            if let Some(pair) = iter.next() {
                                                let value = match pair.as_rule() {
                                                    Rule::Ident => pair,
                                                    Rule::String => pair.into_inner().next().unwrap(),
                                                    _ => unreachable!(),
                                                };
                                                search = value.as_str().to_string();
                                            }'''))
R('rn-cr-decl-starts', (CR2, '''        let declaration = if key.starts_with("--") {
            let values: Vec<Shorthand> = shorthands
                .into_inner()
                .map(|value| read_shorthand(value))
                .collect();
            Declaration::Variable(Variable {
                key: key.to_string(),
                shorthand: values[0].clone(),
            })
        } else {
            let key = match PropertyKey::parse(key) {
                Some(key) => key,
                None => {
                    error!("unable to read property {key}, not supported");
                    continue;
                }
            };
            let values = shorthands
                .into_inner()
                .map(|value| read_shorthand(value))
                .collect();
            Declaration::Property(Property { key, values })
        };''', '''        let mut values: Vec<Shorthand> = shorthands.into_inner().map(read_shorthand).collect();
        let declaration = if key.starts_with("--") {
            Declaration::Variable(Variable {
                key: key.to_string(),
                shorthand: values.swap_remove(0),
            })
        } else if let Some(key) = PropertyKey::parse(key) {
            Declaration::Property(Property { key, values })
        } else {
            error!("unable to read property {key}, not supported");
            continue;
        };'''))
R('rn-cr-decl-filter-map', (CR2, '''    let mut declarations = vec![];
    for property in pair.into_inner() {
        let mut iter''', '''    pair.into_inner().filter_map(read_declaration).collect()
}

fn read_declaration(property: Pair<Rule>) -> Option<Declaration> {
        let mut iter'''), (CR2, '''                    error!("unable to read property {key}, not supported");
                    continue;''', '''                    error!("unable to read property {key}, not supported");
                    return None;'''), (CR2, '''            Declaration::Property(Property { key, values })
        };
        declarations.push(declaration)
    }
    declarations
}''', '''            Declaration::Property(Property { key, values })
        };
        Some(declaration)
}'''))
R('rn-cr-decl-let-else', (CR2, '''            let key = match PropertyKey::parse(key) {
                Some(key) => key,
                None => {
                    error!("unable to read property {key}, not supported");
                    continue;
                }
            };
            let values = shorthands
                .into_inner()
                .map(|value| read_shorthand(value))
                .collect();''', '''            let Some(key) = PropertyKey::parse(key) else {
                error!("unable to read property {key}, not supported");
                continue;
            };
            let mut values = vec![];
            for value in shorthands.into_inner() {
                values.push(read_shorthand(value));
            }'''))
R('rn-cr-var-first', (CR2, '''            let values: Vec<Shorthand> = shorthands
                .into_inner()
                .map(|value| read_shorthand(value))
                .collect();
            Declaration::Variable(Variable {
                key: key.to_string(),
                shorthand: values[0].clone(),
            })''', '''            let shorthand = shorthands.into_inner().map(read_shorthand).next().unwrap();
            let key = key.to_string();
            Declaration::Variable(Variable { key, shorthand })'''))
R('rn-cr-shorthand-loop', (CR2, '''    pair.into_inner().map(read_value_def).collect()''', '''    let mut shorthand = Shorthand::new();
    for value in pair.into_inner() {
        shorthand.push(read_value_def(value));
    }
    shorthand'''))
R('rn-cr-function-collect', (CR2, '''            let mut arguments = vec![];
            while let Some(arg) = iter.next() {
                arguments.push(read_value_def(arg));
            }
            Definition::Function''', '''            let arguments = iter.map(read_value_def).collect();
            Definition::Function'''))
R('rn-cr-var-inner', (CR2, '''            let mut iter = pair.into_inner();
            let name = iter.next().unwrap().as_str().to_string();
            Definition::Var(name)''', '''            let name = pair.into_inner().next().unwrap();
            Definition::Var(String::from(name.as_str()))'''))
R('rn-cr-dimension-match', (CR2, '''    let unit = Units::parse(unit).unwrap_or_else(|| {
        error!("unable to read dimension unit {unit}, not supported");
        Units::Px
    });
    Dim::new(value, unit)''', '''    match Units::parse(unit) {
        Some(unit) => Dim::new(value, unit),
        None => {
            error!("unable to read dimension unit {unit}, not supported");
            Dim::new(value, Units::Px)
        }
    }'''))
R('rn-cr-percentage', (CR2, '''    let mut iter = pair.into_inner();
    let value = read_number(iter.next().unwrap());
    value / 100.0''', '''    read_number(pair.into_inner().next().unwrap()) / 100.0'''))
R('rn-cr-seconds', (CR2, '''    match unit {
        "s" => value,
        "ms" => value / 1000.0,
        _ => unreachable!(),
    }''', '''    let second = match unit {
        "s" => 1.0,
        "ms" => 1000.0,
        _ => unreachable!(),
    };
    value / second'''))
R('rn-cr-number-match', (CR2, '''    number.parse::<f32>().unwrap_or_else(|error| {
        error!("unable to parse number value {number}, {error}");
        0.0
    })''', '''    match number.parse() {
        Ok(value) => value,
        Err(error) => {
            error!("unable to parse number value {number}, {error}");
            0.0
        }
    }'''))
R('rn-cr-color-hex', (CR2, '''        7 if value.starts_with("#") => {
            let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
            let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
            let b = u8::from_str_radix(&value[5..7], 16).unwrap_or(0);
            let a = 255;
            [r, g, b, a]
        }
        9 if value.starts_with("#") => {
            let r = u8::from_str_radix(&value[1..3], 16).unwrap_or(0);
            let g = u8::from_str_radix(&value[3..5], 16).unwrap_or(0);
            let b = u8::from_str_radix(&value[5..7], 16).unwrap_or(0);
            let a = u8::from_str_radix(&value[7..9], 16).unwrap_or(0);
            [r, g, b, a]
        }''', '''        7 | 9 if value.starts_with("#") => {
            let hex = |from: usize| u8::from_str_radix(&value[from..from + 2], 16).unwrap_or(0);
            let a = if value.len() == 9 { hex(7) } else { u8::MAX };
            [hex(1), hex(3), hex(5), a]
        }'''))
R('rn-cr-color-strip', (CR2, '''        _ => {
            if value.starts_with("rgb") {''', '''        _ => {
            let is_function = value.starts_with("rgb");
            if is_function {'''), (CR2, '''                let a: f32 = iter
                    .next()
                    .map(|a| a.as_str().parse().unwrap_or(1.0))
                    .unwrap_or(1.0);
                let a = (255.0 * a.max(0.0).min(1.0)) as u8;''', '''                let a: f32 = match iter.next() {
                    Some(alpha) => alpha.as_str().parse().unwrap_or(1.0),
                    None => 1.0,
                };
                let a = (a.clamp(0.0, 1.0) * 255.0) as u8;'''))
R('rn-cr-color-array', (CR2, '''                let r: u8 = iter.next().unwrap().as_str().parse().unwrap_or(0);
                let g: u8 = iter.next().unwrap().as_str().parse().unwrap_or(0);
                let b: u8 = iter.next().unwrap().as_str().parse().unwrap_or(0);''', '''                let mut channel = || -> u8 { iter.next().unwrap().as_str().parse().unwrap_or(0) };
                let (r, g, b) = (channel(), channel(), channel());'''))
R('rn-cr-color-early', (CR2, '''            if value.starts_with("rgb") {
                let mut iter''', '''            if !value.starts_with("rgb") {
                error!("unable to parse color {value}");
                [255, 255, 255, 255]
            } else {
                let mut iter'''), (CR2, '''                [r, g, b, a]
            } else {
                error!("unable to parse color {value}");
                [255; 4]
            }''', '''                [r, g, b, a]
            }'''))
R('rn-cr-color-digit', (CR2, '''            let digit = |index| {
                u8::from_str_radix(&value[index..index + 1], 16)
                    .map(|value| value * 17)
                    .unwrap_or(0)
            };''', '''            let digit = |index: usize| match u8::from_str_radix(&value[index..=index], 16) {
                Ok(value) => 16 * value + value,
                Err(_) => 0,
            };'''))
R('rn-cr-explicit-string', (CR2, '''        Rule::String => ComputedValue::Str(pair.into_inner().next().unwrap().as_str().to_string()),''', '''        Rule::String => {
            let content = pair.into_inner().next().unwrap();
            ComputedValue::Str(content.as_str().into())
        }'''))

# ---------------------------------------------------------------- html/reader.rs
HR2 = 'src/html/reader.rs'
BINDER_STR = '''    TextSpan::String(string) => {'''
R('rn-hr-link-early', (HR2, '''        if self.tag == "link" {
            let mut bindings = vec![];
            let mut id = None;
            for binding in &self.bindings {
                if let ElementBinding::None(name, value) = binding {
                    if name == "href" {
                        id = Some(value.clone());
                        continue;
                    }
                }
                bindings.push(binding.clone());
            }
            if let Some(id) = id {
                return Some((id, bindings));
            }
        }
        None
''', '''        if self.tag != "link" {
            return None;
        }
        let mut rest = Vec::with_capacity(self.bindings.len());
        let mut href = None;
        for binding in self.bindings.iter() {
            match binding {
                ElementBinding::None(name, value) if name == "href" => href = Some(value),
                other => rest.push(other.clone()),
            }
        }
        href.map(|id| (id.to_string(), rest))
'''))
L('rn-hr-link-partition', (HR2, '''            let mut bindings = vec![];
            let mut id = None;
            for binding in &self.bindings {
                if let ElementBinding::None(name, value) = binding {
                    if name == "href" {
                        id = Some(value.clone());
                        continue;
                    }
                }
                bindings.push(binding.clone());
            }
            if let Some(id) = id {
                return Some((id, bindings));
            }
''', '''            let is_href = |binding: &&ElementBinding| {
                matches!(binding, ElementBinding::None(name, _) if name == "href")
            };
            let id = self.bindings.iter().filter(is_href).last();
            if let Some(ElementBinding::None(_, id)) = id {
                let bindings = self
                    .bindings
                    .iter()
                    .filter(|binding| !is_href(binding))
                    .cloned()
                    .collect();
                return Some((id.clone(), bindings));
            }
'''))
R('rn-hr-visibility-find', (HR2, '''        for binding in &self.bindings {
            if let ElementBinding::Visibility(visible, binder) = binding {
                return Some((*visible, binder));
            }
        }
        None
''', '''        self.bindings.iter().find_map(|binding| {
            if let ElementBinding::Visibility(visible, binder) = binding {
                Some((*visible, binder))
            } else {
                None
            }
        })
'''))
R('rn-hr-repeat-filter', (HR2, '''        for binding in &self.bindings {
            if let ElementBinding::Repeat(name, count, binder) = binding {
                return Some((name, *count, binder));
            }
        }
        None
''', '''        self.bindings
            .iter()
            .filter_map(|binding| match binding {
                ElementBinding::Repeat(name, count, binder) => Some((name.as_str(), *count, binder)),
                _ => None,
            })
            .next()
'''))
L('rn-hr-repeat-while', (HR2, '''        for binding in &self.bindings {
            if let ElementBinding::Repeat(name, count, binder) = binding {
                return Some((name, *count, binder));
            }
        }
        None
''', '''        let mut found = None;
        for binding in &self.bindings {
            match binding {
                ElementBinding::Repeat(name, count, binder) if found.is_none() => {
                    found = Some((name.as_str(), *count, binder));
                }
                _ => {}
            }
        }
        found
'''))
R('rn-hr-simple-len', (HR2, '''        match self.spans.as_slice() {
            [TextSpan::String(text)] => Some(text.to_string()),
            _ => None,
        }''', '''        if self.spans.len() != 1 {
            return None;
        }
        match &self.spans[0] {
            TextSpan::String(text) => Some(text.clone()),
            TextSpan::Binder(_) => None,
        }'''))
R('rn-hr-simple-if', (HR2, '''        match self.spans.as_slice() {
            [TextSpan::String(text)] => Some(text.to_string()),
            _ => None,
        }''', '''        let [TextSpan::String(text)] = &self.spans[..] else {
            return None;
        };
        Some(text.to_owned())'''))
R('rn-hr-read-map', (HR2, '''    let document = HtmlParser::parse(Rule::Document, html)?
        .next()
        .ok_or(ReaderError::EmptyDocument)?;
    let content = parse_content(document, true);
    Ok(content)''', '''    HtmlParser::parse(Rule::Document, html)?
        .next()
        .map(|document| parse_content(document, true))
        .ok_or(ReaderError::EmptyDocument)'''))
R('rn-hr-element-drop-attrs', (HR2, '''            let bindings = parse_element_bindings(attrs);
            let mut attrs = HashMap::new();
            for binding in &bindings {
                match binding {
                    ElementBinding::None(key, value) => {
                        attrs.insert(key.to_string(), value.to_string());
                    }
                    _ => {}
                }
            }
            let children: Vec''', '''            let bindings = parse_element_bindings(attrs);
            let children: Vec'''))
R('rn-hr-element-loop', (HR2, '''            let children: Vec<Pair<Rule>> = children.into_inner().collect();
            let children_count = children.len();
            Html {
                tag: tag.to_string(),
                bindings,
                text: None,
                children: children
                    .into_iter()
                    .enumerate()
                    .map(|(index, child)| parse_content(child, index + 1 == children_count))
                    .collect(),
            }''', '''            let pairs: Vec<Pair<Rule>> = children.into_inner().collect();
            let mut rest = pairs.len();
            let mut children = vec![];
            for child in pairs {
                rest -= 1;
                children.push(parse_content(child, rest == 0));
            }
            Html {
                tag: tag.to_string(),
                bindings,
                text: None,
                children,
            }'''))
L('rn-hr-element-peek', (HR2, '''            let children: Vec<Pair<Rule>> = children.into_inner().collect();
            let children_count = children.len();
            Html {
                tag: tag.to_string(),
                bindings,
                text: None,
                children: children
                    .into_iter()
                    .enumerate()
                    .map(|(index, child)| parse_content(child, index + 1 == children_count))
                    .collect(),
            }''', '''            let mut pairs = children.into_inner().peekable();
            let mut children = vec![];
            while let Some(child) = pairs.next() {
                let is_last = pairs.peek().is_none();
                children.push(parse_content(child, is_last));
            }
            Html {
                tag: tag.to_string(),
                bindings,
                children,
                ..Html::empty()
            }'''))
R('rn-hr-element-last-index', (HR2, '''                    .map(|(index, child)| parse_content(child, index + 1 == children_count))''', '''                    .map(|(index, child)| {
                        let is_last = index >= children_count - 1;
                        parse_content(child, is_last)
                    })'''))
R('rn-hr-void-empty', (HR2, '''            Html {
                tag: tag.to_string(),
                bindings,
                text: None,
                children: vec![],
            }
        }
        Rule::Script => Html {
            tag: "script".to_string(),
            bindings: vec![],
            text: None,
            children: vec![],
        },''', '''            let mut html = Html::empty();
            html.tag = tag.to_string();
            html.bindings = bindings;
            html
        }
        Rule::Script => Html {
            tag: String::from("script"),
            ..Html::empty()
        },'''))
R('rn-hr-prefetch-collect', (HR2, '''            let mut prefetch = vec![];
            for span in pair.into_inner() {
                match span.as_rule() {
                    Rule::String => prefetch.push(TextSpan::String(span.as_str().to_string())),
                    Rule::Binder => prefetch.push(TextSpan::Binder(parse_binder(span))),
                    _ => unreachable!(),
                }
            }''', '''            let prefetch: Vec<TextSpan> = pair
                .into_inner()
                .map(|span| match span.as_rule() {
                    Rule::String => TextSpan::String(span.as_str().to_string()),
                    Rule::Binder => TextSpan::Binder(parse_binder(span)),
                    _ => unreachable!(),
                })
                .collect();'''))
R('rn-hr-text-for', (HR2, '''            for index in 0..count {
                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
                    true
                } else {
                    false
                };
                let span = prefetch[index].clone();
                match span {''', '''            for span in prefetch {
                match span {'''), (HR2, '''            let count = prefetch.len();
            let mut spans = vec![];
''', '''            let mut spans = vec![];
'''))
R('rn-hr-text-direct', (HR2, '''            let mut prefetch = vec![];
            for span in pair.into_inner() {
                match span.as_rule() {
                    Rule::String => prefetch.push(TextSpan::String(span.as_str().to_string())),
                    Rule::Binder => prefetch.push(TextSpan::Binder(parse_binder(span))),
                    _ => unreachable!(),
                }
            }
            let count = prefetch.len();
            let mut spans = vec![];

            for index in 0..count {
                let _is_next_binding = if let Some(TextSpan::Binder(_)) = prefetch.get(index + 1) {
                    true
                } else {
                    false
                };
                let span = prefetch[index].clone();
                match span {
                    TextSpan::String(string) => {''', '''            let mut spans = vec![];
            for span in pair.into_inner() {
                match span.as_rule() {
                    Rule::String => {
                        let string = span.as_str();'''), (HR2, '''                    span => spans.push(span),
                }
            }
            let text''', '''                    Rule::Binder => spans.push(TextSpan::Binder(parse_binder(span))),
                    _ => unreachable!(),
                }
            }
            let text'''))
R('rn-hr-fragment-fn', (HR2, '''                        let mut text = String::new();
                        for (index, fragment) in string.split("\\n").enumerate() {
                            if index != 0 {
                                let fragment = fragment.trim_start();
                                if !fragment.is_empty() || !is_last_content {
                                    text.push(' ');
                                    text.push_str(fragment);
                                }
                            } else {
                                text.push_str(fragment);
                            }
                        }
                        if !text.is_empty() {
                            spans.push(TextSpan::String(text));
                        }''', '''                        let text = fold_lines(&string, is_last_content);
                        if !text.is_empty() {
                            spans.push(TextSpan::String(text));
                        }'''), (HR2, '''fn parse_binder(''', '''fn fold_lines(string: &str, is_last_content: bool) -> String {
    let mut text = String::new();
    for (index, fragment) in string.split('\\n').enumerate() {
        if index == 0 {
            text.push_str(fragment);
            continue;
        }
        let fragment = fragment.trim_start();
        if is_last_content && fragment.is_empty() {
            continue;
        }
        text += " ";
        text += fragment;
    }
    text
}

fn parse_binder('''))
R('rn-hr-fragment-lines', (HR2, '''                        let mut text = String::new();
                        for (index, fragment) in string.split("\\n").enumerate() {
                            if index != 0 {
                                let fragment = fragment.trim_start();
                                if !fragment.is_empty() || !is_last_content {
                                    text.push(' ');
                                    text.push_str(fragment);
                                }
                            } else {
                                text.push_str(fragment);
                            }
                        }''', '''                        let mut lines = string.split("\\n");
                        let mut text = lines.next().unwrap_or_default().to_string();
                        for line in lines {
                            let line = line.trim_start();
                            if !line.is_empty() || !is_last_content {
                                text.push(' ');
                                text.push_str(line);
                            }
                        }'''))
R('rn-hr-binder-match', (HR2, '''            Rule::Getter => {
                path = next
                    .into_inner()
                    .map(|key| key.as_str().to_string())
                    .collect();
            }''', '''            Rule::Getter => {
                let mut keys = vec![];
                for key in next.into_inner() {
                    keys.push(key.as_str().to_owned());
                }
                path = keys;
            }'''))
R('rn-hr-binder-struct', (HR2, '''    let mut path = vec![];
    let mut pipe = vec![];
    for next in pair.into_inner() {''', '''    let mut binder = Binder {
        path: Vec::new(),
        pipe: Vec::new(),
    };
    for next in pair.into_inner() {'''), (HR2, '''                path = next
                    .into_inner()''', '''                binder.path = next
                    .into_inner()'''), (HR2, '''            Rule::Transformer => pipe.push(next.as_str().trim_end().to_string()),
            _ => unreachable!(),
        }
    }
    Binder { path, pipe }''', '''            Rule::Transformer => binder.pipe.push(next.as_str().trim_end().to_string()),
            _ => unreachable!(),
        }
    }
    binder'''))
R('rn-hr-bindings-map', (HR2, '''    let mut bindings = vec![];
    for pair in pair.into_inner() {
        let rule = pair.as_rule();''', '''    pair.into_inner().map(parse_element_binding).collect()
}

fn parse_element_binding(pair: Pair<Rule>) -> ElementBinding {
        let rule = pair.as_rule();'''), (HR2, '''        let binding = match rule {''', '''        match rule {'''), (HR2, '''                ElementBinding::None(name, "".to_string())
            }
            _ => unreachable!(),
        };
        bindings.push(binding);
    }
    bindings
}''', '''                ElementBinding::None(name, "".to_string())
            }
            _ => unreachable!(),
        }
}'''))
R('rn-hr-bindings-or', (HR2, '''            Rule::DoubleQuoted => {
                let value = iter.next().unwrap().as_str().to_string();
                ElementBinding::None(name, value)
            }
            Rule::Unquoted => {
                let value = iter.next().unwrap().as_str().to_string();
                ElementBinding::None(name, value)
            }
            Rule::Empty => {
                // empty attribute syntax is exactly equivalent to specifying the empty string
                // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
                ElementBinding::None(name, "".to_string())
            }''', '''            Rule::DoubleQuoted | Rule::Unquoted => {
                ElementBinding::None(name, iter.next().unwrap().as_str().to_string())
            }
            Rule::Empty => ElementBinding::None(name, String::new()),'''))
R('rn-hr-bindings-value', (HR2, '''            Rule::DoubleQuoted => {
                let value = iter.next().unwrap().as_str().to_string();
                ElementBinding::None(name, value)
            }
            Rule::Unquoted => {
                let value = iter.next().unwrap().as_str().to_string();
                ElementBinding::None(name, value)
            }
            Rule::Empty => {
                // empty attribute syntax is exactly equivalent to specifying the empty string
                // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-attributes
                ElementBinding::None(name, "".to_string())
            }''', '''            Rule::DoubleQuoted | Rule::Unquoted | Rule::Empty => {
                let value = iter.next().map(|value| value.as_str()).unwrap_or("");
                ElementBinding::None(name, value.to_string())
            }'''))
R('rn-hr-repeat-count', (HR2, '''                let count = iter.next().unwrap().as_str();
                let count = count.parse::<usize>().unwrap_or_else(|error| {
                    error!("unable to parse repeat count '{count}', {error}");
                    0
                });''', '''                let text = iter.next().unwrap().as_str();
                let count: usize = match text.parse() {
                    Ok(count) => count,
                    Err(error) => {
                        error!("unable to parse repeat count '{text}', {error}");
                        0
                    }
                };'''))
R('rn-hr-args-collect', (HR2, '''                let mut arguments = vec![];
                for pair in iter {
                    let argument = match pair.as_rule() {
                        Rule::Key => CallbackArgument::Keyword(pair.as_str().to_string()),
                        Rule::Binder => CallbackArgument::Binder(parse_binder(pair)),
                        Rule::Event => CallbackArgument::Event,
                        _ => unreachable!(),
                    };
                    arguments.push(argument);
                }
                ElementBinding::Callback(name, arguments)''', '''                let arguments = iter.map(|argument| match argument.as_rule() {
                    Rule::Event => CallbackArgument::Event,
                    Rule::Key => CallbackArgument::Keyword(argument.as_str().to_string()),
                    Rule::Binder => CallbackArgument::Binder(parse_binder(argument)),
                    _ => unreachable!(),
                });
                ElementBinding::Callback(name, arguments.collect())'''))
R('rn-hr-visible', (HR2, '''                let visible = name == "?";
                let binder = parse_binder(iter.next().unwrap());
                ElementBinding::Visibility(visible, binder)''', '''                let binder = parse_binder(iter.next().unwrap());
                match name.as_str() {
                    "?" => ElementBinding::Visibility(true, binder),
                    _ => ElementBinding::Visibility(false, binder),
                }'''))
R('rn-hr-binder-once', (HR2, '''            Rule::AliasBinding => {
                let binder = parse_binder(iter.next().unwrap());
                ElementBinding::Alias(name, binder)
            }
            Rule::TagBinding => {
                let binder = parse_binder(iter.next().unwrap());
                ElementBinding::Tag(name, binder)
            }''', '''            Rule::AliasBinding | Rule::TagBinding => {
                let binder = iter.next().map(parse_binder).unwrap();
                if rule == Rule::TagBinding {
                    ElementBinding::Tag(name, binder)
                } else {
                    ElementBinding::Alias(name, binder)
                }
            }'''))

# ---------------------------------------------------------------- bugs in the newly accepted forms
def edits_of(name):
    return [list(e) for n, _, es in VARIANTS + LIMITS if n == name for e in es]


def BR(name, prop, base, old, new):
    """A bug inside the text of a refactoring that is accepted."""
    es = edits_of(base)
    hit = [e for e in es if old in e[2]]
    assert len(hit) == 1, (name, len(hit))
    assert hit[0][2].count(old) == 1, name
    hit[0][2] = hit[0][2].replace(old, new)
    VARIANTS.append((name, prop, [tuple(e) for e in es]))


BR('bn-offset-helper-sign', 'C13', 'rn-rs-offset-helper', 'Self::step(&mut self.y, -y,', 'Self::step(&mut self.y, y,')
BR('bn-offset-match-sign', 'C13', 'rn-rs-offset-match', '-50.0', '50.0')
BR('bn-offset-helper-limit', 'C13', 'rn-rs-offset-helper', 'Self::step(&mut self.y, -y, self.scroll_y)', 'Self::step(&mut self.y, -y, self.scroll_x)')
BR('bn-offset-const', 'C13', 'rn-rs-offset-const', 'STEP.copysign(y)', 'y.copysign(STEP)')
BR('bn-ensure-early', 'C13', 'rn-rs-ensure-early', 'content.width <= size.width && content.height', 'content.width <= size.width || content.height')
BR('bn-attr-loop', 'C28', 'rn-re-attr-loop', 'let index = spans.len();', 'let index = spans.len() + 1;')
BR('rn-template-append', None, 'rn-re-template-match', 'template.bindings = bindings;', 'template.bindings.append(&mut bindings);')
BR('bn-template-template', 'C28', 'rn-re-template-match', '(template, Some((id, definition)))', '(template, None)')
BR('bn-void-matches', 'C28', 'rn-re-void-matches', '"link", "meta",', '"label", "meta",')
BR('bn-restore-fn', 'C28', 'rn-re-restore-fn', 'self.locals.remove(&name);', 'self.locals.clear();')
BR('bn-alias-filter', 'C28', 'rn-re-alias-filter', '''                        if !overridden.contains_key(name) {
                            overridden.insert(name.clone(), previous);
                        }''', '''                        overridden.insert(name.clone(), previous);''')
BR('bn-text-loop', 'C28', 'rn-re-text-loop', 'BindingParams::Text(node, index), binder.pipe', 'BindingParams::Text(node, 0), binder.pipe')
BR('bn-hints-or', 'C28', 'rn-re-hints-or', 'has_dynamic_id |= key == "id"', 'has_dynamic_id = key == "id"')
BR('bn-element-loop', 'C23', 'rn-hr-element-loop', 'rest == 0', 'rest == 1')
BR('bn-element-last-index', 'C23', 'rn-hr-element-last-index', 'index >= children_count - 1', 'index > children_count - 1')
BR('bn-link-early', 'C23', 'rn-hr-link-early', 'name == "href"', 'name == "id"')
BR('bn-fragment-fn', 'C23', 'rn-hr-fragment-fn', 'if is_last_content && fragment', 'if is_last_content || fragment')
BR('bn-bindings-value', 'C23', 'rn-hr-bindings-value', 'unwrap_or("")', 'unwrap_or("true")')
BR('bn-color-digit', 'C22', 'rn-cr-color-digit', '16 * value + value', '16 * value')
BR('bn-color-digit-range', 'C22', 'rn-cr-color-digit', 'index..=index]', 'index..=index + 1]')
BR('bn-color-hex', 'C22', 'rn-cr-color-hex', 'hex(7)', 'hex(6)')
BR('bn-frame-fn', 'C22', 'rn-cr-frame-fn', '(Rule::Keyword, "to") => 100', '(Rule::Keyword, "to") => 1')
BR('bn-descendant-is-some', 'C22', 'rn-cr-descendant-is-some', 'None => true', 'None => false')
BR('bn-matcher-option', 'C22', 'rn-cr-matcher-option', 'Some("^=") => Matcher::Prefix', 'Some("^=") => Matcher::Suffix')
BR('bn-seconds', 'C22', 'rn-cr-seconds', '"ms" => 1000.0', '"ms" => 100.0')
BR('bn-decl-starts', 'C22', 'rn-cr-decl-starts', 'values.swap_remove(0)', 'values.pop().unwrap()')
BR('bn-value-truth', 'C08', 'rn-rs-value-truth-matches', 'Value::Bool(true) => true', 'Value::Bool(true) => false')
BR('bn-value-bool', 'C08', 'rn-rs-value-bool-cast', 'Value::Bool(true) => 1', 'Value::Bool(true) => 2')
BR('bn-img-bg', 'C28', 'rn-re-bg-push', 'background.is_src = true;', '')
BR('bn-input-struct', 'C30', 'rn-rs-input-struct', 'Self { time, ..self }', 'Self { time: self.time + time, ..self }')
BR('bn-re-finish', 'C28', 'rn-re-finish', 'element.children = children;', '')
