V = 'src/view.rs'
M = 'src/view_model.rs'
E = 'src/element.rs'
I = 'src/input.rs'
LOOP = '''                let mut id = None;
                for binding in &child.bindings {
                    if let ElementBinding::None(key, value) = binding {
                        if key == "id" {
                            id = Some(value.clone());
                        }
                    }
                }
                if let Some(id) = id {
                    if child.children.len() == 1 {
                        templates.insert(format!("#{id}"), child.children[0].clone());
                    }
                }
'''
ARRAY = '''                    if !target.is_array() {
                        *target = json!([]);
                    }
                    let array = target.as_array_mut().unwrap();
                    if array.len() <= index {
                        array.resize(index + 1, Value::Null);
                    }
                    target = &mut array[index];
'''
OBJECT = '''                    if !target.is_object() {
                        *target = json!({});
                    }
                    let object = target.as_object_mut().unwrap();
                    if !object.contains_key(token) {
                        object.insert(token.to_string(), Value::Null);
                    }
                    target = object.get_mut(token).unwrap();
'''
LINK = '''            if child.tag == "link" {
                let mut attrs = HashMap::new();
                for binding in &child.bindings {
                    if let ElementBinding::None(key, value) = binding {
                        attrs.insert(key.clone(), value.as_str());
                    }
                }
            }
'''
VARIANTS = [
    ('bug-bui-id-name', 'C27', [(V, 'if key == "id" {\n                            id', 'if key == "id" || key == "name" {\n                            id')]),
    ('bug-bui-template-two', 'C27', [(V, 'if child.children.len() == 1 {', 'if child.children.len() >= 1 {')]),
    ('bug-bui-template-hash', 'C27', [(V, 'format!("#{id}")', 'id')]),
    ('bug-bui-template-first', 'C27', [(V, 'templates.insert(format!("#{id}"), child.children[0].clone());', 'templates.entry(format!("#{id}")).or_insert(child.children[0].clone());')]),
    ('bug-bui-body-last', 'C27', [(V, '                body = child;\n                break;', '                body = child;')]),
    ('bug-bui-body-early', 'C27', [(V, 'if child.tag == "body" {', 'if child.tag == "body" && !child.children.is_empty() {')]),
    ('bug-bui-static-order', 'C27', [(V, '''        view.calculate_elements_stylesheet(body)?;
        view.apply_default_bindings_state()?;''', '''        view.apply_default_bindings_state()?;
        view.calculate_elements_stylesheet(body)?;''')]),
    ('bug-bui-static-root', 'C27', [(V, 'view.calculate_elements_stylesheet(body)?;', 'view.calculate_elements_stylesheet(root)?;')]),
    ('bug-bui-state-err', 'C27', [(V, 'view.apply_default_bindings_state()?;', 'let _ = view.apply_default_bindings_state();')]),
    ('bug-bui-fonts', 'C27', [(V, '        self.fonts = Box::new(fonts);\n', '        let _ = fonts;\n')]),
    ('bug-bui-pipe', 'C27', [(V, '''            .transformers
            .insert(name.to_string(), transformer);''', '''            .transformers
            .entry(name.to_string())
            .or_insert(transformer);''')]),
    ('bug-bui-resources', 'C27', [(V, 'resources: resources.to_string(),', 'resources: resources.trim_end_matches(\'/\').to_string(),')]),
    ('bug-bui-duration-name', 'C27', [(M, 'transformers.insert("duration".to_string()', 'transformers.insert("time".to_string()')]),
    ('bug-bui-duration-int', 'C27', [(M, 'match value.as_f64() {', 'match value.as_i64().map(|x| x as f64) {')]),
    ('bug-bui-mouse', 'C27', [(M, 'mouse: [0.0, 0.0],', 'mouse: [-1.0, 0.0],')]),
    ('bug-bui-shape', 'C27', [(M, 'Self::memorize_array_default("", &model, &mut model_array_default);', 'Self::memorize_array_default("/", &model, &mut model_array_default);')]),

    ('bug-sch-shrink', 'C29', [(M, '''                    if array.len() <= index {
                        array.resize(index + 1, Value::Null);
                    }''', '''                    if array.len() != index + 1 {
                        array.resize(index + 1, Value::Null);
                    }''')]),
    ('bug-sch-redefine', 'C29', [(M, '''                    if !object.contains_key(token) {
                        object.insert(token.to_string(), Value::Null);
                    }''', '''                    object.insert(token.to_string(), Value::Null);''')]),
    ('bug-sch-array-reset', 'C29', [(M, 'if !target.is_array() {', 'if !target.is_array() || index == 0 {')]),
    ('bug-sch-place', 'C29', [(M, 'target = &mut array[index];', 'target = &mut array[0];')]),
    ('bug-sch-skip', 'C29', [(M, "pointer.split('/').skip(1)", "pointer.split('/').skip(1).take(8)")]),
    ('bug-sch-pointer-tail', 'C29', [(M, 'format!("{head}/{}", tail.join("/"))', 'format!("{head}/{}", tail[0])')]),
    ('bug-sch-pointer-local', 'C29', [(M, 'let head = locals.get(head).unwrap_or(default);', 'let head = locals.get(head).filter(|_| self.path.len() < 3).unwrap_or(default);')]),
    ('bug-sch-index-def', 'C29', [(M, '''        let pointer = format!("{pointer}/{i}");
        Self::define_value(&mut self.value, &pointer);''', '''        Self::define_value(&mut self.value, &pointer);
        let pointer = format!("{pointer}/{i}");''')]),
    ('bug-sch-field-def', 'C29', [(M, '''        let pointer = binder.to_json_pointer(locals);
        Self::define_value(&mut self.value, &pointer);
        pointer''', '''        let pointer = binder.to_json_pointer(locals);
        if locals.is_empty() {
            Self::define_value(&mut self.value, &pointer);
        }
        pointer''')]),

    ('bug-host-children', 'C30', [(V, '                .map(|node| {\n                    let element = self.tree.get_node_context(*node).unwrap();', '                .rev()\n                .map(|node| {\n                    let element = self.tree.get_node_context(*node).unwrap();')]),
    ('bug-host-body', 'C30', [(V, '.get_node_context(self.body)\n            .expect', '.get_node_context(self.root)\n            .expect')]),
    ('bug-host-id', 'C30', [(V, '            .get(id)\n', '            .get(id.trim())\n')]),
    ('bug-host-percent', 'C30', [(E, 'Length::Percent(value) => value * base,', 'Length::Percent(value) => value * base.max(0.0),')]),
    ('bug-host-border', 'C30', [(E, '''    pub fn left(&self) -> Option<MyBorder> {
        if self.left.width > 0.0 {''', '''    pub fn left(&self) -> Option<MyBorder> {
        if self.right.width > 0.0 {''')]),
    ('bug-host-text', 'C30', [(E, 'self.spans[span] = value;', 'self.spans[span] = value.trim().to_string();')]),
    ('bug-host-events', 'C30', [(I, 'self.events = events;', 'self.events.extend(events);')]),
    ('bug-host-value', 'C30', [(E, 'self.attrs.get("value")', 'self.attrs.get("value").filter(|x| !x.is_empty())')]),
    ('bug-host-serde', 'C30', [(M, '    pub position: [f32; 2],\n    pub state', '    #[serde(rename = "pos")]\n    pub position: [f32; 2],\n    pub state')]),
    ('bug-host-serde-skip', 'C30', [(M, '    pub char: char,', '    #[serde(skip, default)]\n    pub char: char,')]),
    ('bug-host-serde-enum', 'C30', [(I, '    PageDown,\n', '    #[serde(rename = "Page_Down")]\n    PageDown,\n')]),

    ('r-bui-nolink', None, [(V, LINK, '')]),
    ('r-bui-match', None, [(V, LINK + '            if child.tag == "template" {\n' + LOOP + '''                continue;
            }
            if child.tag == "body" {
                body = child;
                break;
            }
''', '''            match child.tag.as_str() {
                "template" => {
''' + LOOP + '''                }
                "body" => {
                    body = child;
                    break;
                }
                _ => {}
            }
''')]),
    ('r-bui-helper', None, [(V, LOOP, '''                if let (Some(id), [content]) = (template_id(&child), child.children.as_slice()) {
                    templates.insert(format!("#{id}"), content.clone());
                }
'''), (V, 'fn measure_text<F', '''fn template_id(template: &Html) -> Option<String> {
    let mut id = None;
    for binding in &template.bindings {
        match binding {
            ElementBinding::None(key, value) if key == "id" => id = Some(value.clone()),
            _ => {}
        }
    }
    id
}

fn measure_text<F''')]),
    ('r-bui-rev-find', None, [(V, LOOP, '''                let id = child.bindings.iter().rev().find_map(|binding| match binding {
                    ElementBinding::None(key, value) if key == "id" => Some(value),
                    _ => None,
                });
                if let Some(id) = id {
                    if child.children.len() == 1 {
                        templates.insert(format!("#{id}"), child.children[0].clone());
                    }
                }
''')]),
    ('r-bui-parts', None, [(V, '''        let bindings = renderer.bindings;
        let schema = renderer.schema;
        let tree = renderer.tree;
        let identified = renderer.static_id;
        let model = ViewModel::create(bindings, schema.value);
''', '''        let Renderer { tree, bindings, schema, static_id: identified, .. } = renderer;
        let model = ViewModel::create(bindings, schema.value);
''')]),
    ('r-bui-helper2', None, [(V, '''            if child.tag == "template" {
''' + LOOP + '''                continue;
            }
''', '''            if child.tag == "template" {
                define_template(&mut templates, &child);
                continue;
            }
'''), (V, 'fn measure_text<F', '''fn define_template(templates: &mut HashMap<String, Html>, child: &Html) {
''' + LOOP + '''}

fn measure_text<F''')]),
    ('r-sch-entry', None, [(M, '''                    if !object.contains_key(token) {
                        object.insert(token.to_string(), Value::Null);
                    }
                    target = object.get_mut(token).unwrap();''', '''                    target = object.entry(token.to_string()).or_insert(Value::Null);''')]),
    ('r-sch-iflet', None, [(M, '''            match token.parse::<usize>() {
                Ok(index) => {
''' + ARRAY + '''                }
                _ => {
''' + OBJECT + '''                }
            }
''', '''            if let Ok(index) = token.parse::<usize>() {
''' + ARRAY + '''            } else {
''' + OBJECT + '''            }
''')]),
    ('r-sch-helpers', None, [(M, ARRAY, '                    target = item_of(target, index);\n'), (M, OBJECT, '                    target = field_of(target, token);\n'), (M, 'fn default_transformers()', '''fn item_of(value: &mut Value, index: usize) -> &mut Value {
    if !value.is_array() {
        *value = json!([]);
    }
    let array = value.as_array_mut().unwrap();
    if index >= array.len() {
        array.resize(index + 1, Value::Null);
    }
    &mut array[index]
}

fn field_of<'v>(value: &'v mut Value, key: &str) -> &'v mut Value {
    if !value.is_object() {
        *value = json!({});
    }
    let object = value.as_object_mut().unwrap();
    if !object.contains_key(key) {
        object.insert(key.to_string(), Value::Null);
    }
    object.get_mut(key).unwrap()
}

fn default_transformers()''')]),
    ('r-sch-next', None, [(M, "        for token in pointer.split('/').skip(1) {", "        let mut tokens = pointer.split('/');\n        tokens.next();\n        for token in tokens {")]),
    ('r-sch-pointer', None, [(M, '''        let default = &format!("/{head}");
        let head = locals.get(head).unwrap_or(default);
        let tail = &self.path[1..];
        if tail.len() > 0 {
            format!("{head}/{}", tail.join("/"))
        } else {
            format!("{head}")
        }''', '''        let mut pointer = match locals.get(head) {
            Some(path) => path.clone(),
            None => format!("/{head}"),
        };
        for name in &self.path[1..] {
            pointer.push('/');
            pointer.push_str(name);
        }
        pointer''')]),
    ('r-sch-field', None, [(M, '''        let pointer = binder.to_json_pointer(locals);
        let pointer = format!("{pointer}/{i}");
        Self::define_value(&mut self.value, &pointer);
        pointer''', '''        self.define(format!("{}/{i}", binder.to_json_pointer(locals)))'''), (M, '''    fn define_value(mut''', '''    fn define(&mut self, pointer: String) -> String {
        Self::define_value(&mut self.value, &pointer);
        pointer
    }

    fn define_value(mut''')]),
    ('r-host-children', None, [(V, '''            Ok(children) => children
                .iter()
                .map(|node| {
                    let element = self.tree.get_node_context(*node).unwrap();
                    Fragment {
                        element,
                        tree: self.tree,
                    }
                })
                .collect(),''', '''            Ok(children) => {
                let mut fragments = Vec::with_capacity(children.len());
                for node in children {
                    let element = self.tree.get_node_context(node).unwrap();
                    fragments.push(Fragment { element, tree: self.tree });
                }
                fragments
            }''')]),
    ('r-host-id', None, [(V, '''        self.identified
            .get(id)
            .and_then(|node| self.tree.get_element(*node).ok())''', '''        let node = self.identified.get(id)?;
        self.tree.get_node_context(*node)''')]),
    ('r-host-border', None, [(E, '''        if self.left.width > 0.0 {
            Some(self.left)
        } else {
            None
        }''', '''        Some(self.left).filter(|border| border.width > 0.0)''')]),
    ('r-host-border2', None, [(E, '''        if self.left.width > 0.0 {
            Some(self.left)
        } else {
            None
        }''', '''        visible(self.left)'''), (E, '#[derive(Clone, Default, Copy)]\npub struct MyBorder', '''fn visible(border: MyBorder) -> Option<MyBorder> {
    (border.width > 0.0).then_some(border)
}

#[derive(Clone, Default, Copy)]
pub struct MyBorder''')]),
    ('r-host-set', None, [(E, '''        if span >= self.spans.len() {
            error!(
                "unable to bind text span {span} to {value}, text consists of {} spans",
                self.spans.len()
            )
        } else {
            self.spans[span] = value;
        }''', '''        match self.spans.get_mut(span) {
            Some(place) => *place = value,
            None => error!("unable to bind text span {span} to {value}"),
        }''')]),
    ('r-host-string', None, [(E, 'self.spans.join("").to_string()', 'self.spans.concat()')]),
]
