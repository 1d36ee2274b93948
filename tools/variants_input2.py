VM = 'src/view_model.rs'
VARIANTS = [
    ('emit-key-index', 'C06', [(VM, 'if index == 0 {\n                    key', 'if index == 1 {\n                    key')]),
    ('emit-single-array', 'C06', [(VM, '''                1 => {
                    let mut object = Map::new();
                    object.insert(key, arguments.into_iter().next().expect("one argument"));
                    Value::Object(object)
                }
''', '')]),
    ('emit-transform-stop', 'C06', [(VM, '''                                    error!("unable to get value {path:?}, transformer {name} not found");
                                    continue;''', '''                                    error!("unable to get value {path:?}, transformer {name} not found");
                                    break;''')]),
    ('emit-missing-null', 'C06', [(VM, '''                                error!("unable to get value at {path:?}, not found");
                                continue;''', '''                                error!("unable to get value at {path:?}, not found");
                                Value::Null''')]),
    ('emit-missing-break', 'C06', [(VM, '''                                error!("unable to get value at {path:?}, not found");
                                continue;''', '''                                error!("unable to get value at {path:?}, not found");
                                break;''')]),
    ('emit-transform-order', 'C06', [(VM, 'for name in pipe {', 'for name in pipe.iter().rev() {')]),
    ('out-no-focus', 'C07', [(VM, '            || self.focus.is_some()\n', '')]),
    ('out-fake-last', 'C07', [(VM, 'events.insert(0, InputEvent::MouseMove(self.mouse))', 'events.push(InputEvent::MouseMove(self.mouse))')]),
    ('out-pointer-first', 'C07', [(VM, 'for node in self.elements_under_mouse.iter() {', 'for node in self.elements_under_mouse.iter().rev() {')]),
    ('out-keep', 'C07', [(VM, '        self.output = Output::new();\n        self.handle', '        self.handle'), (VM, 'Ok(take(&mut self.output))', 'Ok(self.output.clone())'), ('src/output.rs', '#[derive(', '#[derive(Clone, ')]),
    ('out-pointer-break', 'C07', [(VM, '                    self.output.pointer = element.pointer;\n', '                    self.output.pointer = element.pointer;\n                    break;\n')]),
    ('r-emit-resolve', None, [(VM, '''                let argument = match argument {
                    HandlerArgument::Keyword(keyword) => Value::String(keyword.clone()),
                    HandlerArgument::Event => match serde_json::to_value(&event) {
                        Ok(event) => event,
                        Err(error) => {
                            error!("unable to serialize event, {error:?}");
                            continue;
                        }
                    },
                    HandlerArgument::Binder { path, pipe } => {
                        let mut value = match self.model.pointer(&path).cloned() {
                            Some(value) => value,
                            None => {
                                error!("unable to get value at {path:?}, not found");
                                continue;
                            }
                        };
                        for name in pipe {
                            match self.transformers.get(name) {
                                Some(transform) => value = transform(value),
                                None => {
                                    error!("unable to get value {path:?}, transformer {name} not found");
                                    continue;
                                }
                            }
                        }
                        value
                    }
                };
                if index''', '''                let argument = match self.resolve(argument, &event) {
                    Some(argument) => argument,
                    None => continue,
                };
                if index'''),
        (VM, '    pub(crate) fn emit<T', '''    fn resolve<T: Serialize>(&self, argument: &HandlerArgument, event: &T) -> Option<Value> {
        match argument {
            HandlerArgument::Keyword(keyword) => Some(Value::String(keyword.clone())),
            HandlerArgument::Event => serde_json::to_value(event).ok(),
            HandlerArgument::Binder { path, pipe } => {
                let mut value = self.model.pointer(path)?.clone();
                for name in pipe {
                    if let Some(transform) = self.transformers.get(name) {
                        value = transform(value);
                    } else {
                        error!("unable to get value {path:?}, transformer {name} not found");
                    }
                }
                Some(value)
            }
        }
    }

    pub(crate) fn emit<T''')]),
    ('r-emit-early', None, [(VM, '''        if let Some(handler) = element.listeners.get(handler) {
            let mut key''', '''        let handler = match element.listeners.get(handler) {
            None => return,
            Some(handler) => handler,
        };
        {
            let mut key''')]),
    ('r-emit-message', None, [(VM, '''                1 => {
                    let mut object = Map::new();
                    object.insert(key, arguments.into_iter().next().expect("one argument"));
                    Value::Object(object)
                }
                _ => {
                    let mut object = Map::new();
                    object.insert(key, Value::Array(arguments));
                    Value::Object(object)
                }''', '''                count => {
                    let payload = if count == 1 { arguments.remove(0) } else { Value::Array(arguments) };
                    let mut object = Map::new();
                    object.insert(key, payload);
                    Value::Object(object)
                }''')]),
    ('r-emit-fold', None, [(VM, '''                        for name in pipe {
                            match self.transformers.get(name) {
                                Some(transform) => value = transform(value),
                                None => {
                                    error!("unable to get value {path:?}, transformer {name} not found");
                                    continue;
                                }
                            }
                        }
                        value''', '''                        value = pipe.iter().fold(value, |value, name| match self.transformers.get(name) {
                            Some(transform) => transform(value),
                            None => value,
                        });
                        value''')]),
    ('r-out-any', None, [(VM, '''        for event in events.iter() {
            match *event {
                InputEvent::MouseMove(_) => {
                    has_mouse_move = true;
                }
                _ => {}
            }
        }
''', '''        if events.iter().any(|event| matches!(event, InputEvent::MouseMove(_))) {
            has_mouse_move = true;
        }
''')]),
    ('r-out-iflet', None, [(VM, '''            if let Ok(element) = tree.get_element(*node) {
                if let Pointer::Auto = element.pointer {
                } else {
                    self.output.pointer = element.pointer;
                }
            }''', '''            let pointer = match tree.get_element(*node) {
                Ok(element) => element.pointer,
                Err(_) => continue,
            };
            if !matches!(pointer, Pointer::Auto) {
                self.output.pointer = pointer;
            }''')]),
    ('r-out-captured', None, [(VM, '''        self.output.is_input_captured = !self.elements_under_mouse.is_empty()
            || self.drag.is_some()
            || self.focus.is_some()
            || !self.elements_in_action.is_empty();''', '''        let idle = self.elements_in_action.is_empty()
            && self.focus.is_none()
            && self.drag.is_none()
            && self.elements_under_mouse.len() == 0;
        self.output.is_input_captured = !idle;''')]),
]
