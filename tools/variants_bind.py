VM = 'src/view_model.rs'
OBJ = '''                    let src = match src.get(key) {
                        Some(src) => src,
                        None => {
                            // error!("unable to bind '{path}', must be specified");
                            &undefined
                        }
                    };
'''
VARIANTS = [
    ('bind-or-and', 'C09', [(VM, 'array_changed = array_changed || changed', 'array_changed = changed')]),
    ('bind-obj-lost', 'C09', [(VM, 'object_changed = object_changed || changed', 'object_changed = object_changed && changed')]),
    ('bind-shortcircuit', 'C09', [(VM, '''                    let changed = Self::bind_value(
                        dst,
                        &Value::Null,
                        &path,
                        &arrays_path,
                        bindings,
                        reactions,
                        transformers,
                        default,
                    );
                    object_changed = object_changed || changed;''', '''                    object_changed = object_changed || Self::bind_value(
                        dst,
                        &Value::Null,
                        &path,
                        &arrays_path,
                        bindings,
                        reactions,
                        transformers,
                        default,
                    );''')]),
    ('bind-missing-skip', 'C09', [(VM, OBJ, '''                    let src = match src.get(key) {
                        Some(src) => src,
                        None => continue,
                    };
'''), (VM, '                    let undefined = Value::Null;\n', '')]),
    ('bind-no-react-resize', 'C09', [(VM, '''                    Self::react(path, src, bindings, reactions, transformers);
                }
                for (index''', '''                    if next.len() > 0 {
                        Self::react(path, src, bindings, reactions, transformers);
                    }
                }
                for (index''')]),
    ('bind-kind', 'C09', [(VM, '                if *dst != src {\n                    **dst = src.clone();', '                if dst.eval_string() != src.eval_string() {\n                    **dst = src.clone();')]),
    ('bind-null-keep', 'C09', [(VM, '                    current.clear();\n', '')]),
    ('bind-path', 'C09', [(VM, 'let path = format!("{path}/{index}");', 'let path = format!("{arrays_path}/{index}");')]),
    ('bind-types', 'C09', [(VM, '''                        dst,
                        src,
                        &path,
                        &items_path,''', '''                        dst,
                        src,
                        &path,
                        arrays_path,''')]),
    ('bind-react-null-value', 'C09', [(VM, '''                        path,
                        &Value::Array(vec![]),''', '''                        path,
                        &Value::Null,''')]),
    ('react-first', 'C10', [(VM, '            for binding in bindings {\n                if binding.pipe', '            for binding in bindings.iter().take(1) {\n                if binding.pipe')]),
    ('react-pipe-rev', 'C10', [(VM, 'for name in &binding.pipe {', 'for name in binding.pipe.iter().rev() {')]),
    ('react-pipe-leak', 'C10', [(VM, '''            for binding in bindings {
                if binding.pipe.len() > 0 {
                    let mut value = value.clone();''', '''            let mut value = value.clone();
            for binding in bindings {
                if binding.pipe.len() > 0 {'''), (VM, 'reactions.push(binding.react_value_change(value))', 'reactions.push(binding.react_value_change(&value))')]),
    ('react-unknown-stop', 'C10', [(VM, '''                                error!("unable to bind value, transformer {name} not found")
''', '''                                error!("unable to bind value, transformer {name} not found");
                                break;
''')]),
    ('react-vis', 'C10', [(VM, 'let visible = value.eval_boolean() == visible;', 'let visible = value.eval_boolean() || !visible;')]),
    ('react-repeat-gt', 'C10', [(VM, 'let count = if count > size {', 'let count = if count > size + 1 {')]),
    ('react-repeat-start', 'C10', [(VM, '''                        start,
                        cursor: start + count,''', '''                        start,
                        cursor: count,''')]),
    ('react-repeat-null', 'C10', [(VM, '''                        start,
                        cursor: start,
                        end: start + size,''', '''                        start,
                        cursor: start + size,
                        end: start + size,''')]),
    ('react-tag', 'C10', [(VM, '                tag: value.eval_boolean(),', '                tag: !value.is_null(),')]),
    ('bind-root-default', 'C10', [(VM, '''        Self::bind_value(
            &mut self.model,
            value,
            "",
            "",''', '''        Self::bind_value(
            &mut self.model,
            value,
            "",
            "/",''')]),
    ('r-bind-oreq', None, [(VM, 'array_changed = array_changed || changed', 'array_changed |= changed'), (VM, 'object_changed = object_changed || changed', 'if changed { object_changed = true; }')]),
    ('r-bind-zip', None, [(VM, '''                for (index, dst) in current.iter_mut().enumerate() {
                    let src = &next[index];
''', '''                for (index, (dst, src)) in current.iter_mut().zip(next.iter()).enumerate() {
''')]),
    ('r-bind-while', None, [(VM, '''                for (index, dst) in current.iter_mut().enumerate() {
                    let src = &next[index];
''', '''                for index in 0..current.len() {
                    let dst = &mut current[index];
                    let src = &next[index];
''')]),
    ('r-bind-unwrap-or', None, [(VM, OBJ, '                    let src = src.get(key).unwrap_or(&undefined);\n')]),
    ('r-bind-early', None, [(VM, '''            (dst, src) => {
                if *dst != src {
                    **dst = src.clone();
                    Self::react(path, src, bindings, reactions, transformers);
                    true
                } else {
                    false
                }
            }''', '''            (dst, src) => {
                if **dst == *src {
                    return false;
                }
                Self::react(path, src, bindings, reactions, transformers);
                **dst = src.clone();
                true
            }''')]),
    ('r-bind-is-empty', None, [(VM, 'if current.len() != 0 {\n                    current.clear();', 'if !current.is_empty() {\n                    current.clear();')]),
    ('r-bind-helper', None, [(VM, '''                let mut array_changed = false;
                let items''', '''                let mut array_changed = current.len() != next.len();
                let items'''), (VM, '''                    array_changed = true;
''', '')]),
    ('r-react-fold', None, [(VM, '''                if binding.pipe.len() > 0 {
                    let mut value = value.clone();
                    for name in &binding.pipe {
                        match transformers.get(name) {
                            None => {
                                error!("unable to bind value, transformer {name} not found")
                            }
                            Some(transform) => {
                                value = transform(value);
                            }
                        }
                    }
                    reactions.push(binding.react_value_change(&value));
                } else {
                    reactions.push(binding.react_value_change(value))
                }''', '''                let mut value = value.clone();
                for name in binding.pipe.iter() {
                    if let Some(transform) = transformers.get(name) {
                        value = transform(value);
                    } else {
                        error!("unable to bind value, transformer {name} not found")
                    }
                }
                reactions.push(binding.react_value_change(&value));''')]),
    ('r-react-extract', None, [(VM, '''                if binding.pipe.len() > 0 {
                    let mut value = value.clone();
                    for name in &binding.pipe {
                        match transformers.get(name) {
                            None => {
                                error!("unable to bind value, transformer {name} not found")
                            }
                            Some(transform) => {
                                value = transform(value);
                            }
                        }
                    }
                    reactions.push(binding.react_value_change(&value));
                } else {''', '''                if !binding.pipe.is_empty() {
                    let value = Self::transform(value, &binding.pipe, transformers);
                    reactions.push(binding.react_value_change(&value));
                } else {'''), (VM, '''    #[inline]
    fn react(''', '''    fn transform(value: &Value, pipe: &[String], transformers: &HashMap<String, Transformer>) -> Value {
        let mut value = value.clone();
        for name in pipe {
            match transformers.get(name) {
                None => {
                    error!("unable to bind value, transformer {name} not found")
                }
                Some(transform) => {
                    value = transform(value);
                }
            }
        }
        value
    }

    #[inline]
    fn react(''')]),
    ('r-repeat-min', None, [(VM, '''                    let count = if count > size {
                        let slice = &value[size..count.min(size + 3)];
                        error!("unable to repeat all items of {parent:?}, expect {size} but {count}, drop {slice:?} ...");
                        size
                    } else {
                        count
                    };''', '''                    if count > size {
                        error!("unable to repeat all items of {parent:?}, expect {size} but {count}");
                    }
                    let count = count.min(size);''')]),
    ('r-repeat-merge', None, [(VM, '''                } else {
                    error!("unable to repeat, value must be array");
                    Reaction::Repeat {
                        parent,
                        start,
                        cursor: start,
                        end: start + size,
                    }
                }''', '''                } else {
                    error!("unable to repeat, value must be array");
                    let cursor = start;
                    let end = size + start;
                    Reaction::Repeat { parent, start, cursor, end }
                }''')]),
]
