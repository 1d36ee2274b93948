V = 'src/view.rs'
SEARCH = '''                        let mut index = current.len().min(definition_index);
                        while index > 0 {
                            index -= 1;
                            let sibling = current[index];
                            let sibling_index = definition
                                .iter()
                                .position(|child| child == &sibling)
                                .ok_or(ViewError::ChildNotFound(sibling))?;
                            if sibling_index < definition_index {
                                index += 1;
                                break;
                            }
                        }
'''
REPEAT = '''                for node in shown.iter().copied() {
                    let visible = true;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
                for node in hidden.iter().copied() {
                    let visible = false;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
'''
VARIANTS = [
    ('b-tree-search-order', 'C11', [(V, 'if sibling_index < definition_index {', 'if sibling_index > definition_index {')]),
    ('b-tree-search-back', 'C11', [(V, '''                                index += 1;
                                break;''', '''                                break;''')]),
    ('b-tree-search-short', 'C11', [(V, 'while index > 0 {', 'while index > 1 {')]),
    ('b-tree-search-start', 'C11', [(V, 'current.len().min(definition_index)', 'current.len().min(definition_index).saturating_sub(1)')]),
    ('b-tree-add', 'C11', [(V, 'self.tree.insert_child_at_index(parent, index, node)?;', 'self.tree.add_child(parent, node)?;')]),
    ('b-tree-dup', 'C11', [(V, 'if current_index.is_some() {', 'if current_index.is_some() && visible != visible {')]),
    ('b-tree-hidden-range', 'C11', [(V, '&children[cursor..end]', '&children[cursor..end.min(cursor + 1)]')]),
    ('b-tree-shown-range', 'C11', [(V, '&children[start..cursor]', '&children[0..cursor]')]),
    ('b-tree-dirty', 'C11', [(V, '''                element_text.set(span, text);
                self.tree.mark_dirty(node)?;''', '''                element_text.set(span, text);''')]),
    ('b-tree-id-order', 'C11', [(V, '''                    self.identified.retain(|_, identified| *identified != node);
                    self.identified.insert(value.clone(), node);''', '''                    self.identified.insert(value.clone(), node);
                    self.identified.retain(|_, identified| *identified != node);''')]),
    ('b-tree-id-stale', 'C11', [(V, '''                    self.identified.retain(|_, identified| *identified != node);
''', '')]),
    ('b-tree-style-error', 'C11', [(V, 'Err(error) => {\n                            error!("unable to parse styles', 'Err(error) => {\n                            element.style.clear();\n                            error!("unable to parse styles')]),
    ('b-tree-attr-value', 'C11', [(V, 'element.attrs.insert(key.clone(), value.clone());\n                if key', 'element.attrs.entry(key.clone()).or_insert(value.clone());\n                if key')]),
    ('b-tree-tag', 'C11', [(V, 'element.attrs.remove(&key);', 'element.attrs.insert(key.clone(), String::new());')]),
    ('b-tree-span', 'C11', [('src/element.rs', 'if span >= self.spans.len() {', 'if span + 1 >= self.spans.len() {')]),
    ('b-tree-join', 'C11', [('src/element.rs', 'self.spans.join("").to_string()', 'self.spans.join(" ").to_string()')]),
    ('b-tree-init', 'C11', [(V, 'visible: !visible,', 'visible: false,')]),
    ('b-tree-img', 'C11', [('src/controls/img.rs', 'tree.mark_dirty(child_node)?;', '')]),
    ('b-tree-img-tag', 'C11', [(V, '("img", "src") =>', '("image", "src") =>')]),
    ('b-tree-noerr', 'C11', [(V, 'if current_index.is_some() {', 'if definition_index == 0 && !current.is_empty() { return Ok(()); }\n if current_index.is_some() {')]),
    ('r-tree-full-start', None, [(V, 'current.len().min(definition_index)', 'current.len()')]),
    ('r-tree-remove', None, [(V, 'self.tree.remove_child_at_index(parent, current_index)?;', 'let _ = current_index; self.tree.remove_child(parent, node)?;')]),
    ('r-tree-position', None, [(V, SEARCH, '''                        let order = |node: &NodeId| definition.iter().position(|child| child == node);
                        let index = current
                            .iter()
                            .position(|sibling| order(sibling).map(|order| order > definition_index).unwrap_or(false))
                            .unwrap_or(current.len());
''')]),
    ('r-tree-repeat-one-loop', None, [(V, REPEAT, '''                let _ = (shown, hidden);
                for (offset, node) in children[start..end].iter().copied().enumerate() {
                    let visible = start + offset < cursor;
                    self.update_tree(Reaction::Reattach { parent, node, visible })?;
                }
''')]),
    ('r-tree-helper', None, [(V, '''    // Why this function is needed?''', '''    fn toggle(&mut self, parent: NodeId, nodes: &[NodeId], visible: bool) -> Result<(), ViewError> {
        for node in nodes {
            self.update_tree(Reaction::Reattach { parent, node: *node, visible })?;
        }
        Ok(())
    }

    // Why this function is needed?'''), (V, REPEAT, '''                self.toggle(parent, shown, true)?;
                self.toggle(parent, hidden, false)?;
''')]),
    ('r-tree-helper2', None, [(V, '''    // Why this function is needed?''', '''    fn attach(&mut self, parent: NodeId, node: NodeId, definition: &[NodeId], definition_index: usize) -> Result<(), ViewError> {
        let current = self.tree.children(parent)?;
''' + SEARCH + '''        self.tree.insert_child_at_index(parent, index, node)?;
        Ok(())
    }

    // Why this function is needed?'''), (V, SEARCH + '''                        self.tree.insert_child_at_index(parent, index, node)?;
''', '''                        self.attach(parent, node, &definition, definition_index)?;
''')]),
    ('r-tree-init-filter', None, [(V, '''        let mut reactions = vec![];
        for bindings in self.model.bindings.values() {
            for binding in bindings {
                match binding.params {
                    BindingParams::Visibility(parent, node, visible) => {
                        // values are null by default, only negative conditions are satisfied
                        reactions.push(Reaction::Reattach {
                            parent,
                            node,
                            visible: !visible,
                        })
                    }
                    _ => {}
                }
            }
        }
''', '''        let mut reactions = vec![];
        for (_, bindings) in self.model.bindings.iter() {
            for binding in bindings.iter() {
                if let BindingParams::Visibility(parent, node, condition) = binding.params {
                    let visible = if condition { false } else { true };
                    reactions.push(Reaction::Reattach { parent, node, visible });
                }
            }
        }
''')]),
    ('r-tree-tag', None, [(V, '''                if tag {
                    element.attrs.insert(key.clone(), key.clone());
                } else {
                    element.attrs.remove(&key);
                };''', '''                match tag {
                    false => {
                        element.attrs.remove(&key);
                    }
                    true => {
                        let value = key.clone();
                        element.attrs.insert(key, value);
                    }
                }''')]),
    ('r-tree-bind', None, [(V, '''                if key == "style" {
                    match read_inline_css(&value) {
                        Ok(style) => element.style = style,
                        Err(error) => {
                            error!("unable to parse styles of {}, {error:?}", element.tag);
                        }
                    }
                }
                if key == "id" {
                    // the element is no longer known by its previous id
                    self.identified.retain(|_, identified| *identified != node);
                    self.identified.insert(value.clone(), node);
                }
                match (element.tag.as_str(), key.as_str()) {
                    ("img", "src") => self.model.update_img_src(node, value, &mut self.tree)?,
                    _ => {}
                }''', '''                let is_image = element.tag == "img";
                match key.as_str() {
                    "style" => {
                        if let Ok(style) = read_inline_css(&value) {
                            element.style = style;
                        } else {
                            error!("unable to parse styles of {}", element.tag);
                        }
                    }
                    "id" => {
                        self.identified.retain(|_, identified| identified != &node);
                        self.identified.insert(value, node);
                    }
                    "src" if is_image => self.model.update_img_src(node, value, &mut self.tree)?,
                    _ => {}
                }''')]),
]
