VM = 'src/view_model.rs'
VARIANTS = [
    ('hit-strict', 'C01', [(VM, 'x >= 0.0 && x < element.size[0]', 'x > 0.0 && x < element.size[0]')]),
    ('hit-invisible', 'C01', [(VM, '            && element.visible\n', '')]),
    ('hit-order', 'C01', [(VM, '''        let element = tree.get_element(node)?;
        if element.pointer_events == PointerEvents::Auto
            && element.visible
            && hovers(position, &element)
        {
            self.elements_under_mouse.push(node);
        }
        for child in tree.children(node)? {
            self.calculate_mouse_hovers(tree, child, position)?;
        }
''', '''        for child in tree.children(node)? {
            self.calculate_mouse_hovers(tree, child, position)?;
        }
        let element = tree.get_element(node)?;
        if element.pointer_events == PointerEvents::Auto
            && element.visible
            && hovers(position, &element)
        {
            self.elements_under_mouse.push(node);
        }
''')]),
    ('hit-skip-subtree', 'C01', [(VM, '''            self.elements_under_mouse.push(node);
        }
        for child in tree.children(node)? {''', '''            self.elements_under_mouse.push(node);
        }
        if !element.visible {
            return Ok(());
        }
        for child in tree.children(node)? {''')]),
    ('move-no-leave-hover', 'C02', [(VM, 'element.state.hover = false;\n', '')]),
    ('move-order', 'C02', [(VM, 'for node in current.iter().rev()', 'for node in current.iter()')]),
    ('move-enter-before-write', 'C02', [(VM, '''                            element.state.hover = true;
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseenter", event);''', '''                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseenter", event);
                            let element = tree.get_element_mut(*node)?;
                            element.state.hover = true;''')]),
    ('press-focus-order', 'C03', [(VM, 'if element.listeners.contains_key("oninput")', 'if element.listeners.contains_key("onfocus")')]),
    ('press-drag-right', 'C03', [(VM, 'button == MouseButtons::Left && element.draggable()', 'element.draggable()')]),
    ('press-no-blur', 'C03', [(VM, '''                                    let event = MouseEvent::new(self.mouse, element);
                                    self.emit(&element, "onblur", event);
                                    element = tree''', '''                                    element = tree''')]),
    ('release-click-inactive', 'C04', [(VM, 'button == MouseButtons::Left && element.state.active', 'button == MouseButtons::Left')]),
    ('release-forget-active', 'C04', [(VM, 'for node in take(&mut self.elements_in_action) {', 'for node in self.elements_in_action.clone() {')]),
    ('key-wrong', 'C05', [(VM, 'self.emit(element, "onkeyup", event)', 'self.emit(element, "onkeydown", event)')]),
    # --- behaviour preserved
    ('r-hit-demorgan', None, [(VM, 'x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]',
                              '!(x < 0.0 || x >= element.size[0] || y < 0.0 || element.size[1] <= y)')]),
    ('r-hit-early', None, [(VM, '''    let x = point[0] - element.position[0];
    let y = point[1] - element.position[1];
    x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]''', '''    for axis in 0..2 {
        let start = element.position[axis];
        let end = start + element.size[axis];
        if point[axis] < start || point[axis] >= end {
            return false;
        }
    }
    true''')]),
    ('r-hit-loop', None, [(VM, '''        for child in tree.children(node)? {
            self.calculate_mouse_hovers(tree, child, position)?;
        }
''', '''        let children = tree.children(node)?;
        for i in 0..children.len() {
            self.calculate_mouse_hovers(tree, children[i], position)?;
        }
''')]),
    ('r-hit-tryforeach', None, [(VM, '''        for child in tree.children(node)? {
            self.calculate_mouse_hovers(tree, child, position)?;
        }
        Ok(())
''', '''        tree.children(node)?
            .into_iter()
            .try_for_each(|child| self.calculate_mouse_hovers(tree, child, position))
''')]),
    ('r-hit-rename', None, [(VM, 'self.calculate_mouse_hovers(tree, body, position)?', 'self.collect_hovered(tree, body, position)?'),
                            (VM, 'self.calculate_mouse_hovers(tree, child, position)?', 'self.collect_hovered(tree, child, position)?'),
                            (VM, 'fn calculate_mouse_hovers', 'fn collect_hovered')]),
    ('r-emit-rename', None, [(VM, 'pub(crate) fn emit<', 'pub(crate) fn notify<')] + [(VM, 'self.emit(', 'self.notify(')] * 20),
    ('r-emit-helper', None, [(VM, '''                            element.state.hover = true;
                            let event = MouseEvent::new(self.mouse, element);
                            self.emit(element, "onmouseenter", event);''', '''                            element.state.hover = true;
                            self.emit_mouse(element, "onmouseenter");'''),
        (VM, '    fn calculate_mouse_hovers(', '''    fn emit_mouse(&mut self, element: &Element, name: &str) {
        let event = MouseEvent::new(self.mouse, element);
        self.emit(element, name, event);
    }

    fn calculate_mouse_hovers(''')]),
    ('r-move-helper', None, [(VM, '''                InputEvent::KeyDown(key) => {
                    if let Some(node) = self.focus {
                        let element = tree.get_element(node)?;
                        let event = KeyboardEvent::new(key, element);
                        self.emit(element, "onkeydown", event)
                    }
                }
                InputEvent::KeyUp(key) => {
                    if let Some(node) = self.focus {
                        let element = tree.get_element(node)?;
                        let event = KeyboardEvent::new(key, element);
                        self.emit(element, "onkeyup", event)
                    }
                }''', '''                InputEvent::KeyDown(key) => self.key(key, "onkeydown", tree)?,
                InputEvent::KeyUp(key) => self.key(key, "onkeyup", tree)?,'''),
        (VM, '    fn calculate_mouse_hovers(', '''    fn key(&mut self, key: Keys, handler: &str, tree: &TaffyTree<Element>) -> Result<(), ViewError> {
        let node = match self.focus {
            None => return Ok(()),
            Some(node) => node,
        };
        let element = tree.get_element(node)?;
        self.emit(element, handler, KeyboardEvent::new(key, element));
        Ok(())
    }

    fn calculate_mouse_hovers(''')]),
    ('r-release-reorder', None, [(VM, '''                            if button == MouseButtons::Left && element.state.active {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, "onclick", event);
                            }
                            if button == MouseButtons::Right {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, "oncontextmenu", event);
                            }''', '''                            let name = match button {
                                MouseButtons::Left if element.state.active => Some("onclick"),
                                MouseButtons::Right => Some("oncontextmenu"),
                                _ => None,
                            };
                            if let Some(name) = name {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(&element, name, event);
                            }''')]),
    ('r-press-any', None, [(VM, 'if !self.elements_under_mouse.contains(&focus) {', 'if !self.elements_under_mouse.iter().any(|node| *node == focus) {')]),
    ('r-prev-clone', None, [(VM, 'let previous_update = take(&mut self.elements_under_mouse);', '''let previous_update = self.elements_under_mouse.clone();
                    self.elements_under_mouse.clear();''')]),
    ('r-while-let', None, [(VM, '''                    for node in take(&mut self.elements_in_action) {
                        let element''', '''                    let mut pressed = take(&mut self.elements_in_action).into_iter();
                    while let Some(node) = pressed.next() {
                        let element''')]),
    ('r-drop-enter-two-loops', None, [(VM, '''                        let element = tree.get_element_mut(*node)?;
                        let event = MouseEvent::new(self.mouse, element);
                        self.emit(element, "onmousemove", event);''', '''                        let mouse = self.mouse;
                        let element = tree.get_element_mut(*node)?;
                        self.emit(element, "onmousemove", MouseEvent { position: mouse, target: EventTarget::create(element) });''')]),
]
