"""Bugs of the input dispatch (C01-C07)."""
VARIANTS = []
M = 'src/view_model.rs'


def B(name, prop, *edits):
    VARIANTS.append((name, prop, [(M, a, b) for a, b in edits]))


B('bi-fake-push', 'C02', ('events.insert(0, InputEvent::MouseMove(self.mouse))', 'events.push(InputEvent::MouseMove(self.mouse))'))
B('bi-fake-empty', 'C02', ('if !has_mouse_move {', 'if !has_mouse_move && !events.is_empty() {'))
B('bi-fake-origin', 'C02', ('events.insert(0, InputEvent::MouseMove(self.mouse))', 'events.insert(0, InputEvent::MouseMove([0.0; 2]))'))
B('bi-move-keep', 'C02', ('let previous_update = take(&mut self.elements_under_mouse);', 'let previous_update = self.elements_under_mouse.clone();'))
B('bi-move-late-position', 'C02', ('                    self.mouse = position;\n', ''), ('                    self.calculate_mouse_hovers(tree, body, position)?;\n                    for node', '                    self.calculate_mouse_hovers(tree, body, self.mouse)?;\n                    self.mouse = position;\n                    for node'))
B('bi-leave-rev', 'C02', ('for node in previous_update.iter().rev()', 'for node in previous_update.iter()'))
B('bi-dragleave-source', 'C02', ("""                            if self.drag.is_some() {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragleave", event);""", """                            if self.drag.as_ref().map(|drag| drag.source != *node).unwrap_or(false) {
                                let event = MouseEvent::new(self.mouse, element);
                                self.emit(element, "ondragleave", event);"""))
B('bi-move-only-old', 'C02', ("""                        let element = tree.get_element_mut(*node)?;
                        let event = MouseEvent::new(self.mouse, element);
                        self.emit(element, "onmousemove", event);""", """                        let element = tree.get_element_mut(*node)?;
                        if !previous_update.contains(node) {
                            continue;
                        }
                        let event = MouseEvent::new(self.mouse, element);
                        self.emit(element, "onmousemove", event);"""))
B('bi-hover-only-listeners', 'C01', ('            && element.visible\n', '            && element.visible\n            && (!element.listeners.is_empty() || element.children.len() < 9)\n'))
B('bi-hover-clip', 'C01', ('        for child in tree.children(node)? {\n            self.calc', '        if element.scrolling.is_some() && !hovers(position, &element) {\n            return Ok(());\n        }\n        for child in tree.children(node)? {\n            self.calc'))
B('bi-hover-none-subtree', 'C01', ('        for child in tree.children(node)? {\n            self.calc', '        if element.pointer_events == PointerEvents::None {\n            return Ok(());\n        }\n        for child in tree.children(node)? {\n            self.calc'))
B('bi-hover-y-size', 'C01', ('y < element.size[1]', 'y < element.content_size[1]'))
B('bi-hover-transparent', 'C01', ('            && element.visible\n', '            && element.visible\n            && element.opacity > 0.0\n'))
B('bi-press-blur-active', 'C03', ('if !self.elements_under_mouse.contains(&focus) {', 'if !self.elements_in_action.contains(&focus) {'))
B('bi-press-blur-keep', 'C03', ("""                            self.focus = None;
                            let element = tree.get_element_mut(focus)?;
                            element.state.focus = false;""", """                            let element = tree.get_element_mut(focus)?;
                            element.state.focus = false;"""))
B('bi-press-action-first', 'C03', ('self.elements_in_action.push(node);', 'if button == MouseButtons::Left {\n                            self.elements_in_action.push(node);\n                        }'))
B('bi-press-focus-topmost', 'C03', ('                            if Some(node) != self.focus {\n', '                            if Some(node) != self.focus && Some(&node) == elements_under_mouse.last() {\n'))
B('bi-press-drag-one', 'C03', ('if button == MouseButtons::Left && element.draggable() {', 'if button == MouseButtons::Left && element.draggable() && self.drag.is_none() {'))
B('bi-press-drag-before', 'C03', ("""                            self.emit(element, "ondragstart", event);
                            self.drag = DragContext::new(node);""", """                            self.emit(element, "ondragstart", event);
                            self.drag = DragContext::new(elements_under_mouse[0]);"""))
B('bi-up-drop-any', 'C04', ('if element.listeners.contains_key("ondrop") {', 'if element.listeners.contains_key("ondrop") && drag.source != *node {'))
B('bi-up-dragend-on-target', 'C04', ("""                                self.drag = None;
                                let element = tree.get_element_mut(source)?;
                                let event""", """                                self.drag = None;
                                let element = tree.get_element_mut(*node)?;
                                let event"""))
B('bi-up-dragend-left', 'C04', ("if let Some(drag) = self.drag.take() {\n                        // released outside", "if let Some(drag) = self.drag.take().filter(|_| button == MouseButtons::Left) {\n                        // released outside"))
B('bi-up-active-under', 'C04', ("""                        let element = tree.get_element_mut(node)?;
                        element.state.active = false;""", """                        let element = tree.get_element_mut(node)?;
                        element.state.active = self.elements_under_mouse.contains(&node) && button == MouseButtons::Right;"""))
B('bi-up-click-drag', 'C04', ("                        } else {\n                            if button == MouseButtons::Left && element", "                        }\n                        let element = tree.get_element_mut(*node)?;\n                        if self.drag.is_none() {\n                            if button == MouseButtons::Left && element"))
B('bi-up-context-active', 'C04', ('if button == MouseButtons::Right {', 'if button == MouseButtons::Right && element.state.active {'))
B('bi-char-control', 'C05', ('InputEvent::Char(char) => {\n                    if let Some(node) = self.focus {', 'InputEvent::Char(char) => {\n                    if let Some(node) = self.focus.filter(|_| !char.is_control()) {'))
B('bi-keyup-hover', 'C05', ('InputEvent::KeyUp(key) => {\n                    if let Some(node) = self.focus {', 'InputEvent::KeyUp(key) => {\n                    if let Some(node) = self.focus.or(self.elements_under_mouse.last().copied()) {'))
B('bi-keydown-drag', 'C05', ('InputEvent::KeyDown(key) => {\n                    if let Some(node) = self.focus {', 'InputEvent::KeyDown(key) => {\n                    if let (Some(node), None) = (self.focus, &self.drag) {'))
B('bi-pointer-first', 'C07', ('                    self.output.pointer = element.pointer;\n', '                    self.output.pointer = element.pointer;\n                    break;\n'))
B('bi-captured-drag', 'C07', ('            || self.drag.is_some()\n            || self.focus', '            || self.focus'))
# what is between frames in the output besides messages is known to be the default only from all writes of it (DESIGN.md, limits)
LIMITS = [('ri-output-keep', None, [(M, 'self.output = Output::new();', 'self.output.messages.clear();')])]
B('bi-output-late', 'C07', ('        self.output = Output::new();\n        self.handle_elements_input(events, body, tree)?;\n', '        self.handle_elements_input(events, body, tree)?;\n        if input.events.is_empty() {\n            self.output.messages.clear();\n        }\n'))
