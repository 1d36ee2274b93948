V = 'src/view.rs'
S = 'src/styles/scrolling.rs'
POS = '''        for child in self.tree.children(node)? {
            self.compute_final_positions_and_clipping(child, location, opacity, clipping)?;
        }
'''
CHILD = '''                let children = self.tree.children(node)?;
                for child in children {
                    sizes.parent_font_size = element.font.size;
                    sizes.parent_color = element.color;
                    self.apply_styles(child, input, sizes, variables.clone())?;
                }
'''
VARIANTS = [
    ('b-upd-order', 'C12', [(V, '''        self.compute_final_positions_and_clipping(self.body, Point::ZERO, 1.0, None)?;
        self.model.handle_output(&input, self.body, &mut self.tree)''', '''        let output = self.model.handle_output(&input, self.body, &mut self.tree);
        self.compute_final_positions_and_clipping(self.body, Point::ZERO, 1.0, None)?;
        output''')]),
    ('b-upd-first-reaction', 'C12', [(V, 'for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        // detect', 'for reaction in reactions.into_iter().take(64) {\n            self.update_tree(reaction)?;\n        }\n        // detect')]),
    ('b-upd-swallow', 'C12', [(V, 'for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        // detect', 'for reaction in reactions {\n            let _ = self.update_tree(reaction);\n        }\n        // detect')]),
    ('b-upd-swallow-child', 'C12', [(V, 'self.apply_styles(child, input, sizes, variables.clone())?;', 'let _ = self.apply_styles(child, input, sizes, variables.clone());')]),
    ('b-pos-swallow-child', 'C13', [(V, 'self.compute_final_positions_and_clipping(child, location, opacity, clipping)?;', 'let _ = self.compute_final_positions_and_clipping(child, location, opacity, clipping);')]),
    ('b-upd-viewport', 'C12', [(V, '            viewport_width,\n            viewport_height,\n        };', '            viewport_width: viewport_height,\n            viewport_height,\n        };')]),
    ('b-upd-rootfont', 'C12', [(V, 'root_font_size: 16.0,', 'root_font_size: 14.0,')]),
    ('b-upd-opacity', 'C12', [(V, 'self.compute_final_positions_and_clipping(self.body, Point::ZERO, 1.0, None)?;', 'self.compute_final_positions_and_clipping(self.root, Point::ZERO, 1.0, None)?;')]),
    ('b-upd-stale-layout', 'C12', [(V, 'let mut layout = default_layout();', 'let mut layout = self.tree.style(node)?.clone();')]),
    ('b-upd-text-dirty', 'C12', [(V, 'if element.font != font {', 'if element.font.size != font.size {')]),
    ('b-upd-style-changed', 'C12', [(V, 'if self.tree.style(node)? != &layout {', 'if self.tree.style(node)?.size != layout.size {')]),
    ('b-upd-vars', 'C12', [(V, 'let variables = cascade.take_variables();', 'let known = cascade.variables.clone(); let variables = if element.style.is_empty() { known } else { Variables::default() };')]),
    ('b-upd-parent-font', 'C12', [(V, '                    sizes.parent_font_size = element.font.size;', '                    sizes.parent_font_size = parent.font.size;')]),
    ('b-upd-parent-color', 'C12', [(V, '                    sizes.parent_color = element.color;\n', '')]),
    ('b-upd-void', 'C12', [(V, '            "area" => {}\n            "base" => {}\n            "br" => {}\n            "col" => {}\n            "command" => {}\n            "embed" => {}\n            "hr" => {}\n            "keygen" => {}\n            "link" => {}\n            "meta" => {}\n            "param" => {}\n            "source" => {}\n            "track" => {}\n            "wbr" => {}\n            _ => {\n                let children', '            "area" => {}\n            "base" => {}\n            "br" => {}\n            "col" => {}\n            "command" => {}\n            "embed" => {}\n            "hr" => {}\n            "keygen" => {}\n            "link" => {}\n            "meta" => {}\n            "param" => {}\n            "source" => {}\n            "track" => {}\n            "wbr" => {}\n            "label" => {}\n            _ => {\n                let children')]),
    ('b-upd-shared-vars', 'C12', [(V, 'fn apply_styles(\n        &mut self,\n        node: NodeId,\n        input: &Input,\n        mut sizes: Sizes,\n        variables: Variables,', 'fn apply_styles(\n        &mut self,\n        node: NodeId,\n        input: &Input,\n        mut sizes: Sizes,\n        mut variables: Variables,'), (V, 'Cascade::new(&self.css, sizes, variables);', 'Cascade::new(&self.css, sizes, std::mem::take(&mut variables));'), (V, 'let variables = cascade.take_variables();', 'let _computed = cascade.take_variables();')]),
    ('b-upd-measure', 'C12', [(V, '|size, space, _, view, _| measure_text(self.fonts.as_ref(), size, space, view),', '|size, space, _, view, _| measure_text(self.fonts.as_ref(), size, Size { width: AvailableSpace::MaxContent, height: space.height }, view),')]),
    ('b-pos-clip', 'C13', [(V, '            clipping = Some(layout.clone());\n', '            clipping = clipping.or(Some(layout.clone()));\n')]),
    ('b-pos-clip-self', 'C13', [(V, '        element.clipping = clipping;\n        let mut location', '        let mut location'), (V, '        opacity = element.opacity;\n', '        element.clipping = clipping;\n        opacity = element.opacity;\n')]),
    ('b-pos-opacity', 'C13', [(V, '        opacity = element.opacity;\n', '        opacity = element.self_opacity;\n')]),
    ('b-pos-scroll', 'C13', [(V, 'location.y -= scrolling.y;', 'location.y += scrolling.y;')]),
    ('b-pos-scroll-x', 'C13', [(V, 'location.x -= scrolling.x;', 'location.x -= scrolling.y;')]),
    ('b-pos-content', 'C13', [(V, 'element.content_size = [layout.content_size.width, layout.content_size.height];', 'element.content_size = [layout.size.width, layout.content_size.height];')]),
    ('b-pos-ensure-neg', 'C13', [(S, '(content.height - size.height).max(0.0)', 'content.height - size.height')]),
    ('b-pos-ensure-y', 'C13', [(S, 'y: y.min(scroll_y),', 'y,')]),
    ('b-pos-ensure-none', 'C13', [(S, 'if content.width > size.width || content.height > size.height {', 'if content.width > size.width && content.height > size.height {')]),
    ('b-pos-wheel-sign', 'C13', [(S, 'self.y -= y.signum() * 50.0;', 'self.y += y.signum() * 50.0;')]),
    ('b-pos-wheel-clamp', 'C13', [(S, 'self.x = self.x.min(self.scroll_x).max(0.0);', 'self.x = self.x.min(self.scroll_y).max(0.0);')]),
    ('b-pos-wheel-neg', 'C13', [(S, 'self.y = self.y.min(self.scroll_y).max(0.0);', 'self.y = self.y.min(self.scroll_y);')]),
    ('b-measure-min', 'C13', [(V, 'AvailableSpace::MinContent => Some(0.0),', 'AvailableSpace::MinContent => None,')]),
    ('b-measure-known', 'C13', [(V, 'let max_width = size.width.map(Some).unwrap_or_else(|| match space.width {', 'let max_width = size.height.map(Some).unwrap_or_else(|| match space.width {')]),
    ('r-upd-loop', None, [(V, 'for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        // detect', 'let mut reactions = reactions.into_iter();\n        while let Some(reaction) = reactions.next() {\n            self.update_tree(reaction)?;\n        }\n        // detect')]),
    ('r-upd-try-for-each', None, [(V, 'for reaction in reactions {\n            self.update_tree(reaction)?;\n        }\n        // detect', 'reactions.into_iter().try_for_each(|reaction| self.update_tree(reaction))?;\n        // detect')]),
    ('r-upd-helper', None, [(V, '        let sizes = Sizes {\n            root_font_size: 16.0,\n            parent_font_size: 16.0,\n            parent_color: [0; 4],\n            viewport_width,\n            viewport_height,\n        };', '        let sizes = Self::document_sizes(&input);'), (V, '    fn compute_final_positions_and_clipping(', '    fn document_sizes(input: &Input) -> Sizes {\n        let [viewport_width, viewport_height] = input.viewport;\n        Sizes { root_font_size: 16.0, parent_font_size: 16.0, parent_color: [0; 4], viewport_width, viewport_height }\n    }\n\n    fn compute_final_positions_and_clipping(')]),
    ('r-upd-void-matches', None, [(V, CHILD, '''                sizes.parent_font_size = element.font.size;
                sizes.parent_color = element.color;
                for child in self.tree.children(node)? {
                    self.apply_styles(child, input, sizes, variables.clone())?;
                }
''')]),
    ('r-upd-set-always', None, [(V, 'if self.tree.style(node)? != &layout {', 'let stale = self.tree.style(node)? != &layout;\n        if stale {')]),
    ('r-pos-add', None, [(V, 'layout.location = layout.location.add(location);', 'layout.location.x += location.x;\n        layout.location.y += location.y;')]),
    ('r-pos-for-each', None, [(V, POS, '''        self.tree
            .children(node)?
            .into_iter()
            .try_for_each(|child| self.compute_final_positions_and_clipping(child, location, opacity, clipping))?;
''')]),
    ('r-pos-match', None, [(V, '''        if let Some(scrolling) = element.scrolling.as_ref() {
            clipping = Some(layout.clone());
            location.x -= scrolling.x;
            location.y -= scrolling.y;
        }
''', '''        match &element.scrolling {
            None => {}
            Some(Scrolling { x, y, .. }) => {
                location = Point { x: location.x - x, y: location.y - y };
                clipping = Some(layout);
            }
        }
''')]),
    ('r-pos-ensure-early', None, [(S, '''        if content.width > size.width || content.height > size.height {''', '''        if content.width <= size.width && content.height <= size.height {
            return None;
        }
        if content.width > size.width || content.height > size.height {''')]),
    ('r-pos-ensure-clamp', None, [(S, 'x: x.min(scroll_x),\n                y: y.min(scroll_y),', 'x: x.min(scroll_x).max(0.0),\n                y: y.max(0.0).min(scroll_y),')]),
    ('r-pos-wheel-clamp', None, [(S, 'self.x = self.x.min(self.scroll_x).max(0.0);', 'self.x = self.x.max(0.0).min(self.scroll_x);'), (S, 'self.y = self.y.min(self.scroll_y).max(0.0);', 'self.y = self.y.clamp(0.0, self.scroll_y);')]),
    ('r-pos-wheel-let', None, [(S, '            self.y -= y.signum() * 50.0;\n            self.y = self.y.min(self.scroll_y).max(0.0);', '            let moved = self.y - 50.0 * y.signum();\n            self.y = moved.min(self.scroll_y).max(0.0);')]),
    ('r-measure-match', None, [(V, '''        let max_width = size.width.map(Some).unwrap_or_else(|| match space.width {
            AvailableSpace::MinContent => Some(0.0),
            AvailableSpace::MaxContent => None,
            AvailableSpace::Definite(width) => Some(width),
        });''', '''        let max_width = match (size.width, space.width) {
            (Some(width), _) | (None, AvailableSpace::Definite(width)) => Some(width),
            (None, AvailableSpace::MinContent) => Some(0.0),
            (None, AvailableSpace::MaxContent) => None,
        };''')]),
]
