"""Behaviour-preserving edits of view.rs: arms cut out, steps named."""
from variants_more import src, mid, ded
VARIANTS = []
LIMITS = []
V = 'src/view.rs'


def R(name, *edits):
    VARIANTS.append((name, None, [(V, a, b) for a, b in edits]))


def edits_of(name):
    return [list(e) for n, _, es in VARIANTS for e in es if n == name]


def BR(name, prop, base, old, new):
    es = edits_of(base)
    hit = [e for e in es if old in e[2]]
    assert len(hit) == 1, (name, len(hit))
    assert hit[0][2].count(old) == 1, (name, hit[0][2].count(old))
    hit[0][2] = hit[0][2].replace(old, new)
    VARIANTS.append((name, prop, [tuple(e) for e in es]))


def arm(a, b):
    t = mid(V, a, b)
    return t, ded(t.split('=> {\n', 1)[1].rstrip().rsplit('}', 1)[0].rstrip() + '\n', 8)


WHY = '    // Why this function is needed?\n'
TYPE, TYPE_IN = arm('            Reaction::Type { node, span, text } => {', '            Reaction::Reattach {\n                parent,\n                node,\n                visible,\n            } => {')
REAT, REAT_IN = arm('            Reaction::Reattach {\n                parent,\n                node,\n                visible,\n            } => {', '            Reaction::Repeat {')
REPE, REPE_IN = arm('            Reaction::Repeat {', '            Reaction::Tag {')
TAG, TAG_IN = arm('            Reaction::Tag {', '            Reaction::Bind {')
BIND, BIND_IN = arm('            Reaction::Bind {', '        }\n        Ok(())\n    }\n\n' + WHY)

R('rd-vw-arms', (TYPE, '            Reaction::Type { node, span, text } => self.set_text(node, span, text)?,\n'),
  (REAT, '            Reaction::Reattach { parent, node, visible } => self.reattach(parent, node, visible)?,\n'),
  (TAG, '            Reaction::Tag { node, key, tag } => self.set_tag(node, key, tag)?,\n'),
  (BIND, '            Reaction::Bind { node, key, span, text } => self.bind_attr(node, key, span, text)?,\n'),
  (WHY, '    fn set_text(&mut self, node: NodeId, span: usize, text: String) -> Result<(), ViewError> {\n' + TYPE_IN + '        Ok(())\n    }\n\n' +
   '    fn reattach(&mut self, parent: NodeId, node: NodeId, visible: bool) -> Result<(), ViewError> {\n' + REAT_IN + '        Ok(())\n    }\n\n' +
   '    fn set_tag(&mut self, node: NodeId, key: String, tag: bool) -> Result<(), ViewError> {\n' + TAG_IN + '        Ok(())\n    }\n\n' +
   '    fn bind_attr(&mut self, node: NodeId, key: String, span: usize, text: String) -> Result<(), ViewError> {\n' + BIND_IN + '        Ok(())\n    }\n\n' + WHY))
R('rd-vw-show-hide', (REAT, """            Reaction::Reattach { parent, node, visible } => {
                if visible {
                    self.show(parent, node)?;
                } else {
                    self.hide(parent, node)?;
                }
            }
"""), (REPE, """            Reaction::Repeat {
                parent,
                start,
                cursor,
                end,
            } => {
                let children = self.tree.get_element(parent)?.children.clone();
                for node in &children[start..cursor] {
                    self.show(parent, *node)?;
                }
                for node in &children[cursor..end] {
                    self.hide(parent, *node)?;
                }
            }
"""), (WHY, """    fn hide(&mut self, parent: NodeId, node: NodeId) -> Result<(), ViewError> {
        self.index_in_definition(parent, node)?;
        let current = self.tree.children(parent)?;
        if let Some(index) = current.iter().position(|child| *child == node) {
            self.tree.remove_child_at_index(parent, index)?;
        }
        Ok(())
    }

    fn show(&mut self, parent: NodeId, node: NodeId) -> Result<(), ViewError> {
        let definition_index = self.index_in_definition(parent, node)?;
        let current = self.tree.children(parent)?;
        if current.contains(&node) {
            return Ok(());
        }
        let mut index = current.len().min(definition_index);
        while index > 0 && self.index_in_definition(parent, current[index - 1])? >= definition_index {
            index -= 1;
        }
        self.tree.insert_child_at_index(parent, index, node)?;
        Ok(())
    }

    fn index_in_definition(&self, parent: NodeId, node: NodeId) -> Result<usize, ViewError> {
        self.tree
            .get_element(parent)?
            .children
            .iter()
            .position(|child| child == &node)
            .ok_or(ViewError::ChildNotFound(node))
    }

""" + WHY))
R('rd-vw-bind-split', (mid(V, '                element.attrs.insert(key.clone(), value.clone());\n                if key == "style"', '            }\n        }\n        Ok(())\n    }\n\n' + WHY), """                element.attrs.insert(key.clone(), value.clone());
                match key.as_str() {
                    "style" => match read_inline_css(&value) {
                        Ok(style) => element.style = style,
                        Err(error) => error!("unable to parse styles of {}, {error:?}", element.tag),
                    },
                    "id" => {
                        self.identified.retain(|_, identified| *identified != node);
                        self.identified.insert(value, node);
                    }
                    "src" if element.tag == "img" => {
                        self.model.update_img_src(node, value, &mut self.tree)?;
                    }
                    _ => {}
                }
"""))
VOID = mid(V, '        match element.tag.as_str() {\n            "img" => {\n                // self.render_img', '        Ok(())\n    }\n\n    #[inline(always)]\n    pub fn get_element_by_id')
R('rd-vw-void-fn', (VOID, """        if is_void(&element.tag) {
            return Ok(());
        }
        sizes.parent_font_size = element.font.size;
        sizes.parent_color = element.color;
        for child in self.tree.children(node)? {
            self.apply_styles(child, input, sizes, variables.clone())?;
        }
"""), ('fn measure_text<', """fn is_void(tag: &str) -> bool {
    matches!(
        tag,
        "img" | "input"
            | "area"
            | "base"
            | "br"
            | "col"
            | "command"
            | "embed"
            | "hr"
            | "keygen"
            | "link"
            | "meta"
            | "param"
            | "source"
            | "track"
            | "wbr"
    )
}

fn measure_text<"""))
R('rd-vw-void-const', (VOID, """        if !VOID_TAGS.contains(&element.tag.as_str()) {
            let sizes = Sizes {
                parent_font_size: element.font.size,
                parent_color: element.color,
                ..sizes
            };
            for child in self.tree.children(node)? {
                self.apply_styles(child, input, sizes, variables.clone())?;
            }
        }

"""), ('fn measure_text<', """const VOID_TAGS: [&str; 16] = [
    "img", "input", "area", "base", "br", "col", "command", "embed", "hr", "keygen", "link", "meta", "param", "source", "track", "wbr",
];

fn measure_text<"""), ('        mut sizes: Sizes,\n        variables', '        sizes: Sizes,\n        variables'))
STAT = mid(V, '            if matches_ignoring_pseudo {', '        }\n        let children = self.tree.children(node)?;')
R('rd-vw-kept-match', (STAT, """            let style = style.clone();
            match (is_static, matches_ignoring_pseudo) {
                (true, false) => {}
                (true, true) if !has_pseudo => element.styles.push(ElementStyle::Static(style)),
                _ => element.styles.push(ElementStyle::Dynamic(style)),
            }
"""))
R('rd-vw-kept-continue', (STAT, """            if is_static && !matches_ignoring_pseudo {
                continue;
            }
            let kept = if is_static && !has_pseudo {
                ElementStyle::Static(style.clone())
            } else {
                ElementStyle::Dynamic(style.clone())
            };
            element.styles.push(kept);
"""))
R('rd-vw-kept-vec', (mid(V, '        for style in self.css.styles.iter() {', '        let children = self.tree.children(node)?;\n        for child in children {\n            self.calculate'), """        let has_bindings = !self.model.bindings.is_empty();
        let mut styles = vec![];
        for style in self.css.styles.iter() {
            let matches = match_style(style, node, &self.tree, &Matcher);
            let hints = &self.tree.get_element(node)?.style_hints;
            let mut is_dynamic = style.has_combinator() && has_bindings;
            if hints.has_dynamic_properties() {
                is_dynamic |= style.has_attrs_selector(&hints.dynamic_attrs)
                    || hints.has_dynamic_classes && style.has_class_selector()
                    || hints.has_dynamic_id && style.has_id_selector();
            }
            if is_dynamic || matches && style.has_pseudo_class_selector() {
                styles.push(ElementStyle::Dynamic(style.clone()));
            } else if matches {
                styles.push(ElementStyle::Static(style.clone()));
            }
        }
        self.tree.get_element_mut(node)?.styles.extend(styles);
"""))
R('rd-vw-metrics', (mid(V, '        let stats = cascade.stats;\n', '        let variables = cascade.take_variables();'), """        let CascadeStats {
            matches_static,
            matches_dynamic,
            apply_ok,
            apply_error,
        } = cascade.stats;
        self.metrics.styles.set(self.css.styles.len());
        self.metrics.cascade.matches_static.add(matches_static);
        self.metrics.cascade.matches_dynamic.add(matches_dynamic);
        self.metrics.cascade.apply_ok.add(apply_ok);
        self.metrics.cascade.apply_error.add(apply_error);
"""))
VARIANTS.pop()
R('rd-vw-place', (mid(V, '        let element = self.tree.get_element_mut(node)?;\n        element.opacity', '        let mut location = layout.location;'), """        let element = self.tree.get_element_mut(node)?;
        place(element, &layout, opacity, clipping);
"""), ('fn measure_text<', """fn place(element: &mut Element, layout: &Layout, opacity: f32, clipping: Option<Layout>) {
    element.scrolling = Scrolling::ensure(layout, &element.scrolling);
    element.clipping = clipping;
    element.opacity = element.self_opacity * opacity;
    element.position = [layout.location.x, layout.location.y];
    element.size = [layout.size.width, layout.size.height];
    element.content_size = [layout.content_size.width, layout.content_size.height];
}

fn measure_text<"""))
R('rd-vw-children-first', (mid(V, '        let mut location = layout.location;\n        if let Some(scrolling)', '    fn update_tree'), """        let opacity = element.opacity;
        let (location, clipping) = match &element.scrolling {
            Some(scrolling) => {
                let location = Point {
                    x: layout.location.x - scrolling.x,
                    y: layout.location.y - scrolling.y,
                };
                (location, Some(layout))
            }
            None => (layout.location, clipping),
        };
        self.tree
            .children(node)?
            .into_iter()
            .try_for_each(|child| self.compute_final_positions_and_clipping(child, location, opacity, clipping))
    }

"""), ('        mut opacity: f32,\n        mut clipping', '        opacity: f32,\n        clipping'))
R('rd-vw-steps', (mid(V, '        let reactions = self.model.bind(&value);\n', '        let sizes = Sizes {\n            root_font_size'), """        self.react(&value)?;
        self.resize(input.viewport)?;
        let [viewport_width, viewport_height] = input.viewport;
"""), (mid(V, '        self.tree.compute_layout_with_measure(', '        // TODO: clipping of viewport'), '        self.layout()?;\n'), ('    fn compute_final_positions_and_clipping(\n        &mut self', """    fn react(&mut self, value: &Value) -> Result<(), ViewError> {
        for reaction in self.model.bind(value) {
            self.update_tree(reaction)?;
        }
        Ok(())
    }

    fn resize(&mut self, [width, height]: [f32; 2]) -> Result<(), ViewError> {
        let mut root_layout = self.tree.style(self.root).unwrap().clone();
        let size = Size {
            width: length(width),
            height: length(height),
        };
        if root_layout.size.width != size.width && root_layout.size.height != size.height {
            root_layout.size = size;
            self.tree.set_style(self.root, root_layout)?;
        }
        Ok(())
    }

    fn layout(&mut self) -> Result<(), ViewError> {
        let fonts = self.fonts.as_ref();
        self.tree.compute_layout_with_measure(
            self.body,
            Size::MAX_CONTENT,
            |size, space, _, view, _| measure_text(fonts, size, space, view),
        )?;
        Ok(())
    }

    fn compute_final_positions_and_clipping(
        &mut self"""))
TPL = mid(V, '        let mut body = Html::empty();\n', '        let mut renderer = Renderer::new(')
R('rd-vw-templates-fn', (TPL, """        let mut body = Html::empty();
        let mut templates = HashMap::new();
        for child in html.children {
            match child.tag.as_str() {
                "template" => {
                    if let Some((key, template)) = read_template(&child) {
                        templates.insert(key, template);
                    }
                }
                "body" => {
                    body = child;
                    break;
                }
                _ => {}
            }
        }

"""), ('fn measure_text<', """fn read_template(template: &Html) -> Option<(String, Html)> {
    let mut id = None;
    for binding in &template.bindings {
        match binding {
            ElementBinding::None(key, value) if key == "id" => id = Some(value),
            _ => {}
        }
    }
    let id = id?;
    match template.children.as_slice() {
        [content] => Some((format!("#{id}"), content.clone())),
        _ => None,
    }
}

fn measure_text<"""))
R('rd-vw-defaults-loop', (mid(V, '        let mut reactions = vec![];\n        for bindings in self.model', '    fn calculate_elements_stylesheet'), """        let hidden: Vec<(NodeId, NodeId, bool)> = self
            .model
            .bindings
            .values()
            .flat_map(|bindings| bindings.iter())
            .filter_map(|binding| match binding.params {
                BindingParams::Visibility(parent, node, visible) => Some((parent, node, visible)),
                _ => None,
            })
            .collect();
        for (parent, node, visible) in hidden {
            let visible = !visible;
            self.update_tree(Reaction::Reattach { parent, node, visible })?;
        }
        Ok(())
    }

"""))
R('rd-vw-fragment-q', (mid(V, '        match self.tree.children(self.element.node) {', '    }\n}\n\nimpl Deref for Fragment'), """        let children = self.tree.children(self.element.node).unwrap_or_else(|error| {
            error!("unable to traverse fragment, {error:?}");
            vec![]
        });
        let mut fragments = Vec::with_capacity(children.len());
        for node in children {
            fragments.push(Fragment {
                element: self.tree.get_node_context(node).unwrap(),
                tree: self.tree,
            });
        }
        fragments
"""))
R('rd-vw-text-fn', (mid(V, '        if element.text.is_some() {\n            let font', '        self.metrics.cascades.inc();'), """        if element.text.is_some() {
            return self.inherit_text(node, parent, element);
        }

"""), ('    #[inline(always)]\n    pub fn get_element_by_id', """    fn inherit_text(&mut self, node: NodeId, parent: &Element, element: &mut Element) -> Result<(), ViewError> {
        let previous = element.font.clone();
        inherit(parent, element);
        if previous == element.font {
            return Ok(());
        }
        // the size of text depends on its font
        self.tree.mark_dirty(node)?;
        Ok(())
    }

    #[inline(always)]
    pub fn get_element_by_id"""))
BR('bd-vw-show', 'C11', 'rd-vw-show-hide', '>= definition_index', '> definition_index + 1')
BR('bd-vw-show-present', 'C11', 'rd-vw-show-hide', 'if current.contains(&node) {', 'if current.last() == Some(&node) {')
BR('bd-vw-repeat', 'C11', 'rd-vw-show-hide', '&children[cursor..end]', '&children[cursor + 1..end]')
BR('bd-vw-bind-id', 'C11', 'rd-vw-bind-split', '                        self.identified.retain(|_, identified| *identified != node);\n', '')
BR('bd-vw-bind-src', 'C11', 'rd-vw-bind-split', '"src" if element.tag == "img"', '"src" if element.tag == "image"')
BR('bd-vw-void', 'C12', 'rd-vw-void-fn', '            | "wbr"\n', '            | "wbr"\n            | "button"\n')
BR('bd-vw-sizes', 'C12', 'rd-vw-void-const', 'parent_color: element.color', 'parent_color: parent.color')
BR('bd-vw-kept', 'C15', 'rd-vw-kept-match', '(true, true) if !has_pseudo', '(true, true) | (false, true) if !has_pseudo')
BR('bd-vw-kept-vec', 'C15', 'rd-vw-kept-vec', 'is_dynamic |= style', 'is_dynamic = style')
BR('bd-vw-place', 'C13', 'rd-vw-place', '    element.clipping = clipping;\n', '    element.clipping = element.clipping.or(clipping);\n')
BR('bd-vw-children', 'C13', 'rd-vw-children-first', '(location, Some(layout))', '(location, clipping.or(Some(layout)))')
BR('bd-vw-template', 'C27', 'rd-vw-templates-fn', '[content] =>', '[content, ..] =>')
BR('bd-vw-defaults', 'C11', 'rd-vw-defaults-loop', 'let visible = !visible;\n', '')
BR('bd-vw-text', 'C12', 'rd-vw-text-fn', 'if previous == element.font {', 'if previous.size == element.font.size {')
