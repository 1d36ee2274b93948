"""Behaviour-preserving edits that cut the rendering of an element into helpers."""
from variants_more import RE, EL, src, mid, ded
VARIANTS = []


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


# what the rules do not follow (DESIGN.md, limits)
LIMITS = []


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


def edits_of(name):
    return [list(e) for n, _, es in VARIANTS + LIMITS if n == name for e in es]


def BR(name, prop, base, old, new):
    """A bug inside the text of a refactoring that is accepted."""
    es = edits_of(base)
    hit = [e for e in es if old in e[2]]
    assert len(hit) == 1, (name, len(hit))
    assert hit[0][2].count(old) == 1, (name, hit[0][2].count(old))
    hit[0][2] = hit[0][2].replace(old, new)
    VARIANTS.append((name, prop, [tuple(e) for e in es]))


FN = '    fn render_element(&mut self, template: Html)'
BINDLOOP = mid(RE, '        for binding in template.bindings {\n            let binding = match', '        let mut children = vec![];\n        let mut hidden')
R('rd-re-split-bindings', (RE, BINDLOOP, '        self.apply_bindings(node, template.bindings, &mut element);\n'),
  (RE, FN, '    fn apply_bindings(&mut self, node: NodeId, bindings: Vec<ElementBinding>, element: &mut Element) {\n' +
   BINDLOOP.replace('in template.bindings', 'in bindings') + '    }\n\n' + FN))
ARMBODY = mid(RE, '            match binding {\n                ElementBinding::None(key', '        }\n        let mut children')
R('rd-re-apply-binding', (RE, ARMBODY, '            self.apply_binding(node, &mut element, binding);\n'),
  (RE, FN, '    fn apply_binding(&mut self, node: NodeId, element: &mut Element, binding: ElementBinding) {\n' +
   ded(ARMBODY, 4) + '    }\n\n' + FN))
CHILDLOOP = mid(RE, '                for child in template.children {', '            }\n        }\n        element.children = children.clone()')
CHILDSIG = """    fn render_children(
        &mut self,
        node: NodeId,
        content: Vec<Html>,
        children: &mut Vec<NodeId>,
    ) -> Result<(), ViewError> {
"""
R('rd-re-split-children', (RE, CHILDLOOP, '                self.render_children(node, template.children, &mut children)?;\n'),
  (RE, '        let mut hidden = vec![];\n', ''),
  (RE, FN, CHILDSIG + ded(CHILDLOOP, 8).replace('in template.children', 'in content').replace('            hidden.push(child_id);\n', '') + '        Ok(())\n    }\n\n' + FN))
R('rd-re-children-return', (RE, CHILDLOOP, '                children = self.render_children(node, template.children)?;\n'),
  (RE, '        let mut hidden = vec![];\n', ''),
  (RE, FN, CHILDSIG.replace('        children: &mut Vec<NodeId>,\n', '').replace('Result<(), ', 'Result<Vec<NodeId>, ') + '        let mut children = vec![];\n' + ded(CHILDLOOP, 8).replace('in template.children', 'in content').replace('            hidden.push(child_id);\n', '') + '        Ok(children)\n    }\n\n' + FN))
R('rd-re-child-fn', (RE, CHILDLOOP, '                for child in template.children {\n                    self.render_child(node, child, &mut children)?;\n                }\n'),
  (RE, '        let mut hidden = vec![];\n', ''),
  (RE, FN, """    fn render_child(
        &mut self,
        node: NodeId,
        child: Html,
        children: &mut Vec<NodeId>,
    ) -> Result<(), ViewError> {
""" + ded(CHILDLOOP.split('\n', 1)[1].rsplit('                }\n', 1)[0], 12).replace('            hidden.push(child_id);\n', '') + '        Ok(())\n    }\n\n' + FN))
REP = mid(RE, '                        let array = self.schema.field(binder, &self.locals);', '                    } else {\n                        let child = self.render_node(child)?;')
R('rd-re-repeat-fn', (RE, REP, """                        let (name, binder) = (name.clone(), binder.clone());
                        self.render_repeat(node, &child, &name, count, &binder, &mut children)?;
"""), (RE, 'use crate::view_model::{Binding, Bindings, Schema};', 'use crate::view_model::{Binder, Binding, Bindings, Schema};'),
  (RE, FN, """    fn render_repeat(
        &mut self,
        node: NodeId,
        child: &Html,
        name: &str,
        count: usize,
        binder: &Binder,
        children: &mut Vec<NodeId>,
    ) -> Result<(), ViewError> {
""" + ded(REP, 16) + '        Ok(())\n    }\n\n' + FN))
VIS = mid(RE, '                        let path = self.schema.field(&binder, &self.locals);\n                        let pipe', '                    } else if let Some((name, count, binder)) = child.as_repeat')
R('rd-re-visibility-fn', (RE, VIS, """                        let binder = binder.clone();
                        let child_id = self.render_optional(node, child, visible, binder)?;
                        children.push(child_id);
                        hidden.push(child_id);
"""), (RE, 'use crate::view_model::{Binding, Bindings, Schema};', 'use crate::view_model::{Binder, Binding, Bindings, Schema};'),
  (RE, FN, """    fn render_optional(
        &mut self,
        parent: NodeId,
        child: Html,
        visible: bool,
        binder: Binder,
    ) -> Result<NodeId, ViewError> {
        let path = self.schema.field(&binder, &self.locals);
        let child = self.render_node(child)?;
        let params = BindingParams::Visibility(parent, child, visible);
        let binding = Binding { params, pipe: binder.pipe };
        self.bindings.entry(path).or_insert_with(Vec::new).push(binding);
        Ok(child)
    }

""" + FN))
R('rd-re-bind-helper', (RE, """                    let path = self.schema.field(&binder, &mut self.locals);
                    let params = BindingParams::Tag(node, key.clone());
                    let binding = Binding {
                        params,
                        pipe: binder.pipe.clone(),
                    };
                    self.bindings.entry(path).or_default().push(binding);
""", """                    self.bind(&binder, BindingParams::Tag(node, key.clone()));
"""), (RE, """                    let path = self.schema.field(&binder, &mut self.locals);
                    let params = BindingParams::Text(node, index);
                    let binding = Binding {
                        params,
                        pipe: binder.pipe.clone(),
                    };
                    self.bindings.entry(path).or_default().push(binding);
""", """                    self.bind(&binder, BindingParams::Text(node, index));
"""), (RE, """                                let path = self.schema.field(&binder, &mut self.locals);
                                let params = BindingParams::Attribute(node, key.clone(), index);
                                let binding = Binding {
                                    params,
                                    pipe: binder.pipe.clone(),
                                };
                                self.bindings.entry(path).or_default().push(binding);
""", """                                self.bind(&binder, BindingParams::Attribute(node, key.clone(), index));
"""), (RE, 'use crate::view_model::{Binding, Bindings, Schema};', 'use crate::view_model::{Binder, Binding, Bindings, Schema};'),
  (RE, FN, """    fn bind(&mut self, binder: &Binder, params: BindingParams) {
        let path = self.schema.field(binder, &self.locals);
        let pipe = binder.pipe.clone();
        self.bindings
            .entry(path)
            .or_default()
            .push(Binding { params, pipe });
    }

""" + FN))
R('rd-re-hints-method', (RE, """                    if key == "class" {
                        element.style_hints.has_dynamic_classes = true;
                    }
                    if key == "id" {
                        element.style_hints.has_dynamic_id = true;
                    }
                    element.style_hints.dynamic_attrs.insert(key);
""", """                    element.style_hints.mark_dynamic(key);
"""), (RE, """                    element.style_hints.dynamic_attrs.insert(key.clone());
                    if key == "class" {
                        element.style_hints.has_dynamic_classes = true;
                    }
                    if key == "id" {
                        element.style_hints.has_dynamic_id = true;
                    }
""", """                    element.style_hints.mark_dynamic(key.clone());
"""), (EL, """impl ElementStyleHints {
""", """impl ElementStyleHints {
    pub(crate) fn mark_dynamic(&mut self, attr: String) {
        match attr.as_str() {
            "class" => self.has_dynamic_classes = true,
            "id" => self.has_dynamic_id = true,
            _ => {}
        }
        self.dynamic_attrs.insert(attr);
    }

"""))
HANDLER = mid(RE, '                    let arguments = arguments\n', '                }\n                // used on other rendering')
R('rd-re-handler-fn', (RE, HANDLER, """                    let handler = self.create_handler(arguments);
                    element.listeners.insert(event, handler);
"""), (RE, FN, """    fn create_handler(&mut self, arguments: Vec<CallbackArgument>) -> Handler {
        let mut handler = Handler { arguments: Vec::with_capacity(arguments.len()) };
        for argument in arguments {
            handler.arguments.push(match argument {
                CallbackArgument::Event => HandlerArgument::Event,
                CallbackArgument::Keyword(key) => HandlerArgument::Keyword(key),
                CallbackArgument::Binder(binder) => HandlerArgument::Binder {
                    path: self.schema.field(&binder, &self.locals),
                    pipe: binder.pipe,
                },
            });
        }
        handler
    }

""" + FN))
ALIAS = mid(RE, '                    let mut overridden = HashMap::new();\n', '                    if let Some((visible, binder)) = child.as_visibility')
RESTORE = mid(RE, '                    for (key, value) in overridden {', '                    if let Some((id, definition)) = used {')
R('rd-re-alias-fns', (RE, ALIAS, '                    let overridden = self.enter_aliases(&child.bindings);\n\n'),
  (RE, RESTORE, '                    self.leave_aliases(overridden);\n'),
  (RE, FN, """    fn enter_aliases(&mut self, bindings: &[ElementBinding]) -> HashMap<String, Option<String>> {
""" + ded(ALIAS, 12).rstrip().replace('&child.bindings', 'bindings') + """
        overridden
    }

    fn leave_aliases(&mut self, overridden: HashMap<String, Option<String>>) {
        for (key, value) in overridden {
            match value {
                Some(value) => {
                    self.locals.insert(key, value);
                }
                None => {
                    self.locals.remove(&key);
                }
            }
        }
    }

""" + FN))
TPL = mid(RE, '                        // a template is not available to itself', '                    } else {\n                        child\n                    };')
R('rd-re-template-fn', (RE, TPL, """                        let (template, definition) = self.take_template(&id, bindings)?;
                        used = Some((id, definition));
                        template
"""), (RE, 'let child = if let Some((id, mut bindings)) = child.as', 'let child = if let Some((id, bindings)) = child.as'),
  (RE, FN, """    fn take_template(
        &mut self,
        id: &str,
        mut bindings: Vec<ElementBinding>,
    ) -> Result<(Html, Html), ViewError> {
        let Some(definition) = self.templates.remove(id) else {
            return Err(ViewError::TemplateNotFound(id.to_string()));
        };
        let mut template = definition.clone();
        bindings.append(&mut template.bindings);
        template.bindings = bindings;
        Ok((template, definition))
    }

""" + FN))
VOID = mid(RE, '        match element.tag.as_str() {\n            // void elements', '            _ => {\n                for child in template')
R('rd-re-void-fn', (RE, VOID, """        match element.tag.as_str() {
            "img" => {
                children.extend(self.render_img(&mut element)?);
            }
            tag if is_void(tag) => {}
"""), (RE, 'pub trait RendererTranslator {', """fn is_void(tag: &str) -> bool {
    matches!(
        tag,
        "input" | "area" | "base" | "br" | "col" | "command" | "embed" | "hr" | "keygen" | "link"
            | "meta" | "param" | "source" | "track" | "wbr"
    )
}

pub trait RendererTranslator {"""))
R('rd-re-style-if-let', (RE, mid(RE, '                    if key == "style" {', '                    if key == "id" {\n                        self.static_id'), """                    if key == "style" {
                        element.style = read_inline_css(&value).unwrap_or_else(|error| {
                            error!("unable to parse inline style, {error:?}");
                            std::mem::take(&mut element.style)
                        });
                    }
"""))
R('rd-re-simple-fn', (RE, mid(RE, '            let binding = match binding {\n                ElementBinding::Attribute(key, text) => match', '            match binding {\n                ElementBinding::None(key'), """            let binding = simplify(binding);
"""), (RE, 'pub trait RendererTranslator {', """fn simplify(binding: ElementBinding) -> ElementBinding {
    if let ElementBinding::Attribute(key, text) = &binding {
        if let Some(value) = text.as_simple_text() {
            warn!("attribute {key} has no bindings, you can just use HTML tag");
            return ElementBinding::None(key.clone(), value);
        }
    }
    binding
}

pub trait RendererTranslator {"""))
R('rd-re-items-inline', (RE, mid(RE, '                        // the name of items can be the name of the array\n', '                        if let Some(overridden) = overridden {'), """                        let items = (0..count)
                            .map(|n| self.schema.index(binder, n, &self.locals))
                            .collect::<Vec<_>>();
                        let overridden = self.locals.remove(name);
                        children.reserve(items.len());
                        for path in items.into_iter() {
                            self.locals.insert(name.to_string(), path);
                            children.push(self.render_node(child.clone())?);
                        }
"""))
R('rd-re-text-fn', (RE, mid(RE, '        let spans = text\n            .spans\n            .into_iter()\n            .enumerate()\n            .map(|(index, span)| match span {\n                TextSpan::String(span) => self.translator', '        let text = TextContent::new(spans);'), """        let mut spans = Vec::with_capacity(text.spans.len());
        for (index, span) in text.spans.into_iter().enumerate() {
            spans.push(self.render_span(span, BindingParams::Text(node, index)));
        }
"""), (RE, FN, """    fn render_span(&mut self, span: TextSpan, params: BindingParams) -> String {
        let binder = match span {
            TextSpan::String(span) => return self.translator.translate(span),
            TextSpan::Binder(binder) => binder,
        };
        let path = self.schema.field(&binder, &self.locals);
        let text = binder.to_string();
        let binding = Binding { params, pipe: binder.pipe };
        self.bindings.entry(path).or_default().push(binding);
        text
    }

""" + FN))
R('rd-re-leaf-fn', (RE, """        let layout = default_layout();
        let node = self.tree.new_leaf(layout)?;
        let mut element = create_element(node);
        element.tag = template.tag.clone();
""", """        let (node, mut element) = self.create_leaf()?;
        element.tag = template.tag.clone();
"""), (RE, FN, """    fn create_leaf(&mut self) -> Result<(NodeId, Element), ViewError> {
        let node = self.tree.new_leaf(default_layout())?;
        Ok((node, create_element(node)))
    }

""" + FN))
R('rd-re-finish-fn', (RE, """        element.children = children.clone();
        self.tree.set_node_context(node, Some(element))?;
        self.tree.set_children(node, &children)?;
        // todo:
        Ok(node)
""", """        self.attach(node, element, children)
"""), (RE, FN, """    fn attach(
        &mut self,
        node: NodeId,
        mut element: Element,
        children: Vec<NodeId>,
    ) -> Result<NodeId, ViewError> {
        self.tree.set_children(node, &children)?;
        element.children = children;
        self.tree.set_node_context(node, Some(element))?;
        Ok(node)
    }

""" + FN))

# ---------------------------------------------------------------- element.rs
def layer(n, t, T):
    return f"""        if index >= self.{n}.len() {{
            self.{n}.resize_with(index + 1, {T}::default);
        }}
        &mut self.{n}[index]
"""


L('rd-el-grow', (EL, layer('backgrounds', 0, 'Background'), '        layer_mut(&mut self.backgrounds, index)\n'),
  (EL, layer('animators', 0, 'Animator'), '        layer_mut(&mut self.animators, index)\n'),
  (EL, layer('transitions', 0, 'Transition'), '        layer_mut(&mut self.transitions, index)\n'),
  (EL, '#[derive(Clone)]\npub struct TextContent', """/// The layer of the given index, the ones that are missing are added with initial values.
fn layer_mut<T: Default>(layers: &mut Vec<T>, index: usize) -> &mut T {
    let missing = (index + 1).saturating_sub(layers.len());
    layers.extend(std::iter::repeat_with(T::default).take(missing));
    &mut layers[index]
}

#[derive(Clone)]
pub struct TextContent"""))
R('rd-el-grow-while', (EL, layer('backgrounds', 0, 'Background'), '        while self.backgrounds.len() <= index {\n            self.backgrounds.push(Background::default());\n        }\n        &mut self.backgrounds[index]\n'))
R('rd-el-visible', (EL, mid(EL, '        if self.top.width > 0.0 {', '    }\n\n    pub fn right'), '        self.top.visible()\n'),
  (EL, mid(EL, '        if self.left.width > 0.0 {', '    }\n}\n\n#[derive(Clone, Default, Copy)]'), '        self.left.visible()\n'),
  (EL, '#[derive(Clone)]\npub struct Background {', """impl MyBorder {
    fn visible(self) -> Option<Self> {
        (self.width > 0.0).then_some(self)
    }
}

#[derive(Clone)]
pub struct Background {"""))
R('rd-el-draggable', (EL, mid(EL, '        match self.attrs.get("draggable") {', '    }\n\n    #[inline(always)]\n    pub fn value'), '        self.attrs.get("draggable").map(String::as_str) == Some("true")\n'))
R('rd-el-set', (EL, mid(EL, '        if span >= self.spans.len() {', '    }\n\n    #[inline(always)]\n    pub fn to_string'), """        match self.spans.get_mut(span) {
            Some(current) => *current = value,
            None => error!("unable to bind text span {span} to {value}"),
        }
"""))
R('rd-el-fold', (EL, 'self.spans.join("").to_string()', 'self.spans.iter().fold(String::new(), |text, span| text + span)'))
R('rd-el-push-str', (EL, '        self.spans.join("").to_string()', """        let mut text = String::with_capacity(self.spans.iter().map(String::len).sum());
        for span in &self.spans {
            text.push_str(span);
        }
        text"""))
R('rd-el-resolve', (EL, """        match *self {
            Length::Number(value) => value,
            Length::Percent(value) => value * base,
        }
""", """        let (value, unit) = match self {
            Length::Number(value) => (value, 1.0),
            Length::Percent(value) => (value, base),
        };
        value * unit
"""))
# bugs inside these forms
BR('bd-re-split-bindings', 'C28', 'rd-re-split-bindings', 'self.static_id.insert(value.clone(), node);', 'self.static_id.entry(value.clone()).or_insert(node);')
BR('bd-re-apply-binding', 'C28', 'rd-re-apply-binding', 'self.static_id.insert(value.clone(), node);', 'self.static_id.insert(element.tag.clone(), node);')
BR('bd-re-split-children', 'C28', 'rd-re-split-children', 'let start = children.len();', 'let start = self.locals.len();')
BR('bd-re-children-return', 'C28', 'rd-re-children-return', 'self.locals.remove(&key);', 'continue;')
BR('bd-re-child-fn', 'C28', 'rd-re-child-fn', 'self.templates.insert(id, definition);', 'drop((id, definition));')
BR('bd-re-repeat-fn', 'C28', 'rd-re-repeat-fn', 'let start = children.len();', 'let start = 0;')
BR('bd-re-visibility-fn', 'C28', 'rd-re-visibility-fn', 'BindingParams::Visibility(parent, child, visible)', 'BindingParams::Visibility(parent, child, !visible)')
BR('bd-re-visibility-fn-2', 'C28', 'rd-re-visibility-fn', 'pipe: binder.pipe }', 'pipe: vec![] }')
BR('bd-re-bind-helper', 'C28', 'rd-re-bind-helper', '            .or_default()\n            .push(Binding { params, pipe });', '            .or_insert(vec![Binding { params, pipe }]);')
BR('bd-re-hints-method', 'C28', 'rd-re-hints-method', '"id" => self.has_dynamic_id = true', '"name" => self.has_dynamic_id = true')
BR('bd-re-handler-fn', 'C28', 'rd-re-handler-fn', 'pipe: binder.pipe,', 'pipe: Default::default(),')
BR('bd-re-alias-fns', 'C28', 'rd-re-alias-fns', 'or_insert(previous);', 'or_insert(previous.or(Some(name.to_string())));')
BR('bd-re-template-fn', 'C28', 'rd-re-template-fn', 'Ok((template, definition))', 'Ok((definition, template))')
BR('bd-re-void-fn', 'C28', 'rd-re-void-fn', '"param" | ', '"param" | "p" | ')
BR('bd-re-simple-fn', 'C28', 'rd-re-simple-fn', 'ElementBinding::None(key.clone(), value)', 'ElementBinding::None(value, key.clone())')
BR('bd-re-items-inline', 'C28', 'rd-re-items-inline', '(0..count)', '(1..count)')
BR('bd-re-text-fn', 'C28', 'rd-re-text-fn', 'return self.translator.translate(span)', 'return span')
BR('bd-re-finish-fn', 'C28', 'rd-re-finish-fn', '        element.children = children;\n', '')
BR('bd-el-grow-while', 'C19', 'rd-el-grow-while', '<= index {', '< index {')
BR('bd-el-visible', 'C30', 'rd-el-visible', 'self.width > 0.0', 'self.width > 1.0')
BR('bd-el-draggable', 'C03', 'rd-el-draggable', '== Some("true")', '!= Some("false")')
BR('bd-el-set', 'C11', 'rd-el-set', 'get_mut(span)', 'get_mut(0)')
BR('bd-el-push-str', 'C30', 'rd-el-push-str', 'for span in &self.spans {', 'for span in self.spans.iter().rev() {')
BR('bd-el-fold', 'C30', 'rd-el-fold', 'text + span', 'text + span.trim()')
BR('bd-el-resolve', 'C19', 'rd-el-resolve', 'Length::Number(value) => (value, 1.0)', 'Length::Number(value) => (value, *value)')
