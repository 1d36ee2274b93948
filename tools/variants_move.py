"""Private functions renamed, moved to other files, turned into methods, cut up otherwise."""
import re
from variants_more import src
VARIANTS = []
LIMITS = []
V, VM, RE, AN, EL, CR, HR, AP, CS, FN, TR, ST, IN, DE, MA, MO, FO, PC = ('src/' + x + '.rs' for x in (
    'view', 'view_model', 'rendering', 'animation', 'element', 'css/reader', 'html/reader', 'styles/apply', 'styles/compute_style', 'styles/compute_function',
    'styles/compute_animation_tracks', 'styles/mod', 'styles/inherit', 'styles/default', 'css/matching', 'css/model', 'fonts', 'controls/img'))


def W(f, *subs):
    """The whole file, rewritten."""
    t = src(f)
    for old, new in subs:
        assert old in t, (f, old)
        t = t.replace(old, new)
    return (f, src(f), t)


def N(f, *names):
    """The whole file, with words renamed."""
    t = src(f)
    for old, new in names:
        assert re.search(r'\b%s\b' % old, t), (f, old)
        t = re.sub(r'\b%s\b' % old, new, t)
    return (f, src(f), t)


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


def fn_text(f, head):
    t = src(f)
    i = t.index(head)
    return t[i:t.index('\n}\n', i) + 3]


# ---------------------------------------------------------------- renamed
R('mv-name-view', N(V, ('compute_final_positions_and_clipping', 'place_elements'), ('update_tree', 'react'), ('calculate_elements_stylesheet', 'collect_styles'),
                    ('apply_default_bindings_state', 'show_defaults'), ('measure_text', 'text_size')))
R('mv-name-vm', N(VM, ('memorize_array_default', 'remember_arrays'), ('calculate_mouse_hovers', 'find_hovers'), ('handle_elements_input', 'dispatch'), ('hovers', 'covers'),
                  ('react_value_change', 'reaction'), ('define_value', 'ensure_value')))
R('mv-name-render', N(RE, ('render_element', 'render_tag'), ('render_node', 'render_any')))
R('mv-name-apply', N(AP, ('resolve_color', 'to_color'), ('resolve_length', 'to_length'), ('dimension_length', 'to_pixels'), ('parse_dimension_length', 'to_px'), ('map_align_items', 'align_items_of'),
                     ('map_align_content', 'align_content_of'), ('lengthp_auto', 'auto_or_length'), ('has_layers', 'is_layered'), ('resolve_timing', 'timing_function')))
R('mv-name-style', N(CS, ('set_layer', 'put')), N(ST, ('count_layers', 'layers'), ('compute_declaration_block', 'compute_block'), ('set_variable', 'define'), ('get_variable', 'variable_of')))
R('mv-name-fn', N(FN, ('map_c', 'channel'), ('map_a', 'alpha')))
R('mv-name-match', N(MA, ('match_complex_selector', 'matches_complex'), ('find_next_target', 'advance'), ('match_simple_selector', 'matches_simple'), ('match_class', 'has_class')))
R('mv-name-anim', N(AN, ('color', 'mix_colors'), ('dimension', 'mix_dimensions'), ('percentage', 'mix_percents')))
HFN = re.findall(r'^fn (\w+)', src(HR).split('mod tests')[0], re.M)
CFN = re.findall(r'^fn (\w+)', src(CR).split('mod tests')[0], re.M)
R('mv-name-html', N(HR, *[(x, 'do_' + x) for x in HFN]))
R('mv-name-css', N(CR, *[(x, 'do_' + x) for x in CFN]))

# ---------------------------------------------------------------- moved
SL = '/// A declaration sets all' + fn_text(CS, '/// A declaration sets all')[len('/// A declaration sets all'):]
R('mv-set-layer', W(CS, ('\n' + SL, ''), ('set_layer(style', 'crate::styles::set_layer(style'), ('ComputedValue, Definition, PropertyDescriptor, PropertyKey', 'ComputedValue, Definition, PropertyKey')),
  W(ST, ('fn count_layers', SL.replace('fn set_layer', 'pub(crate) fn set_layer') + '\nfn count_layers')))
CL = fn_text(ST, 'fn count_layers')
R('mv-count-layers', W(ST, (CL, ''), ('count_layers(&computed', 'compute_style::count_layers(&computed'), ('Definition, PropertyDescriptor,', 'Definition,')), W(CS, (SL, SL + '\npub(crate) ' + CL)))
R('mv-layers-trait', W(ST, (CL, """pub(crate) trait Layers {
    fn layers(&self, key: PropertyKey) -> usize;
}

impl Layers for ComputedStyle {
    fn layers(&self, key: PropertyKey) -> usize {
        let mut index = 0;
        while self.contains_key(&PropertyDescriptor::new(key, index)) {
            index += 1;
        }
        index
    }
}
"""), ('count_layers(&computed_style, PropertyKey::AnimationName)', 'computed_style.layers(PropertyKey::AnimationName)'),
                       ('count_layers(&computed_style, PropertyKey::TransitionProperty)', 'computed_style.layers(PropertyKey::TransitionProperty)'),
                       ('let mut computed_style = HashMap::new();', 'let mut computed_style: ComputedStyle = HashMap::new();')))
INH = fn_text(IN, 'pub fn inherit')
R('mv-inherit', W(ST, ('mod inherit;\n', ''), ('pub use inherit::inherit;\n', ''), ('inherit::inherit(parent', 'inherit(parent')), W(DE, ('pub fn create_element', INH + '\npub fn create_element')))
L('mv-inherit-method', W(ST, ('pub use inherit::inherit;\n', ''), ('inherit::inherit(parent, element)', 'element.inherit(parent)')), W(V, ('default_layout, inherit, ', 'default_layout, '), ('inherit(parent, element)', 'element.inherit(parent)')),
  (IN, src(IN), 'use crate::Element;\n\nimpl Element {\n    pub fn inherit(&mut self, parent: &Element) {\n' +
   '\n'.join(l for l in INH.split('\n')[1:-2] if not l.strip().startswith('//')).replace('element.', 'self.') + '\n    }\n}\n'))
PD = fn_text(AP, 'fn parse_dimension_length')
R('mv-px-method', W(AP, (PD, """impl Dim {
    fn to_px(&self, cascade: &Cascade) -> f32 {
        let Dim { value, unit } = *self;
        let sizes = cascade.sizes;
        match unit {
            Units::Px => value,
            Units::Em => sizes.parent_font_size * value,
            Units::Rem => sizes.root_font_size * value,
            Units::Vw => sizes.viewport_width * value / 100.0,
            Units::Vh => sizes.viewport_height * value / 100.0,
            Units::Vmax => sizes.viewport_width.max(sizes.viewport_height) * value / 100.0,
            Units::Vmin => sizes.viewport_width.min(sizes.viewport_height) * value / 100.0,
        }
    }
}
"""), ('parse_dimension_length(dimension, cascade)?', 'dimension.to_px(cascade)')))
R('mv-px-sizes', W(AP, (PD, ''), ('parse_dimension_length(dimension, cascade)?', 'cascade.sizes.resolve(dimension)')), W(ST, ('#[derive(Clone, Copy)]\npub struct Sizes', """impl Sizes {
    pub(crate) fn resolve(&self, dimension: &Dim) -> f32 {
        let width = self.viewport_width;
        let height = self.viewport_height;
        let unit = match dimension.unit {
            Units::Px => return dimension.value,
            Units::Em => self.parent_font_size,
            Units::Rem => self.root_font_size,
            Units::Vw => width / 100.0,
            Units::Vh => height / 100.0,
            Units::Vmax => width.max(height) / 100.0,
            Units::Vmin => width.min(height) / 100.0,
        };
        unit * dimension.value
    }
}

#[derive(Clone, Copy)]
pub struct Sizes"""), ('    match_style, ComputedStyle', '    match_style, Dim, Units, ComputedStyle')), W(AP, (PD, ''), ('parse_dimension_length(dimension, cascade)?', 'cascade.sizes.resolve(dimension)'), ('ComputedValue, Dim, PropertyKey, Units', 'ComputedValue, PropertyKey')))
VARIANTS[-1][2].pop(0)
RC = fn_text(AP, 'fn resolve_color')
R('mv-color-method', W(AP, (RC, "impl<'c> Cascade<'c> {\n    " + RC.replace('value: &ComputedValue, cascade: &Cascade', '&self, value: &ComputedValue').replace('cascade.sizes', 'self.sizes').rstrip() + '\n}\n'),
                       ('resolve_color(value, self)?', 'self.resolve_color(value)?')))
HL = fn_text(AP, 'fn has_layers')
R('mv-layers-method', W(AP, (HL, 'impl PropertyKey {\n    ' + HL.replace('(key: PropertyKey)', '(self)').replace('        key,\n', '        self,\n').rstrip() + '\n}\n'), ('!has_layers(key)', '!key.has_layers()')))
MS = fn_text(MA, 'fn match_simple_selector')
R('mv-simple-method', W(MA, (MS, """impl Simple {
    fn matches(&self, element: &Element, matcher: &impl PseudoClassMatcher) -> bool {
        let component = self;
""" + MS.split('{\n', 1)[1].rstrip().rsplit('}', 1)[0] + '}\n}\n'), ('match_simple_selector(component, element, matcher)', 'component.matches(element, matcher)')))
MC = fn_text(MA, 'fn match_complex_selector')
R('mv-complex-method', W(MA, (MC, 'impl Complex {\n    ' + MC.replace('fn match_complex_selector(\n    selector: &Complex,', 'fn matches(\n    &self,').replace('in selector.selectors', 'in self.selectors').rstrip() + '\n}\n'),
                         ('match_complex_selector(selector, node, tree, matcher)', 'selector.matches(node, tree, matcher)')))
FT = fn_text(MA, 'fn find_next_target')
R('mv-next-option', W(MA, (FT, """fn find_next_target(combinator: char, target: NodeId, tree: &TaffyTree<Element>) -> Option<NodeId> {
    match combinator {
        '>' => tree.parent(target),
        '+' => {
            let parent = tree.parent(target)?;
            let children = tree.children(parent).ok()?;
            let index = children.iter().position(|child| *child == target)?;
            if index == 0 {
                return None;
            }
            Some(children[index - 1])
        }
        _ => {
            // TODO: multi-target selector match
            error!("combinator {combinator:?} not supported");
            None
        }
    }
}
"""), ("""                if !find_next_target(combinator, &mut target, tree) {
                    return false;
                } else {
                    element = tree.get_node_context(target).unwrap();
                }
""", """                match find_next_target(combinator, target, tree) {
                    Some(next) => target = next,
                    None => return false,
                }
                element = tree.get_node_context(target).unwrap();
""")))
HAS = src(MA)[src(MA).index('    pub fn has_id_selector'):src(MA).index('#[inline(always)]\nfn match_class')]
R('mv-any-selector', W(MA, (HAS, """    fn any_selector(&self, test: impl Fn(&Simple) -> bool) -> bool {
        self.selectors
            .iter()
            .flat_map(|complex| complex.selectors.iter())
            .any(|selector| test(selector))
    }

    pub fn has_id_selector(&self) -> bool {
        self.any_selector(|selector| matches!(selector, Simple::Id(_)))
    }

    pub fn has_class_selector(&self) -> bool {
        self.any_selector(|selector| matches!(selector, Simple::Class(_)))
    }

    pub fn has_attrs_selector(&self, attrs: &HashSet<String>) -> bool {
        !attrs.is_empty()
            && self.any_selector(|selector| match selector {
                Simple::Attribute(name, ..) => attrs.contains(name),
                _ => false,
            })
    }

    /// A style with combinators depends on other elements than the one it is applied to.
    pub fn has_combinator(&self) -> bool {
        self.any_selector(|selector| matches!(selector, Simple::Combinator(_)))
    }

    pub fn has_pseudo_class_selector(&self) -> bool {
        self.any_selector(|selector| matches!(selector, Simple::PseudoClass(_)))
    }
}

""")))
MT = fn_text(V, 'fn measure_text')
HV = fn_text(VM, 'fn hovers')
R('mv-hovers-method', W(VM, (HV, 'impl Element {\n    ' + HV.replace('fn hovers(point: [f32; 2], element: &Element)', 'fn hovers(&self, point: [f32; 2])').replace('element.', 'self.').rstrip() + '\n}\n'),
                        *[(m, 'element.hovers(%s)' % re.match(r'hovers\((.*), &?element\)', m).group(1)) for m in sorted(set(re.findall(r'(?<!fn )\bhovers\([^()]*, &?element\)', src(VM))))]))
DV = src(VM)[src(VM).index('    fn define_value'):]
DV = DV[:DV.index('\n    }\n') + 7]
R('mv-define-free', W(VM, (DV, ''), ('Self::define_value(', 'define_value('), ('fn default_transformers()', '\n'.join(l[4:] if l.startswith('    ') else l for l in DV.split('\n')) + '\nfn default_transformers()')))
R('mv-map-method', W(FN, (src(FN).split('#[inline(always)]\n', 1)[1], """impl ComputedValue {
    fn channel(&self) -> u8 {
        match self {
            Number(value) => *value as u8,
            value => value.alpha(),
        }
    }

    fn alpha(&self) -> u8 {
        match self {
            ComputedValue::Percentage(value) | Number(value) => (*value * 255.0) as u8,
            _ => 0,
        }
    }
}
"""), ('#[inline(always)]\nimpl', 'impl'), ('map_c(r)', 'r.channel()'), ('map_c(g)', 'g.channel()'), ('map_c(b)', 'b.channel()'), ('map_a(a)', 'a.alpha()')))
