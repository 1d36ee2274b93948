"""Behaviour-preserving edits of the tables of the styles (shorthands, applying, inheriting, units) and bugs in them."""
from variants_more import MO, AP, CS, FN, TR, src, mid, ded
VARIANTS = []
LIMITS = []
IN = 'src/styles/inherit.rs'
SC = 'src/styles/scrolling.rs'
FO = 'src/fonts.rs'
VA = 'src/value.rs'


def R(name, *edits):
    VARIANTS.append((name, None, list(edits)))


def L(name, *edits):
    LIMITS.append((name, None, list(edits)))


def edits_of(name):
    return [list(e) for n, _, es in VARIANTS + LIMITS if n == name for e in es]


def BR(name, prop, base, old, new):
    es = edits_of(base)
    hit = [e for e in es if old in e[2]]
    assert len(hit) == 1, (name, len(hit))
    assert hit[0][2].count(old) == 1, (name, hit[0][2].count(old))
    hit[0][2] = hit[0][2].replace(old, new)
    VARIANTS.append((name, prop, [tuple(e) for e in es]))


# ---------------------------------------------------------------- css/model.rs
R('rd-tb-combinator-iflet', (MO, mid(MO, '        match self {\n            Simple::Combinator', '    }\n}\n\n#[derive(Debug, Clone)]\npub struct Style'), """        if let Simple::Combinator(combinator) = self {
            Some(*combinator)
        } else {
            None
        }
"""))
UNITS = mid(MO, '        let units = match name {', '    }\n}\n\n#[derive(Clone, Debug, PartialEq)]\npub struct Function')
R('rd-tb-units-some', (MO, UNITS, """        match name {
            "px" => Some(Units::Px),
            "em" => Some(Units::Em),
            "rem" => Some(Units::Rem),
            "vh" => Some(Units::Vh),
            "vw" => Some(Units::Vw),
            "vmin" => Some(Units::Vmin),
            "vmax" => Some(Units::Vmax),
            _ => None,
        }
"""))
R('rd-tb-units-two', (MO, UNITS, """        match name {
            "px" => Some(Units::Px),
            "em" => Some(Units::Em),
            "rem" => Some(Units::Rem),
            _ => Self::parse_viewport(name),
        }
    }

    fn parse_viewport(name: &str) -> Option<Units> {
        match name {
            "vh" => Some(Units::Vh),
            "vw" => Some(Units::Vw),
            "vmin" => Some(Units::Vmin),
            "vmax" => Some(Units::Vmax),
            _ => None,
        }
"""))
R('rd-tb-units-table', (MO, UNITS, """        const TABLE: [(&str, Units); 7] = [
            ("vh", Units::Vh),
            ("vw", Units::Vw),
            ("vmax", Units::Vmax),
            ("vmin", Units::Vmin),
            ("px", Units::Px),
            ("em", Units::Em),
            ("rem", Units::Rem),
        ];
        TABLE
            .iter()
            .find(|(unit, _)| *unit == name)
            .map(|(_, units)| *units)
"""))
R('rd-tb-describe', (MO, mid(MO, '        let name = self.name.as_str();\n        let arguments', '    }\n}\n\n#[derive(Clone, Debug, PartialEq)]\npub struct Var'), """        (&self.name, &self.arguments)
"""))
R('rd-tb-descriptor', (MO, 'pub fn new(key: PropertyKey, index: usize) -> Self {\n        Self { key, index }', 'pub fn new(key: PropertyKey, index: usize) -> Self {\n        PropertyDescriptor { index, key }'))

# ---------------------------------------------------------------- compute_style.rs
SIDES = """
/// Values of four sides as they are written in shorthands.
fn sides(values: &[ComputedValue]) -> Option<[&ComputedValue; 4]> {
    match values {
        [top, right, bottom, left] => Some([top, right, bottom, left]),
        [top, h, bottom] => Some([top, h, bottom, h]),
        [v, h] => Some([v, h, v, h]),
        [value] => Some([value, value, value, value]),
        _ => None,
    }
}
"""
TAIL = '/// A declaration sets all layers of a property'


def shorthand_block(key, nxt):
    return mid(CS, '            (PropertyKey::%s, [top, right, bottom, left]) => {' % key, nxt)


MARGIN = shorthand_block('Margin', '            //\n            // Transform')
PADDING = shorthand_block('Padding', '            (PropertyKey::Margin, [top, right')
BW = shorthand_block('BorderWidth', '            (PropertyKey::BorderColor, [top, right')
BC = shorthand_block('BorderColor', '            (PropertyKey::BorderRadius, [a, b, c, d]')


def guarded(key, names):
    return """            (PropertyKey::%s, values) if sides(values).is_some() => {
                if let Some([top, right, bottom, left]) = sides(values) {
                    overwrite(PropertyKey::%s, top);
                    overwrite(PropertyKey::%s, right);
                    overwrite(PropertyKey::%s, bottom);
                    overwrite(PropertyKey::%s, left);
                }
            }
""" % ((key,) + tuple(names))


def four(key, fmt):
    return guarded(key, [fmt % s for s in ('Top', 'Right', 'Bottom', 'Left')])


R('rd-tb-sides', (CS, MARGIN, four('Margin', 'Margin%s')), (CS, PADDING, four('Padding', 'Padding%s')), (CS, BW, four('BorderWidth', 'Border%sWidth')),
  (CS, BC, four('BorderColor', 'Border%sColor')), (CS, TAIL, SIDES.lstrip() + '\n' + TAIL))
R('rd-tb-margin-array', (CS, MARGIN, """            (PropertyKey::Margin, [_] | [_, _] | [_, _, _] | [_, _, _, _]) => {
                let values = shorthand.as_slice();
                let [top, right, bottom, left] = match values {
                    [top, right, bottom, left] => [top, right, bottom, left],
                    [top, h, bottom] => [top, h, bottom, h],
                    [v, h] => [v, h, v, h],
                    values => [&values[0], &values[0], &values[0], &values[0]],
                };
                overwrite(PropertyKey::MarginTop, top);
                overwrite(PropertyKey::MarginRight, right);
                overwrite(PropertyKey::MarginBottom, bottom);
                overwrite(PropertyKey::MarginLeft, left);
            }
"""))
R('rd-tb-sides-loop', (CS, PADDING, """            (PropertyKey::Padding, [top, right, bottom, left]) => {
                for (key, value) in PADDINGS.iter().zip([top, right, bottom, left]) {
                    overwrite(*key, value);
                }
            }
            (PropertyKey::Padding, [top, h, bottom]) => {
                for (key, value) in PADDINGS.iter().zip([top, h, bottom, h]) {
                    overwrite(*key, value);
                }
            }
            (PropertyKey::Padding, [v, h]) => {
                for (key, value) in PADDINGS.iter().zip([v, h, v, h]) {
                    overwrite(*key, value);
                }
            }
            (PropertyKey::Padding, [value]) => {
                for key in PADDINGS {
                    overwrite(key, value);
                }
            }
"""), (CS, TAIL, """const PADDINGS: [PropertyKey; 4] = [
    PropertyKey::PaddingTop,
    PropertyKey::PaddingRight,
    PropertyKey::PaddingBottom,
    PropertyKey::PaddingLeft,
];

""" + TAIL))
R('rd-tb-border-none', (CS, mid(CS, '                    overwrite(PropertyKey::BorderTopWidth, width);\n                    overwrite(PropertyKey::BorderTopColor', '                }\n                value => {'), """                    for key in [
                        PropertyKey::BorderTopWidth,
                        PropertyKey::BorderRightWidth,
                        PropertyKey::BorderBottomWidth,
                        PropertyKey::BorderLeftWidth,
                    ] {
                        overwrite(key, width);
                    }
                    for key in [
                        PropertyKey::BorderTopColor,
                        PropertyKey::BorderRightColor,
                        PropertyKey::BorderBottomColor,
                        PropertyKey::BorderLeftColor,
                    ] {
                        overwrite(key, color);
                    }
"""))
R('rd-tb-border-guard', (CS, """(PropertyKey::Border, [Keyword(keyword)]) => match keyword.as_str() {
                "none" => {""", """(PropertyKey::Border, [Keyword(keyword)]) => {
                if keyword == "none" {"""), (CS, """                value => {
                    error!("unable to compute styles, property {key:?} keyword {value:?} not supported");
                }
            },
""", """                else {
                    error!("unable to compute styles, property {key:?} keyword {keyword:?} not supported");
                }
            }
"""))
R('rd-tb-transition-opt', (CS, mid(CS, '            (PropertyKey::Transition, [property, duration]) => {', '            //\n            // Animation\n'), """            (PropertyKey::Transition, [property, duration, rest @ ..]) if rest.len() < 3 => {
                overwrite(PropertyKey::TransitionProperty, property);
                overwrite(PropertyKey::TransitionDuration, duration);
                if let Some(timing) = rest.first() {
                    overwrite(PropertyKey::TransitionTimingFunction, timing);
                }
                if let Some(delay) = rest.get(1) {
                    overwrite(PropertyKey::TransitionDelay, delay);
                }
            }
"""))
R('rd-tb-animation-common', (CS, mid(CS, '            (PropertyKey::Animation, [duration, timing, Time(delay), name]) => {', '            (PropertyKey::Animation, [duration, name]) => {'), """            (PropertyKey::Animation, [duration, timing, third, name]) => {
                match third {
                    Time(_) => overwrite(PropertyKey::AnimationDelay, third),
                    iterations => overwrite(PropertyKey::AnimationIterationCount, iterations),
                }
                overwrite(PropertyKey::AnimationDuration, duration);
                overwrite(PropertyKey::AnimationTimingFunction, timing);
                overwrite(PropertyKey::AnimationName, name);
            }
            (PropertyKey::Animation, [duration, timing, name]) => {
                overwrite(PropertyKey::AnimationTimingFunction, timing);
                overwrite(PropertyKey::AnimationName, name);
                overwrite(PropertyKey::AnimationDuration, duration);
            }
"""))
LAYER = mid(CS, '    style.insert(PropertyDescriptor::new(key, index), value.clone());\n    let mut above', '}\n\n') if '}\n\n' in src(CS).split('    let mut above')[1] else src(CS).split('    style.insert(PropertyDescriptor::new(key, index), value.clone());\n')[1]
LAYER = '    let mut above = index + 1;\n    while style\n        .remove(&PropertyDescriptor::new(key, above))\n        .is_some()\n    {\n        above += 1;\n    }\n'
R('rd-tb-layer-loop', (CS, LAYER, """    let mut above = index + 1;
    loop {
        let descriptor = PropertyDescriptor::new(key, above);
        if style.remove(&descriptor).is_none() {
            break;
        }
        above += 1;
    }
"""))
R('rd-tb-layer-range', (CS, LAYER, """    for above in index + 1.. {
        if style.remove(&PropertyDescriptor::new(key, above)).is_none() {
            return;
        }
    }
"""))
R('rd-tb-layer-contains', (CS, LAYER, """    let mut above = PropertyDescriptor::new(key, index + 1);
    while style.contains_key(&above) {
        style.remove(&above);
        above = PropertyDescriptor::new(key, above.index + 1);
    }
"""))

# ---------------------------------------------------------------- inherit.rs
R('rd-tb-inherit-font', (IN, 'pub fn inherit(parent: &Element, element: &mut Element) {', """fn inherit_font(parent: &FontFace, font: &mut FontFace) {
    font.family = parent.family.clone();
    font.size = parent.size;
    font.style = parent.style.clone();
    font.weight = parent.weight;
    font.line_height = parent.line_height;
}

pub fn inherit(parent: &Element, element: &mut Element) {
    inherit_font(&parent.font, &mut element.font);"""), (IN, 'use crate::Element;', 'use crate::{Element, FontFace};'), (IN, '    element.font.family = parent.font.family.clone();\n', ''),
  (IN, '    element.font.size = parent.font.size;\n', ''), (IN, '    element.font.style = parent.font.style.clone();\n', ''), (IN, '    element.font.weight = parent.font.weight;\n', ''),
  (IN, '    element.font.line_height = parent.font.line_height;\n', ''))
R('rd-tb-inherit-align', (IN, '    element.font.family = parent.font.family.clone();\n', """    let align = element.font.align.clone();
    element.font = parent.font.clone();
    element.font.align = align;
"""), (IN, '    element.font.size = parent.font.size;\n', ''), (IN, '    element.font.style = parent.font.style.clone();\n', ''), (IN, '    element.font.weight = parent.font.weight;\n', ''),
  (IN, '    element.font.line_height = parent.font.line_height;\n', ''))
R('rd-tb-inherit-update', (IN, '    element.font.family = parent.font.family.clone();\n', """    element.font = FontFace {
        align: element.font.align.clone(),
        ..parent.font.clone()
    };
"""), (IN, 'use crate::Element;', 'use crate::{Element, FontFace};'), (IN, '    element.font.size = parent.font.size;\n', ''), (IN, '    element.font.style = parent.font.style.clone();\n', ''), (IN, '    element.font.weight = parent.font.weight;\n', ''),
  (IN, '    element.font.line_height = parent.font.line_height;\n', ''))

# ---------------------------------------------------------------- scrolling.rs
ENS = mid(SC, '        let [x, y] = current\n', '    }\n\n    pub fn offset')
R('rd-tb-ensure-early', (SC, ENS, """        if content.width <= size.width && content.height <= size.height {
            return None;
        }
        let (x, y) = match current {
            Some(scrolling) => (scrolling.x, scrolling.y),
            None => (0.0, 0.0),
        };
        let scroll_x = (content.width - size.width).max(0.0);
        let scroll_y = (content.height - size.height).max(0.0);
        Some(Scrolling {
            x: x.min(scroll_x),
            y: y.min(scroll_y),
            scroll_x,
            scroll_y,
        })
"""))
R('rd-tb-ensure-default', (SC, ENS, """        let scroll_x = f32::max(content.width - size.width, 0.0);
        let scroll_y = f32::max(content.height - size.height, 0.0);
        if scroll_x > 0.0 || scroll_y > 0.0 {
            let previous = current.clone().unwrap_or_default();
            Some(Scrolling {
                x: f32::min(previous.x, scroll_x),
                y: f32::min(previous.y, scroll_y),
                scroll_x,
                scroll_y,
            })
        } else {
            None
        }
"""))
OFF = mid(SC, '        let [x, y] = wheel;', '    }\n}\n')
R('rd-tb-offset-fn', (SC, OFF, """        self.x = shift(self.x, wheel[0], self.scroll_x);
        self.y = shift(self.y, -wheel[1], self.scroll_y);
"""), (SC, 'impl Scrolling {', """fn shift(position: f32, wheel: f32, limit: f32) -> f32 {
    if wheel == 0.0 {
        return position;
    }
    (position + wheel.signum() * 50.0).min(limit).max(0.0)
}

impl Scrolling {"""))

# ---------------------------------------------------------------- fonts.rs
MEA = mid(FO, '        match max_width {', '    }\n}\n')
R('rd-tb-measure', (FO, MEA, """        let Some(max_width) = max_width else {
            return [width, face.size];
        };
        if max_width == 0.0 {
            return [0.0, 0.0];
        }
        let lines = 1.0 + (width / max_width).floor();
        [max_width, lines * face.size]
"""))
R('rd-tb-measure-arms', (FO, MEA, """        match max_width {
            Some(0.0) => [0.0, 0.0],
            Some(max_width) => [max_width, face.size * (1.0 + (width / max_width).floor())],
            None => [width, face.size],
        }
"""))

# ---------------------------------------------------------------- compute_function.rs
R('rd-tb-channel', (FN, src(FN).split('#[inline(always)]\n', 1)[1], """fn map_c(value: &ComputedValue) -> u8 {
    channel(value, 1.0)
}

#[inline(always)]
fn map_a(value: &ComputedValue) -> u8 {
    channel(value, 255.0)
}

fn channel(value: &ComputedValue, scale: f32) -> u8 {
    match value {
        ComputedValue::Percentage(value) => (*value * 255.0) as u8,
        Number(value) => (*value * scale) as u8,
        _ => 0,
    }
}
"""))
R('rd-tb-fn-rgb', (FN, mid(FN, '            ("rgb", [r, g, b]) => {', '            // ("url"'), """            ("rgb", [r, g, b]) => Color(rgba(r, g, b, 255)),
            ("rgba", [r, g, b, a]) => Color(rgba(r, g, b, map_a(a))),
"""), (FN, '#[inline(always)]\nfn map_c', """fn rgba(r: &ComputedValue, g: &ComputedValue, b: &ComputedValue, alpha: u8) -> [u8; 4] {
    let [r, g, b] = [r, g, b].map(map_c);
    [r, g, b, alpha]
}

#[inline(always)]
fn map_c"""))

# ---------------------------------------------------------------- compute_animation_tracks.rs
ENDS = mid(TR, '        let from = computed_keyframe_styles', '        let mut tracks')
R('rd-tb-ends-loop', (TR, ENDS, """        for step in [0, 100] {
            let edge = computed_keyframe_styles.entry(step).or_default();
            for property in &animated_properties {
                edge.entry(*property).or_insert_with(|| {
                    style
                        .get(property)
                        .cloned()
                        .unwrap_or_else(|| initial(property.key))
                });
            }
        }
"""))
R('rd-tb-ends-fn', (TR, ENDS, """        let from = computed_keyframe_styles.entry(0).or_default();
        fill(from, &animated_properties, style);
        let to = computed_keyframe_styles.entry(100).or_default();
        fill(to, &animated_properties, style);
"""), (TR, "impl<'c> Cascade<'c> {", """fn fill(
    edge: &mut ComputedStyle,
    properties: &HashSet<PropertyDescriptor>,
    style: &ComputedStyle,
) {
    for property in properties {
        if edge.contains_key(property) {
            continue;
        }
        let value = match style.get(property) {
            Some(value) => value.clone(),
            None => initial(property.key),
        };
        edge.insert(*property, value);
    }
}

impl<'c> Cascade<'c> {"""))
R('rd-tb-values-enum', (TR, """                        for index in 0..property.values.len() {
                            let value = &property.values[index];
""", """                        for (index, value) in property.values.iter().enumerate() {
"""))

# ---------------------------------------------------------------- apply.rs
R('rd-tb-apply-bg', (AP, mid(AP, '            (PropertyKey::BackgroundImage, Keyword(keyword)) => {', '            (PropertyKey::BackgroundImage, Str(value))'), """            (PropertyKey::BackgroundImage, Keyword(keyword)) => {
                if keyword != "none" {
                    return CascadeError::invalid_keyword(keyword);
                }
                element.get_background_mut(index).image = None;
            }
"""))
R('rd-tb-apply-side', (AP, mid(AP, '            (PropertyKey::BorderTopWidth, value) => {', '            (PropertyKey::BorderTopColor, value)'), """            (PropertyKey::BorderTopWidth, value) => {
                let width = dimension_length(value, self)?;
                element.borders.top.width = width;
                layout.border.top = LengthPercentage::Length(width);
            }
            (PropertyKey::BorderRightWidth, value) => {
                let width = dimension_length(value, self)?;
                layout.border.right = LengthPercentage::Length(width);
                element.borders.right.width = width;
            }
            (PropertyKey::BorderBottomWidth, value) => {
                let width = dimension_length(value, self)?;
                element.borders.bottom.width = width;
                layout.border.bottom = LengthPercentage::Length(width);
            }
            (PropertyKey::BorderLeftWidth, value) => {
                let width = dimension_length(value, self)?;
                element.borders.left.width = width;
                layout.border.left = LengthPercentage::Length(width);
            }
"""))
R('rd-tb-apply-helper', (AP, mid(AP, '                element.pointer = match keyword.as_str() {', '            (PropertyKey::Visibility, Comp'), """                element.pointer = resolve_pointer(keyword)?
            }
"""), (AP, 'fn has_layers(', """fn resolve_pointer(keyword: &str) -> Result<Pointer, CascadeError> {
    let pointer = match keyword {
        "auto" => Pointer::Auto,
        "default" => Pointer::Default,
        "pointer" => Pointer::Pointer,
        "context-menu" => Pointer::ContextMenu,
        "help" => Pointer::Help,
        "progress" => Pointer::Progress,
        "wait" => Pointer::Wait,
        "text" => Pointer::Text,
        "not-allowed" => Pointer::NotAllowed,
        keyword => return CascadeError::invalid_keyword(keyword),
    };
    Ok(pointer)
}

fn has_layers("""))
R('rd-tb-apply-radius', (AP, mid(AP, '            (PropertyKey::BorderTopLeftRadius, value) => {', '            //\n            // Layout\n            //\n            (PropertyKey::BoxSizing'), """            (
                PropertyKey::BorderTopLeftRadius
                | PropertyKey::BorderTopRightRadius
                | PropertyKey::BorderBottomRightRadius
                | PropertyKey::BorderBottomLeftRadius,
                value,
            ) => {
                let corner = match key {
                    PropertyKey::BorderTopLeftRadius => 0,
                    PropertyKey::BorderTopRightRadius => 1,
                    PropertyKey::BorderBottomRightRadius => 2,
                    _ => 3,
                };
                element.borders.radius[corner] = length(value, self)?;
            }
"""))
R('rd-tb-apply-dim', (AP, mid(AP, 'fn dimension(value: &ComputedValue, cascade', 'fn length(value: &ComputedValue, cascade'), """fn dimension(value: &ComputedValue, cascade: &Cascade) -> Result<Dimension, CascadeError> {
    match value {
        ComputedValue::Keyword(keyword) if keyword == "auto" => Ok(Dimension::Auto),
        value => match lengthp(value, cascade)? {
            LengthPercentage::Length(length) => Ok(Dimension::Length(length)),
            LengthPercentage::Percent(percent) => Ok(Dimension::Percent(percent)),
        },
    }
}

"""))
R('rd-tb-apply-auto', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Zero => LengthPercentageAuto::Length(0.0),', 'fn resolve_overflow'), """    if let ComputedValue::Keyword(keyword) = value {
        return if keyword == "auto" {
            Ok(LengthPercentageAuto::Auto)
        } else {
            Err(CascadeError::ValueNotSupported)
        };
    }
    Ok(lengthp(value, cascade)?.into())
}

"""))
R('rd-tb-apply-units', (AP, mid(AP, '    let value = dimension.value;\n    let sizes', 'fn dimension(value: &'), """    let sizes = cascade.sizes;
    let percent = dimension.value / 100.0;
    let (width, height) = (sizes.viewport_width, sizes.viewport_height);
    Ok(match dimension.unit {
        Units::Px => dimension.value,
        Units::Em => dimension.value * sizes.parent_font_size,
        Units::Rem => dimension.value * sizes.root_font_size,
        Units::Vw => width * percent,
        Units::Vh => height * percent,
        Units::Vmax => width.max(height) * percent,
        Units::Vmin => width.min(height) * percent,
    })
}

"""))
R('rd-tb-apply-layers', (AP, """            (PropertyKey::FontFamily, _value) if index > 0 => {}
            (key, _value) if index > 0 && !has_layers(key) => {
                return Err(CascadeError::ValueNotSupported)
            }
""", """            (key, _value) if index > 0 && !has_layers(key) => {
                if key != PropertyKey::FontFamily {
                    return Err(CascadeError::ValueNotSupported);
                }
            }
"""))
R('rd-tb-apply-transition', (AP, mid(AP, '                let key = match PropertyKey::parse(name) {', '            (PropertyKey::TransitionDuration, Time'), """                let Some(key) = PropertyKey::parse(name) else {
                    return CascadeError::invalid_keyword(name);
                };
                let transition = element.get_transition_mut(index);
                let previous = transition.key.replace(key);
                if previous != Some(key) {
                    transition.ranges.clear();
                }
            }
"""))
R('rd-tb-weight', (AP, mid(AP, '    let value = match value {\n        ComputedValue::Number(value) if *value >= 1.0', 'fn resolve_color'), """    match value {
        ComputedValue::Number(value) => {
            if (1.0..=1000.0).contains(value) {
                Ok(*value as u16)
            } else {
                Err(CascadeError::ValueNotSupported)
            }
        }
        ComputedValue::Keyword(keyword) if keyword == "normal" => Ok(400),
        ComputedValue::Keyword(keyword) if keyword == "bold" => Ok(700),
        ComputedValue::Keyword(keyword) => Err(CascadeError::InvalidKeyword(keyword.clone())),
        _ => Err(CascadeError::ValueNotSupported),
    }
}

"""))

# ---------------------------------------------------------------- value.rs
R('rd-tb-u64-from', (VA, mid(VA, '            Value::Bool(value) => {\n                if *value {', '            Value::String(string) => string.parse'), """            Value::Bool(value) => u64::from(*value),
            Value::Number(number) => number.as_f64().map_or(0, |number| number as u64),
"""))
R('rd-tb-boolean', (VA, mid(VA, '            Value::Number(number) => number.as_f64().map(|value| value != 0.0)', '            Value::Object(_) => true'), """            Value::Number(number) => matches!(number.as_f64(), Some(value) if value != 0.0),
            Value::String(string) => !string.is_empty(),
            Value::Array(array) => !array.is_empty(),
"""))
R('rd-tb-array-else', (VA, mid(VA, '        match self {\n            Value::Array(array) =>', '    }\n\n    fn eval_u64'), """        if let Some(array) = self.as_array() {
            let mut strings = Vec::with_capacity(array.len());
            for value in array {
                strings.push(value.eval_string());
            }
            strings
        } else {
            vec![self.eval_string()]
        }
"""))

# bugs inside these forms
BR('bd-tb-units-table', 'C22', 'rd-tb-units-table', '("vmax", Units::Vmax)', '("vmax", Units::Vmin)')
BR('bd-tb-units-two', 'C22', 'rd-tb-units-two', '"vmin" => Some(Units::Vmin)', '"vmin" => Some(Units::Vmax)')
BR('bd-tb-sides', 'C18', 'rd-tb-sides', '[top, h, bottom] => Some([top, h, bottom, h])', '[top, h, bottom] => Some([top, h, bottom, top])')
BR('bd-tb-margin-array', 'C18', 'rd-tb-margin-array', '[v, h] => [v, h, v, h]', '[v, h] => [v, h, h, v]')
BR('bd-tb-border-none', 'C18', 'rd-tb-border-none', '                        PropertyKey::BorderLeftWidth,\n', '')
BR('bd-tb-transition-opt', 'C18', 'rd-tb-transition-opt', 'rest.get(1)', 'rest.last()')
BR('bd-tb-animation-common', 'C18', 'rd-tb-animation-common', 'Time(_) => overwrite(PropertyKey::AnimationDelay, third)', 'Time(_) => overwrite(PropertyKey::AnimationDelay, duration)')
BR('bd-tb-layer-range', 'C18', 'rd-tb-layer-range', 'index + 1..', 'index + 2..')
BR('bd-tb-layer-contains', 'C18', 'rd-tb-layer-contains', 'while style', 'if style')
BR('bd-tb-inherit-align', 'C20', 'rd-tb-inherit-align', '    element.font.align = align;\n', '')
BR('bd-tb-ensure-early', 'C13', 'rd-tb-ensure-early', 'content.height <= size.height', 'content.height <= size.width')
BR('bd-tb-ensure-default', 'C13', 'rd-tb-ensure-default', 'f32::min(previous.y, scroll_y)', 'f32::min(previous.y, scroll_x)')
BR('bd-tb-offset-fn', 'C13', 'rd-tb-offset-fn', '-wheel[1]', 'wheel[1]')
BR('bd-tb-channel', 'C17', 'rd-tb-channel', 'channel(value, 255.0)', 'channel(value, 1.0)')
BR('bd-tb-ends-loop', 'C21', 'rd-tb-ends-loop', '[0, 100]', '[100]')
BR('bd-tb-ends-fn', 'C21', 'rd-tb-ends-fn', '            continue;\n', '            return;\n')
BR('bd-tb-apply-bg', 'C19', 'rd-tb-apply-bg', 'element.get_background_mut(index)', 'element.get_background_mut(0)')
BR('bd-tb-apply-radius', 'C19', 'rd-tb-apply-radius', '_ => 3', '_ => 2')
BR('bd-tb-apply-auto', 'C19', 'rd-tb-apply-auto', 'Err(CascadeError::ValueNotSupported)', 'Ok(LengthPercentageAuto::Length(0.0))')
BR('bd-tb-apply-units', 'C19', 'rd-tb-apply-units', 'width.min(height)', 'height.min(height)')
BR('bd-tb-apply-layers', 'C19', 'rd-tb-apply-layers', 'key != PropertyKey::FontFamily', 'key == PropertyKey::FontWeight')
BR('bd-tb-apply-transition', 'C19', 'rd-tb-apply-transition', 'previous != Some(key)', 'previous.is_none()')
BR('bd-tb-weight', 'C19', 'rd-tb-weight', '(1.0..=1000.0)', '(100.0..=1000.0)')
BR('bd-tb-boolean', 'C08', 'rd-tb-boolean', '!array.is_empty()', 'array.len() > 1')
BR('bd-tb-array-else', 'C08', 'rd-tb-array-else', 'for value in array {', 'for value in array.iter().take(1) {')
