A = 'src/styles/apply.rs'
S = 'src/styles/compute_style.rs'
F = 'src/styles/compute_function.rs'
MD = 'src/styles/mod.rs'

INLINE = '''        if !element.style.is_empty() {
            self.compute_declaration_block(&element.style, &mut computed_style);
        }
'''
BLOCK = '''                    for index in 0..property.values.len() {
                        self.compute_style(property.key, index, &property.values[index], style);
                    }
'''
APPLY = '''            if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                error!("unable to apply {property:?}:{value:?} because of {error:?}");
                self.stats.apply_error += 1;
            } else {
                self.stats.apply_ok += 1;
            }
'''
SHORT = '''                    let definition = match self.get_variable(name) {
                        Some(shorthand) => shorthand,
                        None => {
                            error!("unable to compute variable {name}, not found");
                            shorthand.push(ComputedValue::Error);
                            continue;
                        }
                    };
'''
VARIANTS = [
    # C16
    ('st-inline-first', 'C16', [(MD, INLINE, ''), (MD, '        for style in element.styles.iter() {\n', INLINE + '        for style in element.styles.iter() {\n')]),
    ('st-no-reset', 'C16', [(MD, '        reset_element_style(element);\n', '')]),
    ('st-inherit-before-reset', 'C16', [(MD, '        reset_element_style(element);\n        // 0: inheritance\n        inherit::inherit(parent, element);\n', '        inherit::inherit(parent, element);\n        reset_element_style(element);\n')]),
    ('st-dynamic-always', 'C16', [(MD, 'if match_style(&style, node, tree, matcher) {', 'if match_style(&style, node, tree, matcher) || style.declaration.len() == 1 {')]),
    ('st-static-break', 'C16', [(MD, 'self.stats.matches_static += 1;\n', 'self.stats.matches_static += 1;\n                    if style.declaration.is_empty() { break; }\n')]),
    ('st-transition-before-animation', 'C16', [(MD, '''        for transition in element.transitions.iter_mut() {
            transition.play(time, &mut computed_style);
        }
''', ''), (MD, '        for animator in element.animators.iter_mut() {\n            // TODO: animation blending', '''        for transition in element.transitions.iter_mut() {
            transition.play(time, &mut computed_style);
        }
        for animator in element.animators.iter_mut() {
            // TODO: animation blending''')]),
    ('st-anim-missing-break', 'C16', [(MD, '''not found", animator.name);
                    continue;''', '''not found", animator.name);
                    break;''')]),
    ('st-first-value-only', 'C16', [(MD, 'for index in 0..property.values.len() {', 'for index in 0..property.values.len().min(1) {')]),
    ('st-time-millis', 'C16', [(MD, 'input.time.as_secs_f32()', 'input.time.as_millis() as f32')]),
    ('st-truncate-swap', 'C16', [(MD, 'count_layers(&computed_style, PropertyKey::AnimationName)', 'count_layers(&computed_style, PropertyKey::AnimationDuration)')]),
    ('st-init-before-apply', 'C16', [(MD, '''        for transition in element.transitions.iter_mut() {
            transition.init_after_style_applied(&mut computed_style);
        }
''', ''), (MD, '        for (property, value) in &computed_style {\n', '''        for transition in element.transitions.iter_mut() {
            transition.init_after_style_applied(&mut computed_style);
        }
        for (property, value) in &computed_style {
''')]),
    ('st-apply-error-break', 'C16', [(MD, '                self.stats.apply_error += 1;\n', '                self.stats.apply_error += 1;\n                if self.stats.apply_error > 100 { break; }\n')]),
    ('st-r-inline-unguarded', None, [(MD, INLINE, '        self.compute_declaration_block(&element.style, &mut computed_style);\n')]),
    ('st-r-block-enumerate', None, [(MD, BLOCK, '''                    for (index, definition) in property.values.iter().enumerate() {
                        self.compute_style(property.key, index, definition, style);
                    }
''')]),
    ('st-r-apply-match', None, [(MD, APPLY, '''            match self.apply(property.key, property.index, value, layout, element) {
                Ok(()) => self.stats.apply_ok += 1,
                Err(error) => {
                    self.stats.apply_error += 1;
                    error!("unable to apply {property:?}:{value:?} because of {error:?}");
                }
            }
''')]),
    ('st-r-styles-index', None, [(MD, '''        for style in element.styles.iter() {
            match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    self.compute_declaration_block(&style.declaration, &mut computed_style);
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    if match_style(&style, node, tree, matcher) {
                        self.compute_declaration_block(&style.declaration, &mut computed_style);
                    }
                }
            }
        }
''', '''        for style in &element.styles {
            let (style, matches) = match style {
                ElementStyle::Static(style) => {
                    self.stats.matches_static += 1;
                    (style, true)
                }
                ElementStyle::Dynamic(style) => {
                    self.stats.matches_dynamic += 1;
                    (style, match_style(style, node, tree, matcher))
                }
            };
            if matches {
                self.compute_declaration_block(&style.declaration, &mut computed_style);
            }
        }
''')]),
    ('st-r-count-loop', None, [(MD, '''    let mut index = 0;
    while style.contains_key(&PropertyDescriptor::new(key, index)) {
        index += 1;
    }
    index
''', '''    let mut count = 0;
    loop {
        if !style.contains_key(&PropertyDescriptor::new(key, count)) {
            return count;
        }
        count += 1;
    }
''')]),
    ('st-r-anim-iflet', None, [(MD, '''            let animation = match self.css.animations.get(&animator.name) {
                Some(animation) => animation,
                None => {
                    error!("unable to play animation {}, not found", animator.name);
                    continue;
                }
            };
            // TODO: cache animation computation ?
            let tracks = self.compute_animation_tracks(animation, &computed_style);
            animator.play(time, &tracks, &mut computed_style);
''', '''            if let Some(animation) = self.css.animations.get(&animator.name) {
                let tracks = self.compute_animation_tracks(animation, &computed_style);
                animator.play(time, &tracks, &mut computed_style);
            } else {
                error!("unable to play animation {}, not found", animator.name);
            }
''')]),
    ('st-r-helper-inline', None, [(MD, INLINE, '        self.compute_inline(element, &mut computed_style);\n'), (MD, '    fn set_variable(&mut self', '''    fn compute_inline(&mut self, element: &Element, style: &mut ComputedStyle) {
        if element.style.is_empty() {
            return;
        }
        self.compute_declaration_block(&element.style, style);
    }

    fn set_variable(&mut self''')]),
    # C17
    ('st-var-missing-nothing', 'C17', [(MD, 'not found");\n                            shorthand.push(ComputedValue::Error);', 'not found");')]),
    ('st-var-first-wins', ('C16', 'C17'), [(MD, '''        self.variables
            .insert(variable.key.clone(), variable.shorthand.clone());
''', '''        self.variables
            .entry(variable.key.clone())
            .or_insert(variable.shorthand.clone());
''')]),
    ('st-var-pop', 'C17', [(MD, '                    resolving.pop();\n', '')]),
    ('st-var-nocheck', 'C17', [(MD, '''                    if resolving.contains(name) {
                        error!("unable to compute variable {name}, refers to itself");
                        shorthand.push(ComputedValue::Error);
                        continue;
                    }
''', '')]),
    ('st-fn-noresolving', 'C17', [(F, 'self.compute_shorthand(&function.arguments, &mut arguments, resolving);', 'self.compute_shorthand(&function.arguments, &mut arguments, &mut vec![]);')]),
    ('st-fn-rgba-swap', 'C17', [(F, 'Color([map_c(r), map_c(g), map_c(b), map_a(a)])', 'Color([map_c(r), map_c(b), map_c(g), map_a(a)])')]),
    ('st-fn-alpha-as-channel', 'C17', [(F, 'map_c(b), map_a(a)])', 'map_c(b), map_c(a)])')]),
    ('st-fn-percent-100', 'C17', [(F, 'ComputedValue::Percentage(value) => (*value * 255.0) as u8,\n        Number(value) => *value as u8', 'ComputedValue::Percentage(value) => (*value * 100.0) as u8,\n        Number(value) => *value as u8')]),
    ('st-fn-url-error', 'C17', [(F, '            ("url", [Str(path)]) => Str(path.to', '            ("uri", [Str(path)]) => Str(path.to')]),
    ('st-r-var-iflet', None, [(MD, SHORT, '''                    let Some(definition) = self.variables.get(name.as_str()) else {
                        error!("unable to compute variable {name}, not found");
                        shorthand.push(ComputedValue::Error);
                        continue;
                    };
''')]),
    ('st-r-fn-if', None, [(F, '''            ("rgb", [r, g, b]) => {
                Color([map_c(r), map_c(g), map_c(b), 255])
            }
''', '''            ("rgb", colors) if colors.len() == 3 => {
                let [r, g, b] = [map_c(&colors[0]), map_c(&colors[1]), map_c(&colors[2])];
                Color([r, g, b, u8::MAX])
            }
''')]),
    # C18
    ('st-sh-padding-swap', 'C18', [(S, 'PropertyKey::Padding, [v, h]', 'PropertyKey::Padding, [h, v]')]),
    ('st-sh-margin3', 'C18', [(S, '''                overwrite(PropertyKey::MarginBottom, bottom);
                overwrite(PropertyKey::MarginLeft, h);
''', '''                overwrite(PropertyKey::MarginBottom, h);
                overwrite(PropertyKey::MarginLeft, bottom);
''')]),
    ('st-sh-background', 'C18', [(S, '                overwrite(PropertyKey::BackgroundImage, &Keyword("none".to_string()));\n', '')]),
    ('st-sh-border-left', 'C18', [(S, '''                overwrite(PropertyKey::BorderBottomColor, color);
            }
            (PropertyKey::BorderLeft, ''', '''            }
            (PropertyKey::BorderLeft, ''')]),
    ('st-sh-layer0', 'C18', [(S, 'set_layer(style, key, index, value)', 'set_layer(style, key, 0, value)')]),
    ('st-sh-radius', 'C18', [(S, '''                overwrite(PropertyKey::BorderTopLeftRadius, a);
                overwrite(PropertyKey::BorderTopRightRadius, b);
                overwrite(PropertyKey::BorderBottomRightRadius, c);
                overwrite(PropertyKey::BorderBottomLeftRadius, b);''', '''                overwrite(PropertyKey::BorderTopLeftRadius, a);
                overwrite(PropertyKey::BorderTopRightRadius, b);
                overwrite(PropertyKey::BorderBottomRightRadius, c);
                overwrite(PropertyKey::BorderBottomLeftRadius, c);''')]),
    ('st-sh-anim-time', 'C18', [(S, '                overwrite(PropertyKey::AnimationIterationCount, iterations);\n', '                overwrite(PropertyKey::AnimationDelay, iterations);\n')]),
    ('st-sh-keep-layers', 'C18', [(S, '''    while style
        .remove(&PropertyDescriptor::new(key, above))
        .is_some()
    {
        above += 1;
    }
''', '    style.remove(&PropertyDescriptor::new(key, above));\n    above += 1;\n    let _ = above;\n')]),
    ('st-r-sh-sides', None, [(S, '''            (PropertyKey::Padding, [value]) => {
                overwrite(PropertyKey::PaddingTop, value);
                overwrite(PropertyKey::PaddingRight, value);
                overwrite(PropertyKey::PaddingBottom, value);
                overwrite(PropertyKey::PaddingLeft, value);
            }
''', '''            (PropertyKey::Padding, [value]) => {
                for side in [PropertyKey::PaddingTop, PropertyKey::PaddingLeft, PropertyKey::PaddingRight, PropertyKey::PaddingBottom] {
                    overwrite(side, value);
                }
            }
''')]),
    ('st-r-sh-four', None, [(S, '''            (PropertyKey::Margin, [value]) => {
                overwrite(PropertyKey::MarginTop, value);
                overwrite(PropertyKey::MarginRight, value);
                overwrite(PropertyKey::MarginBottom, value);
                overwrite(PropertyKey::MarginLeft, value);
            }
''', '''            (PropertyKey::Margin, [value]) => {
                self.compute_margin(index, [value; 4], style);
            }
'''), (S, '''            (PropertyKey::Margin, [v, h]) => {
                overwrite(PropertyKey::MarginTop, v);
                overwrite(PropertyKey::MarginRight, h);
                overwrite(PropertyKey::MarginBottom, v);
                overwrite(PropertyKey::MarginLeft, h);
            }
''', '''            (PropertyKey::Margin, [v, h]) => {
                self.compute_margin(index, [v, h, v, h], style);
            }
'''), (S, '''/// A declaration sets''', '''impl<'c> Cascade<'c> {
    fn compute_margin(&self, index: usize, sides: [&ComputedValue; 4], style: &mut ComputedStyle) {
        let [top, right, bottom, left] = sides;
        set_layer(style, PropertyKey::MarginTop, index, top);
        set_layer(style, PropertyKey::MarginRight, index, right);
        set_layer(style, PropertyKey::MarginBottom, index, bottom);
        set_layer(style, PropertyKey::MarginLeft, index, left);
    }
}

/// A declaration sets''')]),
    # C19
    ('st-av-vmin', 'C19', [(A, 'sizes.viewport_width.min(sizes.viewport_height)', 'sizes.viewport_width.max(sizes.viewport_height)')]),
    ('st-av-rem', 'C19', [(A, 'Units::Rem => sizes.root_font_size', 'Units::Rem => sizes.parent_font_size')]),
    ('st-av-border-layout', 'C19', [(A, '                layout.border.right = LengthPercentage::Length(element.borders.right.width);\n', '')]),
    ('st-av-maxw', 'C19', [(A, 'layout.max_size.width = dimension(value, self)?', 'layout.min_size.width = dimension(value, self)?')]),
    ('st-av-align', 'C19', [(A, '"space-evenly" => taffy::AlignContent::SpaceEvenly', '"space-evenly" => taffy::AlignContent::SpaceAround')]),
    ('st-av-gap', 'C19', [(A, 'layout.gap.height = lengthp(row, self)?', 'layout.gap.width = lengthp(row, self)?')]),
    ('st-av-bgpos', 'C19', [(A, 'background.src[1] = -resolve_length', 'background.src[1] = resolve_length')]),
    ('st-av-weight', 'C19', [(A, '"bold" => 700', '"bold" => 600')]),
    ('st-av-bgnone', 'C19', [(A, '''                    let background = element.get_background_mut(index);
                    background.image = None;
''', '')]),
    ('st-av-trans-range', 'C19', [(A, '                    transition.ranges.clear();\n', '')]),
    ('st-av-layer', 'C19', [(A, 'element.get_animator_mut(index).duration = *duration', 'element.get_animator_mut(0).duration = *duration')]),
    ('st-av-fontsize', 'C19', [(A, 'element.font.size = resolve_length(value, self, self.sizes.parent_font_size)?', 'element.font.size = resolve_length(value, self, self.sizes.root_font_size)?')]),
    ('st-av-paused', 'C19', [(A, '"running" => true,\n                    "paused" => false', '"running" => true,\n                    "paused" => true')]),
    ('st-av-auto', 'C19', [(A, 'ComputedValue::Keyword(keyword) if keyword.as_str() == "auto" => LengthPercentageAuto::Auto', 'ComputedValue::Keyword(keyword) if keyword.as_str() == "auto" => LengthPercentageAuto::Length(0.0)')]),
    ('st-av-grow', 'C19', [('src/element.rs', 'self.backgrounds.resize_with(index + 1,', 'self.backgrounds.resize_with(index + 2,')]),
    ('st-r-av-unit', None, [(A, 'Units::Vmax => sizes.viewport_width.max(sizes.viewport_height) * value / 100.0', 'Units::Vmax => value * f32::max(sizes.viewport_height, sizes.viewport_width) / 100.0')]),
    ('st-r-av-gap', None, [(A, '''            (PropertyKey::RowGap, row) => {
                layout.gap.height = lengthp(row, self)?;
            }
''', '''            (PropertyKey::RowGap, row) => {
                let height = match lengthp(row, self) {
                    Ok(height) => height,
                    Err(error) => return Err(error),
                };
                layout.gap.height = height;
            }
''')]),
    ('st-r-av-display', None, [(A, '''                "flow" => layout.display = taffy::Display::Block,
                "block" => layout.display = taffy::Display::Block,
''', '''                "flow" | "block" => layout.display = taffy::Display::Block,
''')]),
    ('st-r-av-index0', None, [(A, 'index > 0 && !has_layers(key)', '!(index == 0 || has_layers(key))')]),
    ('st-r-av-anim', None, [(A, '''                if &animator.name != name {
                    animator.name = name.to_string();
                    animator.restart();
                }
''', '''                let same = animator.name == *name;
                if !same {
                    animator.restart();
                    animator.name = name.clone();
                }
''')]),
    ('st-r-av-borders', None, [(A, '''                element.borders.top.width = dimension_length(value, self)?;
                layout.border.top = LengthPercentage::Length(element.borders.top.width);
''', '''                let width = dimension_length(value, self)?;
                layout.border.top = LengthPercentage::Length(width);
                element.borders.top.width = width;
''')]),
]
