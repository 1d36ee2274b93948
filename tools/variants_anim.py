N = 'src/animation.rs'
K = 'src/styles/compute_animation_tracks.rs'
D = 'src/styles/default.rs'
H = 'src/styles/inherit.rs'
I = 'src/styles/initial.rs'

WALK = '''        let mut a = 0;
        let mut b = 0;
        for step in track.frames.keys() {
            if t >= *step {
                a = *step;
            }
            if t <= *step {
                b = *step;
                break;
            }
        }
'''
FROM = '''        let from = computed_keyframe_styles.entry(0).or_default();
        for property in &animated_properties {
            if !from.contains_key(property) {
                let value = match style.get(property) {
                    Some(value) => value.clone(),
                    None => initial(property.key),
                };
                from.insert(*property, value);
            }
        }
'''
TO = '''        let to = computed_keyframe_styles.entry(100).or_default();
        for property in &animated_properties {
            if !to.contains_key(&property) {
                let value = match style.get(&property) {
                    Some(value) => value.clone(),
                    None => initial(property.key),
                };
                to.insert(*property, value);
            }
        }
'''
LAYERS = '''            changed |= to != &value;
            layers.push((animate(key, from, to, time), value));
        }
        for (index, (current, _)) in layers.iter().enumerate() {
            style.insert(PropertyDescriptor::new(key, index), current.clone());
        }
'''
VARIANTS = [
    # C20
    ('an-reset-no-visible', 'C20', [(D, '    element.visible = true;\n', '')]),
    ('an-reset-opacity', 'C20', [(D, '    element.self_opacity = 1.0;\n', '    element.opacity = 1.0;\n')]),
    ('an-reset-extra', 'C20', [(D, '    element.visible = true;\n', '    element.visible = true;\n    element.transforms.clear();\n')]),
    ('an-reset-line-height', 'C20', [(D, 'line_height: 1.0,', 'line_height: 1.2,')]),
    ('an-default-shrink', 'C20', [(D, 'flex_shrink: 1.0', 'flex_shrink: 0.0')]),
    ('an-default-display', 'C20', [(D, 'taffy::Display::Block', 'taffy::Display::Flex')]),
    ('an-default-min-zero', 'C20', [(D, 'min_size: taffy::Size::auto()', 'min_size: taffy::Size::zero()')]),
    ('an-inherit-align', 'C20', [(H, '    element.pointer_events = parent', '    element.font.align = parent.font.align.clone();\n    element.pointer_events = parent')]),
    ('an-inherit-no-weight', 'C20', [(H, '    element.font.weight = parent.font.weight;\n', '')]),
    ('an-inherit-visible', 'C20', [(H, '    element.pointer_events = parent', '    element.visible = parent.visible;\n    element.pointer_events = parent')]),
    ('an-inherit-whole-font', 'C20', [(H, '    element.font.family = parent.font.family.clone();\n', '    element.font = parent.font.clone();\n')]),
    ('an-animator-reset-time', 'C20', [(N, '            time: self.time,\n            ..Self', '            ..Self')]),
    ('an-animator-default-infinite', 'C20', [(N, 'iterations: AnimationIterations::Number(1.0),\n            running: true', 'iterations: AnimationIterations::Infinite,\n            running: true')]),
    ('an-animator-default-paused', 'C20', [(N, 'running: true', 'running: false')]),
    ('an-initial-opacity', 'C20', [(I, 'PropertyKey::Opacity => n(1)', 'PropertyKey::Opacity => n(0)')]),
    ('an-initial-left', 'C20', [(I, 'PropertyKey::Left => keyword("auto")', 'PropertyKey::Left => zero()')]),
    ('an-ok-reset-order', None, [(D, '    element.visible = true;\n', ''), (D, '    element.self_opacity = 1.0;\n', '    element.visible = true;\n    element.self_opacity = 1.0;\n')]),
    ('an-ok-inherit-font', None, [(H, '    element.font.family = parent.font.family.clone();\n', '    let align = element.font.align.clone();\n    element.font = parent.font.clone();\n    element.font.align = align;\n')]),
    ('an-ok-inherit-borrow', None, [(H, '    element.color = parent.color;\n', '    let Element { color, .. } = parent;\n    element.color = *color;\n')]),
    ('an-ok-animator-reset', None, [(N, '''        *self = Self {
            name: std::mem::take(&mut self.name),
            time: self.time,
            ..Self::default()
        };''', '''        let initial = Self::default();
        self.delay = initial.delay;
        self.direction = initial.direction;
        self.duration = initial.duration;
        self.fill_mode = initial.fill_mode;
        self.timing = initial.timing;
        self.iterations = initial.iterations;
        self.running = initial.running;''')]),
    # C21 animate
    ('an-number-swapped', 'C21', [(N, 'Number(a + (b - a) * t)', 'Number(b + (a - b) * t)')]),
    ('an-percentage-zero', 'C21', [(N, '(Zero, Percentage(b)) => percentage(&0.0, b, t)', '(Zero, Percentage(b)) => percentage(b, &0.0, t)')]),
    ('an-color-alpha', 'C21', [(N, '(y[3] as f32 - x[3] as f32)', '(y[3] as f32 - x[2] as f32)')]),
    ('an-units', 'C21', [(N, 'if a.unit != b.unit', 'if a.unit != b.unit && t < 0.1')]),
    ('an-discrete', 'C21', [(N, '(if t < 0.5 { a } else { b }).clone()', '(if t > 0.5 { a } else { b }).clone()')]),
    ('an-zero-missing', 'C21', [(N, '        (Zero, Dimension(b)) => dimension(&Dim::new(0.0, b.unit), b, t),\n', '')]),
    ('an-ok-lerp', None, [(N, 'fn number(a: &f32, b: &f32, t: f32) -> ComputedValue {\n    Number(a + (b - a) * t)', 'fn lerp(a: f32, b: f32, t: f32) -> f32 {\n    a * (1.0 - t) + b * t\n}\n\nfn number(a: &f32, b: &f32, t: f32) -> ComputedValue {\n    Number(lerp(*a, *b, t))')]),
    ('an-ok-color-map', None, [(N, '''    let r = (x[0] as f32 + (y[0] as f32 - x[0] as f32) * t).max(0.0) as u8;
    let g = (x[1] as f32 + (y[1] as f32 - x[1] as f32) * t).max(0.0) as u8;
    let b = (x[2] as f32 + (y[2] as f32 - x[2] as f32) * t).max(0.0) as u8;
    let a = (x[3] as f32 + (y[3] as f32 - x[3] as f32) * t).max(0.0) as u8;
    Color([r, g, b, a])''', '''    let channel = |i: usize| {
        let (from, to) = (x[i] as f32, y[i] as f32);
        (from + (to - from) * t) as u8
    };
    Color([channel(0), channel(1), channel(2), channel(3)])''')]),
    ('an-ok-discrete-helper', None, [(N, '            // discrete\n            (if t < 0.5 { a } else { b }).clone()\n', '            if t < 0.5 {\n                a.clone()\n            } else {\n                b.clone()\n            }\n')]),
    # C21 progress
    ('an-delay-added', 'C21', [(N, 'let t = self.time - self.delay;', 'let t = self.time + self.delay;')]),
    ('an-no-end', 'C21', [(N, '''        if rest == 0.0 && cycles > 0.0 {
            // stop at last frame 1.0 (100%)
            return Some(1.0);
        }
''', '')]),
    ('an-end-at-start', 'C21', [(N, 'rest == 0.0 && cycles > 0.0', 'rest == 0.0')]),
    ('an-paused-plays', 'C21', [(N, '        if self.running {\n            self.time += time;\n        }\n', '        self.time += time;\n')]),
    ('an-unlimited', 'C21', [(N, 'AnimationIterations::Number(iterations) => cycles.min(iterations)', 'AnimationIterations::Number(iterations) => cycles.max(iterations)')]),
    ('an-restart-delay', 'C21', [(N, '        self.time = 0.0;\n    }\n\n    /// Sets', '        self.time = self.delay;\n    }\n\n    /// Sets')]),
    ('an-ok-update-names', None, [(N, '''        let cycles = match self.iterations {
            AnimationIterations::Number(iterations) => cycles.min(iterations),
            AnimationIterations::Infinite => cycles,
        };
''', '''        let cycles = if let AnimationIterations::Number(limit) = self.iterations {
            if cycles > limit { limit } else { cycles }
        } else {
            cycles
        };
''')]),
    ('an-ok-update-else', None, [(N, '''        let t = self.time - self.delay;
        if t < 0.0 {
            return None;
        }
''', '''        if self.time < self.delay {
            return None;
        }
        let t = self.time - self.delay;
''')]),
    # C21 play
    ('an-play-first-track', 'C21', [(N, 'self.play_track(track, step, style);', 'self.play_track(track, step, style);\n                if step == 0 { break; }')]),
    ('an-play-scale', 'C21', [(N, '(time * 100.0) as u32', '(time * 99.0) as u32')]),
    ('an-track-inverse', 'C21', [(N, '(t - a) as f32 / (b - a) as f32', '(b - t) as f32 / (b - a) as f32')]),
    ('an-track-denominator', 'C21', [(N, '(t - a) as f32 / (b - a) as f32', '(t - a) as f32 / b as f32')]),
    ('an-track-no-break', 'C21', [(N, '                b = *step;\n                break;', '                b = *step;')]),
    ('an-track-strict', 'C21', [(N, 'if t >= *step {', 'if t > *step {')]),
    ('an-track-last', 'C21', [(N, '            let result = track.frames[&a].clone();', '            let result = track.frames[&b].clone();')]),
    ('an-ok-track-pairs', None, [(N, WALK, '''        let mut a = 0;
        let mut b = 0;
        for (step, _) in track.frames.iter() {
            let step = *step;
            if step <= t {
                a = step;
            }
            if step >= t {
                b = step;
                break;
            }
        }
''')]),
    ('an-ok-track-cmp', None, [(N, WALK, '''        let mut a = 0;
        let mut b = 0;
        for step in track.frames.keys() {
            if *step < t {
                a = *step;
                continue;
            }
            if *step == t {
                a = *step;
            }
            b = *step;
            break;
        }
''')]),
    ('an-ok-track-early', None, [(N, WALK, '''        let mut a = 0;
        let mut b = 0;
        for step in track.frames.keys().copied() {
            if step == t {
                style.insert(track.descriptor, track.frames[&step].clone());
                return;
            }
            if step > t {
                b = step;
                break;
            }
            a = step;
        }
''')]),
    ('an-ok-track-refs', None, [(N, WALK + '''        if b > a {
            let t = (t - a) as f32 / (b - a) as f32;
            let a = &track.frames[&a];
            let b = &track.frames[&b];
            let result = animate(track.descriptor.key, a, b, t);
            style.insert(track.descriptor, result);
        } else {
            // last or exact frame (no interpolation)
            let result = track.frames[&a].clone();
            style.insert(track.descriptor, result);
        }
''', '''        let mut last = None;
        for (step, frame) in &track.frames {
            if *step == t {
                style.insert(track.descriptor, frame.clone());
                return;
            }
            if *step > t {
                if let Some((from, value)) = last {
                    let progress = (t - from) as f32 / (*step - from) as f32;
                    style.insert(track.descriptor, animate(track.descriptor.key, value, frame, progress));
                }
                return;
            }
            last = Some((*step, frame));
        }
        if let Some((_, frame)) = last {
            style.insert(track.descriptor, frame.clone());
        }
''')]),
    ('an-ok-play-return', None, [(N, '''        if let Some(time) = self.update(time) {
            let step = (time * 100.0) as u32;
            for track in tracks {
                self.play_track(track, step, style);
            }
        }
''', '''        let progress = match self.update(time) {
            Some(progress) => progress,
            None => return,
        };
        tracks
            .iter()
            .for_each(|track| self.play_track(track, (progress * 100.0) as u32, style));
''')]),
    # C21 transitions
    ('an-tr-from-old', 'C21', [(N, 'layers.push((animate(key, from, to, time), value));', 'layers.push((from.clone(), value));')]),
    ('an-tr-no-restart', 'C21', [(N, '            self.ranges = layers;\n            self.animator.restart();', '            self.ranges = layers;')]),
    ('an-tr-always', 'C21', [(N, '        if changed {\n', '        if changed || layers.len() == 1 {\n')]),
    ('an-tr-last-changed', 'C21', [(N, 'changed |= to != &value;', 'changed = to != &value;')]),
    ('an-tr-compares-from', 'C21', [(N, 'changed |= to != &value;', 'changed |= from != &value;')]),
    ('an-tr-delay', 'C21', [(N, 'None if self.animator.duration > 0.0 => 0.0,\n', '')]),
    ('an-tr-first-layer', 'C21', [(N, 'for (index, (current, _)) in layers.iter().enumerate()', 'for (index, (current, _)) in layers.iter().enumerate().take(1)')]),
    ('an-tr-shows-target', 'C21', [(N, 'for (index, (current, _)) in', 'for (index, (_, current)) in')]),
    ('an-tr-start-zero', 'C21', [(N, 'let mut index = self.ranges.len();', 'let mut index = 0;')]),
    ('an-tr-start-once', 'C21', [(N, '            index += 1;\n', '            index += 2;\n')]),
    ('an-ok-tr-one-loop', None, [(N, LAYERS, '''            if *to != value {
                changed = true;
            }
            let current = animate(key, from, to, time);
            style.insert(PropertyDescriptor::new(key, index), current.clone());
            layers.push((current, value));
        }
''')]),
    ('an-ok-tr-order', None, [(N, '''            layers.push((animate(key, from, to, time), value));
''', '''            let current = animate(key, from, to, time);
            layers.push((current, value));
''')]),
    ('an-ok-tr-start-len', None, [(N, '''        let mut index = self.ranges.len();
        while let Some(value) = style.get(&PropertyDescriptor::new(key, index)) {
            self.ranges.push((value.clone(), value.clone()));
            index += 1;
        }
''', '''        while let Some(value) = style.get(&PropertyDescriptor::new(key, self.ranges.len())) {
            self.ranges.push((value.clone(), value.clone()));
        }
''')]),
    # C21 tracks
    ('an-kf-replace', 'C21', [(K, '''                .entry(keyframe.step)
                .or_insert_with(HashMap::new);''', '''                .entry(keyframe.step)
                .insert_entry(HashMap::new())
                .into_mut();''')]),
    ('an-kf-index', 'C21', [(K, 'self.compute_style(property.key, index, value,', 'self.compute_style(property.key, 0, value,')]),
    ('an-kf-from-initial', 'C21', [(K, FROM, FROM.replace('''match style.get(property) {
                    Some(value) => value.clone(),
                    None => initial(property.key),
                }''', 'initial(property.key)'))]),
    ('an-kf-to-90', 'C21', [(K, 'entry(100)', 'entry(99)')]),
    ('an-kf-to-overrides', 'C21', [(K, '            if !to.contains_key(&property) {', '            if to.is_empty() || !to.contains_key(&property) || style.contains_key(property) {')]),
    ('an-kf-swap-step', 'C21', [(K, 'track.frames.insert(step, value)', 'track.frames.insert(100 - step, value)')]),
    ('an-kf-skip-variable', 'C21', [(K, '''                        )
                    }
                    Declaration::Property(property) => {''', '''                        );
                        break;
                    }
                    Declaration::Property(property) => {''')]),
    ('an-kf-not-animated', 'C21', [(K, '            animated_properties.extend(keyframe_style.keys());\n', '            if keyframe.step > 0 { animated_properties.extend(keyframe_style.keys()); }\n')]),
    ('an-ok-kf-animated', None, [(K, '            animated_properties.extend(keyframe_style.keys());\n', ''), (K, '        let from = computed', '        for style in computed_keyframe_styles.values() {\n            animated_properties.extend(style.keys());\n        }\n        let from = computed')]),
    ('an-ok-kf-animated2', None, [(K, '            animated_properties.extend(keyframe_style.keys());\n', '            for property in keyframe_style.keys() {\n                animated_properties.insert(*property);\n            }\n')]),
    ('an-ok-kf-values', None, [(K, '''                        for index in 0..property.values.len() {
                            let value = &property.values[index];
                            self.compute_style(property.key, index, value, keyframe_style);
                        }
''', '''                        for (index, value) in property.values.iter().enumerate() {
                            self.compute_style(property.key, index, value, keyframe_style);
                        }
''')]),
    ('an-ok-kf-helper', None, [(K, FROM + TO, '''        self.complete(computed_keyframe_styles.entry(0).or_default(), &animated_properties, style);
        self.complete(computed_keyframe_styles.entry(100).or_default(), &animated_properties, style);
'''), (K, '    pub(crate) fn compute_animation_tracks(', '''    fn complete(
        &self,
        frame: &mut ComputedStyle,
        properties: &HashSet<PropertyDescriptor>,
        style: &ComputedStyle,
    ) {
        for property in properties {
            if frame.contains_key(property) {
                continue;
            }
            let value = style
                .get(property)
                .cloned()
                .unwrap_or_else(|| initial(property.key));
            frame.insert(*property, value);
        }
    }

    pub(crate) fn compute_animation_tracks('''),]),
    ('an-ok-kf-steps', None, [(K, FROM + TO, '''        for step in [0, 100] {
            let frame = computed_keyframe_styles.entry(step).or_default();
            for property in &animated_properties {
                if !frame.contains_key(property) {
                    let value = match style.get(property) {
                        Some(value) => value.clone(),
                        None => initial(property.key),
                    };
                    frame.insert(*property, value);
                }
            }
        }
''')]),
]
