M = 'src/view_model.rs'
BOX = 'div { width: 32px; height: 32px; } '

SEED('c01-hidden-subtree', 'C01', 'a shown element inside a hidden one, and the pointer over it',
     'the hit test stops at hidden elements, so shown descendants of a hidden element are never found',
     [(M, '''        let element = tree.get_element(node)?;
        if element.pointer_events == PointerEvents::Auto
            && element.visible
            && hovers''', '''        let element = tree.get_element(node)?;
        if !element.visible {
            // nothing of a hidden element is on the screen
            return Ok(());
        }
        if element.pointer_events == PointerEvents::Auto
            && hovers''')], r'''
    let css = "div { width: 64px; height: 64px; } .h { visibility: hidden; } p { visibility: visible; width: 32px; height: 32px; }";
    let mut v = view(r#"<body><div class="h"><p ^onmousedown="P"></p></div></body>"#, css);
    v.update(Input::new(), json!({})).unwrap();
    let out = v.update(Input::new().events(vec![InputEvent::MouseMove([5.0, 5.0]), InputEvent::MouseButtonDown(MouseButtons::Left)]), json!({})).unwrap();
    assert_eq!(out.messages, vec![json!("P")]);
''')

SEED('c02-coalesced-motion', 'C02', 'two motions in one frame, the first over an element, the second elsewhere',
     'consecutive motions of a frame are merged, so elements crossed in between get neither enter nor leave',
     [(M, '''        if !has_mouse_move {
            // fake''', '''        // only the last position of consecutive motions matters
        for i in (1..events.len()).rev() {
            if let (InputEvent::MouseMove(_), InputEvent::MouseMove(_)) = (events[i - 1], events[i]) {
                events.remove(i - 1);
            }
        }
        if !has_mouse_move {
            // fake''')], r'''
    let mut v = view(r#"<body><div ^onmouseenter="enter" ^onmouseleave="leave"></div></body>"#, "div { width: 32px; height: 32px; }");
    v.update(Input::new(), json!({})).unwrap();
    v.update(at(InputEvent::MouseMove([100.0, 100.0])), json!({})).unwrap();
    let out = v.update(Input::new().events(vec![InputEvent::MouseMove([5.0, 5.0]), InputEvent::MouseMove([200.0, 5.0])]), json!({})).unwrap();
    assert_eq!(out.messages, vec![json!("enter"), json!("leave")]);
''')

SEED('c03-right-press', 'C03', 'a press of the right button followed by its release',
     'an element pressed by the right button is made active but not remembered, so it stays active after the release',
     [(M, '''                        self.elements_in_action.push(node);
''', '''                        if button == MouseButtons::Left {
                            self.elements_in_action.push(node);
                        }
''')], r'''
    let mut v = view(r#"<body><div ^onmousemove="move $event"></div></body>"#, "div { width: 32px; height: 32px; }");
    // the state of the element is part of each of its messages
    v.update(at(InputEvent::MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(at(InputEvent::MouseButtonDown(MouseButtons::Right)), json!({})).unwrap();
    v.update(at(InputEvent::MouseButtonUp(MouseButtons::Right)), json!({})).unwrap();
    let out = v.update(at(InputEvent::MouseMove([6.0, 5.0])), json!({})).unwrap();
    assert_eq!(out.messages[0]["move"]["target"]["state"]["active"], json!(false), "{out:?}");
''')

SEED('c04-active-after-release', 'C04', 'a press over one element and the release over another one',
     'a release only deactivates the elements under the pointer, the pressed element stays active',
     [(M, '''                    for node in take(&mut self.elements_in_action) {
                        let element = tree.get_element_mut(node)?;
                        element.state.active = false;
''', '''                    for node in take(&mut self.elements_in_action) {
                        let element = tree.get_element_mut(node)?;
                        element.state.active = element.state.active && !element.state.hover;
''')], r'''
    let mut v = view(r#"<body><div ^onmousemove="move $event"></div><div></div></body>"#, "div { width: 32px; height: 32px; }");
    v.update(at(InputEvent::MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(at(InputEvent::MouseButtonDown(MouseButtons::Left)), json!({})).unwrap();
    v.update(at(InputEvent::MouseMove([5.0, 40.0])), json!({})).unwrap();
    v.update(at(InputEvent::MouseButtonUp(MouseButtons::Left)), json!({})).unwrap();
    let out = v.update(at(InputEvent::MouseMove([6.0, 5.0])), json!({})).unwrap();
    assert_eq!(out.messages[0]["move"]["target"]["state"]["active"], json!(false), "{out:?}");
''')

SEED('c05-key-while-pressed', 'C05', 'a key released while a mouse button is held',
     'keys released while the mouse button is down are not delivered to the focused element',
     [(M, '''                InputEvent::KeyUp(key) => {
                    if let Some(node) = self.focus {''', '''                InputEvent::KeyUp(key) => {
                    if let Some(node) = self.focus.filter(|_| self.elements_in_action.is_empty()) {''')], r'''
    let mut v = view(r#"<body><div ^oninput="i" ^onkeyup="up"></div></body>"#, "div { width: 32px; height: 32px; }");
    v.update(at(InputEvent::MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(at(InputEvent::MouseButtonDown(MouseButtons::Left)), json!({})).unwrap();
    let out = v.update(at(InputEvent::KeyUp(Keys::Enter)), json!({})).unwrap();
    assert_eq!(out.messages, vec![json!("up")]);
''')

SEED('c06-first-argument', 'C06', 'a listener whose first argument cannot be resolved',
     'when the first argument cannot be resolved the next one is taken for the message name',
     [(M, '''                if index == 0 {
                    key = argument.eval_string();''', '''                if index == 0 || key == "Undefined" {
                    key = argument.eval_string();''')], r'''
    let mut v = view(r#"<body><div *i="2 {items}" ^onclick="{i.name} {i.id}"></div></body>"#, "div { width: 32px; height: 32px; }");
    let data = json!({"items": [{"name": "Undefined", "id": 7}]});
    v.update(at(InputEvent::MouseMove([5.0, 5.0])), data.clone()).unwrap();
    v.update(at(InputEvent::MouseButtonDown(MouseButtons::Left)), data.clone()).unwrap();
    let out = v.update(at(InputEvent::MouseButtonUp(MouseButtons::Left)), data).unwrap();
    assert_eq!(out.messages, vec![json!({"Undefined": 7})]);
''')

SEED('c07-press-outside', 'C07', 'a button held over an element while the pointer leaves it',
     'input is no longer captured while an element is pressed and the pointer is elsewhere',
     [(M, '''            || self.focus.is_some()
            || !self.elements_in_action.is_empty();''', '''            || self.focus.is_some();''')], r'''
    let mut v = view("<body><div></div></body>", "body { pointer-events: none; } div { pointer-events: auto; width: 32px; height: 32px; }");
    v.update(at(InputEvent::MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(at(InputEvent::MouseButtonDown(MouseButtons::Left)), json!({})).unwrap();
    let out = v.update(at(InputEvent::MouseMove([500.0, 500.0])), json!({})).unwrap();
    assert!(out.is_input_captured);
''')

SEED('c09-last-item-wins', 'C09', 'a list whose length changes and whose last item stays, inside an object with a condition',
     'only the last item of a list decides whether the list changed, so the object around it is not notified',
     [(M, '''                    array_changed = array_changed || changed;
                }
                array_changed''', '''                    array_changed = changed;
                }
                array_changed''')], r'''
    let mut v = view(r#"<body><div ?="{o}"><p *i="3 {o.items}">{i}</p></div></body>"#, "");
    v.update(Input::new(), json!({"o": {"items": ["a", null]}})).unwrap();
    assert_eq!(v.body().children().len(), 1);
''')

SEED('c10-pipe-shared', 'C10', 'two bindings of one place, the first of which has a transformer',
     'the value transformed for one binding is passed on to the next binding of the same place',
     [(M, '''        if let Some(bindings) = bindings.get(path) {
            for binding in bindings {
                if binding.pipe.len() > 0 {
                    let mut value = value.clone();
                    for name''', '''        if let Some(bindings) = bindings.get(path) {
            let mut value = value.clone();
            for binding in bindings {
                if binding.pipe.len() > 0 {
                    for name'''),
      (M, '''                    reactions.push(binding.react_value_change(value))
''', '''                    reactions.push(binding.react_value_change(&value))
''')], r'''
    fn twice(v: Value) -> Value {
        json!(format!("{0}{0}", v.as_str().unwrap_or_default()))
    }
    let mut v = view("<body><div>{x|twice}</div><p>{x}</p></body>", "").pipe("twice", twice);
    v.update(Input::new(), json!({"x": "a"})).unwrap();
    assert_eq!(text(&v.body()), "aaa");
''')

SEED('c08-fraction', 'C08', 'a fractional number read as an integer',
     'the integer of a number that is not a non-negative integer is 0',
     [('src/value.rs', """            Value::Number(number) => match number.as_f64() {
                None => 0,
                Some(number) => number as u64,
            },""", """            Value::Number(number) => number.as_u64().unwrap_or(0),""")], r"""
    assert_eq!(json!(12.0).eval_u64(), 12);
    assert_eq!(json!(1.75).eval_usize(), 1);
    assert_eq!(json!(7).eval_u64(), 7);
""")

VIEW = 'src/view.rs'
CASCADE = 'src/styles/mod.rs'

SEED('c11-same-length-text', 'C11', 'a bound text which changes to another one of the same number of bytes but of another width',
     'the text is measured again only if its length in bytes changed',
     [(VIEW, '''                element_text.set(span, text);
                self.tree.mark_dirty(node)?;
''', '''                let length = element_text.to_string().len();
                element_text.set(span, text);
                if element_text.to_string().len() != length {
                    // layout is computed again only if the size of the text can change
                    self.tree.mark_dirty(node)?;
                }
''')], r'''
    let mut v = view("<body><p>{name}</p></body>", "body { display: flex; }");
    v.update(Input::new(), json!({"name": "ab"})).unwrap();
    let wide = v.body().children()[0].size[0];
    v.update(Input::new(), json!({"name": "\u{e9}"})).unwrap();
    let narrow = v.body().children()[0].size[0];
    assert!(narrow < wide, "{narrow} {wide}");
''')

SEED('c12-layout-when-dirty', 'C12', 'a change of the opacity of an element which has children and no change of any layout',
     'positions, sizes and opacities are computed only when the layout changed, so the opacity does not reach the elements',
     [(VIEW, '''        self.tree.compute_layout_with_measure(
            self.body,
            Size::MAX_CONTENT,
            |size, space, _, view, _| measure_text(self.fonts.as_ref(), size, space, view),
        )?;
        // TODO: clipping of viewport
        self.compute_final_positions_and_clipping(self.body, Point::ZERO, 1.0, None)?;
''', '''        if self.tree.dirty(self.body)? {
            self.tree.compute_layout_with_measure(
                self.body,
                Size::MAX_CONTENT,
                |size, space, _, view, _| measure_text(self.fonts.as_ref(), size, space, view),
            )?;
            // TODO: clipping of viewport
            self.compute_final_positions_and_clipping(self.body, Point::ZERO, 1.0, None)?;
        }
''')], r'''
    let mut v = view(r#"<body><div #off="{off}"><p></p></div></body>"#, "div { width: 32px; height: 32px; } div[off] { opacity: 0.5; } p { width: 8px; height: 8px; }");
    v.update(Input::new(), json!({"off": false})).unwrap();
    v.update(Input::new(), json!({"off": false})).unwrap();
    v.update(Input::new(), json!({"off": true})).unwrap();
    assert_eq!(v.body().children()[0].children()[0].opacity, 0.5);
''')

SEED('c13-outer-clipping', 'C13', 'a scrolled box inside of a scrolled box',
     'an element is clipped by its outermost scrolled ancestor instead of the nearest one',
     [(VIEW, '''            clipping = Some(layout.clone());
''', '''            clipping = clipping.or(Some(layout.clone()));
''')], r'''
    let css = "div { width: 100px; height: 100px; overflow: scroll; } section { width: 50px; height: 50px; overflow: scroll; } p { width: 300px; height: 300px; }";
    let mut v = view(r#"<body><div><section><p></p></section><p></p></div></body>"#, css);
    v.update(Input::new(), json!({})).unwrap();
    let p = v.body().children()[0].children()[0].children()[0].clipping.clone().expect("clipped");
    assert!((p.size.width - 50.0).abs() < 0.1, "{p:?}");
''')

SEED('c14-case-of-values', 'C14', 'an attribute whose value differs from that of the selector in its case only',
     'values of attributes are compared without their case',
     [('src/css/matching.rs', '''Matcher::Equal => attr == value,''', '''Matcher::Equal => attr.eq_ignore_ascii_case(value),''')], r'''
    let mut v = view(r#"<body><div kind="Big"></div></body>"#, "div { width: 8px; height: 8px; } [kind=big] { width: 99px; }");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].size[0], 8.0);
''')

SEED('c15-last-class', 'C15', 'a bound class, and a selector whose class is not the last part of it',
     'only the last part of a selector decides whether a bound class can make it match later',
     [('src/css/matching.rs', '''    pub fn has_class_selector(&self) -> bool {
        self.selectors.iter().any(|complex| {
            complex.selectors.iter().any(|selector| match selector {''', '''    pub fn has_class_selector(&self) -> bool {
        self.selectors.iter().any(|complex| {
            complex.selectors.last().into_iter().any(|selector| match selector {''')], r'''
    let mut v = view(r#"<body><div kind="big" @class="{name}"></div></body>"#, "div { width: 8px; height: 8px; } .on[kind=big] { width: 99px; }");
    v.update(Input::new(), json!({"name": "on"})).unwrap();
    assert_eq!(v.body().children()[0].size[0], 99.0);
''')

SEED('c16-transitions-first', 'C16', 'an element with an animation and a transition of the same property',
     'transitions are played before animations, which then overwrite them',
     [(CASCADE, '''        // 3: animations
        let time = input.time.as_secs_f32();
''', '''        let time = input.time.as_secs_f32();
        // 3: transitions
        for transition in element.transitions.iter_mut() {
            transition.play(time, &mut computed_style);
        }
        // 4: animations
'''), (CASCADE, '''        // TODO: !important
        // 4: transitions
        for transition in element.transitions.iter_mut() {
            transition.play(time, &mut computed_style);
        }
''', '''        // TODO: !important
''')], r'''
    let css = "div { width: 10px; height: 10px; opacity: 0.5; transition: opacity 1000s; animation: 10s linear fade; } @keyframes fade { from { opacity: 0.0; } to { opacity: 1.0; } }";
    let mut v = view(r#"<body><div></div></body>"#, css);
    let second = || Input::new().time(Duration::from_secs(1));
    for _ in 0..3 {
        v.update(second(), json!({})).unwrap();
    }
    // the transition holds back what the animation wants
    let shown = v.body().children()[0].opacity;
    assert!(shown > 0.4, "{shown}");
''')

SEED('c17-zero-alpha', 'C17', 'rgba() with the alpha 0',
     'an alpha that is not a number or percentage counts as opaque, and so does 0',
     [('src/styles/compute_function.rs', '''fn map_a(value: &ComputedValue) -> u8 {
    match value {
        ComputedValue::Zero => 0,
        ComputedValue::Percentage(value) => (*value * 255.0) as u8,
        Number(value) => (*value * 255.0) as u8,
        _ => 0
    }''', '''fn map_a(value: &ComputedValue) -> u8 {
    match value {
        ComputedValue::Percentage(value) => (*value * 255.0) as u8,
        Number(value) => (*value * 255.0) as u8,
        // opaque by default
        _ => 255
    }''')], r'''
    let mut v = view(r#"<body><div></div></body>"#, "div { color: rgba(10, 20, 30, 0); }");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].color, [10, 20, 30, 0]);
''')

SEED('c18-animation-delay', 'C18', 'the animation shorthand with a delay and with a count of iterations',
     'the shorthand takes its last number for a delay only when it looks like a duration written before the timing',
     [('src/styles/compute_style.rs', '''            (PropertyKey::Animation, [duration, timing, Time(delay), name]) => {
                overwrite(PropertyKey::AnimationDelay, &Time(*delay));
                overwrite(PropertyKey::AnimationDuration, duration);
''', '''            (PropertyKey::Animation, [Time(delay), timing, duration @ Time(_), name]) => {
                overwrite(PropertyKey::AnimationDelay, &Time(*delay));
                overwrite(PropertyKey::AnimationDuration, duration);
''')], r'''
    let css = "div { width: 10px; height: 10px; animation: 10s linear 5s fade; } @keyframes fade { from { opacity: 0.0; } to { opacity: 1.0; } }";
    let mut v = view(r#"<body><div></div></body>"#, css);
    v.update(Input::new(), json!({})).unwrap();
    v.update(Input::new().time(Duration::from_secs(7)), json!({})).unwrap();
    let shown = v.body().children()[0].opacity;
    assert!((shown - 0.2).abs() < 0.01, "{shown}");
''')

SEED('c19-vmin-height', 'C19', 'a viewport higher than wide and a length in vmin',
     'vmin is a part of the height of the viewport, whichever is less',
     [('src/styles/apply.rs', '''Units::Vmin => sizes.viewport_width.min(sizes.viewport_height) * value / 100.0,''',
       '''Units::Vmin => sizes.viewport_height * value / 100.0,''')], r'''
    let mut v = view(r#"<body><div></div></body>"#, "div { width: 10vmin; height: 10vmax; }");
    v.update(Input::new().viewport([200.0, 400.0]), json!({})).unwrap();
    assert_eq!(v.body().children()[0].size, [20.0, 40.0]);
''')

SEED('c20-line-height', 'C20', 'an element whose parent has other inherited values, after it had them itself',
     'the slant of the font is inherited only while the parent has the default font family',
     [('src/styles/inherit.rs', '''    element.font.style = parent.font.style.clone();
''', '''    if parent.font.family == element.font.family {
        element.font.style = parent.font.style.clone();
    }
'''), ('src/styles/inherit.rs', '''    element.font.family = parent.font.family.clone();
    // font-size
''', '''    // font-size
'''), ('src/styles/inherit.rs', '''    element.font.line_height = parent.font.line_height;
''', '''    element.font.line_height = parent.font.line_height;
    element.font.family = parent.font.family.clone();
''')], r'''
    let mut v = view(r#"<body><div><p></p></div></body>"#, r#"div { font-family: "mono"; font-style: italic; }"#);
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].children()[0].font.style, "italic");
''')

SEED('c21-paused', 'C21', 'an animation paused half-way by a bound attribute',
     'a paused animation makes no step, so that the element falls back to its declared values',
     [('src/animation.rs', '''        if self.running {
            self.time += time;
        }
''', '''        if !self.running {
            return None;
        }
        self.time += time;
''')], r'''
    let css = "div { width: 10px; height: 10px; animation: 10s linear fade; } div[hold] { animation-play-state: paused; } @keyframes fade { from { opacity: 0.0; } to { opacity: 0.5; } }";
    let mut v = view(r##"<body><div #hold="{hold}"></div></body>"##, css);
    v.update(Input::new(), json!({"hold": false})).unwrap();
    v.update(Input::new().time(Duration::from_secs(5)), json!({"hold": false})).unwrap();
    for _ in 0..3 {
        v.update(Input::new().time(Duration::from_secs(5)), json!({"hold": true})).unwrap();
    }
    v.update(Input::new(), json!({"hold": true})).unwrap();
    let shown = v.body().children()[0].opacity;
    assert!(shown <= 0.5, "{shown}");
''')

SEED('c22-unknown-property', 'C22', 'a property that is not supported before others in the same block',
     'the declarations after one that is not supported are dropped',
     [('src/css/reader.rs', '''                    error!("unable to read property {key}, not supported");
                    continue;
''', '''                    error!("unable to read property {key}, not supported");
                    break;
''')], r'''
    let mut v = view(r#"<body><div></div></body>"#, "div { height: 8px; mask-foo: always; width: 32px; }");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].size[0], 32.0);
''')

SEED('c23-last-line-break', 'C23', 'a text whose line ends right before an element that begins the next line',
     'the line break at the end of a text is lost, so that words run together',
     [('src/html/reader.rs', '''in string.split("\\n").enumerate()''', '''in string.lines().enumerate()''')], r'''
    let mut v = view("<body>one\n<b>two</b></body>", "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(text(&v.body()), "one two");
''')

SEED('c24-number', 'C24', 'a value which is a number by the grammar but not by the language, like "1-2" or "."',
     'reading a style sheet with such a number panics',
     [('src/css/reader.rs', '''    number.parse::<f32>().unwrap_or_else(|error| {
        error!("unable to parse number value {number}, {error}");
        0.0
    })''', '''    number.parse::<f32>().expect("number by grammar")''')], r'''
    let mut v = view(r#"<body><div></div></body>"#, "div { width: 10px; height: 1-2px; }");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].size[0], 10.0);
''')

SEED('c25-comment-star', 'C25', 'a comment with an asterisk inside, like a separator line',
     'a comment ends at any asterisk, so a style sheet with such a comment cannot be read',
     [('src/css/css.pest', '''COMMENT = _{ "/*" ~ (!"*/" ~ ANY)* ~ "*/" }''', '''COMMENT = _{ "/*" ~ (!"*" ~ ANY)* ~ "*/" }''')], r'''
    let mut v = view(r#"<body><div></div></body>"#, "/* a * b */ div { width: 10px; }");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].size[0], 10.0);
''')

SEED('c26-quoted-bracket', 'C26', 'a quoted value with a "<" inside',
     'a quoted value must not contain "<" anymore, so a document with one cannot be read',
     [('src/html/html.pest', r'''    !("\"" | "\\") ~ ANY
''', r'''    !("\"" | "\\" | "<") ~ ANY
''')], r'''
    let mut v = view(r#"<body><input value="a<b"><p></p></body>"#, "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(v.body().children()[0].value().map(|x| x.as_str()), Some("a<b"));
''')

SEED('c27-last-body', 'C27', 'a document with two bodies',
     'the last body of a document is shown instead of the first one',
     [(VIEW, '''                body = child;
                break;
''', '''                body = child;
''')], r'''
    let mut v = view("<body>one</body><body>two</body>", "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(text(&v.body()), "one");
''')

SEED('c28-second-repetition', 'C28', 'a repetition after another repetition in the same element',
     'the items of a repetition start where its template stands in the document, not after the items of the one before',
     [('src/rendering.rs', '''                for child in template.children {
                    let mut used = None;''', '''                for (position, child) in template.children.into_iter().enumerate() {
                    let mut used = None;'''),
      ('src/rendering.rs', '''                        let start = children.len();
''', '''                        let start = position;
''')], r'''
    let mut v = view(r#"<body><p *a="2 {first}">{a}</p><p *b="2 {second}">{b}</p></body>"#, "");
    v.update(Input::new(), json!({"first": ["1", "2"], "second": ["3"]})).unwrap();
    assert_eq!(text(&v.body()), "123");
''')

SEED('c29-known-field', 'C29', 'a binder of a field of an object after a binder of the object itself and of another field',
     'a name in the middle of a path takes the place of what is there already unless it is the last one defined',
     [(M, '''                    if !object.contains_key(token) {
                        object.insert(token.to_string(), Value::Null);
                    }
''', '''                    if object.get(token).map(|value| !value.is_object()).unwrap_or(true) {
                        object.insert(token.to_string(), Value::Null);
                    }
''')], r'''
    let mut v = view(r#"<body><p *a="2 {list}">{a.name}</p><b>{list}</b><i>{a}</i></body>"#, "");
    let out = v.update(Input::new(), json!({"list": [{"name": "1"}, {"name": "2"}]})).unwrap();
    let shown: Vec<String> = v.body().children().iter().take(2).map(|x| text(x)).collect();
    assert_eq!(shown, ["1", "2"]);
''')

SEED('c30-events-replaced', 'C30', 'events given one by one and then as a list, or the other way round',
     'an event given alone takes the place of those given before',
     [('src/input.rs', '''        self.events.push(event);
''', '''        self.events = vec![event];
''')], r'''
    let mut v = view(r#"<body><div ^onmousedown="down" ^onmouseup="up"></div></body>"#, "div { width: 32px; height: 32px; }");
    v.update(Input::new(), json!({})).unwrap();
    let out = v.update(Input::new().event(InputEvent::MouseMove([5.0, 5.0])).event(InputEvent::MouseButtonDown(MouseButtons::Left)).event(InputEvent::MouseButtonUp(MouseButtons::Left)), json!({})).unwrap();
    assert_eq!(out.messages, vec![json!("down"), json!("up")]);
''')
