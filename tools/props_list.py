P('C01', 'Exactly the elements under the pointer are found',
  'Whenever input is processed, an element counts as being under the pointer exactly when it is shown on screen, its pointer-events is auto and the pointer lies in its half-open '
  'box [position, position + size). Every element of the document is considered, whatever its ancestors decided, each ancestor before its descendants and siblings in document order. '
  'Hidden and pointer-transparent elements are never found.',
  ['inputs', 'programs'], 'every document, every layout, every pointer position',
  'The 7 input tests use one or two elements at one position; the statement is about any tree and every edge of the boxes.',
  ['src/view_model.rs'], [('recursive hit test', 'ViewModel::calculate_mouse_hovers')],
  state=[('elements under the pointer', 'what events are offered to', 'ViewModel::elements_under_mouse')])

P('C02', 'Pointer motion produces exactly the right leave, enter, move and drag events',
  'On every pointer motion the set of elements under the pointer is computed afresh for the new position; each element left receives onmouseleave and stops being hovered, each '
  'element entered receives onmouseenter and becomes hovered, and every element under the pointer receives onmousemove, descendants first. While something is dragged the matching drag events (ondragleave, '
  'ondragenter, ondragover) are sent as well. Every message carries the position at which that motion happened and the element concerned.',
  ['histories', 'inputs'], 'every sequence of input events, also several in one frame, over every document',
  'The tests send one motion per frame; batches of events, transitions between nested elements and the drag variants are not reached.',
  ['src/view_model.rs'], [('motion branch of the dispatch', 'ViewModel::handle_elements_input')],
  state=[('hovered flag', 'drives :hover and leave events', 'ElementState::hover'), ('pointer', 'position of the pointer', 'ViewModel::mouse')])

P('C03', 'A press reaches the elements under the pointer and moves the focus',
  'When a button is pressed, every element under the pointer becomes active, is remembered as pressed and receives onmousedown with the button; an element that has an input listener '
  'gets the focus (and onfocus) unless it already has it, and the previously focused element that does not lie under the pointer loses it (and receives onblur). A press of the left '
  'button over a draggable element starts a drag and sends ondragstart; other buttons or elements that are not draggable never do.',
  ['histories', 'inputs'], 'every sequence of input events over every document',
  'Two tests press over one element; focus hand-over, other buttons and batches of events are not reached.',
  ['src/view_model.rs'], [('press branch of the dispatch', 'ViewModel::handle_elements_input')])

P('C04', 'A release ends clicks, presses and drags consistently',
  'When a button is released, every element under the pointer receives onmouseup; a left release is a click exactly for an element that was pressed, a right release asks for the '
  'context menu. A drag in progress is dropped on the target under the pointer and ends in any case, and afterwards no element is left active or remembered as pressed.',
  ['histories', 'inputs'], 'every sequence of input events over every document',
  'The tests release over the same element only; releases elsewhere, with another button or during a drag are not reached.',
  ['src/view_model.rs'], [('release branch of the dispatch', 'ViewModel::handle_elements_input')])

P('C05', 'Keyboard and text input reach the focused element only',
  'Key and text events are delivered, in the order they happened, to the element that has the focus and to nothing else; without a focused element they have no effect. '
  'Wheel and unknown events send no message. An error while dispatching ends the dispatch with that error, and no event is skipped or delivered twice.',
  ['histories', 'inputs'], 'every sequence of input events over every document',
  'One test types into one element; the statement is about every sequence and every other element.',
  ['src/view_model.rs'], [('keyboard branches of the dispatch', 'ViewModel::handle_elements_input')])

P('C06', 'Messages have the documented shape',
  'A listener with no argument produces the event itself, one argument produces an object with the message name and that value, several produce the name with the list of values; the name '
  'is the text of the first argument (or "Undefined"). Every argument is resolved against the current data, its transformers are applied in the written order, and unknown transformers leave it as it is. '
  'A value that cannot be resolved is left out.',
  ['inputs', 'programs'], 'every listener expression and every data value',
  'The tests send four fixed messages.',
  ['src/view_model.rs'], [('message construction', 'ViewModel::emit')])

P('C07', 'Every frame reports fresh messages and whether the UI captured the input',
  'The output of an update contains exactly the messages of that update. The input counts as captured by the UI when an element that takes the pointer lies under it, or something is dragged, focused or pressed. '
  'If no motion is reported in a frame, the elements under the pointer are nevertheless computed again for the last position, and the cursor comes from the topmost element under the pointer that sets one.',
  ['histories', 'inputs'], 'every sequence of updates and input',
  'No test looks at the capture flags and only one at two consecutive frames.',
  ['src/view_model.rs'], [('output construction', 'ViewModel::handle_output')])

P('C08', 'Values convert to text, truth, numbers and lists by one table',
  'Whatever JSON value the data holds, its text is "" for null, the literal for booleans and numbers, the string itself, "[array]" and "{object}"; it is true exactly for true, a non-zero number, '
  'a non-empty string or list and any object; as a number it is 1/0 for booleans, the truncated number, the parsed string or 0; as a list it is the texts of the items in order, or a list of its own text. '
  'Conversions never panic and never change the value.',
  ['inputs'], 'every JSON value',
  'The tests use a handful of strings and integers.',
  ['src/value.rs'], [('conversion table', 'impl ValueExtensions for Value')])

P('C09', 'New data reaches exactly the places that changed',
  'An update compares the new data with the data shown last, place by place. Every place whose value changed is remembered and notified exactly once with the new value, unchanged places are not, '
  'absent fields count as null, lists take the new length (new items start from the default item of their type) and are notified before their items, and an object whose fields changed is notified after them. '
  'Every place is known by its JSON pointer; defaults are remembered under the very type they are looked up with.',
  ['histories', 'inputs'], 'every sequence of data values over every template',
  'The tests use about twenty pairs of values; the statement is about any pair of values and any nesting of lists and objects.',
  ['src/view_model.rs'], [('recursive diff', 'ViewModel::bind_value'), ('default items', 'ViewModel::memorize_array_default')],
  state=[('model', 'the data shown last', 'ViewModel::model'), ('default items', 'what new list items start from', 'ViewModel::model_array_default')])

P('C10', 'A changed value drives every binding of its place by its kind',
  'When a place changes, every binding registered for it, in order, produces exactly one reaction: the value first goes through the binding\'s transformers in the written order (unknown ones leave it as it is); '
  'a text binding sets its span of its text node, an attribute binding its span of its attribute, a tag binding adds or removes its attribute by the truth of the value, a condition shows or hides '
  'its element by whether the truth equals the wanted one, and a repetition shows as many items as the list has, at most its capacity, and none when the value is not a list.',
  ['inputs', 'programs'], 'every data value and every binding',
  'The tests bind few values to few bindings each; capacity limits, non-lists and chains of transformers are hardly reached.',
  ['src/view_model.rs'], [('notification', 'ViewModel::react'), ('reaction table', 'Binding::react_value_change'), ('whole model', 'ViewModel::bind')])

P('C11', 'Reactions show, hide, type and tag exactly what they are about',
  'Showing a hidden node puts it among the shown children of its parent so that they keep the order of the document (also items of repetitions); hiding removes exactly it; showing a shown node or hiding a hidden '
  'one does nothing. Of a repetition exactly the items before the cursor are shown and the rest is hidden. A text reaction replaces exactly its span and has the text measured again; a tag reaction adds or removes '
  'its attribute; an attribute reaction replaces its span and the attribute gets the whole new text, a style is read anew (and kept if it cannot be read), an id replaces the previous id in the lookup, the source of an image '
  'reaches its picture. Before the first update an element with a condition is shown exactly if the condition is negative. Errors are only reported for what does not exist.',
  ['histories', 'programs'], 'every sequence of reactions on every tree',
  'The tests show and hide single nodes; orders between several conditions and repetitions of one parent are not reached.',
  ['src/view.rs', 'src/element.rs', 'src/controls/img.rs'],
  [('reactions on the tree', 'View::update_tree'), ('initial state', 'View::apply_default_bindings_state')],
  state=[('shown children', 'part of the document that is laid out', 'TaffyTree children'), ('definition', 'order of the document', 'Element::children'), ('identified', 'lookup by id', 'View::identified')],
  note='The order is decided under the invariant that the shown children are ordered like the document, which every edit is shown to keep.')

P('C12', 'Every update runs the same steps over the whole shown tree',
  'An update binds the new data, applies every resulting reaction, computes styles, lays out, computes positions and dispatches the input, in this order and each for the whole document; an error of any step ends it with that error. '
  'Styles are computed for each shown element once, parents first: every element starts from the initial layout (nothing of an earlier update remains), with the metrics of the viewport, the font size and colour of its parent, and the variables of '
  'its ancestors but not of its siblings. A text takes font and colour of its parent and is measured again when its font changes; a changed style always reaches the layout. Void elements have no styled content.',
  ['histories', 'inputs', 'programs'], 'every document, data and input, every sequence of updates',
  'The tests run one update over a handful of elements; that nothing of an earlier update remains and nothing leaks between siblings is about every tree and history.',
  ['src/view.rs', 'src/styles/default.rs', 'src/fonts.rs'], [('steps of an update', 'View::update'), ('styles of the tree', 'View::apply_styles')])

P('C13', 'Positions, clipping, opacity and scrolling add up along the tree',
  'After an update an element lies at its layout position plus that of its ancestors minus their scroll offsets; its opacity is the product along the path; it is clipped by the box of its nearest scrolled ancestor; its size and content size are those of the layout. '
  'Content that does not fit can be scrolled exactly by what does not fit in each direction and the offset always stays within that range; content that fits is never offset. '
  'Texts are measured with the fonts of the view, within the known size or available space.',
  ['inputs', 'programs', 'histories'], 'every laid out tree and every sequence of wheel events',
  'One test scrolls one element; nesting of scrolled and transparent elements is not reached.',
  ['src/view.rs', 'src/styles/scrolling.rs'],
  [('positions', 'View::compute_final_positions_and_clipping'), ('scroll range', 'Scrolling::ensure'), ('wheel', 'Scrolling::offset'), ('text measure', 'measure_text')],
  note='Numbers are treated as reals: rounding of f32 sums is outside of the statement.')

P('C14', 'A selector matches exactly the elements it describes',
  'A style applies to an element if one of its selectors matches it. A selector is matched from its last part: type, id, class (one of the words of the attribute), attribute (present, equal, one of the words, equal or followed by a dash, '
  'beginning, end, part), :root (the body) and state (:hover, :active, :focus, :checked are those of the element) are asked of the element at hand; `>` goes on with its parent and `+` with the shown sibling right before it. '
  'It matches when every part does. Matching never fails on a complete tree and changes nothing.',
  ['programs', 'histories'], 'every selector of the supported kinds, every element of every tree',
  'The tests match a dozen selectors with small documents.',
  ['src/css/matching.rs', 'src/view.rs'], [('parts of a selector', 'match_complex_selector'), ('list of selectors', 'match_style'), ('element state', 'PseudoClassMatcher for View')],
  note='Descendant and general sibling combinators are reported as unsupported by the code and never match; they are outside of the statement.')

P('C15', 'No style is dropped or fixed that could change with data or state',
  'When a view is built, every element keeps, in the order of the style sheet, every style that matches it or could come to match it: it is applied unconditionally only if it matches and neither state, bound attributes, '
  'bound classes or id, nor other elements can change that; it is dropped only if it does not match whatever the state and nothing it depends on is bound. Every element of the document is visited.',
  ['programs', 'histories'], 'every style sheet and document',
  'A wrongly fixed style shows only after the data or state changed in a particular way.',
  ['src/view.rs', 'src/css/matching.rs'], [('collection of styles', 'View::calculate_elements_stylesheet'), ('features of a selector', 'Style::has_*')])

P('C16', 'The cascade: initial, inherited, rules, inline, animated, moving values',
  'The style of an element is computed in a fixed order: it starts from the initial values, then takes the inherited ones from its parent, then the declarations of its matching styles in their order, then those of its own style attribute; '
  'a later declaration of a property wins, and a variable has the value declared last before its use. Animations and transitions that are not declared anymore are over and their values do not remain; the declared ones are played with the time of the update, '
  'animations over declarations and transitions over both, and then every computed value is applied once; one that cannot be applied does not hinder the others.',
  ['inputs', 'programs', 'histories'], 'every set of matching styles and declarations, every sequence of updates',
  'The tests apply one or two declarations each; the order of the sources and what remains of earlier updates are about all combinations.',
  ['src/styles/mod.rs'], [('cascade', 'Cascade::apply_styles'), ('block of declarations', 'Cascade::compute_declaration_block')],
  state=[('computed style', 'value of each layer of each property', 'ComputedStyle'), ('animators and transitions', 'survive an update', 'Element')])

P('C17', 'Values are computed from their parts: variables, functions, explicit values',
  'The parts of a value are computed in order: an explicit value is itself, a variable stands for the parts it was declared with, a function for exactly one value. An unknown variable or one that refers to itself, directly or through others, and '
  'an unknown function or one with the wrong arguments give one erroneous value at their place and leave the other parts as they are; computing always ends. rgb() and rgba() give the colour of their channels (numbers of 255, percentages), url() its path.',
  ['inputs', 'programs'], 'every declared value and every set of variables',
  'The tests have a few variables; cycles, missing ones and wrong arguments are not reached.',
  ['src/styles/mod.rs', 'src/styles/compute_function.rs'], [('parts', 'Cascade::compute_shorthand'), ('functions', 'Cascade::compute_function')])

P('C18', 'A shorthand sets exactly its longhands, in the order of CSS',
  'A shorthand with 1 to 4 values sets exactly the longhands it stands for, each to the value CSS gives it (sides clockwise from the top, corners from the top left, row before column, x before y, one value for both), in its own layer only, '
  'and removes the layers above that an overwritten declaration left. Every other property with one value sets itself. A form that is not supported sets nothing.',
  ['inputs'], 'every property, number and kinds of values, every layer',
  'The tests expand a few shorthands; a swapped side in one of some 50 forms passes all of them.',
  ['src/styles/compute_style.rs'], [('shorthands', 'Cascade::compute_style')])

P('C19', 'Every supported property sets exactly its own part of element and layout',
  'Applying a value of a supported property sets exactly the place of that property in the element or its layout to what the value means: keywords by name, lengths in px, em, rem and parts of the viewport, percentages, colours, numbers, times; '
  'a border width sets both element and layout. A value the property does not support changes nothing and is reported. Of a property without layers only the first value counts; a layer of a list is added when it is missing. '
  'Another animation name restarts that animation and another transition property forgets the range of the previous one.',
  ['inputs'], 'each of about 90 properties with each kind of value and each metrics of the viewport',
  'The tests apply some 20 properties with one value each.',
  ['src/styles/apply.rs', 'src/element.rs'], [('application', 'Cascade::apply'), ('units', 'parse_dimension_length'), ('layers', 'Element::get_background_mut, get_animator_mut, get_transition_mut')],
  note='Integer casts of channels are taken as truncation; em means the font size of the parent everywhere and currentcolor the colour of the parent, as the code documents by its Sizes.')

P('C20', 'Before any declaration, an element is initial except for what it inherits',
  'A new element knows its node and nothing else; before every computation of its style everything that styles set gets its initial value (nothing painted, black text of 16px, fully opaque, visible) and its layout starts from that of a block of automatic size. '
  'From its parent an element inherits exactly its colour, font family, size, style, weight and line height, and whether it takes pointer events. New backgrounds, animators and transitions start from their initial values, and the value an animation '
  'starts from where nothing is declared is the initial one of its property.',
  ['inputs', 'histories'], 'every element, parent and property',
  'An initial value that is off, or one of an earlier update that remains, shows only in the property concerned after particular updates.',
  ['src/styles/default.rs', 'src/styles/inherit.rs', 'src/styles/initial.rs', 'src/animation.rs', 'src/element.rs'],
  [('initial values', 'reset_element_style, create_element, default_layout, initial'), ('inheritance', 'inherit')],
  note='Initial values for animations are compared where they mean something to the properties that can be applied; box-sizing, font-size, font-weight, color, pointer-events and border colours are left out (their defaults are inherited or deviate).')

P('C21', 'Animations and transitions go through the values they declare, in time',
  'An animation makes no progress without duration or during its delay, time passes only while it runs, and its progress is the part of the current iteration, ending at 100% after its last one. Each animated property has a track with the value every keyframe declares for it; '
  'where the first or last frame declares none, it is the value the element has otherwise, or else the initial one. At a step a track shows exactly its frame, between two steps the value in between, after the last its last frame. '
  'In between, numbers, percentages, lengths of one unit (zero is of any) and colours move linearly, everything else switches half-way. A transition moves every layer of its property in the same way from the value shown to the declared one, '
  'holds the former during its delay, and starts again from what is shown when the declared value of any layer changes - and only then.',
  ['inputs', 'histories', 'schedules'], 'every animation, every sequence of time steps and declared values',
  'The tests play two animations at a few points in time.',
  ['src/animation.rs', 'src/styles/compute_animation_tracks.rs'],
  [('progress', 'Animator::update'), ('frames', 'Animator::play_track, animate'), ('tracks', 'Cascade::compute_animation_tracks'), ('transitions', 'Transition::play, Transition::init_after_style_applied')],
  note='Timing function, direction and fill mode are parsed but not played; progress is in steps of one percent.')

P('C22', 'A style sheet is read into exactly what it declares',
  'Reading a style sheet gives, in the order of the text, every rule with the selector and the declarations written in it and every @keyframes block with its name and steps; nothing is added, dropped or attributed elsewhere. A declaration keeps its property or variable name and its '
  'values: lists by commas, parts of a value by blanks, keywords, strings, numbers, percentages (as parts of 1), times in seconds, lengths with their unit, hexadecimal colours of 3, 4, 6 and 8 digits, variables and function calls with their arguments. '
  'A simple selector keeps its name, a combinator its kind, an attribute selector its name, operator and value, a pseudo-class its name; from and to are the steps 0% and 100%. Every property has a name of its own by which it is read. '
  'An inline style is read into its declarations in their order.',
  ['inputs'], 'every parse tree that the grammar allows',
  'The tests read one or two examples of each construct; which unit, digit, operator or property name is confused shows only in the combination concerned.',
  ['src/css/reader.rs', 'src/css/model.rs', 'src/styles/mod.rs'],
  [('sheets', 'read_css and what it gives pairs to'), ('values', 'read_value, read_color, ...'), ('names', 'PropertyKey')],
  note='Decided from the parse tree on; that a text is parsed into the tree it should be is another property.')

P('C23', 'A document is read into exactly the tree, texts and bindings written in it',
  'Reading a document gives its elements with their tags and all their children in order, every attribute in order as the binding it is written as - repetition (count, list), alias, tag, attribute, callback (names, values, $event), condition, plain value with or without quotes, none (empty text) - '
  'and every text with its bound and unbound parts in order. A binder keeps every part of its path and the name of every transformer, whatever white space is around. In a text the white space at the beginning of a line is one blank; lines without text at the end of the content of an element are left out, and so are empty parts. '
  'A script is read without its content. The condition and the repetition of an element are its first ones; a link with a href stands for the template of that name with all its other bindings; a text is simple if it is exactly one unbound part.',
  ['inputs'], 'every parse tree that the grammar allows',
  'The tests read some twenty small documents; which combination of lines, parts and forms of bindings goes wrong is about all of them.',
  ['src/html/reader.rs'],
  [('content', 'read_html, parse_content'), ('bindings', 'parse_element_bindings, parse_binder'), ('what an element stands for', 'Html::as_template_link, as_visibility, as_repeat')],
  note='Decided from the parse tree on; that a text is parsed into the tree it should be is another property. Names of closing tags are not compared by the code.')

P('C24', 'No text given to a reader stops it',
  'Whatever text is given as a style sheet, an inline style, a document or a template, reading it either fails with an error or gives a model: no step of a reader can panic. Every pair a reader takes from the parse tree without asking is there, '
  'every rule it takes for impossible is impossible, and every part of a text it cuts out is inside that text and starts and ends between characters, by the grammar that produced the tree.',
  ['inputs'], 'every text (as far as its nesting fits the stack)',
  'The tests read a few dozen well-formed texts; which pairs a rule may leave out shows only in texts nobody wrote yet.',
  ['src/css/reader.rs', 'src/html/reader.rs', 'src/css/css.pest', 'src/html/html.pest'],
  [('readers', 'read_css, read_inline_css, read_html and the functions they give pairs to'), ('grammars', 'css.pest, html.pest')],
  note='The parser that pest generates from a grammar is taken to give trees of that grammar; nesting deeper than the stack is out of reach.')

P('C25', 'Every text of the form of a style sheet is parsed into the parts it consists of',
  'The texts of style sheets and inline styles - rules with lists of complex selectors (types, *, ids, classes, attributes with any matcher and quoted or bare value, pseudo-classes with arguments, pseudo-elements, :root, combinators or white space between), declarations with comma lists of '
  'blank-separated values, keyframes - are parsed, and into exactly these parts: every value is what it looks like (colour, keyword, percentage, time, dimension with its whole unit, zero, number, string, variable, function with its arguments), every name, number, unit and string is whole, '
  'a compound selector ends where white space begins, white space of all kinds and comments (with any number of stars) may stand between the parts. A style sheet is parsed to its end or refused.',
  ['inputs'], 'every text of the described forms (functions and variables inside each other to a fixed depth)',
  'Ordered choice and repetition without backtracking make one text be cut up differently because of a neighbouring rule; the tests parse a few dozen texts.',
  ['src/css/css.pest', 'src/css/reader.rs'],
  [('grammar', 'css.pest, all rules'), ('start rules', 'read_css, read_inline_css')],
  note='The forms leave out what the grammar is known not to read: a last declaration without semicolon, units that begin with s, one-letter property names, url() without quotes, blanks inside attribute selectors, several steps of one keyframe. '
       'The meaning of pest (ordered choice, implicit white space, atomic rules) is taken from its documentation.')

P('C26', 'Every text of the form of a document is parsed into the parts it consists of',
  'The texts of documents - elements inside each other, void elements in any case and with or without a slash, scripts, texts with bound parts, comments between them - are parsed, and into exactly these parts: the tag is the whole name, an element is void exactly if its whole name is that of a void one, '
  'attributes stand in their order as what they are written as (repeat, alias, tag, bound, callback, condition, quoted, unquoted, empty) with whole names and values, a quoted value may hold escapes and brackets, a value without quotes ends at white space or the end of the tag, a text is cut at its binders and nowhere else, '
  'a binder has its path, its transformers and their arguments whatever white space is between. A document is parsed to its end or refused.',
  ['inputs'], 'every text of the described forms (elements inside each other to a fixed depth)',
  'Ordered choice and repetition without backtracking make one text be cut up differently because of a neighbouring rule; the tests parse some twenty documents.',
  ['src/html/html.pest', 'src/html/reader.rs'],
  [('grammar', 'html.pest, all rules'), ('start rule', 'read_html')],
  note='The forms leave out what the grammar does not read: texts with < or >, scripts with comments, attributes of scripts; white space at the beginning of a text or a quoted value is no part of it.')

P('C28', 'A document becomes elements whose every binder is registered for its value',
  'Rendering a document makes one element for each tag and text, in their order: its attributes are those written (the last of a name is known), a static id leads to its element, an inline style is its own, listeners have their arguments. '
  'Each binder of a text, attribute, tag, condition, repetition or argument is registered under the path of its value - relative to the names known at that place - with its element, its part and its transformers, and without taking away what else is registered there. '
  'A link to a template is replaced by it with the bindings of the link first, a missing template (or one that links to itself) is an error; a repeated child is rendered the given number of times in a row, each with its own item; the names given by an element or repetition are known inside of it and nowhere after. '
  'The children of an element are the same in the element and in the tree; void elements have none, an image has one that shows its source.',
  ['inputs'], 'every document, set of templates and set of names',
  'A binder registered for the wrong part, path or element shows up only when the value changes later, with nested repetitions, names that shadow others, or links inside of repetitions; the tests render a few small templates.',
  ['src/rendering.rs', 'src/view_model.rs', 'src/html/reader.rs'],
  [('renderer', 'rendering::Renderer::{render, render_node, render_text, render_element, render_bg_image}')],
  note='What a binder path means (Schema::field, index) is C29; which children are links, repeated or conditional is C23.')

P('C27', 'A view is made of the body, templates and styles of its document',
  'A view of a document shows its first body (an empty element if there is none) and knows the templates that stand before it by # and their id, each with its one child; its styles, resources, fonts and translator are those given. '
  'It begins with the bindings, data and ids of the rendered document, with the items known for lists, the pointer at the origin, nothing pressed, dragged or focused; its static styles are assigned first and then conditions are set as for no data. '
  'A text that is no document or style sheet, a missing template or a failing step is an error of the view, nothing stops it. Transformers and fonts given later are added without other changes; `duration` writes seconds as a duration and leaves all else as it is.',
  ['inputs'], 'every document, style sheet and set of given parts',
  'The tests build views of a few documents, all of them good and with the parts in one order.',
  ['src/view.rs', 'src/view_model.rs', 'src/rendering.rs'],
  [('construction', 'view::View::{from_html, fonts, pipe}, view_model::ViewModel::create, default_transformers')])

P('C29', 'Every bound path has a place in the data, with all that is there already',
  'The path of a binder is that of its first name, if an element around gave it, and else the name itself, followed by all other names; an item has its number at the end. '
  'Each bound path has a place in the data a view begins with: a number is an item of a list, any other name is one of an object; lists only grow and names that are there already keep their values, so that no order of binders takes the place of another away. `this` has no name of its own.',
  ['inputs'], 'every sequence of binders and set of names',
  'A place that gets lost shows only when another binder shares its beginning and its data change later; the tests define one or two paths.',
  ['src/view_model.rs'],
  [('data', 'view_model::{Binder::to_json_pointer, Schema::{field, index, define_value}}')],
  note='A value that is bound both as a list and as an object has the shape of the binder that comes last.')

P('C30', 'What the host gives to a view and reads from it goes through unchanged',
  'The body and the children of a fragment are the elements now in the tree, in their order; an id leads to its element or to none. The value of an element, its borders (those with a width), lengths (a part is one of the given base), texts (all parts in order; only the given part is replaced) are those that were set. '
  'An input has the time, viewport and all events it was given, in their order. The data of an event are written under the names of their fields and kinds. Errors of the readers and the layout are kept in the error of a view.',
  ['inputs'], 'every value given',
  'These small functions are used by each host and by no test but a few.',
  ['src/view.rs', 'src/element.rs', 'src/input.rs', 'src/error.rs', 'src/view_model.rs'],
  [('reading', 'view::{View::body, View::get_element_by_id, Fragment::children}, element::*, input::Input::*, error::ViewError::from, derived Serialize impls')])
