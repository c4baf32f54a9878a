# writes ../properties.jsonl (kept as a script only to keep the JSON readable)
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(obs) or ["View::update return value","View::body() fragments"],hook_needed=None)))
VM="src/view_model.rs"; V="src/view.rs"; R="src/rendering.rs"
p("C01","Displayed text and attributes reflect the latest model value",
 "After every update, each `{path}` placeholder in a displayed text, each `@attr` span and each `#attr` flag shows exactly what the most recently passed JSON value implies: literals keep their place, a missing path or null shows as empty text, booleans, numbers and strings print themselves, arrays print `[array]` and objects `{object}`, and a `#attr` is present (with its own name as value) iff its value is truthy (null, false, 0, \"\" and [] are not). The result does not depend on the values passed in earlier updates: a view that lived through any history shows the same as a fresh view updated once with the latest value. Literal text goes through the translator once, and never bound values or attributes.",
 ["histories","inputs"],"All templates with text/attribute/flag bindings and all finite sequences of JSON values, including changes of type, missing and re-appearing keys, nested objects and array growth/shrinkage.",
 "Binding is incremental (a diff against the previous value); tests bind one or two fixed values, while staleness needs particular sequences (type change, shrink then grow, unchanged sibling).",
 [VM,V,R,"src/value.rs"],[("incremental bind of changed paths","ViewModel::bind / bind_value"),("reactions applied to elements","View::update_tree"),("placeholders registered per path","Renderer::render_text / render_element")],
 [("last bound value","what the next value is compared with","ViewModel.model")])
p("C02","Conditional elements are displayed exactly when true, in template order",
 "After every update, an element with `?=\"{x}\"` is displayed iff the current value of x is truthy and one with `!=\"{x}\"` iff it is falsy (a missing path counts as falsy), and an element inside a hidden one is not displayed. Displayed siblings always stand in the order of the template, whatever sequence of hiding and showing came before. An element that reappears shows the current value, not the one from when it was hidden.",
 ["histories","inputs"],"All sibling lists mixing plain, conditional and repeated elements and all histories of toggles.",
 "Re-insertion computes an index from currently visible siblings; tests toggle a couple of fixed patterns, the failing patterns depend on which neighbours are hidden at that moment.",
 [V,VM,R],[("re-attachment at an index derived from visible siblings","View::update_tree Reaction::Reattach"),("initially hidden elements","View::apply_default_bindings_state")])
p("C03","A repeated element mirrors its array",
 "For `*item=\"N {list}\"`, after every update exactly min(N, length of list) copies are displayed, the i-th copy showing the i-th item of the current array, contiguous and in array order at the place of the repeated element among its siblings; a missing or non-array value displays none. This holds for repeats beside other repeats and conditional siblings, for nested repeats, for arrays which change length, type or items in any order, and when a pipe changes the array's length. Items beyond N are ignored without affecting anything else.",
 ["histories","inputs"],"All repeat layouts (several repeats in a parent, nesting, templates, pipes) and all histories of arrays, including empty, null, longer than capacity, shrink-then-grow.",
 "Tests use one or two arrays; shrink/grow sequences, equal-length replacement and nested shrinkage are only reached by histories.",
 [V,VM,R],[("count change reacts with show/hide of copies","ViewModel::bind_value Array arm, Reaction::Repeat"),("copies rendered up to capacity","Renderer::render_element as_repeat")])
p("C04","Names resolve lexically: repeat items, aliases and templates",
 "A name in a binding means the innermost enclosing repeat item or alias (`+name`) of that name, and otherwise the top-level field; names introduced by an element are visible in that element and its descendants only and never leak to siblings or following elements. An alias path and a repeated list are themselves resolved in the enclosing scope. A `<link href=\"#id\">` stands for the template's root element carrying the link's attributes and bindings, with the names visible at the link, and different uses of one template are independent of each other.",
 ["programs","inputs"],"All nestings of repeats, aliases and template links, including shadowing, same name used twice and sibling uses.",
 "Scoping errors show only for particular nestings and name clashes; tests contain a handful of small templates without shadowing.",
 [R,VM],[("scope map saved and restored around children","Renderer::render_element locals"),("path resolution","Binder::to_json_pointer")])
p("C05","Pipes transform every bound value, left to right",
 "Wherever a binding `{path|a|b}` appears (text, attribute, flag, condition, repeat, listener argument) its effect is that of applying a, then b, to the current value at path, on every change of that value including changes deep inside it; a pipe that is not registered leaves the value unchanged. Pipes see the value and never alter the model: other bindings of the same path show the unpiped value. The built-in `duration` prints numbers of seconds which are representable as a duration and leaves everything else as it is.",
 ["inputs","histories","programs"],"All binding kinds, pipe chains and value histories.",
 "Tests apply one pipe to one text; other binding kinds, nested changes and chains are not reached.",
 [VM,"src/html/reader.rs"],[("pipe application","ViewModel::react, ViewModel::emit"),("pipe parsing","parse_binder"),("built-in pipe","default_transformers")])
p("C06","Updating again with the same value changes nothing",
 "Repeating an update with an equal value, no elapsed time and no input events changes nothing observable: same displayed elements, attributes, styles, geometry, element ids, and no messages (except that every update counts as a mouse move in place, so `onmousemove`, or `ondragover` during a drag, of hovered elements may be emitted), once the state has settled (pointer state affects style in the next frame). The displayed elements, styles and geometry of a view without animations or input are those of a fresh view updated once with the latest value.",
 ["histories","inputs"],"All documents and all histories; each step may be repeated any number of times.",
 "Needs comparing whole views after arbitrary histories; tests look at single fields after one update.",
 [V,VM,"src/styles/mod.rs","src/animation.rs"],[("styles recomputed from reset state every frame","reset_element_style, Cascade::apply_styles"),("layout cache invalidated on change","View::apply_styles set_style / mark_dirty")])
p("C07","Hover follows the pointer; enter and leave events pair up",
 "After every update the hovered elements are exactly the displayed, visible elements with pointer-events auto whose box contains the latest mouse position (left/top edges inside, right/bottom outside), even if only the layout moved under a resting mouse. `onmouseenter` is emitted exactly when an element becomes hovered and `onmouseleave` exactly when it stops being so (also when it is hidden or removed), so they strictly alternate; `onmousemove` is emitted for every hovered element on each mouse move; an update whose events contain no mouse move counts as one move in place. `:hover` rules follow this state from the next frame on.",
 ["histories","schedules"],"All layouts and all sequences of mouse moves, model changes that show, hide or move elements, and style changes.",
 "Pairing is a property of whole histories; tests contain single moves.",
 [VM,V],[("hit testing","calculate_mouse_hovers, hovers"),("difference of previous and current hover lists","handle_elements_input MouseMove"),("synthetic move each frame","handle_output")],
 [("elements under mouse","hovered elements in tree order","ViewModel.elements_under_mouse")])
p("C08","Press, click and active state follow the button lifecycle",
 "On button down every hovered element gets `onmousedown` and becomes active; it stays active until the next button up, at which nothing remains active. On button up every hovered element gets `onmouseup`; a left release emits `onclick` exactly on hovered elements which are active (pressed since the last release), a right release emits `oncontextmenu` on hovered ones, and neither is emitted while something is dragged.",
 ["histories","schedules"],"All sequences of moves, presses and releases of both buttons over all layouts, within one batch or spread over updates.",
 "Only sequences such as press-here-release-there, two presses, release without press or press followed by removal distinguish the behaviours.",
 [VM],[("press list","handle_elements_input MouseButtonDown/Up")],[("elements in action","pressed elements","ViewModel.elements_in_action")])
p("C09","At most one element has focus and only it receives the keyboard",
 "Only elements with an `oninput` listener take focus, by a button press while hovered; at most one element is focused, `onfocus` and `onblur` strictly alternate over it, a press outside of the focused element or its removal from the view blurs it, and pressing it again emits neither. `onkeydown`, `onkeyup` and `oninput` are emitted exactly for key and character events while an element is focused and only by that element, in event order; without focus they have no effect. If several pressed elements can take focus, the outermost ends up focused.",
 ["histories","schedules"],"All sequences of presses, key events, removals and re-appearances of focusable elements.",
 "Tests cover one focus change; removal, nesting and repeated presses need histories.",
 [VM],[("focus switch on press","handle_elements_input MouseButtonDown"),("blur of removed element","handle_output, is_attached"),("keyboard routing","KeyDown/KeyUp/Char arms")],[("focus","focused element","ViewModel.focus")])
p("C10","Every drag starts on a draggable element and ends exactly once",
 "A drag starts (`ondragstart`) only while nothing else is dragged, by a left press on a hovered element whose draggable attribute is \"true\" (the innermost one, last in tree order, if several are hovered), and ends at the next release of a button with exactly one `ondragend` on its source. While it lasts, hovered elements get `ondragenter`/`ondragleave` together with their enter/leave and `ondragover` on each move, and no `onclick` or `oncontextmenu` occurs. On release the innermost (last in tree order) hovered element with an `ondrop` listener gets exactly one `ondrop` before the `ondragend`; without such an element there is none; outside of drags no drag event is ever emitted.",
 ["histories","schedules"],"All sequences of press/move/release over draggable and drop-target elements, including targets and sources that disappear meanwhile.",
 "Tests do not cover releases outside of targets, nested targets or a second press; the lifecycle is a history property.",
 [VM],[("drag context","ViewModel.drag, DragContext"),("drop on release","handle_elements_input MouseButtonUp")],[("drag","source of the current drag","ViewModel.drag")])
p("C11","Messages carry the handler key and the current arguments",
 "A listener `^onevent=\"A b c\"` emits for each occurrence exactly one message: the string A if it has only a key, {A: b} with one further argument and {A: [b, c, ...]} with more. Arguments appear in order: bare words as strings, `{path|pipe}` as the piped value of the path in the value most recently passed to update (null if missing, the item of its own copy inside repeats), `$event` as an object with the event data (mouse position, key or char) and the target's position, size and state at that moment. Elements without a listener for the event emit nothing.",
 ["inputs","histories"],"All listener shapes in all scopes and all value histories before the event.",
 "Stale arguments appear only if the model changed in particular ways between binding and event; tests emit after a single bind.",
 [VM,R],[("message construction","ViewModel::emit"),("argument paths resolved at load","Renderer::render_element Callback")])
p("C12","Input events are processed in order; batching does not matter",
 "Messages appear in the order of the input events, and for one event in a fixed order: leaves before enters, and inner or later elements before outer or earlier ones. Passing several events in one update gives the same messages and final state as passing them one per update with the same value and no elapsed time, provided nothing on screen moves meanwhile, except for the additional `onmousemove`/`ondragover` of updates without a mouse move. Every event reports the mouse position as of that event.",
 ["schedules","histories"],"All event sequences and all ways to split them into updates.",
 "Tests send one event per update; order inside a batch and positions of intermediate events are not observed.",
 [VM],[("event loop","handle_elements_input"),("reverse tree order","elements_under_mouse iteration")])
p("C13","Input capture and pointer shape follow the hovered elements",
 "After every update the output says that input is captured iff some displayed node is under the mouse, something is dragged, an element has focus or a press is in progress. The pointer shape is that of the last element in tree order under the mouse with a cursor other than auto, and auto otherwise. Elements that are hidden by `visibility: hidden` or have `pointer-events: none` (inherited by descendants), with their own text and image, are transparent for this.",
 ["histories","inputs"],"All layouts, style assignments and event sequences.",
 "Depends on combinations of state (drag, focus, press, hover) over time and on styles; tests do not combine them.",
 [VM,"src/styles/inherit.rs","src/styles/apply.rs"],[("capture flag and pointer","ViewModel::handle_output"),("pointer-events and visibility","Cascade::apply")])
p("C14","The last matching declaration wins and nothing else remains",
 "The value of a property of an element is that of the last declaration for it among all rules that currently match, in stylesheet order without specificity, overridden by the inline style; properties without such a declaration have their inherited or initial value. A declaration replaces the whole list of values (as of several backgrounds). When a rule stops matching or an inline style changes, nothing of it remains, in the element's appearance or in layout parameters.",
 ["inputs","histories"],"All stylesheets over the supported properties, all inline styles, and all histories of attribute changes.",
 "Residue needs a property set in one frame and unset in a later one; tests set properties once.",
 ["src/styles/mod.rs","src/styles/apply.rs","src/styles/default.rs",V],[("cascade in source order","Cascade::apply_styles"),("reset before cascade","reset_element_style, default_layout")])
p("C15","Selectors match exactly the elements they describe",
 "A rule applies to an element iff one of its comma-separated selectors matches: compound selectors require all their parts (`*`, tag, `#id`, `.class` among space-separated classes, attribute presence and the operators = ~= |= ^= $= *=, and the pseudo-classes :hover :active :focus), `A > B` requires the parent to match A, and `A + B` the immediately preceding displayed sibling. Any chain of such parts is matched from right to left. An unknown pseudo-class never matches, and an unsupported selector matches nothing without affecting other rules or other selectors in its list.",
 ["inputs","programs"],"All selectors of the supported grammar and all trees, including lists, long chains, first children and multi-class attributes.",
 "The number of selector/tree combinations; tests sample a few.",
 ["src/css/matching.rs","src/css/reader.rs"],[("matching","match_style, match_complex_selector, match_simple_selector"),("selector parsing","read_css")])
p("C16","Rules are re-evaluated whenever what they depend on changes",
 "In every frame the set of rules applied to an element equals the set matching its current attributes, ids, classes, pseudo-class state (as of the end of the previous frame), parent and displayed preceding siblings, whatever they were when the view was loaded. This holds for rules with attribute, id, class and pseudo-class selectors on the element itself and on elements before a combinator. It does not matter whether an attribute was written statically, bound with `@` or toggled with `#`.",
 ["histories","programs"],"All stylesheets, bindings and histories of attribute and visibility changes.",
 "Matching is split into load-time and per-frame parts; a wrong classification shows only when an attribute changes later in a particular rule shape.",
 [V,"src/css/matching.rs"],[("static/dynamic split at load","View::calculate_elements_stylesheet"),("dynamic match per frame","Cascade::apply_styles ElementStyle::Dynamic")])
p("C17","Inherited properties and variables flow from parents to descendants",
 "Color, font family, size, style and weight, and pointer-events of an element or text without own declaration equal those of its parent in the same frame, at any depth, and no other property is inherited. A variable `--x` has in an element the last value declared for it by the rules matching that element up to that point, else that of the nearest ancestor declaring it; siblings do not see each other's variables, and `var()` substitutes its tokens, also through other variables. An undefined or cyclic variable leaves the properties declared with it undeclared and affects nothing else.",
 ["inputs","programs","histories"],"All trees and stylesheets with nested declarations and variable chains, and later changes of an ancestor's rules.",
 "Scoping across siblings and depth and later changes are not reached by the few fixed tests.",
 ["src/styles/inherit.rs","src/styles/mod.rs","src/styles/compute_style.rs",V],[("inheritance","inherit"),("variables passed down by value","View::apply_styles, Cascade::compute_definition")])
p("C18","Shorthands equal their longhands",
 "A shorthand declaration (margin, padding, border, border-top/right/bottom/left, border-width, border-color, border-radius, overflow, inset, gap, background, background-position, transition, animation) with as many values as CSS defines (margin, padding, border-width, border-color, border-radius one to four, overflow, gap and background-position one or two, inset one or four) has the same effect as the longhand declarations it stands for written at the same place, including values from variables and its interplay with longhands before and after it. `background: <color>` also removes an image, and `border: none` means zero width. `gap: a b` is row gap a and column gap b, as in CSS.",
 ["inputs","programs"],"All shorthands, arities and value kinds, and all interleavings with longhands.",
 "Tests check a few shorthands; each arm of the expansion table is independent.",
 ["src/styles/compute_style.rs"],[("expansion table","Cascade::compute_style")])
p("C19","Lengths and keywords resolve to the declared quantity",
 "px is itself, rem is 16px, em is relative to the parent's font size, vw/vh/vmin/vmax are hundredths of the current viewport (also after it changes), percentages stay relative, zero needs no unit, and auto is accepted where CSS has it; this holds for every length property and for negative and fractional values. Colors are accepted as names, #rrggbb, #rrggbbaa and rgb()/rgba(). An unsupported or invalid value leaves its property undeclared and other properties and elements intact.",
 ["inputs","histories"],"All length properties, units, font sizes and viewports, including viewport changes between frames.",
 "The product of properties, units and contexts; tests check a few pairs.",
 ["src/styles/apply.rs","src/css/reader.rs","src/styles/compute_function.rs"],[("unit resolution","parse_dimension_length, length, dimension, lengthp"),("colour parsing","read_color, compute_function")])
p("C20","Animations follow their keyframes over time",
 "While a running animation is declared, a property with keyframes has at progress p (elapsed time minus delay, over duration, in whole percent) the value of the keyframe at p or the linear interpolation between the two neighbouring keyframes; missing 0% or 100% keyframes are filled with the element's own or initial value. It repeats for the declared number of iterations or forever, keeps the last frame afterwards, has no effect before its delay, and stands still while paused. It starts from the beginning when it is declared (again) or its name changes, and stops having effect when it is no longer declared; such changes of declaration take effect one frame later.",
 ["histories","inputs"],"All keyframe sets, durations, delays, iteration counts and all partitions of time into frames, including large steps.",
 "Progress depends on the whole history of frame times and declarations; tests sample a few instants.",
 ["src/animation.rs","src/styles/compute_animation_tracks.rs","src/styles/mod.rs"],[("progress","Animator::update"),("interpolation","Animator::play_track, animate"),("tracks","compute_animation_tracks")],
 [("animator time","elapsed time of the animation","Animator.time")])
p("C21","Transitions run from the current value to the new one",
 "When the value of a transitioned property changes, the displayed value holds during the delay, then moves linearly from the value displayed at the change to the new value within the duration, reaches it exactly and stays; a change in mid-flight restarts from the value displayed at that moment. Other properties, a first appearance of the property and zero durations change at once. Values in between never leave the range between the two ends.",
 ["histories","inputs"],"All histories of value changes (by class, hover or inline style), durations, delays and frame times.",
 "Depends on interleavings of changes and frame times; tests have one change and fixed frames.",
 ["src/animation.rs","src/styles/mod.rs"],[("transition range and restart","Transition::play"),("first value","Transition::init_after_style_applied")],
 [("range","ends of the current transition","Transition.range")])
p("C22","Absolute geometry, opacity and clipping compose along the tree",
 "After every update an element's position is its parent's position plus its own offset in the layout, its size is that of the layout for the current styles, texts and font (as of a fresh layout), block children are stacked without gaps inside the padding of their parent in template order, and the opacity is the product of the own opacities along its ancestors. An element whose content exceeds it in an axis is scrollable by exactly the excess in that axis (zero in the other), and the clipping box of an element is that of its nearest scrollable ancestor. All of these stay up to date when texts, styles, visibility or the array sizes change.",
 ["histories","inputs"],"All trees of sized elements, paddings, borders, insets and texts, and all histories of changes.",
 "Layout results are cached between frames; staleness needs a change after a first layout of a particular kind.",
 [V,"src/styles/scrolling.rs"],[("final positions","View::compute_final_positions_and_clipping"),("scrolling","Scrolling::ensure"),("cache invalidation","View::apply_styles, Reaction::Type mark_dirty")])
p("C23","An element is found by exactly its current identifiers",
 "Looking up an id returns the element whose id attribute currently has that value, whether written statically or bound with `@id`, and nothing for ids which no element has, in particular former values of bound ids. If several elements have it, one of the displayed ones is returned; copies of a repeat which are not displayed keep the id they had last.",
 ["histories","inputs"],"All histories of bound ids (unique at each moment), in plain, conditional and repeated elements.",
 "Former ids matter only after changes; tests look up after a single bind.",
 [V,R],[("id index","View.identified, Reaction::Bind id, Renderer.static_id")],[("identified","id to element map","View.identified")],["View::get_element_by_id"])
p("C24","Loading and updating never panic, hang or fail",
 "Loading any document and stylesheet text either succeeds or returns an error, and updating a loaded view with any JSON value (of whatever types), any elapsed time and any events succeeds in bounded time, without panic or error, as long as nesting depth and repeat counts are of a reasonable size. Values of unexpected type, unknown properties, unsupported values, unknown pipes and unknown pseudo-classes only make the affected binding or declaration ineffective (an invalid value leaves its property undeclared): the rest of the document and stylesheet works as if they were not there.",
 ["inputs","histories"],"All documents, stylesheets, values, times and events.",
 "Totality over unbounded inputs; tests use well-formed, well-typed samples.",
 [V,VM,"src/animation.rs","src/styles/mod.rs","src/html/reader.rs","src/css/reader.rs"],[("error handling instead of unwrap","everywhere"),("bounded loops","Animator::update, compute_definition")],(),["View::from_html","View::update"])
p("C25","Views are deterministic and independent",
 "The outcome of a sequence of updates (displayed tree, styles, geometry, messages, captured flag, pointer) is a function of the document, the stylesheet and the inputs alone: running it again, or interleaved with updates of other views of the same or another document, gives the same result. Elements that are equal copies (of a repeat or a template) keep separate state: hover, press, focus, animation and transition of one do not affect another.",
 ["histories","schedules","configurations"],"All documents and all interleavings of several views.",
 "Needs repeated and interleaved executions; iteration order of hash maps differs between runs.",
 [V,VM,"src/styles/mod.rs"],[("state owned by the view and the element","View, Element")])
p("C26","How documents and stylesheets are formatted does not change what they mean",
 "Two documents and stylesheets which differ only in formatting load both and behave the same (tree, texts, styles, messages). Formatting of a document is: whitespace (spaces, tabs, line breaks of either kind) and comments between tags, whitespace within tags, around `=`, within the braces of bindings and around them in conditions, flags, aliases, repeats and arguments of callbacks; a line break in a text with the whitespace around it stands for one space, and for nothing at the end of an element; also quotes around plain attribute values, `=\"\"` of empty attributes and the slash of void elements. Formatting of a stylesheet or inline style is: any amount of whitespace and comments between rules, around `{`, `}`, `:`, `;`, `,`, `>` and `+`, after `(` and before `)`, and (at least one) between the values of a declaration; also the case of hexadecimal digits, zeros which do not change a number, and the place of `@keyframes` among the rules. Classes may be separated by any whitespace.",
 ["inputs","configurations"],"All documents and stylesheets, and all ways to write them.",
 "Tests use a few documents in one layout of their author; the possible gaps and fillings multiply.",
 ["src/html/html.pest","src/css/css.pest","src/html/reader.rs","src/css/reader.rs","src/css/matching.rs"],[("implicit whitespace and comments of grammars","html.pest, css.pest"),("line breaks of texts","parse_content"),("words of class attributes","match_class")])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("../properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
