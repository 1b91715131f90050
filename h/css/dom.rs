use super::*;
include!("../../vh/src/api.rs");
include!("../common/pdfread.rs");
include!("../common/web.rs");

fn letter() -> u8 {
    let b = v::u8();
    v::assume(b.is_ascii_alphabetic());
    b
}
/// The rectangle of box k, which must be painted once.
const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
const BODY: &str = "<!doctype html><body style='margin:0'>";

/// A length with any unit of the given number of letters: px and em count, anything else makes the declaration invalid.
#[no_mangle]
unsafe extern "C" fn vh_css_units() {
    let letters = v::param("letters", 2) as usize;
    let n = num_of(1, false);
    let unit: Vec<u8> = (0..letters).map(|_| letter()).collect();
    let mut css = Css::new().s(&bg(1)).s("font-size:20px;width:7px;width:").n(&n);
    css.0.extend_from_slice(&unit);
    let doc = page(&format!("{}<p style=@0></p>", BODY), vec![("@0", css.s(";height:5px").0)]);
    let items = painted(&doc);
    let r = the(&items, 1);
    let is = |name: &[u8]| letters == 2 && fork(unit[0] | 32 == name[0]) && fork(unit[1] | 32 == name[1]);
    let expected = if is(b"px") {
        v::cover(1);
        n.v
    } else if is(b"em") {
        v::cover(2);
        20. * n.v
    } else if letters == 0 && fork(n.v == 0.) {
        v::cover(3);
        0.
    } else {
        v::cover(4);
        7.
    };
    v::check(r[2] == expected, "a length counts if its unit is known, and the declaration is ignored otherwise");
    v::check(r[3] == 5., "other declarations are not affected");
    v::observe_f32(r[2]);
}
/// What follows a valid value before the next declaration.
#[no_mangle]
unsafe extern "C" fn vh_css_trailing() {
    const PROPERTIES: [(&str, &str, bool); 10] = [
        ("width", "9px", false), ("margin", "9px", true), ("font-size", "9px", false), ("display", "block", false), ("border-top", "solid 9px", false),
        ("background", "red", false), ("border-style", "solid", true), ("position", "static", false), ("width", "inherit", false), ("nothing", "9px", false),
    ];
    const AFTER: [&str; 9] = [" nope", " / 2", " (3)", " 'x'", " !important nope", "!nope", " ,9px", " ]", " 9px 9px 9px 9px 9px"];
    let (name, value, _) = PROPERTIES[v::pick(10)];
    let after = AFTER[v::pick(9)];
    let n = num_of(2, false);
    let css = Css::new().s(&bg(1)).px("width", &n).s(name).s(":").s(value).s(after).s(";height:5px");
    let doc = page(&format!("{}<p style=@0></p>", BODY), vec![("@0", css.0)]);
    let items = painted(&doc);
    let r = the(&items, 1);
    v::check(r[0] == 0. && r[1] == 0. && r[2] == n.v && r[3] == 5., "a declaration with anything after its value is ignored, and only that one");
    v::observe_f32(r[2]);
    v::cover(1);
}

/// Values of either sign and any unit, for properties that are restricted to zero or more and for those that are not.
#[no_mangle]
unsafe extern "C" fn vh_css_ranges() {
    const NAMES: [&str; 11] = ["width", "height", "padding-left", "padding", "border-left-width", "border-width", "font-size", "margin-left", "left", "padding-bottom", "border-top"];
    let which = if v::param("which", 99) < 99 { v::param("which", 0) as usize } else { v::pick(11) };
    let negative = v::pick(2) == 1;
    let unit = v::pick(4);
    let mut n = num_of(v::param("digits", 1) as usize, negative);
    if unit == 2 {
        let x = [0, 25, 150][v::pick(3)];
        n = constant(if negative { -x } else { x })
    }
    v::assume(!(which == 6 && unit == 2)); // percentages of font sizes are not supported
    let mut css = Css::new().s(&bg(1)).s("font-size:20px;width:100px;height:50px;position:relative;border-style:solid;border-width:0px;");
    css = css.s(NAMES[which]).s(if which == 10 { ":solid 7px;" } else { ":7px;" });
    css = css.s(NAMES[which]).s(":").n(&n).s(["px", "em", "%", ""][unit]);
    css = css.s(if which == 10 { " solid" } else { "" });
    let kid = Css::new().s(&bg(2)).s("height:10px;width:1em");
    let doc = page(&format!("{}<div style='width:600px;height:600px'><div style=@0><div style=@1></div></div></div>", BODY), vec![("@0", css.0), ("@1", kid.0)]);
    let items = painted(&doc);
    let (r, k) = (the(&items, 1), the(&items, 2));
    let width = which == 4 || which == 5 || which == 10;
    let valid = (which == 7 || which == 8 || !negative || fork(n.v == 0.)) && if unit == 2 { !width } else { unit < 2 || fork(n.v == 0.) };
    let value = if valid {
        v::cover(1);
        n.v * [1., if which == 6 { 16. } else { 20. }, 6., 1.][unit]
    } else {
        v::cover(2);
        7.
    };
    let i = which;
    let x = if i == 7 || i == 8 { value } else { 0. };
    let left = if i >= 2 && i <= 5 { value } else { 0. };
    let top = if i == 3 || i == 5 || i == 10 { value } else { 0. };
    let more = if i == 9 { value } else { 0. };
    let right = if i == 3 || i == 5 { value } else { 0. };
    let w = if i == 0 { value } else { 100. };
    let h = if i == 1 { value } else { 50. };
    v::check(r == [x, 0., left + w + right, top + h + more + if i == 10 { 0. } else { top }], "the box has the size and place of the last valid declaration");
    v::check(k == [x + left, top, if i == 6 { value } else { 20. }, 10.], "its content has the size and place of the last valid declaration");
    v::observe_f32(k[0]);
}

fn sheet(n: usize) -> String {
    let mut html = "<!doctype html>".to_string();
    for i in 0..n {
        html.push_str(&format!("<style>{}</style>", SHEETS[i]));
    }
    html
}
const SHEETS: [&str; 3] = ["@s", "@t", "@u"];
/// Rules of any specificity, order and importance, in one or two style sheets, and a style attribute.
#[no_mangle]
unsafe extern "C" fn vh_css_cascade() {
    let n = v::param("rules", 2) as usize;
    // Specificity of the most specific selector that matches <p class=a id=i>
    const SELECTORS: [(&str, Option<u32>); 11] = [
        ("*", Some(0)), ("p", Some(1)), (".a", Some(10)), ("#i", Some(100)), ("body p", Some(2)), (".b", None), ("p.a", Some(11)), ("p,#i", Some(100)),
        (".a , #j", Some(10)), ("#j p, .a.b", None), ("html>body>p:not(#j)", Some(103)),
    ];
    let few = v::param("few", 0) as usize;
    let split = v::pick(n + 1);
    let mut sheets = [Vec::new(), Vec::new()];
    // (importance, style attribute, specificity), value
    let mut best: Option<((bool, bool, u32), f32)> = None;
    let mut consider = |rank: (bool, bool, u32), v: f32| {
        if best.map_or(true, |b| rank >= b.0) {
            best = Some((rank, v))
        }
    };
    for i in 0..n {
        let (selector, specificity) = SELECTORS[v::pick(if few > 0 { few } else { 11 })];
        let x = num_of(2, false);
        let important = v::pick(2) == 1;
        let c = Css::new().s(selector).s("{width:").n(&x).s("px").s(if important { "!important}" } else { "}" });
        sheets[(i >= split) as usize].extend(c.0);
        if let Some(s) = specificity {
            consider((important, false, s), x.v)
        }
    }
    let mut css = Css::new().s(&bg(1)).s("height:5px;");
    let attr = v::pick(3);
    if attr > 0 {
        let x = num_of(2, false);
        css = css.s("width:").n(&x).s(if attr == 1 { "px" } else { "px ! Important" });
        consider((attr == 2, true, 0), x.v)
    }
    let [s, t] = sheets;
    let doc = page(&(sheet(2) + BODY + "<p class=a id=i style=@0></p>"), vec![("@s", s), ("@t", t), ("@0", css.0)]);
    let r = the(&painted(&doc), 1);
    v::check(r[2] == best.map_or(600., |b| b.1), "the declaration that wins is the most important, most specific, last one");
    v::observe_f32(r[2]);
    v::cover(match best {
        None => 0,
        Some(((false, false, _), _)) => 1,
        Some(((false, true, _), _)) => 2,
        Some(((true, false, _), _)) => 3,
        Some(((true, true, _), _)) => 4,
    });
}
/// Declarations of the same and of overlapping properties in one block.
#[no_mangle]
unsafe extern "C" fn vh_css_block() {
    let n = v::param("declarations", 3) as usize;
    let attr = v::pick(2) == 1;
    let mut css = Css::new();
    // margin-left, padding-left, width, font-size
    let mut best: [Option<(bool, f32)>; 4] = [None; 4];
    for _ in 0..n {
        let which = v::pick(8);
        let important = v::pick(2) == 1;
        let x = num_of(1, false);
        css = css.s(["margin-left", "margin", "padding-left", "padding", "width", "margin-top", "width", "font-size"][which]).s(":");
        let mut value = x.v;
        if which == 6 {
            css = css.s("1px 1px")
        } else if which < 4 || which == 5 || which == 7 || v::pick(2) == 0 {
            css = css.n(&x).s("px")
        } else {
            css = css.s("initial");
            value = -1.
        }
        css = css.s(if important { " !important;" } else { ";" });
        let target = match which {
            0 | 1 => 0,
            2 | 3 => 1,
            4 => 2,
            7 => 3,
            _ => continue,
        };
        if best[target].map_or(true, |b| important >= b.0) {
            best[target] = Some((important, value))
        }
    }
    let rest = Css::new().s(&bg(1)).s("height:5px");
    let kid = Css::new().s(&bg(2)).s("height:1px");
    let em = Css::new().s(&bg(3)).s("height:1px;width:1em;display:block");
    let doc = if attr {
        page(&format!("{}<p style=@0><b style=@1><i style=@2></p>", BODY), vec![("@0", css.s(&bg(1)).s("height:5px").0), ("@1", kid.s(";display:block").0), ("@2", em.0)])
    } else {
        let s = Css::new().s("p{");
        page(&(sheet(1) + BODY + "<p style=@0><b style=@1><i style=@2></p>"), vec![("@s", [s.0, css.0, b"}".to_vec()].concat()), ("@0", rest.0), ("@1", kid.s(";display:block").0), ("@2", em.0)])
    };
    let items = painted(&doc);
    let (p, b) = (the(&items, 1), the(&items, 2));
    let margin = best[0].map_or(0., |b| b.1);
    let padding = best[1].map_or(0., |b| b.1);
    v::check(the(&items, 3)[2] == best[3].map_or(16., |b| b.1), "the last important font-size declaration, or else the last one, wins");
    v::check(p[0] == margin, "the last important margin declaration, or else the last one, wins");
    v::check(b[0] == margin + padding, "the last important padding declaration, or else the last one, wins");
    match best[2] {
        Some((_, w)) if fork(w >= 0.) => {
            v::check(b[2] == w, "the last important width declaration, or else the last one, wins");
            v::cover(2);
        }
        _ => v::check(fork(b[0] + b[2] <= 600.) && fork(b[2] > 500.), "the width is auto"),
    }
    v::observe_f32(p[0]);
    v::cover(1);
}
/// More rules than the short lists above: those of equal specificity keep their order.
#[no_mangle]
unsafe extern "C" fn vh_css_many_rules() {
    let n = v::param("rules", 24) as usize;
    let (m, d) = (1 + v::pick(2), 2 + v::pick(8));
    // Each specificity has its own property, so that the order shows within each.
    const RULES: [&str; 3] = ["p{width:", ".a{padding-left:", "#i{height:"];
    let odd = v::pick(n);
    let mut css = Css::new();
    let mut last = [600., 0., 0.];
    for k in 0..n {
        let which = (k * m + k / d) % 3;
        last[which] = if k == odd {
            let x = num_of(2, false);
            css = css.s(RULES[which]).n(&x).s("px}");
            x.v
        } else {
            css = css.s(RULES[which]).s(&(k + 100).to_string()).s("px}");
            (k + 100) as f32
        }
    }
    let doc = page(&(sheet(1) + BODY + "<p class=a id=i style=@0></p>"), vec![("@s", css.0), ("@0", Css::new().s(&bg(1)).0)]);
    let r = the(&painted(&doc), 1);
    v::check(r[2] == last[0] + last[1], "the last rules of two specificities apply");
    v::check(r[3] == last[2], "the last rule of the third specificity applies");
    v::observe_f32(r[2]);
    v::cover(1);
}
/// User agent rules lose against author rules unless they are important.
#[no_mangle]
unsafe extern "C" fn vh_css_origin() {
    const ELEMENTS: [(&str, &str, usize); 8] = [
        // default: 0 = none, 1 = inline, 2 = block, 3 = none and important
        ("<p style=@0>", "p", 2), ("<b style=@0>", "b", 1), ("<title style=@0></title>", "title", 0), ("<p hidden style=@0>", "p", 2),
        ("<input type=HIDDEN style=@0>", "input", 3), ("<input style=@0>", "input", 1), ("<script style=@0></script>", "script", 0), ("<pre style=@0>", "pre", 2),
    ];
    let (html, name, mut display) = ELEMENTS[v::pick(8)];
    let mut sheet_css = Css::new();
    let mut css = Css::new().s(&bg(1));
    let x = num_of(2, false);
    let mut important = display == 3;
    const VALUES: [&str; 3] = ["none", "inline", "block"];
    // A normal or important declaration in a sheet and in the style attribute
    let mut author = None;
    let a = v::pick(3);
    let a_important = a > 0 && v::pick(2) == 1;
    if a > 0 {
        sheet_css = sheet_css.s(name).s("{display:").s(VALUES[a]).s(if a_important { "!important}" } else { "}" });
        author = Some(a)
    }
    let b = v::pick(3);
    let b_important = b > 0 && v::pick(2) == 1;
    if b > 0 {
        css = css.s("display:").s(VALUES[b]).s(if b_important { "!important;" } else { ";" });
        if !(a_important && !b_important) {
            author = Some(b)
        }
    }
    if display == 3 {
        display = 0
    } else if let Some(a) = author {
        display = a
    } else if html.contains(" hidden") {
        // [hidden] comes before the rule for p, and is more specific.
        display = 0
    }
    important &= true;
    let doc = page(&(sheet(1) + BODY + html), vec![("@s", sheet_css.0), ("@0", css.px("height", &x).0)]);
    let items = painted(&doc);
    let r = rects(&items, 1);
    match display {
        0 => v::check(r.is_empty(), "an element with display: none has no box"),
        1 => v::check(r.iter().all(|r| r[2] == 0. && r[0] == 0.), "an empty inline box has no width"),
        _ => v::check(r.len() == 1 && r[0][2] == 600. && r[0][3] == x.v, "a block is as wide as its container and has the height given"),
    }
    v::observe(r.len() as u64);
    v::cover(display as u32);
}

/// One property with any kind of declaration on each of nested elements.
#[no_mangle]
unsafe extern "C" fn vh_css_inherit() {
    let levels = v::param("levels", 3) as usize;
    let property = if v::param("property", 99) < 99 { v::param("property", 0) as usize } else { v::pick(8) };
    const NAMES: [&str; 8] = ["margin-left", "padding-left", "border-left-width", "left", "width", "color", "font-size", "position"];
    const M: [&str; 4] = ["@0", "@1", "@2", "@3"];
    const INHERITED: [bool; 8] = [false, false, false, false, false, true, true, false];
    // For width, -1 is auto; for color a number; for position 1 is relative.
    let initial = [0., 0., 3., 0., -1., 0., 16., 0.][property];
    let mut html = "<!doctype html><body style='margin:0;".to_string();
    html.push_str(if property == 6 { "'>" } else { "font-size:20px'>" });
    let mut parts = Vec::new();
    let mut computed = Vec::new();
    // The body has no border style.
    let mut parent = if property == 2 { 0. } else { initial };
    for i in 0..levels {
        let mut css = Css::new().s(&bg(i + 1)).s(match property {
            2 => "border-left-style:solid;",
            3 => "position:relative;",
            7 => "left:5px;",
            _ => "",
        });
        let inherit = INHERITED[property];
        let kind = v::pick(6);
        let (value, text) = match kind {
            0 => (if inherit { parent } else { initial }, None),
            1 => match property {
                5 => {
                    let c = (10 * (i + 1)) as i64;
                    (c as f32 / 255., Some(format!("rgb({},0,0)", c).into_bytes()))
                }
                6 => {
                    if v::pick(2) == 0 {
                        (32., Some(b"32px".to_vec()))
                    } else {
                        (parent / 2., Some(b".5em".to_vec()))
                    }
                }
                7 => (1., Some(b"relative".to_vec())),
                _ => {
                    let n = num_of(2, false);
                    (n.v, Some(Css::new().n(&n).s("px").0))
                }
            },
            2 => (parent, Some(b"inherit".to_vec())),
            3 => (initial, Some(b"initial".to_vec())),
            4 => (if inherit { parent } else { initial }, Some(b"unset".to_vec())),
            _ => (parent, Some(b"InHerIT".to_vec())),
        };
        if let Some(t) = text {
            css = css.s(NAMES[property]).s(":");
            css.0.extend(t);
            css = css.s(";")
        }
        computed.push(value);
        parent = value;
        html.push_str(&format!("<div style={}>{}", M[i], (b'a' + i as u8) as char));
        parts.push((M[i], css.0));
        v::cover(kind as u32);
    }
    let items = painted(&page(&html, parts));
    let mut x = 0.;
    let mut w = 600.;
    let mut texts = items.iter().filter_map(|i| if let Item::Text { x, size, glyphs, rgb, .. } = i { Some((*x, *size, glyphs, rgb)) } else { None });
    for i in 0..levels {
        let r = the(&items, i + 1);
        let c = computed[i];
        match property {
            0 => {
                x += c;
                w -= c;
            }
            3 => x += c,
            4 if fork(c >= 0.) => w = c,
            7 if c == 1. => x += 5.,
            _ => {}
        }
        v::check(r[0] == x && r[2] == w, "the box is where the specified, inherited or initial value puts it");
        if property == 1 || property == 2 {
            x += c;
            w -= c;
        }
        let t = texts.next();
        v::check(t.is_some(), "the text is shown");
        let (tx, size, _, rgb) = t.unwrap();
        v::check(tx == x, "the text is in the content box");
        v::check(size == if property == 6 { c } else { 20. }, "the font size is the specified, inherited or initial one");
        v::check(*rgb == [if property == 5 { c } else { 0. }, 0., 0.], "the color is the specified, inherited or initial one");
        v::observe_f32(r[0]);
    }
}

/// The name with the case of its first letters free.
fn any_case(name: &str) -> Vec<u8> {
    let free = v::param("case", 2) as usize;
    let mut left = free;
    name.bytes().map(|b| if b.is_ascii_lowercase() && left > 0 && { left -= 1; v::pick(2) == 1 } { b - 32 } else { b }).collect()
}
/// Shorthands of one value per side, with one to four values, and longhands that override a side.
#[no_mangle]
unsafe extern "C" fn vh_css_sides() {
    let which = if v::param("which", 99) < 99 { v::param("which", 0) as usize } else { v::pick(4) };
    let n = 1 + v::pick(4);
    let name = ["margin", "padding", "border-width", "border-style"][which];
    let mut css = Css::new().s(&bg(1)).s("font-size:20px;height:50px;float:none;");
    if which == 2 {
        css = css.s("border-style:solid;")
    }
    if which == 3 {
        css = css.s("border-width:9px;")
    }
    css.0.extend(any_case(name));
    css = css.s(":");
    let mut given = Vec::new();
    for _ in 0..n {
        let (text, value) = match v::pick(if which == 0 { 4 } else { 3 }) {
            0 if which != 3 => {
                let x = num_of(1, false);
                (Css::new().n(&x).s("px").0, x.v)
            }
            1 if which == 2 => (any_case("thick"), 5.),
            1 if which != 3 => (b"50%".to_vec(), 300.),
            2 if which == 2 => (any_case("medium"), 3.),
            2 if which != 3 => (b"2em".to_vec(), 40.),
            3 => (any_case("auto"), 0.),
            0 => (any_case("none"), 0.),
            _ => (any_case("solid"), 9.),
        };
        css.0.extend(text);
        css = css.s(" ");
        given.push(value);
    }
    css = css.s(";");
    // top, right, bottom, left
    let mut sides = [given[0], given[if n > 1 { 1 } else { 0 }], given[if n > 2 { 2 } else { 0 }], given[[0, 0, 1, 1, 3][n]]];
    let mut swapped = [sides[0], sides[3], sides[2], sides[1]];
    if v::param("override", 1) == 1 {
        let side = v::pick(5);
        if side < 4 {
            let longhand = name.replace("border", &format!("border-{}", SIDES[side]));
            let longhand = if which < 2 { format!("{}-{}", name, SIDES[side]) } else { longhand };
            css.0.extend(any_case(&longhand));
            if which == 3 {
                css = css.s(":solid");
                sides[side] = 9.
            } else {
                let x = num_of(1, false);
                css = css.s(":").n(&x).s("px");
                sides[side] = x.v
            }
            swapped[side] = sides[side]
        }
    }
    let kid = Css::new().s(&bg(2)).s("height:100%");
    let next = Css::new().s(&bg(3)).s("height:1px");
    let doc = page(&format!("{}<div style='width:600px;padding-top:1px'><div style=@0><div style=@1></div></div><div style=@2></div></div>", BODY), vec![("@0", css.0), ("@1", kid.0), ("@2", next.0)]);
    let items = painted(&doc);
    let (r, k, next) = (the(&items, 1), the(&items, 2), the(&items, 3));
    // What the sides have to be, seen from the boxes
    let seen = |s: &[f32; 4]| -> [bool; 4] {
        let [top, right, bottom, left] = *s;
        if which == 0 {
            let width = if fork(left + right <= 600.) { 600. - left - right } else { 0. };
            [r[1] == 1. + top, r[2] == width, next[1] == r[1] + 50. + bottom, r[0] == left]
        } else {
            [k[1] == 1. + top, r[2] - k[2] == left + right, r[3] == 50. + top + bottom, k[0] == left]
        }
    };
    let mut expected = sides;
    let mut known = false;
    if n == 4 {
        // The left and the right are swapped on the current tree: this is recorded as a known finding.
        let s = seen(&sides);
        if !(fork(s[0]) && fork(s[1]) && fork(s[2]) && fork(s[3])) {
            expected = swapped;
            known = true
        }
    }
    let s = seen(&expected);
    v::check(s[0], "the top is the side the value is given for");
    v::check(s[1], "the right is the side the value is given for");
    v::check(s[2], "the bottom is the side the value is given for");
    v::check(s[3], "the left is the side the value is given for");
    v::check(r[3] == if which == 0 { 50. } else { 50. + expected[0] + expected[2] } && if which == 0 { k[2] == r[2] } else { r[0] == 0. && r[1] == 1. }, "nothing else changes");
    v::observe_f32(k[0]);
    v::cover(n as u32);
    v::check(!known, "of four values, the second is for the right side and the fourth for the left side");
}
/// border-top sets three properties at once: those that are left out are reset.
#[no_mangle]
unsafe extern "C" fn vh_css_border_side() {
    const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let order = ORDERS[v::pick(6)];
    let before = v::pick(2) == 1;
    let x = num_of(1, false);
    let mut css = Css::new().s(&bg(1)).s("height:50px;");
    if before {
        css = css.s("border-top-width:1px;border-top-style:solid;")
    }
    css.0.extend(any_case("border-top"));
    css = css.s(":");
    let parts = [v::pick(3), v::pick(4), v::pick(2)];
    let mut style = false;
    let mut width = 3.;
    for &i in &order {
        match (i, parts[i]) {
            (0, 1) => {
                css.0.extend(any_case("solid"));
                style = true
            }
            (0, 2) => css.0.extend(any_case("none")),
            (1, 1) => {
                css = css.n(&x).s("px");
                width = x.v
            }
            (1, 2) => {
                css.0.extend(any_case("thin"));
                width = 1.
            }
            (1, 3) => {
                css = css.s("2em");
                width = 32.
            }
            (2, 1) => css = css.s("#123456"),
            _ => continue,
        }
        css = css.s(" ");
    }
    // Without any value the declaration is invalid.
    let valid = parts != [0, 0, 0];
    let expected = if valid {
        if style { width } else { 0. }
    } else if before {
        1.
    } else {
        0.
    };
    let important = v::pick(2) == 1;
    css = css.s(if important { "!important" } else { "" });
    let doc = page(&format!("{}<div style=@0></div>", BODY), vec![("@0", css.0)]);
    let r = the(&painted(&doc), 1);
    v::check(r[3] == 50. + expected, "the border has the width given, or medium, if it has a style");
    v::observe_f32(r[3]);
    v::cover(style as u32);
}

fn ascii(n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let b = v::u8();
            v::assume(b < 128);
            b
        })
        .collect()
}
/// The path splits over the bytes if the parameter says so: hashes of names are too hard for the solver.
fn any_bytes(n: usize) -> Vec<u8> {
    let mut b = ascii(n);
    if v::param("split", 0) == 1 {
        for b in &mut b {
            *b = v::concrete(*b as u64) as u8
        }
    }
    b
}
fn is_space(b: u8) -> bool {
    fork(b == b' ' || b == b'\t' || b == b'\n' || b == b'\r' || b == 12)
}
fn lower(b: u8) -> u8 {
    if fork(b >= b'A' && b <= b'Z') { b | 32 } else { b }
}
fn same_bytes(a: &[u8], b: &[u8], insensitive: bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(&a, &b)| fork(a == b) || insensitive && fork(lower(a) == lower(b)))
}
/// Does the attribute operator hold between the value and the operand?
fn operator(op: usize, value: &[u8], operand: &[u8], insensitive: bool) -> bool {
    let n = operand.len();
    match op {
        // =
        0 => same_bytes(value, operand, insensitive),
        // ~=
        1 => n > 0 && !operand.iter().any(|&b| is_space(b)) && words(value).iter().any(|w| same_bytes(w, operand, insensitive)),
        // |=
        2 => value.len() >= n && same_bytes(&value[..n], operand, insensitive) && (value.len() == n || fork(value[n] == b'-')),
        // ^= $= *=
        3 => n > 0 && value.len() >= n && same_bytes(&value[..n], operand, insensitive),
        4 => n > 0 && value.len() >= n && same_bytes(&value[value.len() - n..], operand, insensitive),
        _ => n > 0 && (0..=value.len()).any(|i| i + n <= value.len() && same_bytes(&value[i..i + n], operand, insensitive)),
    }
}
fn words(value: &[u8]) -> Vec<Vec<u8>> {
    let mut words = vec![Vec::new()];
    for &b in value {
        if is_space(b) {
            words.push(Vec::new())
        } else {
            words.last_mut().unwrap().push(b)
        }
    }
    words.retain(|w| !w.is_empty());
    words
}
/// Class, id and attribute selectors against attribute values of any bytes.
#[no_mangle]
unsafe extern "C" fn vh_css_attributes() {
    let kind = if v::param("kind", 99) < 99 { v::param("kind", 0) as usize } else { v::pick(9) };
    let value = ascii(v::pick(1 + v::param("value", 3) as usize));
    let n = if v::param("operand", 99) < 99 { v::param("operand", 0) as usize } else { if kind < 2 { 1 } else { v::pick(3) } };
    let mut operand: Vec<u8> = (0..n).map(|_| letter()).collect();
    let insensitive = kind >= 3 && v::param("insensitive", 1) == 1 && v::pick(2) == 1;
    let mut css = Css::new();
    let matches = match kind {
        0 | 1 => {
            css = css.s(if kind == 0 { "." } else { "#" });
            css.0.extend(operand.iter());
            if kind == 0 {
                words(&value).iter().any(|w| same_bytes(w, &operand, false))
            } else {
                same_bytes(&value, &operand, false)
            }
        }
        2 => {
            css = css.s("[title]");
            true
        }
        _ => {
            let op = kind - 3;
            if n == 2 && op != 1 && v::pick(2) == 1 {
                operand[1] = b' '
            }
            css = css.s("[Title").s(["=", "~=", "|=", "^=", "$=", "*="][op]).s("'");
            css.0.extend(operand.iter());
            css = css.s(if insensitive { "' i]" } else { "']" });
            operator(op, &value, &operand, insensitive)
        }
    };
    css = css.s("{").s(&bg(1)).s("}");
    let html = ["<p class=@0><p>", "<p id=@0><p>", "<p title=@0><p>"][if kind < 3 { kind } else { 2 }];
    let doc = page(&(sheet(1) + "<!doctype html><body><style>p{height:10px}</style>" + html), vec![("@s", css.0), ("@0", value)]);
    let r = rects(&painted(&doc), 1);
    if matches {
        v::check(r.len() == 1, "an element that the selector matches has the rule applied")
    } else {
        v::check(r.is_empty(), "an element that the selector does not match does not have the rule applied")
    }
    v::observe(r.len() as u64);
    v::cover(matches as u32);
}

/// Namespaces of elements and attributes: names without a prefix are those of attributes without a namespace, and of any element.
#[no_mangle]
unsafe extern "C" fn vh_css_namespaces() {
    const SELECTORS: [(&str, &str); 9] = [
        ("class", ".x"), ("id", "#x"), ("title", "[title]"), ("title", "[title=x]"), ("title", "[*|title=x]"), ("title", "[|title=x]"), ("title", "|p"), ("title", "*|p"), ("title", "p"),
    ];
    let kind = v::pick(9);
    let (name, selector) = SELECTORS[kind];
    let element = v::pick(5);
    let (start, end) = [("p", "p"), ("o:p", "o:p"), ("p xmlns='http://www.w3.org/2000/svg'", "p"), ("p xmlns='http://www.w3.org/1998/Math/MathML'", "p"), ("p xmlns=''", "p")][element];
    let style = v::pick(2);
    // Is there an attribute without a namespace, and one of a namespace before or after it?
    let (plain, other) = (v::pick(2), v::pick(3));
    let (a, b) = (letter(), letter());
    let mut attributes = String::new();
    let mut parts = vec![("@s", Css::new().s(selector).s("{margin-left:7px}").0)];
    if other == 1 {
        attributes += &format!(" o:{}='@1'", name)
    }
    if plain == 1 {
        attributes += &format!(" {}='@0'", name);
        parts.push(("@0", vec![a]))
    }
    if other == 2 {
        attributes += &format!(" o:{}='@1'", name)
    }
    if other > 0 {
        parts.push(("@1", vec![b]))
    }
    attributes += [" style='width:50px'", " o:style='width:50px'"][style];
    let xml = format!("<html xmlns='http://www.w3.org/1999/xhtml' xmlns:o='o'><style>p{{display:block;height:10px;{}}}</style><style>@s</style><{}{}></{}></html>",
        String::from_utf8(Css::new().s(&bg(1)).0).unwrap(), start, attributes, end);
    let doc = match Document::parse_xml(xml.as_bytes()) {
        Ok(doc) => replaced(doc, parts),
        Err(_) => {
            v::check(false, "a well-formed document is read");
            return;
        }
    };
    let matches = match kind {
        0 | 1 | 3 | 5 => plain == 1 && fork(a == b'x'),
        2 => plain == 1,
        4 => plain == 1 && fork(a == b'x') || other > 0 && fork(b == b'x'),
        6 => element == 4,
        _ => true,
    };
    let r = the(&painted(&doc), 1);
    v::check(r[0] == if matches { 7. } else { 0. }, "selectors match elements and attributes by namespace and name");
    let applies = style == 0 && (element == 0 || element == 2 || element == 3);
    v::check(r[2] == if applies { 50. } else if matches { 593. } else { 600. }, "the style attribute without a namespace of HTML, SVG and MathML elements applies");
    v::observe_f32(r[0]);
    v::cover(matches as u32);
}

/// An element of a tree: its class (a free byte, a or b), its tag (0: div, 1: i), and what there is before its children.
struct N {
    parent: usize,
    class: u8,
    tag: usize,
    /// 0: nothing, 1: text, 2: a comment, 3: white space
    content: usize,
}
fn siblings(t: &[N], k: usize) -> Vec<usize> {
    (1..t.len()).filter(|&i| t[i].parent == t[k].parent).collect()
}
const SIMPLE: [&str; 19] = [
    ".a", ".b", "*", ":first-child", ":last-child", ":only-child", ":empty", ":not(.a)", "div", ":first-of-type", ":last-of-type", ":only-of-type", ":nth-child(odd)",
    ":nth-child(2)", ":nth-last-child(2n)", ":nth-of-type(2)", ":nth-last-of-type(-n + 1)", ":root", "I.a",
];
fn simple(t: &[N], k: usize, s: usize) -> bool {
    let all = siblings(t, k);
    let i = all.iter().position(|&x| x == k).unwrap();
    let same: Vec<usize> = all.iter().cloned().filter(|&x| t[x].tag == t[k].tag).collect();
    let j = same.iter().position(|&x| x == k).unwrap();
    match s {
        0 => fork(t[k].class == b'a'),
        1 => fork(t[k].class == b'b'),
        2 => true,
        3 => i == 0,
        4 => i + 1 == all.len(),
        5 => all.len() == 1,
        6 => t[k].content % 2 == 0 && !(1..t.len()).any(|x| t[x].parent == k),
        7 => fork(t[k].class != b'a'),
        8 => t[k].tag == 0,
        9 => j == 0,
        10 => j + 1 == same.len(),
        11 => same.len() == 1,
        12 => i % 2 == 0,
        13 => i == 1,
        14 => (all.len() - i) % 2 == 0,
        15 => j == 1,
        16 => j + 1 == same.len(),
        17 => false,
        _ => t[k].tag == 1 && fork(t[k].class == b'a'),
    }
}
const BY_TAG: [usize; 7] = [8, 9, 10, 11, 15, 16, 18];
fn tree_of(n: usize, contents: usize, tags: bool) -> Vec<N> {
    let mut t = vec![N { parent: 0, class: b'b', tag: 0, content: 0 }];
    for k in 1..=n {
        // The parent is the previous element or one of its ancestors.
        let mut chain = vec![k - 1];
        while *chain.last().unwrap() != 0 {
            chain.push(t[*chain.last().unwrap()].parent)
        }
        let parent = chain[v::pick(chain.len())];
        let class = v::range(b'a' as u64, b'b' as u64) as u8;
        t.push(N { parent, class, tag: if tags { v::pick(2) } else { 0 }, content: if contents > 1 { v::pick(contents) } else { 0 } });
    }
    t
}
const P: [&str; 6] = ["@0", "@1", "@2", "@3", "@4", "@5"];
fn write_tree(t: &[N], k: usize, html: &mut String, parts: &mut Vec<(&'static str, Vec<u8>)>) {
    for i in 1..t.len() {
        if t[i].parent == k {
            let tag = ["div", "i"][t[i].tag];
            html.push_str(&format!("<{} class={} style='{}display:block;height:5px'>{}", tag, P[i], bg(i), ["", "x", "<!--x-->", " "][t[i].content]));
            parts.push((P[i], vec![t[i].class, b' ', b'z']));
            write_tree(t, i, html, parts);
            html.push_str(&format!("</{}>", tag));
        }
    }
}
/// A rule applies to exactly the elements its selector matches: combinators and structural pseudo-classes.
#[no_mangle]
unsafe extern "C" fn vh_css_structure() {
    let n = v::param("elements", 3) as usize;
    let first = v::param("first", 99) as usize;
    let left = if first < 99 { first } else { v::pick(SIMPLE.len()) };
    let combinator = v::pick(5);
    let mut selector = SIMPLE[left].to_string();
    let mut right = left;
    if combinator > 0 {
        right = v::pick(SIMPLE.len());
        if BY_TAG.contains(&left) {
            v::assume(right == 0 || right == 2)
        } else if BY_TAG.contains(&right) {
            v::assume(left == 0 || left == 2)
        }
        selector = format!("{}{}{}", SIMPLE[left], ["", " ", ">", " + ", "~"][combinator], SIMPLE[right]);
    }
    let t = tree_of(n, v::param("contents", 1) as usize, BY_TAG.contains(&left) || BY_TAG.contains(&right));
    // Elements outside the tree must not match the left side: the body's ancestors are given a universal ancestor only for *.
    let mut html = "<!doctype html><style>@s</style><body style='margin:0'>".to_string();
    let mut parts = Vec::new();
    write_tree(&t, 0, &mut html, &mut parts);
    parts.push(("@s", Css::new().s(&selector).s("{margin-left:7px!important}").0));
    let doc = page(&html, parts);
    let items = painted(&doc);
    let outer = |s: usize, last: bool| -> bool {
        // body: a last child of html, which is the root
        match s {
            2 | 4 | 7 | 9 | 10 | 11 => true,
            3 | 5 | 12 => false,
            13 => true,
            14 => false,
            16 => true,
            17 => !last,
            _ => false,
        }
    };
    // html: the only child of the document
    let html_matches = |s: usize| [2, 3, 4, 5, 7, 9, 10, 11, 12, 16, 17].contains(&s);
    let head_matches = |s: usize| [2, 3, 7, 9, 10, 11, 12, 14, 16].contains(&s);
    let matches = |k: usize| -> bool {
        if !simple(&t, k, right) {
            return false;
        }
        let all = siblings(&t, k);
        let i = all.iter().position(|&x| x == k).unwrap();
        match combinator {
            0 => true,
            1 => {
                let mut p = t[k].parent;
                while p != 0 {
                    if simple(&t, p, left) {
                        return true;
                    }
                    p = t[p].parent
                }
                outer(left, true) || html_matches(left)
            }
            2 => if t[k].parent == 0 { outer(left, true) } else { simple(&t, t[k].parent, left) },
            3 => i > 0 && simple(&t, all[i - 1], left),
            _ => all[..i].iter().any(|&x| simple(&t, x, left)),
        }
    };
    // The body and the root may match too.
    let body = match combinator {
        0 => outer(right, true),
        1 | 2 => outer(right, true) && html_matches(left),
        _ => outer(right, true) && head_matches(left),
    };
    let root = combinator == 0 && html_matches(right);
    let mut some = false;
    let base = 7. * (root as u8 as f32 + body as u8 as f32);
    let mut at = vec![base];
    for k in 1..=n {
        let m = matches(k);
        some |= m;
        let x = at[t[k].parent] + if m { 7. } else { 0. };
        at.push(x);
        v::check(the(&items, k)[0] == x, "a rule applies to exactly the elements its selector matches");
        v::observe_f32(x);
    }
    v::cover(some as u32);
}
/// :nth-child(An+B) and its relatives for any A and B.
#[no_mangle]
unsafe extern "C" fn vh_css_nth() {
    let n = v::param("elements", 4) as usize;
    let kind = v::pick(4);
    let many = v::param("many", 0) == 1;
    let tags: Vec<usize> = (0..n).map(|i| if kind < 2 { 0 } else if many { (i % 3 == 1) as usize } else { v::pick(2) }).collect();
    let (a, b) = (constant([0, 1, 2, 3, -1, -2, 7][v::pick(7)]), constant([0, 1, 2, 3, 5, -1, -7][v::pick(7)]));
    let form = v::pick(4);
    let (av, bv) = match form {
        0 | 3 => (a.v, b.v),
        1 => (a.v, 0.),
        _ => (0., b.v),
    };
    let mut css = Css::new().s(":nth-").s(["child", "last-child", "of-type", "last-of-type"][kind]).s("(");
    if form != 2 {
        css = css.n(&a).s(if form == 3 { "N" } else { "n" })
    }
    if form == 0 {
        css = css.s(if b.v < 0. { "" } else { "+" }).n(&b)
    } else if form == 3 {
        css = css.s(if b.v < 0. { " - " } else { " + " });
        css.0.push(*b.text.last().unwrap())
    } else if form == 2 {
        css = css.s(if b.v == 1. { "+" } else { "" }).n(&b)
    }
    let css = css.s(" ){height:5px!important}");
    let mut html = "<!doctype html><style>@s</style><body style='margin:0'>".to_string();
    for k in 1..=n {
        let tag = ["div", "p"][tags[k - 1]];
        html.push_str(&format!("x<{} style='{}height:7px'></{}>", tag, bg(k), tag));
    }
    let items = painted(&page(&html, vec![("@s", css.0)]));
    for k in 1..=n {
        let same = |i: &usize| kind < 2 || tags[*i - 1] == tags[k - 1];
        let index = if kind % 2 == 0 { (1..=k).filter(same).count() } else { (k..=n).filter(same).count() };
        // index = A × i + B for some i ≥ 0
        let mut m = false;
        for i in 0..=n + 9 {
            if av * i as f32 + bv == index as f32 {
                m = true;
                break;
            }
        }
        v::check(the(&items, k)[3] == if m { 5. } else { 7. }, "an element is matched if its index is An+B for some n");
        v::cover(m as u32);
    }
}

fn hex_digit() -> (u8, u32) {
    let b = v::u8();
    v::assume(b >= b'0' && b <= b'9' || b | 32 >= b'a' && b | 32 <= b'f');
    (b, if fork(b <= b'9') { b as u32 - 48 } else { (b | 32) as u32 - 87 })
}
/// Elements' styles as layout gets them.
fn computed(doc: &Document, names: &[&str]) -> Vec<std::sync::Arc<crate::style::ComputedValues>> {
    let sheets = doc.parse_stylesheets();
    let mut styles = Vec::new();
    let mut node = Some(doc.root_element());
    while let Some(n) = node {
        let style = crate::style::style_for_element(&sheets, doc, n, styles.last().map(|s: &std::sync::Arc<_>| &**s));
        styles.push(style);
        assert!(names.get(styles.len() - 1).map_or(true, |name| doc[n].as_element().unwrap().name.local == **name));
        if styles.len() == names.len() {
            return styles;
        }
        let mut child = doc[n].first_child;
        while let Some(c) = child {
            if doc[c].as_element().map_or(false, |e| e.name.local == *names[styles.len()]) {
                break;
            }
            child = doc[c].next_sibling
        }
        node = child
    }
    panic!("no such element")
}
/// Hexadecimal colours of any digits, as a background or as the colour of text.
#[no_mangle]
unsafe extern "C" fn vh_css_hex_colors() {
    let n = v::param("digits", 3) as usize;
    let text = v::pick(2) == 1;
    let digits: Vec<(u8, u32)> = (0..n).map(|_| hex_digit()).collect();
    let mut css = Css::new().s(if text { "color" } else { "background-color" }).s(":#");
    css.0.extend(digits.iter().map(|d| d.0));
    let doc = page(&format!("{}<p style='color:#010203;background-color:#040506'><b style=@0>x", BODY), vec![("@0", css.0)]);
    let pair = |i: usize| digits[i].1 * 16 + digits[i + 1].1;
    let rgba = match n {
        3 | 4 => Some([digits[0].1 * 17, digits[1].1 * 17, digits[2].1 * 17, if n == 4 { digits[3].1 * 17 } else { 255 }]),
        6 | 8 => Some([pair(0), pair(2), pair(4), if n == 8 { pair(6) } else { 255 }]),
        _ => None,
    };
    let styles = computed(&doc, &["html", "body", "p", "b"]);
    let b = &styles[3];
    let of = |c: cssparser::RGBA| [c.red as u32, c.green as u32, c.blue as u32, c.alpha as u32];
    let (color, background) = (of(b.color.color), of(b.to_rgba(b.background.background_color)));
    if text {
        v::check(color == rgba.unwrap_or([1, 2, 3, 255]), "text has the colour given, or its parent's");
        v::check(background[3] == 0, "the background stays transparent");
    } else {
        v::check(background == rgba.unwrap_or([0, 0, 0, 0]), "the background has the colour given, or is transparent");
        v::check(color == [1, 2, 3, 255], "the text keeps its parent's colour");
    }
    v::observe(color[0] as u64);
    v::observe(background[0] as u64);
    v::cover(text as u32);
}
/// The painted colours of boxes and texts whose colours are given in any way.
#[no_mangle]
unsafe extern "C" fn vh_css_colors() {
    // [red, green, blue, alpha]; None: invalid or not given
    type C = [i64; 4];
    let any = |current: C| -> (Vec<u8>, Option<C>) {
        match v::pick(12) {
            0 => (b"#0a141E".to_vec(), Some([10, 20, 30, 255])),
            1 => (b"rgb(40,50,60)".to_vec(), Some([40, 50, 60, 255])),
            2 => (b"RGB( 20%, 40% ,300% )".to_vec(), Some([51, 102, 255, 255])),
            3 => (b"rgba(7,8,9,0)".to_vec(), Some([7, 8, 9, 0])),
            4 => (any_case("transparent"), Some([0, 0, 0, 0])),
            5 => (any_case("fuchsia"), Some([255, 0, 255, 255])),
            6 => (any_case("currentcolor"), Some(current)),
            7 => (b"rgb(1,2)".to_vec(), None),
            8 => (b"hsla(120,100%,50%,.2)".to_vec(), Some([0, 255, 0, 51])),
            9 => (b"#12345".to_vec(), None),
            10 => (b"#45678933".to_vec(), Some([0x45, 0x67, 0x89, 0x33])),
            _ => (Vec::new(), None),
        }
    };
    let parent = [1, 2, 3, 255];
    let (color_css, color) = any(parent);
    let color = color.unwrap_or(parent);
    let (background_css, background) = any(color);
    let mut css = Css::new();
    let last = v::pick(2) == 1;
    let add = |mut css: Css, name: &str, value: &Vec<u8>| {
        if value.is_empty() {
            return css;
        }
        css = css.s(name).s(":");
        css.0.extend(value.iter());
        css.s(";")
    };
    if !last {
        css = add(css, "color", &color_css)
    }
    css = add(css, if v::pick(2) == 1 { "background" } else { "background-color" }, &background_css);
    if last {
        css = add(css, "color", &color_css)
    }
    let doc = page(&format!("{}<p style='color:#010203;background-color:#040506'><b style=@0>x<i>y", BODY), vec![("@0", css.0)]);
    let got: Vec<[f32; 4]> = painted(&doc)
        .iter()
        .map(|i| match i {
            Item::Rect { rgb, alpha, .. } => [rgb[0], rgb[1], rgb[2], *alpha],
            Item::Text { rgb, alpha, .. } => [rgb[0], rgb[1], rgb[2], *alpha],
        })
        .collect();
    let of = |c: C| [c[0] as f32 / 255., c[1] as f32 / 255., c[2] as f32 / 255., c[3] as f32 / 255.];
    let mut expected = vec![of([4, 5, 6, 255])];
    if let Some(b) = background {
        if b[3] > 0 {
            expected.push(of(b))
        }
    }
    expected.push(of(color));
    expected.push(of(color));
    v::check(got == expected, "boxes and texts are painted in the colours given, initial or inherited");
    v::observe(got.len() as u64);
    v::cover(1);
}

/// Declarations whose value is any bytes: nothing panics, and the declarations around are not affected unless the bytes open something.
#[no_mangle]
unsafe extern "C" fn vh_css_any_value() {
    const NAMES: [&str; 14] = [
        "nothing", "width", "margin", "border-top", "background", "font-size", "display", "position", "top", "padding-left", "border-style", "border-width", "color", "border-left-color",
    ];
    let name = if v::param("name", 99) < 99 { v::param("name", 0) as usize } else { v::pick(NAMES.len()) };
    let bytes = any_bytes(v::param("bytes", 2) as usize);
    let mut css = Css::new().s(&bg(1)).s("width:7px;").s(NAMES[name]).s(":");
    css.0.extend(bytes.iter());
    let css = css.s(["", "1px", " solid"][v::param("tail", 0) as usize]).s(";height:5px!important");
    let doc = page(&format!("{}<p style=@0><p style='height:1px'>", BODY), vec![("@0", css.0)]);
    let items = painted(&doc);
    let benign = bytes.iter().all(|&b| fork(b >= b' ') && b != 127 && !fork(b == b'"' || b == b'\'' || b == b'(' || b == b'[' || b == b'{' || b == b'/' || b == b'\\'));
    if benign && name != 6 && name != 4 && name != 7 {
        let r = the(&items, 1);
        let closing = bytes.iter().any(|&b| fork(b == b'!' || b == b')' || b == b']' || b == b'}' || b == b';'));
        if name == 0 || closing && bytes.len() == 1 {
            v::check(r[2] == 7. && r[3] == 5., "the declarations around an invalid one are not affected")
        } else if name != 3 && name < 10 {
            v::check(fork(r[3] >= 5.), "the next declaration is not affected")
        }
        v::cover(1)
    }
    v::observe(items.len() as u64);
    v::cover(2);
}
/// A style sheet with any bytes before a rule.
#[no_mangle]
unsafe extern "C" fn vh_css_any_sheet() {
    let bytes = any_bytes(v::param("bytes", 2) as usize);
    let mut css = Css::new();
    css.0.extend(bytes.iter());
    let css = css.s(["{}", "", "{width:9px}", "p{}", " x"][v::param("tail", 0) as usize]).s("p{height:5px}");
    let doc = page(&(sheet(1) + BODY + "<p style=@0>"), vec![("@s", css.0), ("@0", Css::new().s(&bg(1)).s("width:7px").0)]);
    let items = painted(&doc);
    if v::param("tail", 0) == 0 {
        let benign = bytes.iter().all(|&b| {
            fork(b >= b' ') && b != 127 && !fork(b == b'"' || b == b'\'' || b == b'(' || b == b'[' || b == b'{' || b == b'/' || b == b'\\') && !fork(b == b'<' || b == b'-' || b == b'@')
        });
        if benign {
            let r = the(&items, 1);
            v::check(r[2] == 7. && r[3] == 5., "a rule after an invalid one applies");
            v::cover(1)
        }
    }
    v::observe(items.len() as u64);
    v::cover(2);
}
