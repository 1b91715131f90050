use super::*;
include!("../../vh/src/api.rs");
include!("../common/pdfread.rs");
include!("../common/web.rs");
include!("../common/boxes.rs");
include!("../common/inline.rs");

fn check_boxes(doc: &Document, expected: &[Placed], axes: u8) {
    let items = painted(doc);
    for p in expected {
        let r = rects(&items, p.k);
        v::check(r.len() == 1, "each box's background is painted exactly once");
        let r = r[0];
        if axes & 1 != 0 {
            v::check(r[0] == p.r[0], "the box is where CSS puts its left border edge");
            v::check(r[2] == p.r[2], "the border box has the width CSS gives it");
        }
        if axes & 2 != 0 {
            v::check(r[1] == p.r[1], "the box is where CSS puts its top border edge");
            v::check(r[3] == p.r[3], "the border box has the height CSS gives it");
        }
        v::observe_f32(r[0]);
        v::observe_f32(r[1]);
    }
    v::check(items.len() == expected.len(), "nothing else is painted");
}
fn px(digits: usize) -> A {
    Px(num_of(digits, false))
}
fn signed(digits: usize) -> A {
    let neg = v::bool();
    Px(num_of(digits, neg))
}
const PERCENT: [i64; 2] = [25, 150];

/// A block box in the page, with every combination of width, margins, padding and borders, and a child that shows its content box.
#[no_mangle]
unsafe extern "C" fn vh_web_inline_axis() {
    let mut st = St::new();
    let kind = v::pick(3);
    st.w = match kind {
        0 => Auto,
        1 => px(3),
        _ => Pct(PERCENT[v::pick(2)]),
    };
    for &side in &[LEFT, RIGHT] {
        st.m[side] = match v::pick(3) {
            0 => Auto,
            1 => signed(2),
            _ => Pct(-25),
        };
        match v::param("edges", 0) {
            0 => st.p[side] = px(3),
            1 => {
                st.b[side] = px(2);
                st.no_border_style[side] = v::bool();
            }
            _ => {
                st.p[side] = if v::bool() { Pct(50) } else { px(1) };
                st.b[side] = px(1);
            }
        }
    }
    st.h = Px(constant(7));
    let mut kid = St::new();
    kid.h = Px(constant(1));
    kid.w = if v::bool() { Auto } else { Pct(50) };
    kid.m[LEFT] = Pct(25);
    let tree = vec![Bx { k: 1, st, kids: vec![Bx { k: 2, st: kid, kids: vec![] }] }];
    let doc = page_of(&tree);
    check_boxes(&doc, &expected(tree), 3);
    v::cover(kind as u32);
}

/// The parents of boxes 2, 3, ... among trees of n boxes in tree order, numbered by `shape`.
fn shape(n: usize, mut shape: u64) -> Option<Vec<usize>> {
    // parent[i] must be an ancestor-or-self of box i - 1, or the body (0).
    let mut parent = vec![0];
    for i in 1..n {
        let mut chain = vec![i];
        let mut a = i;
        while a != 0 {
            a = parent[a - 1];
            chain.push(a)
        }
        let m = chain.len() as u64;
        parent.push(chain[(shape % m) as usize]);
        shape /= m;
    }
    if shape == 0 {
        Some(parent)
    } else {
        None
    }
}
fn tree(parents: &[usize], st: &mut dyn FnMut(usize) -> St) -> Vec<Bx> {
    fn build(k: usize, parents: &[usize], st: &mut dyn FnMut(usize) -> St) -> Vec<Bx> {
        let mut out = Vec::new();
        for i in 1..=parents.len() {
            if parents[i - 1] == k {
                let s = st(i);
                out.push(Bx { k: i, st: s, kids: build(i, parents, st) })
            }
        }
        out
    }
    build(0, parents, st)
}
fn shapes(n: usize) -> u64 {
    [1, 1, 2, 5, 14, 42][n]
}
fn any_shape(n: usize) -> Vec<usize> {
    // All the trees, numbered by trying every code.
    let mut all = Vec::new();
    let mut code = 0;
    while (all.len() as u64) < shapes(n) {
        if let Some(p) = shape(n, code) {
            if !all.contains(&p) {
                all.push(p)
            }
        }
        code += 1
    }
    let i = if v::param("shape", 99) < 99 { v::param("shape", 0) as usize } else { v::pick(all.len()) };
    all.swap_remove(i)
}
/// Trees of block boxes: margins of either sign collapse as CSS says.
#[no_mangle]
unsafe extern "C" fn vh_web_block_axis() {
    let n = v::param("boxes", 2) as usize;
    let parents = any_shape(n);
    let free = v::param("free", 15);
    let mut st = |_k: usize| {
        let mut st = St::new();
        st.m[TOP] = if free & 8 != 0 { signed(2) } else { px(2) };
        st.m[BOTTOM] = if free & 8 != 0 { signed(2) } else { px(2) };
        if free & 1 != 0 {
            st.p[TOP] = px(1);
            st.p[BOTTOM] = px(1);
        }
        if free & 2 != 0 {
            st.h = match v::pick(2) {
                0 => Auto,
                _ => px(2),
            };
        }
        if free & 4 != 0 {
            st.flow_root = v::bool();
        }
        st
    };
    let tree = tree(&parents, &mut st);
    let doc = page_of(&tree);
    check_boxes(&doc, &expected(tree), 3);
    v::cover(1);
}

/// A relatively positioned block, its child, its parent and its following sibling.
#[no_mangle]
unsafe extern "C" fn vh_web_relative() {
    let mut outer = St::new();
    outer.w = px(3);
    outer.h = if v::bool() { px(3) } else { Auto };
    outer.p[TOP] = Px(constant(3));
    let mut a = St::new();
    a.pos = 1;
    a.w = if v::bool() { px(2) } else { Auto };
    a.h = px(2);
    for &side in &[TOP, RIGHT, BOTTOM, LEFT] {
        a.off[side] = match v::pick(3) {
            0 => Auto,
            1 => signed(2),
            _ => Pct(PERCENT[side / 2]),
        };
    }
    let mut small = St::new();
    small.h = Px(constant(5));
    let kid = Bx { k: 3, st: small.clone(), kids: vec![] };
    let sibling = Bx { k: 4, st: small, kids: vec![] };
    let tree = vec![Bx { k: 1, st: outer, kids: vec![Bx { k: 2, st: a, kids: vec![kid] }, sibling] }];
    let doc = page_of(&tree);
    check_boxes(&doc, &expected(tree), 3);
    v::cover(1);
}

/// 10.3.7 and 10.6.4: (border edge from the containing block's start edge, content size); None: not decided here.
fn absolute_axis(
    vertical: bool, cb: f32, pb: f32, margins: (Option<f32>, Option<f32>), offsets: (Option<f32>, Option<f32>), size: Option<f32>, content: f32, static_: f32,
) -> Option<(f32, f32)> {
    let (ms, me) = (margins.0.unwrap_or(0.), margins.1.unwrap_or(0.));
    match offsets {
        (Some(s), Some(e)) => {
            let size = match size {
                Some(size) => size,
                None => {
                    let size = cb - s - e - pb - ms - me;
                    if size >= 0. {
                        return Some((s + ms, size));
                    }
                    if margins.0.is_none() || margins.1.is_none() {
                        return None;
                    }
                    0.
                }
            };
            let rest = cb - s - e - pb - size;
            let ms = match margins {
                (None, None) if !vertical && rest < 0. => 0.,
                (None, None) => rest / 2.,
                (None, Some(me)) => rest - me,
                (Some(ms), _) => ms,
            };
            Some((s + ms, size))
        }
        (s, e) => {
            let size = match size {
                Some(size) => size,
                None if vertical => content,
                // Shrink to fit
                None => return None,
            };
            Some((
                match (s, e) {
                    (Some(s), _) => s + ms,
                    (None, Some(e)) => cb - e - me - pb - size,
                    (None, None) => static_ + ms,
                },
                size,
            ))
        }
    }
}
/// An absolutely positioned box in a positioned or static parent, after a sibling.
#[no_mangle]
unsafe extern "C" fn vh_web_absolute() {
    let axes = v::param("axes", 1);
    let mut outer = St::new();
    outer.pos = v::param("positioned", 1) as u8;
    outer.w = px(3);
    outer.h = px(3);
    for i in 0..4 {
        outer.p[i] = px(2);
        outer.b[i] = px(1);
    }
    outer.m[LEFT] = px(1);
    let mut before = St::new();
    before.h = px(2);
    let mut a = St::new();
    a.pos = 2;
    let mut content = St::new();
    content.h = Px(constant(6));
    let full = v::param("full", 1) == 1;
    let mut free = |start: usize, end: usize| {
        for &side in &[start, end] {
            a.off[side] = match v::pick(3) {
                0 => Auto,
                1 => {
                    if full {
                        signed(2)
                    } else {
                        px(3)
                    }
                }
                _ => Pct(PERCENT[side / 2]),
            };
            a.m[side] = match v::pick(2) {
                0 => Auto,
                _ => {
                    if full {
                        signed(2)
                    } else {
                        px(2)
                    }
                }
            };
            a.p[side] = px(1);
        }
        match v::pick(3) {
            0 => Auto,
            1 => px(3),
            _ => Pct(50),
        }
    };
    let w = if axes & 1 != 0 { free(LEFT, RIGHT) } else { Px(constant(5)) };
    let h = if axes & 2 != 0 { free(TOP, BOTTOM) } else { Px(constant(9)) };
    a.w = w;
    a.h = h;
    if axes & 1 == 0 {
        a.off[LEFT] = Px(constant(3));
    }
    if axes & 2 == 0 {
        a.off[TOP] = Px(constant(4));
    }
    a.b[TOP] = Px(constant(2));
    let style = a.clone();
    let outer_style = outer.clone();
    let before_height = before.h.get(0.).unwrap();
    let kid = Bx { k: 4, st: content, kids: vec![] };
    let tree = vec![Bx { k: 1, st: outer, kids: vec![Bx { k: 2, st: before, kids: vec![] }, Bx { k: 3, st: a, kids: vec![kid] }] }];
    let doc = page_of(&tree);
    // The containing block: x, y, width, height.
    let o = &outer_style;
    let content_at = (o.m[LEFT].get(600.).unwrap() + o.pb(LEFT, 600.), o.pb(TOP, 600.));
    let cb = if o.pos == 1 {
        let (pl, pt) = (o.padding(LEFT, 600.), o.padding(TOP, 600.));
        (content_at.0 - pl, content_at.1 - pt, o.w.get(600.).unwrap() + pl + o.padding(RIGHT, 600.), o.h.get(800.).unwrap() + pt + o.padding(BOTTOM, 600.))
    } else {
        (0., 0., 600., 800.)
    };
    let st = &style;
    let (pbl, pbt) = (st.pb(LEFT, cb.2), st.pb(TOP, cb.2));
    let x = absolute_axis(
        false, cb.2, pbl + st.pb(RIGHT, cb.2), (st.m[LEFT].get(cb.2), st.m[RIGHT].get(cb.2)),
        (st.off[LEFT].get(cb.2), st.off[RIGHT].get(cb.2)), st.w.get(cb.2), 0., content_at.0 - cb.0,
    );
    let y = absolute_axis(
        true, cb.3, pbt + st.pb(BOTTOM, cb.2), (st.m[TOP].get(cb.2), st.m[BOTTOM].get(cb.2)),
        (st.off[TOP].get(cb.3), st.off[BOTTOM].get(cb.3)), st.h.get(cb.3), 6., content_at.1 - cb.1 + before_height,
    );
    let items = painted(&doc);
    for k in 1..5 {
        v::check(rects(&items, k).len() == 1, "each box's background is painted exactly once");
    }
    let (r, q) = (rects(&items, 3)[0], rects(&items, 4)[0]);
    v::observe_f32(r[0]);
    v::observe_f32(r[1]);
    if let Some((x, w)) = x {
        v::cover(1);
        v::check(r[0] == cb.0 + x, "the absolutely positioned box is where CSS puts its left border edge");
        v::check(r[2] == pbl + w + st.pb(RIGHT, cb.2), "the absolutely positioned border box has the width CSS gives it");
        v::check(q[0] == cb.0 + x + pbl && q[2] == w, "its content box is the containing block of its contents");
    }
    if let Some((y, h)) = y {
        v::cover(2);
        v::check(r[1] == cb.1 + y, "the absolutely positioned box is where CSS puts its top border edge");
        v::check(r[3] == pbt + h + st.pb(BOTTOM, cb.2), "the absolutely positioned border box has the height CSS gives it");
        v::check(q[1] == cb.1 + y + pbt && q[3] == 6., "its contents start at the top of its content box");
    }
}

/// Trees of static, relative and absolute boxes: each absolute one is placed in its nearest positioned ancestor or where it would have been.
#[no_mangle]
unsafe extern "C" fn vh_web_positioned_tree() {
    let n = v::param("boxes", 3) as usize;
    let parents = any_shape(n);
    let rich = v::param("rich", 1) == 1;
    let mut absolutes = 0;
    let mut st = |_k: usize| {
        let mut st = St::new();
        st.pos = v::pick(3) as u8;
        st.w = px(2);
        st.p[TOP] = px(1);
        st.p[LEFT] = px(1);
        st.b[TOP] = Px(constant(2));
        st.b[LEFT] = Px(constant(3));
        match st.pos {
            0 => st.h = if rich && v::bool() { Auto } else { px(2) },
            1 => {
                st.off[LEFT] = px(1);
                st.m[LEFT] = px(1);
            }
            _ => {
                absolutes += 1;
                match v::pick(3) {
                    0 => {}
                    1 => {
                        st.off[TOP] = px(1);
                        if rich {
                            st.off[LEFT] = px(1)
                        }
                    }
                    _ => {
                        st.off[RIGHT] = px(1);
                        if rich {
                            st.off[BOTTOM] = px(1)
                        }
                    }
                }
                st.m[LEFT] = px(1);
                st.m[TOP] = px(1);
            }
        }
        st
    };
    let tree = tree(&parents, &mut st);
    v::cover(absolutes);
    let doc = page_of(&tree);
    check_boxes(&doc, &expected(tree), 3);
}

const WORDS: [&str; 3] = ["i", "Wave", "quotations"];
fn words(n: usize) -> Vec<u8> {
    let mut t = Vec::new();
    for i in 0..n {
        if i > 0 {
            t.push(b' ')
        }
        t.extend_from_slice(WORDS[v::pick(WORDS.len())].as_bytes())
    }
    t
}
const SIZES: [i64; 3] = [16, 9, 40];
/// A paragraph of words in a block of any width.
#[no_mangle]
unsafe extern "C" fn vh_web_line_breaking() {
    let n = 1 + v::pick(v::param("words", 3) as usize);
    let text = words(n);
    let size = SIZES[v::pick(v::param("sizes", 1) as usize)];
    let width = num_of(3, false);
    let css = Css::new().px("width", &width).s("font-size:").s(&size.to_string()).s("px;");
    let doc = page("<!doctype html><body style='margin:0'><div style=@0>#0</div><div style='@1'>", vec![("@0", css.0), ("#0", text.clone()), ("@1", bg(9).into_bytes())]);
    let mut lines = Lines::new(width.v, size as f32);
    lines.text(&text);
    v::cover(lines.line as u32);
    lines.out.push(Piece::Box { k: 9, line: lines.line + 1, x: 0., w: 600. });
    check_lines(&painted(&doc), &lines, 0., 0.);
}
/// Text and nested inline boxes with edges of any size.
#[no_mangle]
unsafe extern "C" fn vh_web_inline_boxes() {
    let n = v::param("words", 2) as usize;
    let width = num_of(3, false);
    let relative = v::param("relative", 0) == 1;
    let mut style = |_k: usize| {
        let mut st = St::new();
        st.p[LEFT] = px(2);
        st.p[RIGHT] = px(1);
        st.m[LEFT] = px(1);
        st.m[RIGHT] = px(2);
        st.b[LEFT] = px(1);
        st.b[RIGHT] = px(1);
        if relative {
            st.pos = 1;
            st.off[LEFT] = px(1);
        }
        st
    };
    let sp = |mut a: Vec<u8>| {
        a.push(b' ');
        a
    };
    let nodes = match v::param("shape", 0) {
        0 => vec![In::Text(b"a ".to_vec()), In::Box(1, style(1), vec![In::Text(words(n))]), In::Text(b" b".to_vec())],
        1 => vec![In::Text(b"a".to_vec()), In::Box(1, style(1), vec![In::Text(b"b".to_vec()), In::Box(2, style(2), vec![In::Text(words(n))]), In::Text(b"c".to_vec())]), In::Text(b"d".to_vec())],
        2 => vec![In::Box(1, style(1), vec![In::Box(2, style(2), vec![In::Text(sp(words(n)))]), In::Box(3, style(3), vec![In::Text(b"x y".to_vec())])])],
        _ => vec![In::Box(1, style(1), vec![]), In::Text(words(n)), In::Box(2, style(2), vec![In::Box(3, style(3), vec![In::Text(b"x".to_vec())])])],
    };
    let mut html = "<!doctype html><body style='margin:0'><div style=@0>".to_string();
    let mut parts = vec![("@0", Css::new().px("width", &width).0)];
    inline_html(&nodes, &mut html, &mut parts);
    html.push_str("</div>");
    let doc = page(&html, parts);
    let mut lines = Lines::new(width.v, 16.);
    lines.nodes(&nodes);
    v::cover(lines.line as u32);
    check_lines(&painted(&doc), &lines, 0., 0.);
}

/// White space is collapsed across the boundaries of inline elements, and nothing else is lost.
#[no_mangle]
unsafe extern "C" fn vh_web_white_space() {
    let n = v::param("bytes", 5) as usize;
    // Text nodes and inline boxes' tags, in document order
    let shapes: [&str; 6] = ["#0", "#0<b>#1</b>", "#0<b>#1</b>#2", "<b>#0</b><i>#1</i>", "#0<b><i>#1</i></b>#2", "<b>#0<i></i>#1</b>#2"];
    let shape = v::param("shape", 2) as usize;
    let html = shapes[shape];
    let count = html.bytes().filter(|&b| b == b'#').count();
    let mut texts: Vec<Vec<u8>> = vec![Vec::new(); count];
    for i in 0..n {
        let b = v::u8();
        v::assume(b == b' ' || b == b'\n' || b == b'\t' || (b >= b'a' && b <= b'c'));
        // Distribute the bytes over the nodes
        let _ = i;
        texts[i * count / n].push(b);
    }
    const M: [&str; 3] = ["#0", "#1", "#2"];
    let doc = page(&format!("<!doctype html><body style='margin:0'><div>{}</div>", html), (0..count).map(|i| (M[i], texts[i].clone())).collect());
    let mut expected = Vec::new();
    let mut space = true;
    for t in &texts {
        for &b in t {
            let white = fork(b == b' ' || b == b'\n' || b == b'\t');
            if !(white && space) {
                expected.push(if white { b' ' } else { v::concrete(b as u64) as u8 })
            }
            space = white;
        }
    }
    let (glyphs, _) = shaped(&expected);
    let mut shown = Vec::new();
    let mut x = 0.;
    for i in painted(&doc) {
        match i {
            Item::Text { x: at, glyphs, y, .. } => {
                v::check(at == x || glyphs.is_empty(), "each text starts where the previous one ends");
                let _ = y;
                let font = &crate::fonts::BITSTREAM_VERA_SANS;
                for g in glyphs.chunks(2) {
                    let id = crate::fonts::GlyphId(u16::from_be_bytes([g[0], g[1]]));
                    x += font.glyph_width(id).unwrap().0 * 16.
                }
                shown.extend_from_slice(&glyphs)
            }
            _ => v::check(false, "only text is painted"),
        }
    }
    v::check(shown == glyphs, "the text shown is the document's with white space collapsed");
    v::observe(shown.len() as u64);
    v::cover(1);
}

struct El {
    k: usize,
    display: usize,
    top: Num,
    left: Num,
    kids: Vec<El>,
}
const DISPLAY: [&str; 5] = ["inline", "block", "none", "contents", "flow-root"];
impl El {
    fn css(&self) -> Vec<u8> {
        let c = Css::new().s("display:").s(DISPLAY[self.display]).s(";").s(&bg(self.k));
        if self.display == 0 {
            return c.0;
        }
        c.px("padding-top", &self.top).px("padding-left", &self.left).0
    }
    fn write(&self, text: bool, out: &mut String, parts: &mut Vec<(&'static str, Vec<u8>)>) {
        const M: [&str; 6] = ["@0", "@1", "@2", "@3", "@4", "@5"];
        parts.push((M[self.k], self.css()));
        out.push_str(&format!("<div style={}>", M[self.k]));
        if text {
            out.push((b'a' + self.k as u8) as char)
        }
        for kid in &self.kids {
            kid.write(text, out, parts)
        }
        out.push((b'A' + self.k as u8) as char);
        out.push_str("</div>");
    }
}
/// The lines of text and the block boxes, by CSS 2 section 9.2.
struct Flow {
    text: bool,
    y: f32,
    lines: Vec<(f32, f32, Vec<u8>)>,
    open: bool,
    blocks: Vec<(usize, [f32; 4])>,
}
const LINE: f32 = 24.;
impl Flow {
    fn end_line(&mut self) {
        if self.open {
            self.y += LINE;
            self.open = false
        }
    }
    fn put(&mut self, x: f32, b: u8) {
        if !self.open {
            self.lines.push((x, self.y, Vec::new()));
            self.open = true
        }
        self.lines.last_mut().unwrap().2.push(b)
    }
    fn element(&mut self, e: &El, mut x: f32, mut w: f32) {
        if e.display == 2 {
            return;
        }
        let block = e.display == 1 || e.display == 4;
        let i = self.blocks.len();
        if block {
            self.end_line();
            self.blocks.push((e.k, [x, self.y, w, 0.]));
            self.y += e.top.v;
            x += e.left.v;
            w -= e.left.v;
        }
        if self.text {
            self.put(x, b'a' + e.k as u8)
        }
        for kid in &e.kids {
            self.element(kid, x, w)
        }
        self.put(x, b'A' + e.k as u8);
        if block {
            self.end_line();
            let r = &mut self.blocks[i].1;
            r[3] = self.y - r[1];
        }
    }
}
/// Elements of any display type in any nesting: which text is shown where, which boxes there are.
#[no_mangle]
unsafe extern "C" fn vh_web_box_generation() {
    let n = v::param("elements", 3) as usize;
    let parents = any_shape(n);
    fn build(k: usize, parents: &[usize]) -> Vec<El> {
        let mut out = Vec::new();
        for i in 1..=parents.len() {
            if parents[i - 1] == k {
                let display = v::pick(5);
                out.push(El { k: i, display, top: num_of(1, false), left: num_of(1, false), kids: build(i, parents) })
            }
        }
        out
    }
    let tree = build(0, &parents);
    let mut flow = Flow { text: v::param("text", 1) == 1, y: 0., lines: Vec::new(), open: false, blocks: Vec::new() };
    let mut html = "<!doctype html><body style='margin:0;font-size:20px'>".to_string();
    let mut parts = Vec::new();
    for e in &tree {
        e.write(flow.text, &mut html, &mut parts);
        flow.element(e, 0., 600.)
    }
    let items = painted(&page(&html, parts));
    let ascender = crate::fonts::BITSTREAM_VERA_SANS.ascender().0 * 20.;
    let mut texts = items.iter().filter_map(|i| match i {
        Item::Text { x, y, glyphs, .. } if !glyphs.is_empty() => Some((*x, *y, glyphs)),
        _ => None,
    });
    for (left, top, line) in &flow.lines {
        let mut x = *left;
        let mut at = 0;
        while at < line.len() {
            let (tx, ty, glyphs) = match texts.next() {
                Some(t) => t,
                None => {
                    v::check(false, "all text of elements that are displayed is shown");
                    v::end()
                }
            };
            let n = glyphs.len() / 2;
            v::check(at + n <= line.len(), "a block's text is on lines of its own");
            let (expected, w) = shaped(&line[at..at + n]);
            v::check(*glyphs == expected, "text is shown in document order");
            v::check(tx == x, "text on a line follows the text before it");
            v::check(ty == top + ascender, "lines and blocks follow each other");
            v::observe_f32(ty);
            x += w * 20.;
            at += n;
        }
    }
    v::check(texts.next().is_none(), "text of elements that are not displayed is not shown");
    for (k, at) in flow.blocks {
        let r = rects(&items, k);
        v::check(r.len() == 1, "a block has one box");
        v::check(r[0] == at, "a block's box encloses its padding and its lines, and is as wide as its container");
    }
    for e in 0..n {
        // Boxes of elements that are not block-level: see the properties of inline boxes.
        let k = e + 1;
        fn display(t: &[El], k: usize) -> Option<usize> {
            for e in t {
                if e.k == k {
                    return Some(e.display);
                }
                if let Some(d) = display(&e.kids, k) {
                    return Some(d);
                }
            }
            None
        }
        if let Some(2) | Some(3) = display(&tree, k) {
            v::check(rects(&items, k).is_empty(), "an element that generates no box has no background")
        }
    }
    v::cover(tree[0].display as u32);
}

fn same(a: &[Item], b: &[Item]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|p| match p {
            (Item::Rect { x, y, w, h, rgb, .. }, Item::Rect { x: x2, y: y2, w: w2, h: h2, rgb: rgb2, .. }) => x == x2 && y == y2 && w == w2 && h == h2 && rgb == rgb2,
            (Item::Text { x, y, size, glyphs, rgb, .. }, Item::Text { x: x2, y: y2, size: size2, glyphs: g2, rgb: rgb2, .. }) => {
                x == x2 && y == y2 && size == size2 && glyphs == g2 && rgb == rgb2
            }
            _ => false,
        })
}
fn any() -> bool {
    v::bool()
}
/// Whatever the scheduler does, what is painted is what a single thread paints.
#[no_mangle]
unsafe extern "C" fn vh_web_schedule() {
    let n = v::param("boxes", 3) as usize;
    let parents = any_shape(n);
    fn write(k: usize, parents: &[usize], html: &mut String, parts: &mut Vec<(&'static str, Vec<u8>)>) {
        const M: [&str; 6] = ["@0", "@1", "@2", "@3", "@4", "@5"];
        for i in 1..=parents.len() {
            if parents[i - 1] == k {
                let c = Css::new().s(&bg(i)).px("height", &num_of(1, false)).px("margin-bottom", &num_of(1, false));
                let c = match v::pick(if v::param("few", 0) == 1 { 2 } else { 4 }) {
                    0 => c.s("position:absolute"),
                    1 => c.s("position:relative"),
                    2 => c.s("float:left"),
                    _ => c,
                };
                html.push_str(&format!("<div style={}>", M[i]));
                parts.push((M[i], c.0));
                write(i, parents, html, parts);
                html.push_str("</div>");
            }
        }
    }
    let mut html = "<!doctype html><body>".to_string();
    let mut parts = Vec::new();
    write(0, &parents, &mut html, &mut parts);
    let doc = page(&html, parts);
    rayon_croissant::set_schedule(None);
    let one = painted(&doc);
    rayon_croissant::set_schedule(Some(any));
    let many = painted(&doc);
    rayon_croissant::set_schedule(None);
    v::check(same(&one, &many), "the schedule makes no difference to what is painted");
    v::observe(one.len() as u64);
    v::cover(one.len() as u32);
}

/// An absolutely positioned element between two texts: the texts are shown as without it, and it is placed by its offsets or where it would have been.
#[no_mangle]
unsafe extern "C" fn vh_web_absolute_inline() {
    const LINE: f32 = 24.;
    let width = num_of(2, false);
    let (top, left) = (num_of(1, false), num_of(1, false));
    let positioned = v::pick(2) == 1;
    let before = words(v::pick(3));
    let nested = v::pick(2) == 1;
    let block = v::pick(2) == 1;
    let outer = Css::new().s("font-size:20px;").s(&bg(1)).px("width", &width).px("padding-top", &top).px("padding-left", &left).s(if positioned { "position:relative;" } else { "" });
    let mut css = Css::new().s("position:absolute;width:5px;height:6px;").s(&bg(2)).s(if block { "display:block;" } else { "" });
    let (x, y) = (v::pick(3), v::pick(2));
    let (ox, oy) = (num_of(1, false), num_of(1, false));
    match x {
        0 => {}
        1 => css = css.px("left", &ox),
        _ => css = css.px("right", &ox),
    }
    if y == 1 {
        css = css.px("top", &oy)
    }
    let inside = format!("{}<i style=@1></i>", if before.is_empty() { "" } else { "#0" });
    let html = format!("<!doctype html><body style='margin:0'><div style=@0>{}</div>", if nested { format!("<b>{}<u>#1</u></b>", inside) } else { inside + "<u>#1</u>" });
    let mut parts = vec![("@0", outer.0), ("@1", css.0), ("#1", b"i".to_vec())];
    if !before.is_empty() {
        parts.push(("#0", before.clone()))
    }
    let doc = page(&html, parts);
    let mut lines = Lines::new(width.v, 20.);
    lines.text(&before);
    let (line, at) = (lines.line as f32, lines.x);
    lines.text(b"i");
    let items = painted(&doc);
    let mut texts = items.iter().filter(|i| if let Item::Text { .. } = i { true } else { false });
    let ascender = crate::fonts::BITSTREAM_VERA_SANS.ascender().0 * 20.;
    for p in &lines.out {
        if let Piece::Text { glyphs, line, x } = p {
            match texts.next() {
                Some(Item::Text { x: tx, y: ty, glyphs: g, .. }) => {
                    v::check(g == glyphs, "the text is shown as without the absolutely positioned element");
                    v::check(close(*tx, left.v + x) && close(*ty, top.v + *line as f32 * LINE + ascender), "the text is where it is without the absolutely positioned element");
                }
                _ => v::check(false, "all the text is shown"),
            }
        }
    }
    v::check(texts.next().is_none(), "no other text is shown");
    let (p, r) = (the(&items, 1), the(&items, 2));
    v::check(p[3] == top.v + (1. + lines.line as f32) * LINE, "the block encloses its lines only");
    let cbw = if positioned { width.v + left.v } else { 600. };
    let ex = match x {
        0 => left.v + if block { 0. } else { at },
        1 => ox.v,
        _ => cbw - ox.v - 5.,
    };
    // A block would have been below the line that has text already.
    let ey = if y == 1 { oy.v } else { top.v + (line + if block && !before.is_empty() { 1. } else { 0. }) * LINE };
    v::check(close(r[0], ex), "the box is at its left offset or where its text would have been");
    v::check(close(r[1], ey), "the box is at its top offset or at the line that it would have been on");
    v::check(r[2] == 5. && r[3] == 6., "the box has its size");
    v::observe_f32(r[0]);
    v::cover(lines.line as u32);
}

/// Which boxes are painted over which others.
#[no_mangle]
unsafe extern "C" fn vh_web_paint_order() {
    let n = v::param("boxes", 3) as usize;
    let parents = any_shape(n);
    let texts = v::param("text", 1) == 1;
    let pos: Vec<usize> = (0..n).map(|_| v::pick(3)).collect();
    fn write(k: usize, parents: &[usize], pos: &[usize], texts: bool, html: &mut String, parts: &mut Vec<(&'static str, Vec<u8>)>) {
        const M: [&str; 6] = ["@0", "@1", "@2", "@3", "@4", "@5"];
        for i in 1..=parents.len() {
            if parents[i - 1] == k {
                // Each covers those before it.
                let c = Css::new().s(&bg(i)).px("height", &num_of(1, false)).s("margin-bottom:-9px;").s(["", "position:relative", "position:absolute"][pos[i - 1]]);
                html.push_str(&format!("<div style={}>", M[i]));
                parts.push((M[i], c.0));
                if texts {
                    html.push((b'a' + i as u8) as char)
                }
                write(i, parents, pos, texts, html, parts);
                html.push_str("</div>");
            }
        }
    }
    let mut html = "<!doctype html><body style='margin:0'>".to_string();
    let mut parts = Vec::new();
    write(0, &parents, &pos, texts, &mut html, &mut parts);
    let items = painted(&page(&html, parts));
    let box_at = |k: usize| {
        let at: Vec<usize> = items.iter().enumerate().filter(|i| if let Item::Rect { rgb, .. } = i.1 { rgb[0] == k as f32 / 255. } else { false }).map(|i| i.0).collect();
        v::check(at.len() == 1, "each box is painted once");
        at[0]
    };
    let text_at = |k: usize| {
        let (glyphs, _) = shaped(&[b'a' + k as u8]);
        let at: Vec<usize> = items.iter().enumerate().filter(|i| if let Item::Text { glyphs: g, .. } = i.1 { *g == glyphs } else { false }).map(|i| i.0).collect();
        v::check(at.len() == 1, "each text is painted once");
        at[0]
    };
    let ancestors = |k: usize| std::iter::successors(Some(k), |&k| if k == 0 { None } else { Some(parents[k - 1]) }).skip(1).collect::<Vec<_>>();
    let position = |k: usize| if k == 0 { 0 } else { pos[k - 1] };
    // Containing blocks of absolutely positioned boxes: the nearest positioned ancestors.
    let nearest = |k: usize| ancestors(k).into_iter().find(|&a| a == 0 || position(a) > 0).unwrap();
    for k in 1..=n {
        if texts {
            v::check(box_at(k) < text_at(k), "a box is painted before its text")
        }
        for &a in &ancestors(k) {
            if a > 0 {
                v::check(box_at(a) < box_at(k), "a box is painted before its descendants")
            }
        }
        for j in 1..=n {
            // The numbers are not in tree order: compare the paths.
            let before = |a: usize, b: usize| {
                let (mut x, mut y) = (ancestors(a), ancestors(b));
                x.reverse();
                y.reverse();
                x.push(a);
                y.push(b);
                x < y
            };
            if j == k || !before(j, k) {
                continue;
            }
            if position(j) == 0 && position(k) == 0 && nearest(j) == nearest(k) {
                v::check(box_at(j) < box_at(k), "of boxes that are not positioned, the later one is painted over the earlier one");
                if texts {
                    v::check(text_at(j) < text_at(k), "texts are painted in order")
                }
                v::cover(1);
            }
            if position(j) == 2 && position(k) == 2 && nearest(j) == nearest(k) {
                v::check(box_at(j) < box_at(k), "of boxes absolutely positioned in the same one, the later one is painted over the earlier one");
                v::cover(2);
            }
        }
        for j in 1..=n {
            if position(j) == 0 && position(k) == 2 && nearest(j) == nearest(k) {
                v::check(box_at(j) < box_at(k), "an absolutely positioned box is painted over those in the flow of its containing block");
                if texts {
                    v::check(text_at(j) < box_at(k), "an absolutely positioned box is painted over the text in the flow of its containing block")
                }
                v::cover(3);
            }
        }
    }
    v::observe(items.len() as u64);
}

/// Rendering again gives the same file, byte by byte, from the same document and from another one with the same source.
#[no_mangle]
unsafe extern "C" fn vh_web_repeat() {
    let n = v::param("elements", 2) as usize;
    let parents = any_shape(n);
    fn write(k: usize, parents: &[usize], html: &mut String, parts: &mut Vec<(&'static str, Vec<u8>)>) {
        const M: [&str; 6] = ["@0", "@1", "@2", "@3", "@4", "@5"];
        for i in 1..=parents.len() {
            if parents[i - 1] == k {
                let mut c = Css::new().s("background-color:rgba(").s(&i.to_string()).s(",1,2,0.").s(&i.to_string()).s(");color:rgba(1,2,3,.").s(&(9 - i).to_string()).s(");").px("padding-top", &num_of(1, false));
                c = c.s("display:").s(DISPLAY[v::pick(DISPLAY.len())]);
                c = c.s(["", ";position:relative", ";position:absolute", ";float:left"][v::pick(if v::param("few", 0) == 1 { 1 } else { 4 })]);
                html.push_str(&format!("<div style={}>{}", M[i], (b'a' + i as u8) as char));
                parts.push((M[i], c.0));
                write(i, parents, html, parts);
                html.push_str("</div>x");
            }
        }
    }
    let mut html = "<!doctype html><body style='margin:0;font-size:20px'>".to_string();
    let mut parts = Vec::new();
    write(0, &parents, &mut html, &mut parts);
    let doc = page(&html, parts.clone());
    let one = doc.to_pdf_bytes();
    let two = doc.to_pdf_bytes();
    v::check(one == two, "rendering a document again gives the same file");
    let other = page(&html, parts).to_pdf_bytes();
    v::check(one == other, "rendering the same source again gives the same file");
    v::observe(one.len() as u64);
    v::cover(1);
}

/// The root element, the body and a block: percentages of every kind, whatever the root's display.
#[no_mangle]
unsafe extern "C" fn vh_web_percentages() {
    let root_display = v::param("display", 0) as usize;
    let rich = v::param("rich", 1) as usize;
    let few = v::param("few", 0) == 1;
    let size = |p: i64| match v::pick(3) {
        0 => Auto,
        1 => px(2),
        _ => Pct(p),
    };
    let levels = 3;
    let mut boxes = Vec::new();
    for k in 1..=levels {
        let mut st = St::new();
        if few && k != rich {
            st.h = if v::bool() { Auto } else { Pct(50) };
            st.pos = v::pick(2) as u8;
        } else {
            st.h = size(50);
            st.pos = v::pick(3) as u8;
        }
        // No margins collapse.
        st.p[TOP] = Px(constant(1));
        st.b[BOTTOM] = Px(constant(1));
        st.b[LEFT] = Px(constant(2));
        if k == rich {
            st.w = size(25);
            match v::pick(5) {
                0 => {}
                1 => st.p[TOP] = Pct(25),
                2 => st.p[BOTTOM] = Pct(25),
                3 => st.m[TOP] = Pct(25),
                _ => st.m[LEFT] = Pct(25),
            }
            if st.pos > 0 {
                let side = v::pick(5);
                st.off[side % 4] = Pct(25);
                if side == 4 {
                    // Top is.
                    st.off[BOTTOM] = Pct(25);
                }
            }
        }
        if st.pos == 2 {
            if let Auto = st.w {
                // Not shrink to fit
                st.w = Pct(50)
            }
        }
        boxes.push(st);
    }
    boxes[0].flow_root = true;
    let mut kids = Vec::new();
    for k in (1..=levels).rev() {
        let last = Bx { k, st: boxes.pop().unwrap(), kids: std::mem::replace(&mut kids, Vec::new()) };
        kids.push(last);
    }
    let root = kids.pop().unwrap();
    let mut parts = Vec::new();
    styles_of(&root, &mut parts);
    for p in &mut parts {
        if p.0 == "@1" {
            // The root's own display decides, but it is a block container with a formatting context of its own.
            p.1.extend_from_slice(["", "display:block;", "display:inline;", "display:contents;", "display:none;"][root_display].as_bytes());
        }
        if p.0 == "@2" {
            p.1.splice(0..0, b"margin:0;".iter().cloned());
        }
    }
    let doc = page("<!doctype html><html style=@1><body style=@2><div style=@3>", parts);
    let mut expected = Vec::new();
    let absolutes = if root_display == 4 {
        2
    } else if root.st.pos == 2 {
        expected.extend(absolute(&Pending { b: &root, x: 0., y: 0. }, 0., 0., 600., 800.));
        1
    } else {
        let r = block(&root, 600., Some(800.));
        let dy = r.start.solve();
        expected.extend(r.all.into_iter().map(|p| Placed { k: p.k, r: [p.r[0], p.r[1] + dy, p.r[2], p.r[3]] }));
        for p in &r.abs {
            expected.extend(absolute(&Pending { b: p.b, x: p.x, y: p.y + dy }, 0., 0., 600., 800.))
        }
        0
    };
    check_boxes(&doc, &expected, 3);
    v::cover(absolutes);
}

/// Many boxes: siblings, nested, or both; one of them free.
#[no_mangle]
unsafe extern "C" fn vh_web_many() {
    let n = v::param("boxes", 30) as usize;
    let shape = v::param("shape", 0);
    let free = [1, n / 2, n][v::pick(3)];
    let mut parents: Vec<usize> = Vec::new();
    for k in 1..=n {
        parents.push(match shape {
            0 => 0,
            1 => k - 1,
            _ => k / 3,
        });
    }
    fn build(k: usize, parents: &[usize], free: usize) -> Bx {
        let mut kids = Vec::new();
        for i in k + 1..=parents.len() {
            if parents[i - 1] == k {
                kids.push(build(i, parents, free))
            }
        }
        let mut st = St::new();
        let signed_constant = |x: i64| Px(Num { text: x.to_string().into_bytes(), v: x as f32, free: x != 0 });
        if k == free {
            st.m[TOP] = signed(1);
            st.m[BOTTOM] = signed(1);
            st.p[TOP] = if v::bool() { px(1) } else { A::zero() };
            st.h = if v::bool() { px(2) } else { Auto };
            st.pos = v::pick(2) as u8;
            st.off[TOP] = px(1);
        } else {
            st.m[TOP] = signed_constant(k as i64 * 5 % 7 - 2);
            st.m[BOTTOM] = signed_constant(k as i64 * 3 % 5 - 1);
            if kids.is_empty() && k % 4 > 0 {
                st.h = Px(constant(k as i64 % 3 + 1))
            }
        }
        Bx { k, st, kids }
    }
    let mut top = Vec::new();
    for k in 1..=n {
        if parents[k - 1] == 0 {
            top.push(build(k, &parents, free))
        }
    }
    let doc = page_of(&top);
    check_boxes(&doc, &expected(top), 3);
    v::cover(1);
}
const LONG: &str = "When in the Course of human events it becomes necessary for one people to dissolve the political bands which have connected them with another and to assume among the powers of the earth";
/// A long text in a block of any width.
#[no_mangle]
unsafe extern "C" fn vh_web_long_text() {
    let text = LONG.as_bytes().to_vec();
    let size = SIZES[v::pick(v::param("sizes", 1) as usize)];
    let width = num_of(3, false);
    let css = Css::new().px("width", &width).s("font-size:").s(&size.to_string()).s("px;");
    let doc = page("<!doctype html><body style='margin:0'><div style=@0>#0</div><div style='@1'>", vec![("@0", css.0), ("#0", text.clone()), ("@1", bg(9).into_bytes())]);
    let mut lines = Lines::new(width.v, size as f32);
    lines.text(&text);
    v::cover((lines.line > 2) as u32);
    lines.out.push(Piece::Box { k: 9, line: lines.line + 1, x: 0., w: 600. });
    check_lines(&painted(&doc), &lines, 0., 0.);
}

/// Texts of mixed sizes and inline boxes with vertical edges on lines, and a block after them.
#[no_mangle]
unsafe extern "C" fn vh_web_stacked() {
    let n = v::param("words", 2) as usize;
    let width = num_of(3, false);
    // Of each box: top and bottom padding, border or margin
    let edge = v::pick(3);
    let mut edges = [[0.; 2]; 10];
    // 1.2 of these is exact
    let size = |_k: usize| [15, 5, 40][v::pick(v::param("sizes", 3) as usize)];
    let mut style = |k: usize, size: i64, free: bool| {
        let extra: &'static str = Box::leak(format!("font-size:{}px;color:rgb({},1,2);", size, k).into_boxed_str());
        let mut st = St::new();
        st.extra = extra;
        if free {
            for (i, &side) in [TOP, BOTTOM].iter().enumerate() {
                let x = num_of(2, false);
                edges[k][i] = x.v;
                match edge {
                    0 => st.p[side] = Px(x),
                    1 => st.b[side] = Px(x),
                    _ => st.m[side] = Px(x),
                }
            }
        }
        st
    };
    let outer = size(5);
    let (s1, s2) = (size(1), size(2));
    let t = |t: &[u8]| In::Text(t.to_vec());
    let (nodes, parent) = match v::param("shape", 0) {
        // And the parent of the second box
        0 => (vec![t(b"a "), In::Box(1, style(1, s1, true), vec![In::Text(words(n))]), t(b" b c"), In::Box(2, style(2, s2, true), vec![t(b"d")])], 5),
        1 => (vec![t(b"a"), In::Box(1, style(1, s1, true), vec![t(b"b "), In::Box(2, style(2, s2, true), vec![In::Text(words(n))]), t(b" c")]), t(b" d")], 1),
        2 => (vec![In::Box(1, style(1, s1, true), vec![In::Box(2, style(2, s2, true), vec![In::Text(words(n))])]), t(b"e f")], 1),
        _ => (vec![In::Text(words(n)), In::Box(1, style(1, s1, true), vec![t(b" c"), In::Box(2, style(2, s2, true), vec![])]), t(b" d e")], 1),
    };
    let mut block = style(5, outer, false);
    block.w = Px(width.clone());
    let mut html = "<!doctype html><body style='margin:0'><div style=@5>".to_string();
    let mut parts = vec![("@5", block.css(5))];
    inline_html(&nodes, &mut html, &mut parts);
    html.push_str("</div><div style=@9>");
    let mut after = St::new();
    after.h = Px(constant(7));
    parts.push(("@9", after.css(9)));
    let sizes = [0., s1 as f32, s2 as f32, 0., 0., outer as f32, 0., 0., 0., 0.];
    let mut lines = Lines::new(width.v, outer as f32);
    lines.sizes = Some(sizes);
    lines.nodes(&nodes);
    let items = painted(&page(&html, parts));
    let font = &crate::fonts::BITSTREAM_VERA_SANS;
    let block = the(&items, 5);
    let after = the(&items, 9);
    // What is on each line: (box it is, or 0 for text; box it is in; top, height)
    let mut on: Vec<Vec<(usize, usize, f32, f32)>> = (0..=lines.line).map(|_| Vec::new()).collect();
    let mut pieces = lines.out.iter();
    let of = |rgb: &[f32; 3]| (0..10).find(|&k| rgb[0] == k as f32 / 255.).unwrap();
    for i in &items {
        match i {
            Item::Rect { x, y, w, h, rgb, .. } => {
                let k = of(rgb);
                if k == 5 || k == 9 {
                    continue;
                }
                match pieces.next() {
                    Some(Piece::Box { k: expected, line, x: left, w: width }) => {
                        v::check(k == *expected && *x == *left && *w == *width, "fragments of boxes are where the lines are broken");
                        on[*line].push((k, if k == 2 { parent } else { 5 }, *y, *h))
                    }
                    _ => v::check(false, "a box is painted where CSS has none"),
                }
            }
            Item::Text { x, y, size, rgb, .. } => match pieces.next() {
                Some(Piece::Text { line, x: left, .. }) => {
                    let k = of(rgb);
                    v::check(*x == *left, "text starts where what precedes it on the line ends");
                    v::check(*size == sizes[k], "text has its element's font size");
                    v::observe_f32(*x);
                    v::observe_f32(*y);
                    on[*line].push((0, k, *y - font.ascender().0 * *size, 1.2 * *size))
                }
                _ => v::check(false, "text is painted where CSS has none"),
            },
        }
    }
    v::check(pieces.next().is_none(), "everything on the lines is painted");
    let max = |a: f32, b: f32| if a < b { b } else { a };
    let mut top = 0.;
    for on in on {
        let mut content_top = [top; 10];
        let mut content = [0.; 10];
        for &(k, within, at, height) in on.iter() {
            // Where its margin box starts
            let above = if edge == 2 { edges[k][0] } else { 0. };
            v::check(at - above == content_top[within], "text and boxes start at the top of the line or of the box they are in");
            let margins = if edge == 2 { edges[k][0] + edges[k][1] } else { 0. };
            content[within] = max(content[within], height + margins);
            content_top[k] = if edge == 2 { at } else { at + edges[k][0] };
        }
        for &(k, _, _, height) in on.iter() {
            if k > 0 {
                let own = if edge == 2 { 0. } else { edges[k][0] + edges[k][1] };
                v::check(height == content[k] + own, "a box is as high as the highest text or box in it, and its own edges")
            }
        }
        top += content[5];
    }
    v::check(block[0] == 0. && block[1] == 0. && block[2] == width.v, "the block is at the top of the page");
    v::check(block[3] == top, "each line is as high as the highest text or box on it");
    v::check(after[0] == 0. && after[1] == top && after[3] == 7., "the next block is below the lines");
    v::cover(fork(block[3] > 60.) as u32);
}

/// A document with any one character between others: it is white space only if CSS has it collapse, and is shown as the font's glyph otherwise.
#[no_mangle]
unsafe extern "C" fn vh_web_any_character() {
    let c = v::u32();
    v::assume(c < 0x11_0000 && !(c >= 0xD800 && c < 0xE000));
    // Form feeds and carriage returns are not claimed.
    v::assume(c != 0xC && c != 0xD);
    let ch = std::char::from_u32_unchecked(c);
    let white = fork(c == 0x20 || c == 9 || c == 0xA);
    let font = &crate::fonts::BITSTREAM_VERA_SANS;
    let mut html = "<!doctype html><body style='margin:0'><div>#0</div>".to_string();
    let mut text = String::new();
    let mut glyphs = Vec::new();
    let mut put = |ch: char, shown: bool, text: &mut String| {
        text.push(ch);
        if shown {
            glyphs.extend_from_slice(&font.glyph_id(ch).unwrap().0.to_be_bytes())
        }
    };
    let spaces = v::bool();
    put('a', true, &mut text);
    if spaces {
        put(' ', true, &mut text)
    }
    if white {
        put(ch, false, &mut text);
        if !spaces {
            put(' ', true, &mut String::new())
        }
    } else {
        put(ch, true, &mut text);
        if spaces {
            put(' ', true, &mut text)
        }
    }
    put('b', true, &mut text);
    html.push_str("<div style=@0>");
    let doc = page(&html, vec![("#0", text.into_bytes()), ("@0", bg(1).into_bytes())]);
    let mut shown = Vec::new();
    for i in painted(&doc) {
        if let Item::Text { glyphs, .. } = i {
            shown.extend_from_slice(&glyphs)
        }
    }
    v::check(shown == glyphs, "every character but white space is shown, as its glyph");
    v::cover(white as u32);
}
