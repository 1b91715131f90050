// Documents with free parts, and what is painted for them.

/// A decimal number of the given number of digits, each of them free.
#[derive(Clone)]
struct Num {
    text: Vec<u8>,
    v: f32,
    /// Chosen by the solver
    free: bool,
}
fn num_of(digits: usize, neg: bool) -> Num {
    let mut text = Vec::new();
    if neg {
        text.push(b'-')
    }
    let mut x = 0i64;
    for _ in 0..digits {
        let d = v::digit();
        text.push(d);
        x = x * 10 + (d as i64 - 48);
    }
    Num { text, v: if neg { -(x as f32) } else { x as f32 }, free: true }
}
fn constant(x: i64) -> Num {
    Num { text: x.to_string().into_bytes(), v: x as f32, free: false }
}
struct Css(Vec<u8>);
impl Css {
    fn new() -> Self {
        Css(Vec::new())
    }
    fn s(mut self, s: &str) -> Self {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    fn n(mut self, n: &Num) -> Self {
        self.0.extend_from_slice(&n.text);
        self
    }
    fn px(self, name: &str, n: &Num) -> Self {
        self.s(name).s(":").n(n).s("px;")
    }
}
fn string(b: Vec<u8>) -> String {
    // The bytes may be free, but only among ASCII.
    unsafe { String::from_utf8_unchecked(b) }
}
/// Parses the page and replaces each marker that is the whole of a text node or of an attribute's value.
fn page(html: &str, parts: Vec<(&str, Vec<u8>)>) -> Document {
    replaced(Document::parse_html(html.as_bytes()), parts)
}
fn replaced(mut doc: Document, parts: Vec<(&str, Vec<u8>)>) -> Document {
    let mut done = 0;
    for node in doc.nodes.iter_mut() {
        match &mut node.data {
            NodeData::Text { contents } => {
                for (k, p) in &parts {
                    if contents == k {
                        *contents = string(p.clone());
                        done += 1;
                        break;
                    }
                }
            }
            NodeData::Element(e) => {
                for a in &mut e.attrs {
                    for (k, p) in &parts {
                        if &*a.value == *k {
                            a.value = string(p.clone());
                            done += 1;
                            break;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    assert!(done >= parts.len(), "a marker is missing");
    doc
}
#[derive(Clone)]
enum Item {
    Rect { x: f32, y: f32, w: f32, h: f32, rgb: [f32; 3], alpha: f32 },
    Text { x: f32, y: f32, size: f32, glyphs: Vec<u8>, rgb: [f32; 3], alpha: f32 },
}
/// Everything painted, in order.
fn painted(doc: &Document) -> Vec<Item> {
    let bytes = doc.to_pdf_bytes();
    let f = match read_file(&bytes) {
        Some(f) => f,
        None => {
            v::check(false, "the file reads as a PDF file");
            v::end()
        }
    };
    let ops = operators(f.stream(get(f.page(0), b"Contents")).unwrap());
    let mut items = Vec::new();
    let mut rgb = [0.; 3];
    let mut alpha = 1.;
    let mut rect = None;
    let mut at = (0., 0., 0.);
    for op in &ops {
        if is_op(op, b"rg", 3) {
            rgb = [num(&op.1[0]), num(&op.1[1]), num(&op.1[2])]
        } else if is_op(op, b"gs", 1) {
            if let O::Name(n) = &op.1[0] {
                let state = get(get(get(get(f.pages(), b"Resources"), b"ExtGState"), n), b"ca");
                alpha = num(state)
            }
        } else if is_op(op, b"re", 4) {
            rect = Some((num(&op.1[0]), num(&op.1[1]), num(&op.1[2]), num(&op.1[3])))
        } else if is_op(op, b"f", 0) {
            let (x, y, w, h) = rect.take().unwrap();
            items.push(Item::Rect { x, y, w, h, rgb, alpha })
        } else if is_op(op, b"Tm", 6) {
            at = (num(&op.1[4]), num(&op.1[5]), num(&op.1[0]))
        } else if is_op(op, b"Tj", 1) {
            if let O::Str(s) = &op.1[0] {
                items.push(Item::Text { x: at.0, y: at.1, size: at.2, glyphs: s.clone(), rgb, alpha })
            } else {
                v::check(false, "Tj has a string")
            }
        }
    }
    items
}
/// The rectangles painted in rgb(k, 1, 2), in order.
fn rects(items: &[Item], k: usize) -> Vec<[f32; 4]> {
    let mut out = Vec::new();
    for i in items {
        if let Item::Rect { x, y, w, h, rgb, .. } = i {
            if rgb[2] == 2. / 255. && rgb[0] == k as f32 / 255. {
                out.push([*x, *y, *w, *h])
            }
        }
    }
    out
}
fn the(items: &[Item], k: usize) -> [f32; 4] {
    let r = rects(items, k);
    v::check(r.len() == 1, "each box's background is painted exactly once");
    r[0]
}
fn bg(k: usize) -> String {
    format!("background-color:rgb({},1,2);", k)
}
/// The glyphs of a text as they are shown, and its width at 1 px.
fn shaped(text: &[u8]) -> (Vec<u8>, f32) {
    let font = &crate::fonts::BITSTREAM_VERA_SANS;
    let mut glyphs = Vec::new();
    let mut w = 0.;
    for &b in text {
        let id = font.glyph_id(b as char).unwrap();
        glyphs.extend_from_slice(&id.0.to_be_bytes());
        w += font.glyph_width(id).unwrap().0;
    }
    (glyphs, w)
}
fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 0.01
}
/// Splits the path on the condition.
fn fork(c: bool) -> bool {
    v::concrete(c as u64) == 1
}
