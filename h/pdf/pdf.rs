use super::convert::*;
use super::object::*;
use super::syntax::*;
use super::*;
use crate::fonts::{Font, GlyphId};
use crate::primitives::Length;
use crate::text::ShapedSegment;
use std::sync::Arc;
include!("../../vh/src/api.rs");
include!("../common/ttf.rs");

include!("../common/pdfread.rs");
fn file_of(doc: &Document) -> File {
    match read_file(&doc.write_to_pdf_bytes()) {
        Some(f) => f,
        None => {
            v::check(false, "the file reads as a PDF file");
            v::end()
        }
    }
}
// ---------------------------------------------------------------- objects
fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}
/// Names and strings of free bytes, alone.
#[no_mangle]
pub extern "C" fn vh_pdf_strings() {
    let kind = v::pick(3);
    let n = v::pick(v::param("bytes", 3) as usize + 1);
    let mut s = Vec::new();
    for _ in 0..n {
        s.push(v::u8())
    }
    let s = leak(s);
    let (o, expected) = match kind {
        0 => (Object::Name(s), O::Name(s.to_vec())),
        1 => (Object::LiteralString(s), O::Str(s.to_vec())),
        _ => (Object::HexString(s), O::Str(s.to_vec())),
    };
    let mut out = Vec::new();
    o.write(&mut out).unwrap();
    if kind == 0 {
        for b in &out {
            v::check(*b != 0, "no NUL byte in a written name")
        }
    }
    let mut p = P { d: &out, i: 0 };
    let r = p.obj();
    v::check(r == expected, "a name or string reads back as the bytes it was made from");
    v::check(p.i == out.len(), "nothing follows the name or string");
    v::cover(1 + kind as u32);
}
/// Any i32 / usize / reference number of up to `digits` digits.
#[no_mangle]
pub extern "C" fn vh_pdf_numbers() {
    let digits = v::param("digits", 3) as u32;
    let kind = v::pick(3);
    let lim = 10i64.pow(digits);
    let mut out = Vec::new();
    let expected = match kind {
        0 => {
            let x = if digits == 10 { v::range(0, 0xFFFF_FFFF) as i32 as i64 } else { v::range(0, 2 * lim as u64 - 2) as i64 - (lim - 1) };
            Object::from(x as i32).write(&mut out).unwrap();
            O::Int(x)
        }
        1 => {
            let x = v::range(0, lim as u64 - 1) as i64;
            Object::from(x as usize).write(&mut out).unwrap();
            O::Int(x)
        }
        _ => {
            let x = if digits == 10 { v::range(0, 0xFFFF_FFFF) as i64 } else { v::range(0, lim as u64 - 1) as i64 };
            Object::from(IndirectObjectId(x as u32)).write(&mut out).unwrap();
            O::Ref(x)
        }
    };
    let mut p = P { d: &out, i: 0 };
    let r = p.obj();
    v::check(r == expected, "a number or reference reads back as its value");
    v::check(p.i == out.len(), "nothing follows the number or reference");
    v::cover(1 + kind as u32);
}
/// Every 32-bit float, NaN and the infinities included.
#[no_mangle]
pub extern "C" fn vh_pdf_floats() {
    let x = v::f32();
    let mut out = Vec::new();
    Object::Float(x).write(&mut out).unwrap();
    let mut p = P { d: &out, i: 0 };
    let y = match p.obj() {
        O::Float(y) => y,
        _ => {
            v::check(false, "a float is written as a PDF number, without an exponent");
            return;
        }
    };
    v::check(p.i == out.len(), "nothing follows the number");
    if x.abs() >= 0.001 && x.abs() < 1e10 {
        v::check(y == x, "an ordinary number reads back as it is");
        v::cover(1)
    } else {
        v::check(!(x.abs() < 0.001) || y.abs() < 0.001, "a small number stays small");
        v::check(!(x.abs() >= 1e10) || y.abs() >= 1e10 && (y > 0.) == (x > 0.), "a large number stays large");
        v::cover(2)
    }
}
fn any_bytes(max: usize) -> Vec<u8> {
    if v::param("plain", 0) == 1 {
        return b"#( \\".to_vec();
    }
    let n = v::pick(max + 1);
    let mut s = Vec::new();
    for _ in 0..n {
        s.push(v::u8())
    }
    s
}
/// An object of arbitrary shape, and what it has to read back as.
fn any_object(depth: usize, width: usize) -> (Object<'static>, O) {
    match v::pick(if depth == 0 { 4 } else { 7 }) {
        0 => {
            let s = leak(any_bytes(1));
            (Object::Name(s), O::Name(s.to_vec()))
        }
        1 => {
            let s = leak(any_bytes(1));
            (Object::LiteralString(s), O::Str(s.to_vec()))
        }
        2 => {
            let x = v::pick(2);
            if x == 0 {
                (Object::I32(-7), O::Int(-7))
            } else {
                (Object::Reference(IndirectObjectId(12)), O::Ref(12))
            }
        }
        3 => {
            let x = v::dyadic(-1000, 1000, 3);
            (Object::Float(x), O::Float(x))
        }
        4 => {
            let n = v::pick(width + 1);
            let (mut a, mut b) = (Vec::new(), Vec::new());
            for _ in 0..n {
                let (x, y) = any_object(depth - 1, width);
                a.push(x);
                b.push(y)
            }
            (Object::Array(leak(a)), O::Arr(b))
        }
        5 => {
            let n = v::pick(width + 1);
            let (mut a, mut b) = (Vec::new(), Vec::new());
            for _ in 0..n {
                let k = any_bytes(1);
                let (x, y) = any_object(depth - 1, width);
                a.push((k.clone(), x));
                b.push((k, y))
            }
            (Object::DictionaryWithOwnedKeys(leak(a)), O::Dict(b))
        }
        _ => {
            let (d, o) = any_dictionary(depth, width);
            (Object::Dictionary(d), o)
        }
    }
}
/// A dictionary in up to two linked parts.
fn any_dictionary(depth: usize, width: usize) -> (Dictionary<'static>, O) {
    let mut b = Vec::new();
    let mut part = |prev| {
        let n = v::pick(width + 1);
        let mut a = Vec::new();
        for _ in 0..n {
            let k = leak(any_bytes(1));
            let (x, y) = any_object(depth - 1, width);
            a.push((k, x));
            b.push((k.to_vec(), y))
        }
        Dictionary { prev, pairs: leak(a) }
    };
    let d = if v::pick(2) == 0 {
        part(None)
    } else {
        let first = part(None);
        part(Some(Box::leak(Box::new(first))))
    };
    (d, O::Dict(b))
}
#[no_mangle]
pub extern "C" fn vh_pdf_objects() {
    let (o, expected) = any_object(v::param("depth", 1) as usize, v::param("width", 2) as usize);
    let mut out = Vec::new();
    o.write(&mut out).unwrap();
    let mut p = P { d: &out, i: 0 };
    let r = p.obj();
    v::check(r == expected, "an object reads back as the one written");
    v::check(p.i == out.len(), "nothing follows the object");
    match expected {
        O::Arr(_) => v::cover(1),
        O::Dict(_) => v::cover(2),
        _ => v::cover(3),
    }
}

// ---------------------------------------------------------------- file structure
fn any_len() -> usize {
    [0, 1, 9, 10, 99, 4000, 1_000_000][v::pick(v::param("lens", 5) as usize)]
}
/// Streams and dictionaries added in any order; everything is found back through the file's own cross-reference table.
#[no_mangle]
pub extern "C" fn vh_pdf_file() {
    let n = v::pick(v::param("objects", 2) as usize + 1);
    let mut pdf = PdfFile::new();
    let mut expected: Vec<(O, Option<Vec<u8>>)> = Vec::new();
    for i in 0..n {
        let id = if v::pick(2) == 0 {
            let len = any_len();
            let mut c = vec![0u8; len];
            if len > 0 {
                c[0] = v::u8();
                c[len - 1] = v::u8()
            }
            let k = any_bytes(1);
            let id = pdf.add_stream(dictionary! { &k => 5 }, (&*c).into());
            expected.push((O::Dict(vec![(k, O::Int(5)), (b"Length".to_vec(), O::Int(len as i64))]), Some(c)));
            id
        } else {
            let k = any_bytes(1);
            let id = pdf.add_dictionary(dictionary! { "K" => Object::LiteralString(&k) });
            expected.push((O::Dict(vec![(b"K".to_vec(), O::Str(k.clone()))]), None));
            id
        };
        v::check(id.0 as usize == 4 + i, "objects are numbered consecutively");
    }
    let s = any_bytes(1);
    let basic = BasicObjects {
        page_tree: dictionary! { "T" => Object::Name(&s) },
        catalog: dictionary! { "C" => Object::HexString(&s), "D" => 10 },
        info: dictionary! { "I" => Object::LiteralString(&s) },
    };
    let mut out = Vec::with_capacity(1 << 16);
    pdf.write(&mut out, &basic).unwrap();
    match read_file(&out) {
        None => v::check(false, "every object is where the cross-reference table says"),
        Some(f) => {
            v::check(f.objects.len() == 4 + n, "the cross-reference table has every object");
            v::check(f.objects[1].0 == O::Dict(vec![(b"T".to_vec(), O::Name(s.clone()))]), "object 1 is the page tree");
            v::check(*get(f.at(get(&f.trailer, b"Root")), b"D") == O::Int(10), "Root is the catalog");
            v::check(*get(f.at(get(&f.trailer, b"Info")), b"I") == O::Str(s), "Info is the document information");
            for i in 0..n {
                v::check(f.objects[4 + i] == expected[i], "an object or stream reads back as added")
            }
        }
    }
    v::cover(1 + n as u32);
}
struct Failing {
    left: usize,
    failed: bool,
    after: bool,
    written: usize,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after = true
        }
        if b.len() > self.left {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        self.left -= b.len();
        self.written += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A sink that refuses data from an arbitrary point on.
#[no_mangle]
pub extern "C" fn vh_pdf_sink_error() {
    let mut doc = Document::new();
    doc.add_page(Size::new(10., 20.)).paint_rectangle(&crate::primitives::rect(1., 2., 3., 4.));
    let total = doc.write_to_pdf_bytes().len();
    let left = v::range(0, 4096) as usize;
    let mut w = Failing { left, failed: false, after: false, written: 0 };
    let r = doc.write_to_pdf(&mut w);
    v::check(r.is_err() == w.failed, "an error of the output stream is returned, and only then");
    v::check(!w.after, "nothing is written after a failed write");
    v::check(w.failed == (left < total), "the whole document is written to the stream");
    if r.is_ok() {
        v::check(w.written == total, "every byte of the document reaches the stream");
        v::cover(1)
    } else {
        v::cover(2)
    }
}

// ---------------------------------------------------------------- pages
fn coordinate() -> f32 {
    v::dyadic(-(1 << 15), 1 << 15, 2)
}
#[no_mangle]
pub extern "C" fn vh_pdf_pages() {
    let n = v::pick(v::param("pages", 3) as usize + 1);
    let mut doc = Document::new();
    let mut sizes = Vec::new();
    let mut rects = Vec::new();
    for _ in 0..n {
        let (w, h) = (v::dyadic(0, 1 << 15, 2), v::dyadic(0, 1 << 15, 2));
        sizes.push((w, h));
        let mut page = doc.add_page(Size::new(w, h));
        let mut rs = Vec::new();
        for _ in 0..v::pick(v::param("rects", 2) as usize + 1) {
            let r = [coordinate(), coordinate(), coordinate(), coordinate()];
            page.paint_rectangle(&crate::primitives::rect(r[0], r[1], r[2], r[3]));
            rs.push(r)
        }
        rects.push(rs)
    }
    let f = file_of(&doc);
    v::check(*get(f.catalog(), b"Type") == name(b"Catalog"), "the catalog is one");
    v::check(*get(f.pages(), b"Type") == name(b"Pages"), "the page tree is one");
    v::check(*get(f.pages(), b"Count") == O::Int(n as i64), "the page count is the number of pages added");
    match get(f.pages(), b"Kids") {
        O::Arr(k) => v::check(k.len() == n, "every page is in the page tree once"),
        _ => v::check(false, "the page tree has its pages"),
    }
    for i in 0..n {
        let p = f.page(i);
        v::check(*get(p, b"Type") == name(b"Page"), "a page is one");
        v::check(f.at(get(p, b"Parent")) == f.pages(), "the page's parent is the page tree");
        match get(p, b"MediaBox") {
            O::Arr(b) if b.len() == 4 => {
                let (x0, y0, x1, y1) = (num(&b[0]), num(&b[1]), num(&b[2]), num(&b[3]));
                v::check(x0 == 0. && x1 == sizes[i].0 * 0.75, "the media box is as wide as the page, in points, from the origin to the right");
                // The page's top edge is at PDF y = 0, and content goes down from there.
                v::check(y0.max(y1) == 0. && y0.min(y1) == -(sizes[i].1 * 0.75), "the media box is as high as the page, from the origin down");
            }
            _ => v::check(false, "a page has a media box"),
        }
        let s = match f.stream(get(p, b"Contents")) {
            Some(s) => s,
            None => {
                v::check(false, "a page has its content stream");
                return;
            }
        };
        let ops = operators(s);
        v::check(ops.len() == 1 + 2 * rects[i].len(), "the content stream has the page's operations and no others");
        v::check(is_op(&ops[0], b"cm", 6), "the content stream starts with the page's transformation");
        let m: Vec<f32> = ops[0].1.iter().map(num).collect();
        v::check(m[0] == 0.75 && m[1] == 0. && m[2] == 0. && m[3] == -0.75 && m[4] == 0. && m[5] == 0., "a px is 3/4 pt, and y grows downwards");
        for (j, r) in rects[i].iter().enumerate() {
            let op = &ops[1 + 2 * j];
            v::check(is_op(op, b"re", 4), "a rectangle is painted with re");
            for k in 0..4 {
                v::check(num(&op.1[k]) == r[k], "a painted rectangle has the coordinates given")
            }
            v::check(is_op(&ops[2 + 2 * j], b"f", 0), "a rectangle is filled");
        }
    }
    v::cover(1 + n as u32);
}
const ALPHAS: [f32; 9] = [1., 0., 0.5, 2., -1., 0.25, 0.5 + 1. / 4096., 1. - 1. / 131072., 1. / 131072.];
/// After any sequence of colour changes and paintings, on one or two pages, each painting shows the last colour set.
#[no_mangle]
pub extern "C" fn vh_pdf_colors() {
    let steps = v::param("steps", 2) as usize;
    let alphas = v::param("alphas", 5) as usize;
    let pages = v::param("pages", 2) as usize;
    let mut doc = Document::new();
    let mut painted = Vec::new();
    for _ in 0..pages {
        let mut page = doc.add_page(Size::new(10., 20.));
        let mut current = (0., 0., 0., 1.);
        let mut on_page = Vec::new();
        for _ in 0..steps {
            if v::pick(2) == 1 {
                let (r, g, b) = (v::dyadic(0, 64, 6), v::dyadic(0, 64, 6), v::dyadic(0, 64, 6));
                let a = ALPHAS[v::pick(alphas)];
                current = (r, g, b, a);
                page.set_color(&RGBA(r, g, b, a));
            } else {
                page.set_color(&RGBA(current.0, current.1, current.2, current.3));
            }
            page.paint_rectangle(&crate::primitives::rect(1., 2., 3., 4.));
            on_page.push(current)
        }
        painted.push(on_page)
    }
    let f = file_of(&doc);
    let states = get(get(f.pages(), b"Resources"), b"ExtGState");
    if let O::Dict(v) = states {
        for i in 0..v.len() {
            for j in 0..i {
                v::check(v[i].0 != v[j].0, "graphics state resources have distinct names")
            }
        }
    } else {
        v::check(false, "the graphics state resources are a dictionary")
    }
    for i in 0..pages {
        let ops = operators(f.stream(get(f.page(i), b"Contents")).unwrap());
        let mut now = (0., 0., 0., 1.);
        let mut k = 0;
        for op in &ops {
            if is_op(op, b"rg", 3) {
                now = (num(&op.1[0]), num(&op.1[1]), num(&op.1[2]), now.3)
            } else if is_op(op, b"gs", 1) {
                let n = match &op.1[0] {
                    O::Name(n) => n,
                    _ => return v::check(false, "gs names a resource"),
                };
                let s = get(states, n);
                v::check(get(s, b"ca") == get(s, b"CA"), "the state sets both alphas");
                match *get(s, b"ca") {
                    O::Float(a) => now.3 = a,
                    _ => return v::check(false, "gs names an alpha state of the document"),
                }
            } else if is_op(op, b"f", 0) {
                let e = painted[i][k];
                k += 1;
                v::check(now.0 == e.0 && now.1 == e.1 && now.2 == e.2, "a painting shows the last colour set");
                let a: f32 = if e.3 > 1. { 1. } else if e.3 < 0. { 0. } else { e.3 };
                v::check((now.3 - a).abs() <= 1. / 65535., "a painting shows the last alpha set, clamped, within 1/65535");
                v::check(now.3 >= 0. && now.3 <= 1., "alpha is within 0..1");
                if now.3 < 1. {
                    v::cover(1)
                }
                if now.0 != 0. {
                    v::cover(2)
                }
            }
        }
        v::check(k == painted[i].len(), "every painting is in the content stream");
    }
}

// ---------------------------------------------------------------- fonts
fn parse_font(t: &Ttf) -> Arc<Font> {
    match Font::parse(t.bytes()) {
        Ok(f) => f,
        Err(_) => {
            v::check(false, "the font parses");
            v::end()
        }
    }
}
fn simple_font(widths: Vec<u16>, glyphs: u16, groups: Vec<(u32, u32, u32)>, name: &[u8]) -> Ttf {
    Ttf { units: 1000, ascender: 800, descender: 65336, bbox: [1, 2, 3, 4], glyphs, widths, groups, name: name.to_vec() }
}
/// The unit conversion of metrics: any advance, ascent, ..., in a few units per em, truncated to a thousandth.
#[no_mangle]
pub extern "C" fn vh_pdf_em_units() {
    let units = [1, 16, 256, 1024, 2048][v::pick(5)];
    let x = if v::pick(2) == 0 { v::int(0, 16383) } else { v::int(-16384, -1) };
    let ems = Length::<crate::fonts::Em>::new(x as f32 / units as f32);
    match Object::from(ems) {
        Object::I32(y) => {
            let d = y as i64 * units - x * 1000;
            v::check(d < units && -d < units, "a length in ems is written in thousandths, to within one");
            v::cover(1)
        }
        _ => v::check(false, "a length in ems is written as an integer"),
    }
}
/// Text runs in one or two fonts: operators, glyph codes, font resources.
#[no_mangle]
pub extern "C" fn vh_pdf_text() {
    let max = v::param("glyphs", 2) as usize;
    let runs = v::param("runs", 2) as usize;
    let fonts = [parse_font(&simple_font(vec![500], 1, vec![], b"A")), parse_font(&simple_font(vec![500], 1, vec![], b"B"))];
    let mut doc = Document::new();
    let mut shown = Vec::new();
    for _ in 0..2 {
        let mut page = doc.add_page(Size::new(10., 20.));
        let mut on_page = Vec::new();
        for _ in 0..v::pick(runs + 1) {
            let font = v::pick(2);
            let mut glyphs = Vec::new();
            for _ in 0..v::pick(max + 1) {
                glyphs.push(v::u16())
            }
            let segment = ShapedSegment {
                font: fonts[font].clone(),
                glyphs: glyphs.iter().map(|g| GlyphId(*g)).collect(),
                advance_width: Length::new(0.),
            };
            let (x, y, size) = (coordinate(), coordinate(), v::dyadic(0, 1 << 12, 2));
            let run = TextRun { segment: &segment, font_size: Length::new(size), origin: crate::primitives::point(x, y) };
            v::check(page.show_text(&run).is_ok(), "text in a good font is shown");
            on_page.push((font, glyphs, x, y, size))
        }
        shown.push(on_page)
    }
    let f = file_of(&doc);
    let resources = get(get(f.pages(), b"Resources"), b"Font");
    let mut used = [false, false];
    for page in &shown {
        for s in page {
            used[s.0] = true
        }
    }
    match resources {
        O::Dict(d) => {
            v::check(d.len() == used[0] as usize + used[1] as usize, "each font used is embedded once");
            if d.len() == 2 {
                v::check(d[0].0 != d[1].0, "font resources have distinct names");
                v::cover(2)
            }
        }
        _ => v::check(false, "the font resources are a dictionary"),
    }
    for i in 0..2 {
        let ops = operators(f.stream(get(f.page(i), b"Contents")).unwrap());
        v::check(ops.len() == 1 + 5 * shown[i].len(), "the content stream has the page's text and nothing else");
        for (k, s) in shown[i].iter().enumerate() {
            let o = &ops[1 + 5 * k..6 + 5 * k];
            v::check(is_op(&o[0], b"BT", 0) && is_op(&o[4], b"ET", 0), "text is shown within BT and ET");
            v::check(is_op(&o[1], b"Tf", 2) && is_op(&o[2], b"Tm", 6) && is_op(&o[3], b"Tj", 1), "text has a font, a matrix and glyphs");
            let n = match &o[1].1[0] {
                O::Name(n) => n,
                _ => return v::check(false, "Tf names a resource"),
            };
            let font = f.at(get(resources, n));
            v::check(*get(font, b"BaseFont") == name(&[b'A' + s.0 as u8]), "text is shown in its font");
            let m: Vec<f32> = o[2].1.iter().map(num).collect();
            let size = num(&o[1].1[1]);
            v::check(size * m[0] == s.4 && size * m[3] == -s.4 && m[1] == 0. && m[2] == 0., "text is shown upright at its font size");
            v::check(m[4] == s.2 && m[5] == s.3, "text starts at its origin");
            let mut codes = Vec::new();
            for g in &s.1 {
                codes.push((*g >> 8) as u8);
                codes.push(*g as u8)
            }
            v::check(o[3].1[0] == O::Str(codes), "glyphs are shown by their big-endian ids, in order");
            if s.1.len() > 0 {
                v::cover(1)
            }
        }
    }
}
fn hex16(d: &[u8], at: usize) -> u32 {
    let mut x = 0;
    for k in 0..4 {
        match hex(d[at + k]) {
            Some(h) => x = x << 4 | h as u32,
            None => {
                v::check(false, "four hexadecimal digits");
                v::end()
            }
        }
    }
    x
}
/// Reads a ToUnicode CMap's bfchar sections: (glyph, code units).
fn to_unicode(d: &[u8]) -> Option<Vec<(u32, Vec<u32>)>> {
    let mut out = Vec::new();
    let mut i = 0;
    let begin: &[u8] = b" beginbfchar\n";
    let end: &[u8] = b"endbfchar\n";
    // Every line; sections start with "N beginbfchar".
    while i < d.len() {
        let mut e = i;
        while e < d.len() && d[e] != b'\n' {
            e += 1
        }
        let line_end = e;
        let mut p = P { d, i };
        i = line_end + 1;
        let n = match p.int() {
            Some(n) if p.lit(begin) => n as usize,
            _ => continue,
        };
        if n == 0 || n > 100 {
            return None;
        }
        for _ in 0..n {
            // <gggg> <uuuu> or <gggg> <uuuuuuuu>
            if !p.lit(b"<") {
                return None;
            }
            let g = hex16(d, p.i);
            p.i += 4;
            if !p.lit(b"> <") {
                return None;
            }
            let mut u = vec![hex16(d, p.i)];
            p.i += 4;
            if !p.lit(b">") {
                u.push(hex16(d, p.i));
                p.i += 4;
                if !p.lit(b">") {
                    return None;
                }
            }
            if !p.lit(b"\n") {
                return None;
            }
            out.push((g, u))
        }
        if !p.lit(end) {
            return None;
        }
        i = p.i
    }
    Some(out)
}
/// The embedded font: program, widths, descriptor, and the map back to Unicode.
#[no_mangle]
pub extern "C" fn vh_pdf_font() {
    let (big, unicode) = (v::param("big", 0) == 1, v::param("unicode", 0) == 1);
    // One group of consecutive code points from a free start, or a long one over a section boundary.
    let (start, count, gid) = if !unicode {
        (0x20, 1, 1)
    } else if big {
        (0x41, [99, 100, 101, 200, 201][v::pick(5)], 3)
    } else {
        // (The number of UTF-16 units differs on the two sides of U+10000.)
        let start = match v::pick(3) {
            0 => v::range(0x20, 0xD000) as u32,
            1 => v::range(0xE000, 0xFF00) as u32,
            _ => v::range(0x10000, 0x10FF00) as u32,
        };
        (start, 1 + v::pick(2) as u32, v::range(0, 60000) as u32)
    };
    let w = v::param("widths", 2) as usize;
    let mut widths = Vec::new();
    for _ in 0..w {
        widths.push(if unicode { 500 } else { [0, 1, 500, 1023, 1025, 65535][v::pick(6)] })
    }
    let extra = if unicode { 1 } else { v::pick(2) };
    let mut t = simple_font(widths.clone(), (w + extra) as u16, vec![(start, start + count - 1, gid)], b"Font#1 a");
    t.units = 1024;
    if !unicode {
        t.ascender = [800, 0, 32767][v::pick(3)];
        t.bbox[3] = [900, -300i16 as u16][v::pick(2)];
    }
    let bytes = t.bytes();
    let font = parse_font(&t);
    let mut doc = Document::new();
    {
        let mut page = doc.add_page(Size::new(10., 20.));
        let segment = ShapedSegment { font: font.clone(), glyphs: vec![GlyphId(1)], advance_width: Length::new(0.) };
        let run = TextRun { segment: &segment, font_size: Length::new(1.), origin: crate::primitives::point(0., 0.) };
        v::check(page.show_text(&run).is_ok(), "text in a good font is shown");
    }
    let f = file_of(&doc);
    let resources = get(get(f.pages(), b"Resources"), b"Font");
    let d = match resources {
        O::Dict(d) if d.len() == 1 => f.at(&d[0].1),
        _ => return v::check(false, "the font is embedded once"),
    };
    v::check(*get(d, b"Subtype") == name(b"Type0") && *get(d, b"Encoding") == name(b"Identity-H"), "codes are glyph ids");
    v::check(*get(d, b"BaseFont") == name(b"Font#1 a"), "the font has its PostScript name");
    let c = match get(d, b"DescendantFonts") {
        O::Arr(a) if a.len() == 1 => &a[0],
        _ => return v::check(false, "the font has one descendant"),
    };
    v::check(*get(c, b"Subtype") == name(b"CIDFontType2"), "the descendant is a TrueType font");
    match get(c, b"W") {
        O::Arr(a) if a.len() == 2 && a[0] == O::Int(0) => match &a[1] {
            O::Arr(ws) => {
                v::check(ws.len() == w + extra, "every glyph has a width");
                for i in 0..ws.len() {
                    let em = widths[if i < w { i } else { w - 1 }] as f32;
                    v::check((num(&ws[i]) * 1.024 - em).abs() < 1.024, "a glyph's width is its advance in thousandths of an em, to within one");
                }
            }
            _ => return v::check(false, "widths start at glyph 0"),
        },
        _ => return v::check(false, "widths start at glyph 0"),
    }
    let fd = f.at(get(c, b"FontDescriptor"));
    v::check((num(get(fd, b"Ascent")) * 1.024 - t.ascender as i16 as f32).abs() < 1.024, "the descriptor has the font's ascent");
    match get(fd, b"FontBBox") {
        O::Arr(b) if b.len() == 4 => {
            v::check((num(&b[3]) * 1.024 - t.bbox[3] as i16 as f32).abs() < 1.024, "the descriptor has the font's bounding box");
        }
        _ => v::check(false, "the descriptor has the font's bounding box"),
    }
    v::check(f.stream(get(fd, b"FontFile2")) == Some(&*bytes), "the embedded program is the font file");
    v::check(*get(f.at(get(fd, b"FontFile2")), b"Length1") == O::Int(bytes.len() as i64), "Length1 is the program's length");
    let m = match f.stream(get(d, b"ToUnicode")).and_then(to_unicode) {
        Some(m) => m,
        None => return v::check(false, "the Unicode map reads, with at most 100 entries a section"),
    };
    // (For these code points glyph 0 is as good as absent.)
    let mut k = 0;
    for i in 0..count {
        let (c, g) = (start + i, gid + i);
        if k < m.len() {
            let code = match m[k].1.len() {
                1 => m[k].1[0],
                _ => 0x10000 + ((m[k].1[0].wrapping_sub(0xD800) & 0x3FF) << 10) + (m[k].1[1].wrapping_sub(0xDC00) & 0x3FF),
            };
            if code == c && m[k].0 == g {
                if m[k].1.len() == 2 {
                    v::check(m[k].1[0] >> 10 == 0x36 && m[k].1[1] >> 10 == 0x37, "a surrogate pair");
                    v::cover(1)
                } else {
                    v::cover(2)
                }
                k += 1;
                continue;
            }
        }
        v::check(g == 0, "every mapped code point is in the Unicode map, in order");
    }
    v::check(k == m.len(), "the Unicode map has no other entries");
    if count > 100 {
        v::cover(3)
    }
}

/// Many pages, alphas or fonts; one of them free.
#[no_mangle]
pub extern "C" fn vh_pdf_many() {
    let n = v::param("pages", 12) as usize;
    let alphas = v::param("alphas", 1) as usize;
    let nfonts = v::param("fonts", 1) as usize;
    let free = [0, n / 2, n - 1][v::pick(3)];
    let fonts: Vec<_> = (0..nfonts).map(|i| parse_font(&simple_font(vec![500], 1, vec![], &[b'A' + (i / 26) as u8, b'A' + (i % 26) as u8]))).collect();
    let mut doc = Document::new();
    let mut expected = Vec::new();
    for i in 0..n {
        let (w, x, glyph) = if i == free { (v::dyadic(0, 1 << 15, 2), coordinate(), v::u16()) } else { (8. + i as f32, i as f32, i as u16) };
        let a = 1. - (i % alphas) as f32 / 1024.;
        let mut page = doc.add_page(Size::new(w, 10.));
        page.set_color(&RGBA(0., 0., 0., a));
        page.paint_rectangle(&crate::primitives::rect(x, 2., 3., 4.));
        if nfonts > 1 {
            let segment = ShapedSegment { font: fonts[i % nfonts].clone(), glyphs: vec![GlyphId(glyph)], advance_width: Length::new(0.) };
            let run = TextRun { segment: &segment, font_size: Length::new(16.), origin: crate::primitives::point(1., 1.) };
            v::check(page.show_text(&run).is_ok(), "text in a good font is shown");
        }
        expected.push((w, x, glyph, a));
    }
    let f = file_of(&doc);
    v::check(*get(f.pages(), b"Count") == O::Int(n as i64), "the page count is the number of pages added");
    match get(f.pages(), b"Kids") {
        O::Arr(k) => v::check(k.len() == n, "every page is in the page tree once"),
        _ => v::check(false, "the page tree has its pages"),
    }
    let resources = get(f.pages(), b"Resources");
    for &(key, n) in &[(&b"ExtGState"[..], alphas.min(n) - 1), (&b"Font"[..], if nfonts > 1 { nfonts.min(n) } else { 0 })] {
        match get(resources, key) {
            O::Dict(d) => {
                v::check(d.len() == n, "there is one resource for each alpha and font used");
                let mut names: Vec<_> = d.iter().map(|e| e.0.clone()).collect();
                names.sort();
                for i in 1..names.len() {
                    v::check(names[i] != names[i - 1], "resources have distinct names")
                }
            }
            _ => v::check(false, "resources are dictionaries"),
        }
    }
    for (i, e) in expected.iter().enumerate() {
        let p = f.page(i);
        match get(p, b"MediaBox") {
            O::Arr(b) if b.len() == 4 => v::check(num(&b[2]) == e.0 * 0.75, "the media box is as wide as the page"),
            _ => v::check(false, "a page has a media box"),
        }
        let mut alpha = 1.;
        let mut rects = 0;
        let mut texts = 0;
        for op in &operators(f.stream(get(p, b"Contents")).unwrap()) {
            if is_op(op, b"gs", 1) {
                if let O::Name(n) = &op.1[0] {
                    alpha = num(get(get(get(resources, b"ExtGState"), n), b"ca"))
                }
            } else if is_op(op, b"re", 4) {
                v::check(num(&op.1[0]) == e.1, "a painted rectangle has the coordinates given");
                v::check((alpha - e.3).abs() <= 1. / 65535., "a painting shows the last alpha set, within 1/65535");
                rects += 1;
            } else if is_op(op, b"Tf", 2) {
                if let O::Name(n) = &op.1[0] {
                    let k = i % nfonts;
                    v::check(*get(f.at(get(get(resources, b"Font"), n)), b"BaseFont") == name(&[b'A' + (k / 26) as u8, b'A' + (k % 26) as u8]), "text is shown in its font")
                }
            } else if is_op(op, b"Tj", 1) {
                v::check(op.1[0] == O::Str(vec![(e.2 >> 8) as u8, e.2 as u8]), "glyphs are shown by their big-endian ids");
                texts += 1;
            }
        }
        v::check(rects == 1 && texts == (nfonts > 1) as usize, "each page has its contents");
    }
    v::cover(1);
}
