use crate::fonts::{Em, Font, BITSTREAM_VERA_SANS};
use crate::primitives::*;
use crate::text::ShapedSegment;
use crate::text_plain;
use std::sync::Arc;
include!("../../vh/src/api.rs");
include!("../common/ttf.rs");
include!("../common/pdfread.rs");

fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}
/// Splits the path on the condition.
fn fork(c: bool) -> bool {
    v::concrete(c as u64) == 1
}
/// A font of glyphs (space, a, b, c, ...) whose widths are each free, in 1024ths of an em.
fn free_font(letters: usize) -> (Arc<Font>, Vec<f32>) {
    let n = letters + 1;
    let mut groups = vec![(0x20, 0x20, 0)];
    groups.push((0x61, 0x60 + letters as u32, 1));
    let t = Ttf { units: 1024, ascender: 768, descender: 65280, bbox: [1, 2, 3, 4], glyphs: n as u16, widths: vec![0; n], groups, name: b"F".to_vec() };
    let mut d = t.bytes();
    let at = 12 + 16 * 3 + 8;
    let hmtx = (d[at + 2] as usize) << 8 | d[at + 3] as usize;
    let mut widths = Vec::new();
    for i in 0..n {
        // 256 to 511: three digits in thousandths
        let w = v::int(0, 255);
        d[hmtx + 4 * i] = 1;
        d[hmtx + 4 * i + 1] = w as u8;
        widths.push((256 + w) as f32 / 1024.);
    }
    let f = match Font::parse(leak(d)) {
        Ok(f) => f,
        Err(_) => {
            v::check(false, "the font parses");
            v::end()
        }
    };
    (f, widths)
}
/// Lengths in mm that are exactly these numbers of px.
const MM: [(f32, f32); 10] = [
    (4., 1.0583332777023315), (8., 2.116666555404663), (16., 4.233333110809326), (32., 8.466666221618652), (64., 16.933332443237305),
    (96., 25.399999618530273), (120., 31.75), (128., 33.86666488647461), (200., 52.916664123535156), (256., 67.73332977294922),
];
fn mm(px: f32) -> f32 {
    for m in &MM {
        if m.0 == px {
            return m.1;
        }
    }
    unreachable!()
}
struct Shown {
    size: f32,
    x: f32,
    y: f32,
    glyphs: Vec<u8>,
}
/// The text on each page, in order.
fn shown(doc: &crate::pdf::Document) -> Vec<Vec<Shown>> {
    let bytes = doc.write_to_pdf_bytes();
    let f = match read_file(&bytes) {
        Some(f) => f,
        None => {
            v::check(false, "the file reads as a PDF file");
            v::end()
        }
    };
    let count = number(get(f.pages(), b"Count"));
    let mut pages = Vec::new();
    for i in 0..count {
        let ops = operators(f.stream(get(f.page(i), b"Contents")).unwrap());
        let mut runs = Vec::new();
        let mut at = (0., 0., 0.);
        for op in &ops {
            if is_op(op, b"Tm", 6) {
                at = (num(&op.1[0]), num(&op.1[4]), num(&op.1[5]))
            } else if is_op(op, b"Tj", 1) {
                if let O::Str(s) = &op.1[0] {
                    runs.push(Shown { size: at.0, x: at.1, y: at.2, glyphs: s.clone() })
                }
            }
        }
        pages.push(runs)
    }
    pages
}
fn same(a: f32, b: f32) -> bool {
    (a - b).abs() <= 0.001
}
/// A text of up to `words` words with any separators, laid out on pages.
#[no_mangle]
pub extern "C" fn vh_text_pages() {
    let words = v::param("words", 3) as usize;
    let free = v::param("free", 1) == 1;
    let wide = v::param("wide", 0) == 1;
    let lh = [1., 1.5, 2.][v::pick(v::param("heights", 1) as usize)];
    let justify = v::param("justify", 1) == 1 && v::pick(2) == 1;
    let n = v::pick(words + 1);
    let font;
    let mut widths = Vec::new();
    let size;
    let ascender;
    if free {
        let (f, w) = free_font(words);
        font = f;
        widths = w;
        size = [16., 32.][v::pick(v::param("sizes", 1) as usize)];
        ascender = 0.75;
    } else {
        font = BITSTREAM_VERA_SANS.clone();
        size = v::dyadic(16, 160, 2);
        for c in " abcdefgh".chars() {
            widths.push(font.glyph_width(font.glyph_id(c).unwrap()).unwrap().get())
        }
        ascender = font.ascender().get();
    }
    // Segments: their glyphs, their widths at 1 px, and whether the line ends there.
    let mut text = String::new();
    let mut segments: Vec<(Vec<u8>, f32, bool)> = Vec::new();
    for i in 0..n {
        let mut glyphs = Vec::new();
        let mut w = widths[1 + i];
        text.push((b'a' + i as u8) as char);
        let mut push = |k: usize| glyphs.extend_from_slice(&font.glyph_id(if k == 0 { ' ' } else { (b'a' + k as u8 - 1) as char }).unwrap().0.to_be_bytes());
        push(1 + i);
        if wide {
            text.push('a');
            push(1);
            w += widths[1];
        }
        let mut hard = i + 1 == n;
        let mut more = false;
        match v::pick(v::param("separators", 3) as usize) {
            0 => {
                text.push(' ');
                push(0);
                w += widths[0];
            }
            1 => {
                text.push('\n');
                hard = true
            }
            2 => {
                text.push_str("\n\n");
                hard = true;
                more = true
            }
            _ => {
                text.push_str("  ");
                push(0);
                push(0);
                w += widths[0] + widths[0];
            }
        }
        segments.push((glyphs, w, hard));
        if more {
            segments.push((Vec::new(), 0., true))
        }
    }
    let margin = [8., 16., 4.][v::pick(v::param("margins", 1) as usize)];
    let (pw, ph) = ([64., 128., 32.][v::pick(v::param("page_widths", 1) as usize)], [64., 32., 96., 120.][v::pick(v::param("page_heights", 2) as usize)]);
    let style = text_plain::Style {
        page_size: Size::new(mm(pw), mm(ph)),
        page_margin: Length::new(mm(margin)),
        font: font.clone(),
        font_size: Length::new(size),
        line_height: lh,
        justify,
    };
    let doc = match text_plain::layout(&text, &style) {
        Ok(d) => d,
        Err(_) => return v::check(false, "text in a good font is laid out"),
    };
    let pages = shown(&doc);
    // Lines, each as full as possible.
    let available = pw - 2. * margin;
    let mut lines: Vec<(Vec<usize>, f32, bool)> = Vec::new();
    let mut current: (Vec<usize>, f32, bool) = (Vec::new(), 0., false);
    for (i, s) in segments.iter().enumerate() {
        let w = s.1 * size;
        if !current.0.is_empty() && !fork(current.1 + w <= available) {
            current.2 = justify;
            lines.push(std::mem::replace(&mut current, (Vec::new(), 0., false)))
        }
        current.0.push(i);
        current.1 += w;
        if s.2 {
            lines.push(std::mem::replace(&mut current, (Vec::new(), 0., false)))
        }
    }
    if lines.len() > 1 {
        v::cover(1)
    }
    // Pages, each as full as possible.
    let (top, bottom) = (margin, ph - margin);
    let pitch = lh * size;
    let mut page = 0;
    let mut run = 0;
    let mut first = true;
    let mut inside = true;
    let mut y = top;
    for l in &lines {
        // (A page is full when the rest of its runs are read and there are others.)
        if run == pages[page].len() && !first {
            v::check(!(y + pitch <= bottom), "no page is ended while the next line still fits");
            page += 1;
            run = 0;
            first = true;
            y = top;
            v::cover(2);
            if page == pages.len() {
                return v::check(false, "no text is lost at the end of a page");
            }
        }
        first = false;
        v::check(y <= bottom || y == top, "no line starts below the bottom margin");
        inside &= (y + pitch <= bottom) | (y == top);
        let gaps = l.0.len() as f32 - 1.;
        let extra = if l.2 && gaps > 0. && available - l.1 > 0. { (available - l.1) / gaps } else { 0. };
        let mut x = margin;
        for i in &l.0 {
            let s = &segments[*i];
            if run == pages[page].len() {
                return v::check(false, "no text is lost");
            }
            let r = &pages[page][run];
            v::check(r.glyphs == s.0, "segments are shown in order, without line feeds");
            v::check(same(r.size, size), "text has the font size");
            v::check(same(r.x, x), "segments follow one another from the left margin, spread when the line is justified");
            v::check(same(r.y, y + (lh - 1.) / 2. * size + ascender * size), "baselines are a line height apart, from the top margin");
            x += s.1 * size + extra;
            run += 1;
        }
        if extra > 0. {
            v::cover(3)
        }
        y += pitch;
    }
    v::check(run == pages[page].len(), "nothing is shown twice");
    v::check(page + 1 == pages.len(), "no page is blank, unless the document is");
    // (Last, as this is a known finding, which must not hide others.)
    v::check(inside, "no line extends into the bottom margin");
}
/// Any sequence of appended characters, marks, and returns to a mark.
#[no_mangle]
pub extern "C" fn vh_text_shaping() {
    let n = v::param("operations", 4) as usize;
    let (font, widths) = free_font(3);
    let mut s = ShapedSegment::new_with_naive_shaping(font.clone());
    let mut glyphs: Vec<u16> = Vec::new();
    let mut marks: Vec<(crate::text::ShapedSegmentState, usize)> = Vec::new();
    for _ in 0..n {
        match v::pick(3) {
            0 => {
                let c = [' ', 'a', 'b', 'c', '\0', 'd', '\u{10FFFF}'][v::pick(7)];
                v::check(s.append_char(c).is_ok(), "any character is shaped");
                let mut g = 0;
                for (k, m) in "abc".chars().enumerate() {
                    if c == m {
                        g = k as u16 + 1;
                        v::cover(1)
                    }
                }
                glyphs.push(g)
            }
            1 => marks.push((s.save(), glyphs.len())),
            _ => {
                if marks.is_empty() {
                    continue;
                }
                let k = v::pick(marks.len());
                if marks[k].1 > glyphs.len() {
                    continue;
                }
                v::cover(2);
                s.restore(&marks[k].0);
                glyphs.truncate(marks[k].1);
                // (Marks of what is gone are of no more use.)
                marks.truncate(k + 1);
            }
        }
    }
    v::check(s.glyphs.len() == glyphs.len(), "one glyph for each character");
    let mut w = 0.;
    for i in 0..glyphs.len() {
        v::check(s.glyphs[i].0 == glyphs[i], "the glyph the font has for the character, or glyph 0");
        w += widths[glyphs[i] as usize]
    }
    v::check(s.advance_width.get() == w, "the width is the sum of the glyphs' widths");
}
/// A whole text at once is shaped as its characters one by one.
#[no_mangle]
pub extern "C" fn vh_text_naive_shape() {
    let n = v::pick(v::param("bytes", 3) as usize + 1);
    let font = BITSTREAM_VERA_SANS.clone();
    let mut t = String::new();
    for _ in 0..n {
        let c = [' ', 'a', '\u{e9}', '\u{20ac}', '\u{1F600}', '\n'][v::pick(6)];
        t.push(c)
    }
    match ShapedSegment::naive_shape(&t, font.clone()) {
        Ok(s) => {
            let mut w = 0.;
            let mut k = 0;
            for c in t.chars() {
                let g = font.glyph_id(c).unwrap();
                v::check(k < s.glyphs.len() && s.glyphs[k] == g, "one glyph for each character, in order");
                w += font.glyph_width(g).unwrap().get();
                k += 1
            }
            v::check(s.glyphs.len() == k, "no other glyphs");
            v::check(s.advance_width.get() == w, "the width is the sum of the glyphs' widths");
            v::cover(1)
        }
        Err(_) => v::check(false, "any text is shaped"),
    }
}
// ---------------------------------------------------------------- geometry
use crate::geom::{flow_relative, physical};
use crate::style::values::{Direction, Length as Len, LengthOrAuto, LengthOrPercentage, LengthOrPercentageOrAuto, WritingMode};

const MODES: [WritingMode; 5] = [WritingMode::HorizontalTb, WritingMode::VerticalRl, WritingMode::VerticalLr, WritingMode::SidewaysRl, WritingMode::SidewaysLr];
fn any_length() -> Len {
    Len { px: v::dyadic(-4096, 4096, 2) }
}
fn eq(a: Len, b: Len) -> bool {
    a.px == b.px
}
/// Sides, sizes and rectangles in every writing mode (css-writing-modes-3, 6.4 "abstract-to-physical mappings").
#[no_mangle]
pub extern "C" fn vh_geom_modes() {
    let (m, d) = (v::pick(5), v::pick(2));
    let mode = (MODES[m], if d == 0 { Direction::Ltr } else { Direction::Rtl });
    let s = physical::Sides { top: any_length(), left: any_length(), bottom: any_length(), right: any_length() };
    let all = [s.top, s.right, s.bottom, s.left];
    const T: usize = 0;
    const R: usize = 1;
    const B: usize = 2;
    const L: usize = 3;
    // inline-start, inline-end, block-start, block-end
    let table: [[usize; 4]; 10] = [
        [L, R, T, B], [R, L, T, B],
        [T, B, R, L], [B, T, R, L],
        [T, B, L, R], [B, T, L, R],
        [T, B, R, L], [B, T, R, L],
        [B, T, L, R], [T, B, L, R],
    ];
    let e = table[2 * m + d];
    let f = s.to_flow_relative(mode);
    v::check(eq(f.inline_start, all[e[0]]) && eq(f.inline_end, all[e[1]]) && eq(f.block_start, all[e[2]]) && eq(f.block_end, all[e[3]]), "each flow-relative side is the physical side of the writing mode");
    let z = physical::Vec2 { x: any_length(), y: any_length() };
    let g = z.size_to_flow_relative(mode);
    let (i, b) = if m == 0 { (z.x, z.y) } else { (z.y, z.x) };
    v::check(eq(g.inline, i) && eq(g.block, b), "the inline axis is horizontal in horizontal writing modes only");
    let p = g.size_to_physical(mode);
    v::check(eq(p.x, z.x) && eq(p.y, z.y), "a size is the same back again");
    v::cover(1 + m as u32);
    if m == 0 && d == 0 {
        let r = flow_relative::Rect { start_corner: flow_relative::Vec2 { inline: any_length(), block: any_length() }, size: g };
        let c = physical::Rect { top_left: physical::Vec2 { x: any_length(), y: any_length() }, size: z };
        let q = r.to_physical(mode, &c).translate(&c.top_left);
        v::check(q.top_left.x.px == r.start_corner.inline.px + c.top_left.x.px && q.top_left.y.px == r.start_corner.block.px + c.top_left.y.px, "rectangles are offset by their containing block's");
        v::check(eq(q.size.x, c.size.x) && eq(q.size.y, c.size.y), "rectangles keep their size");
        let k: crate::primitives::Rect<CssPx> = q.clone().into();
        v::check(k.origin.x == q.top_left.x.px && k.origin.y == q.top_left.y.px && k.size.width == q.size.x.px && k.size.height == q.size.y.px, "rectangles are painted as they are");
    }
}
/// Sums and differences of sides and rectangles.
#[no_mangle]
pub extern "C" fn vh_geom_sums() {
    let sides = || flow_relative::Sides { inline_start: any_length(), inline_end: any_length(), block_start: any_length(), block_end: any_length() };
    let (a, b) = (sides(), sides());
    v::check(a.inline_sum().px == a.inline_start.px + a.inline_end.px && a.block_sum().px == a.block_start.px + a.block_end.px, "sums are of the two sides of an axis");
    let c = a.start_corner();
    v::check(eq(c.inline, a.inline_start) && eq(c.block, a.block_start), "the start corner is that of the start sides");
    let s = &a + &b;
    v::check(s.inline_start.px == a.inline_start.px + b.inline_start.px && s.inline_end.px == a.inline_end.px + b.inline_end.px && s.block_start.px == a.block_start.px + b.block_start.px && s.block_end.px == a.block_end.px + b.block_end.px, "sides are added one by one");
    let r = flow_relative::Rect { start_corner: flow_relative::Vec2 { inline: any_length(), block: any_length() }, size: flow_relative::Vec2 { inline: any_length(), block: any_length() } };
    let o = r.inflate(&a);
    v::check(o.start_corner.inline.px == r.start_corner.inline.px - a.inline_start.px && o.start_corner.block.px == r.start_corner.block.px - a.block_start.px, "an inflated rectangle starts earlier by the start sides");
    v::check(o.start_corner.inline.px + o.size.inline.px == r.start_corner.inline.px + r.size.inline.px + a.inline_end.px && o.start_corner.block.px + o.size.block.px == r.start_corner.block.px + r.size.block.px + a.block_end.px, "an inflated rectangle ends later by the end sides");
    v::cover(1);
}
/// Lengths and auto in each side.
#[no_mangle]
pub extern "C" fn vh_geom_auto() {
    let basis = any_length();
    let used = any_length();
    let value = |_: usize| {
        match v::pick(2) {
            0 => LengthOrPercentageOrAuto::Length(any_length()),
            _ => LengthOrPercentageOrAuto::Auto,
        }
    };
    let s = flow_relative::Sides { inline_start: value(0), inline_end: value(1), block_start: value(2), block_end: value(3) };
    let t = s.percentages_relative_to(basis).auto_is(|| used);
    let of = |x: &LengthOrPercentageOrAuto| match x {
        LengthOrPercentageOrAuto::Length(l) => l.px,
        _ => used.px,
    };
    v::check(t.inline_start.px == of(&s.inline_start) && t.inline_end.px == of(&s.inline_end) && t.block_start.px == of(&s.block_start) && t.block_end.px == of(&s.block_end), "lengths are kept and auto is what it is said to be, for each side alone");
    v::cover(1);
}
