use super::*;
include!("../../vh/src/api.rs");

struct B {
    d: Vec<u8>,
}
impl B {
    fn u8(&mut self, x: u8) {
        self.d.push(x)
    }
    fn u16(&mut self, x: u16) {
        self.d.push((x >> 8) as u8);
        self.d.push(x as u8);
    }
    fn u32(&mut self, x: u32) {
        self.u16((x >> 16) as u16);
        self.u16(x as u16);
    }
    fn zeros(&mut self, n: usize) {
        for _ in 0..n {
            self.d.push(0)
        }
    }
    fn set32(&mut self, at: usize, x: u32) {
        for i in 0..4 {
            self.d[at + i] = (x >> (24 - 8 * i)) as u8
        }
    }
    fn set16(&mut self, at: usize, x: u16) {
        self.d[at] = (x >> 8) as u8;
        self.d[at + 1] = x as u8;
    }
}
fn be16(d: &[u8], at: usize) -> u16 {
    (d[at] as u16) << 8 | d[at + 1] as u16
}

const TAGS: [&[u8; 4]; 6] = [b"cmap", b"head", b"hhea", b"hmtx", b"maxp", b"name"];

/// Offset table and table directory for the six tables the parser needs; offsets to be patched.
fn directory() -> B {
    let mut b = B { d: Vec::with_capacity(512) };
    b.u32(0x0001_0000);
    b.u16(6);
    b.u16(0);
    b.u16(0);
    b.u16(0);
    for t in TAGS.iter() {
        for c in t.iter() {
            b.u8(*c)
        }
        b.u32(0);
        b.u32(0);
        b.u32(0);
    }
    b
}
fn place(b: &mut B, table: usize) {
    let at = b.d.len() as u32;
    b.set32(12 + 16 * table + 8, at);
}
/// Every table but `cmap` (which must be placed by the caller), with fixed contents.
fn other_tables(b: &mut B) {
    place(b, 1);
    let at = b.d.len();
    b.zeros(54);
    b.set16(at + 18, 1000);
    place(b, 2);
    let at = b.d.len();
    b.zeros(36);
    b.set16(at + 34, 1);
    place(b, 3);
    b.u16(500);
    b.u16(0);
    place(b, 4);
    b.u32(0x0001_0000);
    b.u16(7);
    b.u16(0);
    place(b, 5);
    b.u16(0);
    b.u16(1);
    b.u16(18);
    b.u16(1);
    b.u16(0);
    b.u16(0);
    b.u16(6);
    b.u16(1);
    b.u16(0);
    b.u8(b'V');
    b.u8(0);
}
fn any_char() -> char {
    let c = v::u32();
    v::assume(c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF));
    match std::char::from_u32(c) {
        Some(c) => c,
        None => v::end(),
    }
}

/// F02: format 4 lookup against the OpenType description.
#[no_mangle]
pub extern "C" fn vh_font_format4() {
    let n = v::param("segments", 3) as usize;
    let tail = v::param("glyphs", 4) as usize;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(1);
    b.u32(12);
    b.u16(4);
    b.u16(0);
    b.u16(0);
    b.u16(2 * n as u16);
    b.u16(0);
    b.u16(0);
    b.u16(0);
    let (mut starts, mut ends, mut deltas, mut ranges) = (Vec::new(), Vec::new(), Vec::new(), Vec::new());
    // Many: fixed but for one
    let many = v::param("many", 0) == 1;
    let free = if many { [0, n / 2, n - 1][v::pick(3)] } else { 0 };
    for i in 0..n {
        if many && i != free {
            let s = 100 + 300 * i as u16;
            starts.push(s);
            ends.push(s + 40 * (i % 5) as u16);
            deltas.push((i as u16).wrapping_mul(7919));
            ranges.push(if i % 3 == 0 { 2 * (n - i + i % 4) as u16 } else { 0 });
            continue;
        }
        let (s, e) = (v::u16(), v::u16());
        v::assume(s <= e);
        if i > 0 {
            let p: u16 = ends[i - 1];
            v::assume(s > p)
        }
        if many && i + 1 < n {
            v::assume(e < 100 + 300 * (i + 1) as u16)
        }
        starts.push(s);
        ends.push(e);
        deltas.push(v::u16());
        ranges.push(v::u16());
    }
    for i in 0..n {
        b.u16(ends[i])
    }
    b.u16(0);
    for i in 0..n {
        b.u16(starts[i])
    }
    for i in 0..n {
        b.u16(deltas[i])
    }
    let ro = b.d.len();
    for i in 0..n {
        b.u16(ranges[i])
    }
    for _ in 0..tail {
        b.u16(v::u16())
    }
    let copy = b.d.clone();
    let font = match Font::parse(b.d) {
        Ok(f) => f,
        Err(_) => {
            v::check(false, "a well-formed font is rejected");
            return;
        }
    };
    let ch = any_char();
    let c = ch as u32;
    let got = font.glyph_id(ch);
    // OpenType: the first segment whose endCode >= c.
    let mut expect: Option<u16> = Some(0);
    if c <= 0xFFFF {
        let c = c as u16;
        for i in 0..n {
            if ends[i] >= c {
                if starts[i] <= c {
                    if ranges[i] == 0 {
                        v::cover(1);
                        expect = Some(c.wrapping_add(deltas[i]));
                    } else {
                        let at = ro as u64 + 2 * i as u64 + ranges[i] as u64 + 2 * (c - starts[i]) as u64;
                        if at + 2 > copy.len() as u64 {
                            v::cover(2);
                            expect = None;
                        } else {
                            v::cover(3);
                            let g = be16(&copy, at as usize);
                            expect = Some(if g == 0 { 0 } else { g.wrapping_add(deltas[i]) });
                        }
                    }
                }
                break;
            }
        }
    } else {
        v::cover(4);
    }
    match (got, expect) {
        (Ok(g), Some(e)) => {
            v::observe(g.0 as u64);
            v::check(g.0 == e, "format 4: glyph differs from the OpenType mapping")
        }
        (Err(_), None) => {}
        (Ok(_), None) => v::check(false, "format 4: a glyph was produced from beyond the end of the file"),
        (Err(_), Some(_)) => v::check(false, "format 4: lookup failed on in-bounds data"),
    }
}

/// F02: format 12 lookup against the OpenType description.
#[no_mangle]
pub extern "C" fn vh_font_format12() {
    let n = v::param("groups", 3) as usize;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.u16(0);
    b.u32(16 + 12 * n as u32);
    b.u32(0);
    b.u32(n as u32);
    let mut g = Vec::new();
    // Many: fixed but for one
    let many = v::param("many", 0) == 1;
    let free = if many { [0, n / 2, n - 1][v::pick(3)] } else { 0 };
    for i in 0..n {
        if many && i != free {
            let s = 100 + 5000 * i as u32;
            let x = (s, s + 40 * (i % 5) as u32, (i as u32 * 7919) & 0xFFFF);
            g.push(x);
            b.u32(x.0);
            b.u32(x.1);
            b.u32(x.2);
            continue;
        }
        let (s, e, id) = (v::u32(), v::u32(), v::u32());
        v::assume(s <= e);
        if i > 0 {
            let p: (u32, u32, u32) = g[i - 1];
            v::assume(s > p.1)
        }
        if many && i + 1 < n {
            v::assume(e < 100 + 5000 * (i + 1) as u32)
        }
        g.push((s, e, id));
        b.u32(s);
        b.u32(e);
        b.u32(id);
    }
    let font = match Font::parse(b.d) {
        Ok(f) => f,
        Err(_) => {
            v::check(false, "a well-formed font is rejected");
            return;
        }
    };
    let ch = any_char();
    let c = ch as u32;
    let mut expect = 0u64;
    for &(s, e, id) in &g {
        if s <= c && c <= e {
            v::cover(1);
            let x = id as u64 + (c - s) as u64;
            if x <= 0xFFFF {
                v::cover(2);
                expect = x
            } else {
                v::cover(3)
            }
        }
    }
    match font.glyph_id(ch) {
        Ok(got) => {
            v::observe(got.0 as u64);
            v::check(got.0 as u64 == expect, "format 12: glyph differs from the OpenType mapping")
        }
        Err(_) => v::check(false, "format 12: lookup failed on in-bounds data"),
    }
}

/// F03: `each_code_point` enumerates exactly the mapping that `glyph_id` gives.
fn enumeration(font: &Font) {
    let mut seen = Vec::new();
    match font.each_code_point(|ch, g| seen.push((ch as u32, g.0))) {
        Ok(()) => {}
        Err(_) => return v::cover(5),
    }
    let probe = any_char();
    let mut count = 0u32;
    let mut glyph = 0;
    for &(c, g) in &seen {
        let hit = c == probe as u32;
        count += hit as u32;
        glyph = if hit { g } else { glyph };
        v::check(g != 0, "an unmapped code point was enumerated");
    }
    v::observe(seen.len() as u64);
    v::observe(count as u64);
    let g = match font.glyph_id(probe) {
        Ok(g) => g.0,
        Err(_) => {
            v::check(false, "lookup failed on data that was enumerated");
            return;
        }
    };
    if g == 0 {
        v::cover(1);
        v::check(count == 0, "an unmapped code point was enumerated");
    } else {
        v::cover(2);
        v::check(count == 1, "a mapped code point was not enumerated exactly once");
        v::check(glyph == g, "the enumerated glyph is not the one looked up");
    }
}
#[no_mangle]
pub extern "C" fn vh_font_enumerate12() {
    let n = v::param("groups", 2) as usize;
    let span = v::param("span", 2) as u32;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.u16(0);
    b.u32(0);
    b.u32(0);
    b.u32(n as u32);
    let mut prev = 0;
    for i in 0..n {
        let (s, e, id) = (v::u32(), v::u32(), v::u32());
        // Bounded number of code points per group; groups sorted and disjoint.
        v::assume(s <= e && e - s <= span);
        v::assume(i == 0 || s > prev);
        prev = e;
        b.u32(s);
        b.u32(e);
        b.u32(id);
    }
    if let Ok(font) = Font::parse(b.d) {
        enumeration(&font);
        v::cover(3)
    }
}
#[no_mangle]
pub extern "C" fn vh_font_enumerate4() {
    let n = v::param("segments", 2) as usize;
    let span = v::param("span", 1) as u16;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(1);
    b.u32(12);
    b.u16(4);
    b.u16(0);
    b.u16(0);
    b.u16(2 * n as u16);
    b.zeros(6);
    let at = b.d.len();
    let glyphs = 2;
    b.zeros(2 * (4 * n + 1 + glyphs));
    let mut prev = 0;
    for i in 0..n {
        let (s, e) = (v::u16(), v::u16());
        v::assume(s <= e && e - s <= span);
        v::assume(i == 0 || s > prev);
        prev = e;
        b.set16(at + 2 * i, e);
        b.set16(at + 2 * (n + 1 + i), s);
        b.set16(at + 2 * (2 * n + 1 + i), v::u16());
        // No glyph array, or an index into it
        let r = v::range(0, 2 * (n + glyphs) as u64) as u16;
        b.set16(at + 2 * (3 * n + 1 + i), r);
    }
    for i in 0..glyphs {
        b.set16(at + 2 * (4 * n + 1 + i), v::u16());
    }
    if let Ok(font) = Font::parse(b.d) {
        enumeration(&font);
        v::cover(3)
    }
}
/// F03/F01: enumeration of arbitrary (also unsorted or reversed) ranges never fails by overflow.
#[no_mangle]
pub extern "C" fn vh_font_enumerate_any() {
    let twelve = v::param("format", 12) == 12;
    let span = v::param("span", 2) as u32;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(if twelve { 10 } else { 1 });
    b.u32(12);
    if twelve {
        b.u16(12);
        b.zeros(10);
        b.u32(2);
        for _ in 0..2 {
            let (s, e) = (v::u32(), v::u32());
            v::assume(s > e || e - s <= span || s > 0x10FFFF);
            b.u32(s);
            b.u32(e);
            b.u32(v::u32());
        }
    } else {
        b.u16(4);
        b.zeros(4);
        b.u16(4);
        b.zeros(6);
        let (s, e) = (v::u16(), v::u16());
        let (s2, e2) = (v::u16(), v::u16());
        v::assume(s > e || (e - s) as u32 <= span);
        v::assume(s2 > e2 || (e2 - s2) as u32 <= span);
        b.u16(e);
        b.u16(e2);
        b.u16(0);
        b.u16(s);
        b.u16(s2);
        for _ in 0..5 {
            b.u16(v::u16())
        }
    }
    if let Ok(font) = Font::parse(b.d) {
        let mut n = 0u64;
        let r = font.each_code_point(|_, _| n += 1);
        v::check(n <= 2 * (span as u64 + 1), "more code points than the ranges hold");
        if r.is_ok() {
            v::cover(1)
        }
        v::observe(n);
    }
}

/// F04: which encoding record is used.
#[no_mangle]
pub extern "C" fn vh_font_cmap_selection() {
    let n = v::param("records", 3) as usize;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    let base = b.d.len();
    b.u16(0);
    b.u16(n as u16);
    b.zeros(8 * n);
    // Three subtables: each maps 'A' to its own glyph.
    let sub4 = (b.d.len() - base) as u32;
    b.u16(4);
    b.zeros(4);
    b.u16(2);
    b.zeros(6);
    b.u16(65);
    b.u16(0);
    b.u16(65);
    b.u16(4u16.wrapping_sub(65));
    b.u16(0);
    let sub12 = (b.d.len() - base) as u32;
    b.u16(12);
    b.zeros(10);
    b.u32(1);
    b.u32(65);
    b.u32(65);
    b.u32(12);
    let sub6 = (b.d.len() - base) as u32;
    b.u16(6);
    b.zeros(20);
    let mut prev: Option<(u16, u16)> = None;
    let (mut has4, mut has12) = (false, false);
    for i in 0..n {
        let (p, e) = (v::u16(), v::u16());
        let which = v::range(0, 2);
        if let Some((q, f)) = prev {
            v::assume(q < p || (q == p && f < e))
        }
        prev = Some((p, e));
        let at = base + 4 + 8 * i;
        b.set16(at, p);
        b.set16(at + 2, e);
        b.set32(at + 4, if which == 0 { sub4 } else if which == 1 { sub12 } else { sub6 });
        has4 = has4 | (p == 3 && e == 1 && which == 0);
        has12 = has12 | (p == 3 && e == 10 && which == 1);
    }
    match Font::parse(b.d) {
        Ok(font) => {
            let g = font.glyph_id('A').map(|g| g.0).unwrap_or(999);
            v::observe(g as u64);
            v::check(has4 || has12, "a font without a supported cmap was accepted");
            if has12 {
                v::cover(1);
                v::check(g == 12, "the full Unicode (3, 10) map is not preferred")
            } else {
                v::cover(2);
                v::check(g == 4, "the BMP (3, 1) map is not used")
            }
        }
        Err(e) => {
            v::cover(3);
            v::check(!has4 && !has12, "a font with a supported cmap was rejected");
            v::check(matches!(e, FontError::NoSupportedCmap), "wrong error");
        }
    }
}

/// F05: header fields and advance widths.
fn metrics_font(n: usize, upem: u16) -> (Vec<u8>, [usize; 4], u16) {
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.zeros(14);
    place(&mut b, 1); // head: every byte arbitrary
    let head = b.d.len();
    for _ in 0..54 {
        b.u8(v::u8())
    }
    b.set16(head + 18, upem);
    place(&mut b, 2); // hhea: every byte arbitrary
    let hhea = b.d.len();
    for _ in 0..36 {
        b.u8(v::u8())
    }
    let count = v::range(0, n as u64) as u16;
    b.set16(hhea + 34, count);
    place(&mut b, 4); // maxp
    let maxp = b.d.len();
    for _ in 0..6 {
        b.u8(v::u8())
    }
    place(&mut b, 3); // hmtx
    let hmtx = b.d.len();
    for _ in 0..4 * n {
        b.u8(v::u8())
    }
    (b.d, [head, hhea, maxp, hmtx], count)
}
#[no_mangle]
pub extern "C" fn vh_font_metrics() {
    let upem = v::u16();
    let (d, [head, hhea, maxp, _], _) = metrics_font(1, upem);
    let font = match Font::parse(d.clone()) {
        Ok(f) => f,
        Err(_) => {
            v::check(false, "a well-formed font is rejected");
            return;
        }
    };
    v::cover(1);
    let signed = |at: usize| be16(&d, at) as i16 as f32 / upem as f32;
    let same = |a: f32, b: f32, msg: &'static str| v::check(a.to_bits() == b.to_bits(), msg);
    same(font.min_x().get(), signed(head + 36), "xMin");
    same(font.min_y().get(), signed(head + 38), "yMin");
    same(font.max_x().get(), signed(head + 40), "xMax");
    same(font.max_y().get(), signed(head + 42), "yMax");
    same(font.ascender().get(), signed(hhea + 4), "ascender");
    same(font.descender().get(), signed(hhea + 6), "descender");
    v::check(font.glyph_count() == be16(&d, maxp + 4), "numGlyphs");
    v::observe(font.glyph_count() as u64);
}
#[no_mangle]
pub extern "C" fn vh_font_widths() {
    let n = v::param("hmetrics", 3) as usize;
    // Units per em: powers of two, so that the division is exact
    let upem = 1u16 << v::pick(3) * 5;
    let (d, [_, _, _, hmtx], count) = metrics_font(n, upem);
    let count = v::concrete(count as u64) as u16;
    let font = match Font::parse(d.clone()) {
        Ok(f) => f,
        Err(_) => {
            v::check(false, "a well-formed font is rejected");
            return;
        }
    };
    let g = v::u16();
    match font.glyph_width(GlyphId(g)) {
        Ok(w) => {
            v::check(count > 0, "a width without any metrics");
            let index = if g < count { v::cover(1); v::concrete(g as u64) as u16 } else { v::cover(3); count - 1 };
            let expect = be16(&d, hmtx + 4 * index as usize);
            v::observe_f32(w.get());
            v::check(w.get() * upem as f32 == expect as f32, "advance width");
        }
        Err(e) => {
            v::cover(2);
            v::check(count == 0, "no width although there are metrics");
            v::check(matches!(e, FontError::NoHorizontalGlyphMetrics), "wrong error")
        }
    }
}

/// F04: tables are found by tag whatever other tables surround them and wherever they lie.
#[no_mangle]
pub extern "C" fn vh_font_table_lookup() {
    let extra = v::param("extra", 2) as usize;
    let total = 6 + extra;
    let many = v::param("many", 0) == 1;
    let mut b = B { d: Vec::with_capacity(512 + 16 * extra) };
    b.u32(if v::bool() { 0x0001_0000 } else { 0x74727565 });
    b.u16(total as u16);
    for _ in 0..6 {
        b.u8(v::u8())
    }
    b.zeros(16 * total);
    let body = b.d.len();
    // positions of the six known tags among `total`, any increasing choice
    let mut slot = 0;
    let mut left = extra;
    let mut prev: Option<u32> = None;
    let tag32 = |t: &[u8; 4]| (t[0] as u32) << 24 | (t[1] as u32) << 16 | (t[2] as u32) << 8 | t[3] as u32;
    let mut known = [0usize; 6];
    for k in 0..7 {
        while left > 0 && (k == 6 || !many && v::bool()) {
            // Many: fixed tags after the known ones but for the first of them
            let t = if many && slot > 6 { 0x7800_0000 + 256 * slot as u32 } else { v::u32() };
            if let Some(p) = prev {
                v::assume(t > p)
            }
            prev = Some(t);
            b.set32(12 + 16 * slot, t);
            b.set32(12 + 16 * slot + 8, v::u32());
            slot += 1;
            left -= 1;
        }
        if k < 6 {
            let t = tag32(TAGS[k]);
            if let Some(p) = prev {
                v::assume(t > p)
            }
            prev = Some(t);
            b.set32(12 + 16 * slot, t);
            known[k] = slot;
            slot += 1;
        }
    }
    // maxp and hhea at one of several places; the others fixed
    let mut place = |b: &mut B, k: usize| {
        let at = b.d.len() as u32;
        b.set32(12 + 16 * known[k] + 8, at);
    };
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.zeros(14);
    place(&mut b, 1);
    b.zeros(18);
    b.u16(1);
    b.zeros(34);
    place(&mut b, 2);
    b.zeros(34);
    b.u16(1);
    place(&mut b, 3);
    b.u16(321);
    b.u16(0);
    place(&mut b, 5);
    b.u16(0);
    b.u16(1);
    b.u16(18);
    b.u16(1);
    b.u32(0);
    b.u16(6);
    b.u16(1);
    b.u16(0);
    b.u8(b'V');
    place(&mut b, 4);
    b.u32(0x0001_0000);
    b.u16(7);
    let _ = body;
    match Font::parse(b.d) {
        Ok(f) => {
            v::cover(1);
            v::check(f.glyph_count() == 7, "maxp table");
            v::check(f.postscript_name() == "V", "name table");
            v::check(f.glyph_width(GlyphId(0)).map(|w| w.get()).unwrap_or(0.) == 321., "hmtx table");
        }
        Err(_) => v::check(false, "a table that is present was not found"),
    }
    v::observe(slot as u64);
}

/// F06: PostScript name.
#[no_mangle]
pub extern "C" fn vh_font_name() {
    let n = v::param("records", 2) as usize;
    let store = v::param("bytes", 4) as usize;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.zeros(14);
    place(&mut b, 5);
    b.u16(v::u16());
    b.u16(n as u16);
    b.u16(6 + 12 * n as u16);
    let mut recs = Vec::new();
    for _ in 0..n {
        let r = (v::u16(), v::u16(), v::u16(), v::range(0, store as u64 + 1) as u16, v::range(0, store as u64 + 1) as u16);
        b.u16(r.0);
        b.u16(r.1);
        b.u16(v::u16());
        b.u16(r.2);
        b.u16(r.3);
        b.u16(r.4);
        recs.push(r);
    }
    let at = b.d.len();
    for _ in 0..store {
        let c = v::u8();
        v::assume(c < 0x80);
        b.u8(c)
    }
    let d = b.d.clone();
    // First record for name 6 in a supported encoding
    let mut chosen = None;
    for r in recs {
        if r.2 == 6 && (r.0 == 1 || (r.0 == 3 && r.1 == 1)) {
            chosen = Some(r);
            break;
        }
    }
    match (Font::parse(b.d), chosen) {
        (Ok(f), Some(r)) => {
            let (len, off) = (v::concrete(r.3 as u64) as usize, v::concrete(r.4 as u64) as usize);
            v::check(off + len <= store, "a name was read from beyond the end of the file");
            let got: Vec<char> = f.postscript_name().chars().collect();
            v::observe(got.len() as u64);
            let src = &d[at + off..at + off + len];
            if r.0 == 1 {
                v::cover(1);
                v::check(got.len() == len, "Macintosh name length");
                for i in 0..len {
                    v::check(got[i] as u32 == src[i] as u32, "Macintosh name")
                }
            } else {
                v::cover(2);
                v::check(got.len() == (len + 1) / 2, "UTF-16 name length");
                for i in 0..got.len() {
                    if 2 * i + 1 < len && src[2 * i] == 0 {
                        v::cover(3);
                        v::check(got[i] as u32 == src[2 * i + 1] as u32, "UTF-16 name")
                    } else {
                        v::check(got[i] == '\u{FFFD}', "undecodable name character")
                    }
                }
            }
        }
        (Err(e), None) => {
            v::cover(4);
            v::check(matches!(e, FontError::NoSupportedPostscriptName), "wrong error for a font without a name")
        }
        (Err(_), Some(r)) => {
            v::cover(5);
            v::check(r.3 as usize + r.4 as usize > store, "an in-bounds name was rejected")
        }
        (Ok(_), None) => v::check(false, "a font without a PostScript name was accepted"),
    }
}

/// F01: every byte sequence is either parsed or rejected, and every later query answers.
fn exercise(bytes: Vec<u8>) {
    match Font::parse(bytes) {
        Ok(f) => {
            v::cover(1);
            v::observe(f.glyph_count() as u64);
            let ch = any_char();
            match f.glyph_id(ch) {
                Ok(g) => v::observe(g.0 as u64),
                Err(_) => v::cover(3),
            }
            let _ = f.glyph_width(GlyphId(v::u16()));
            let _ = (f.ascender(), f.descender(), f.min_x(), f.min_y(), f.max_x(), f.max_y());
        }
        Err(_) => v::cover(2),
    }
}
#[no_mangle]
pub extern "C" fn vh_font_any_short() {
    let n = v::pick(v::param("max", 40) as usize + 1);
    let mut d = Vec::new();
    for _ in 0..n {
        d.push(v::u8())
    }
    exercise(d)
}
#[no_mangle]
pub extern "C" fn vh_font_any_offsets() {
    // Six entries with the right tags; every table offset and every byte after the directory is free.
    let tail = v::param("tail", 16) as usize;
    let mut b = directory();
    for k in 0..6 {
        b.set32(12 + 16 * k + 8, v::u32());
    }
    for _ in 0..tail {
        b.u8(v::u8())
    }
    exercise(b.d)
}
#[no_mangle]
pub extern "C" fn vh_font_any_tables() {
    // All table contents free; tables at fixed places, file possibly truncated.
    let which = v::param("free", 0) as usize;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.zeros(14);
    place(&mut b, which);
    let n = v::param("bytes", 40) as usize;
    for _ in 0..n {
        b.u8(v::u8())
    }
    exercise(b.d)
}
#[no_mangle]
pub extern "C" fn vh_font_any_name() {
    // `name` table with free contents; strings are short or reach beyond the end of the file.
    let max = v::param("len", 2) as u16;
    let mut b = directory();
    other_tables(&mut b);
    place(&mut b, 0);
    b.u16(0);
    b.u16(1);
    b.u16(3);
    b.u16(10);
    b.u32(12);
    b.u16(12);
    b.zeros(14);
    place(&mut b, 5);
    let at = b.d.len();
    b.u16(0);
    b.u16(v::u16());
    let base = v::u16();
    v::assume((base >= 18 && base <= 20) || base as usize + at > 2000);
    b.u16(base);
    for i in 0..6 {
        let x = v::u16();
        if i == 4 {
            v::assume(x <= max || x > 1000)
        }
        if i == 5 {
            v::assume(x <= 2 || x > 1000)
        }
        b.u16(x)
    }
    for _ in 0..max + 2 {
        b.u8(v::u8())
    }
    exercise(b.d)
}
