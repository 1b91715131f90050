// Inline formatting contexts: text and inline boxes on lines.

enum In {
    Text(Vec<u8>),
    Box(usize, St, Vec<In>),
}
fn inline_html(n: &[In], out: &mut String, parts: &mut Vec<(&'static str, Vec<u8>)>) {
    const TEXT: [&str; 10] = ["#0", "#1", "#2", "#3", "#4", "#5", "#6", "#7", "#8", "#9"];
    const BOX: [&str; 6] = ["@0", "@1", "@2", "@3", "@4", "@5"];
    for n in n {
        match n {
            In::Text(t) => {
                let m = TEXT[parts.iter().filter(|p| p.0.starts_with('#')).count()];
                out.push_str(m);
                parts.push((m, t.clone()));
            }
            In::Box(k, st, kids) => {
                out.push_str(&format!("<b style={}>", BOX[*k]));
                parts.push((BOX[*k], st.css(*k)));
                inline_html(kids, out, parts);
                out.push_str("</b>");
            }
        }
    }
}
/// What is painted: a fragment of a box (number, left border edge, width of the border box) or of text (glyphs, left edge), on a line.
enum Piece {
    Box { k: usize, line: usize, x: f32, w: f32 },
    Text { glyphs: Vec<u8>, line: usize, x: f32 },
}
struct OpenBox {
    k: usize,
    piece: usize,
    from: f32,
    shift: f32,
}
struct Lines {
    cbw: f32,
    size: f32,
    /// Font sizes of the boxes, if they have their own
    sizes: Option<[f32; 10]>,
    x: f32,
    line: usize,
    out: Vec<Piece>,
    open: Vec<OpenBox>,
}
impl Lines {
    fn new(cbw: f32, size: f32) -> Lines {
        Lines { cbw, size, sizes: None, x: 0., line: 0, out: Vec::new(), open: Vec::new() }
    }
    fn shift(&self) -> f32 {
        self.open.last().map_or(0., |o| o.shift)
    }
    fn grow(&mut self, piece: usize, by: f32) {
        if let Piece::Box { w, .. } = &mut self.out[piece] {
            *w += by
        }
    }
    fn new_line(&mut self) {
        let x = self.x;
        self.line += 1;
        self.x = 0.;
        for i in 0..self.open.len() {
            let (piece, from) = (self.open[i].piece, self.open[i].from);
            self.grow(piece, x - from);
            self.open[i].piece = self.out.len();
            self.open[i].from = 0.;
            let o = &self.open[i];
            self.out.push(Piece::Box { k: o.k, line: self.line, x: o.shift, w: 0. })
        }
    }
    fn fragment(&mut self, t: &[u8]) {
        let (glyphs, w) = shaped(t);
        if !t.is_empty() || self.sizes.is_some() {
            self.out.push(Piece::Text { glyphs, line: self.line, x: self.x + self.shift() })
        }
        self.x += self.size * w;
    }
    /// Text of one run whose white space is collapsed: broken at its spaces, each line as full as possible.
    fn text(&mut self, t: &[u8]) {
        let mut at = 0;
        loop {
            let rest = &t[at..];
            // The most that fits, up to a space.
            let mut take = None;
            let mut end = 0;
            loop {
                while end < rest.len() && rest[end] != b' ' {
                    end += 1
                }
                let fits = fork(self.x + self.size * shaped(&rest[..end]).1 <= self.cbw);
                if fits || take.is_none() {
                    take = Some(end)
                }
                if !fits || end == rest.len() {
                    break;
                }
                end += 1;
                // A space at the end of the run hangs.
                if end == rest.len() {
                    take = Some(end);
                    break;
                }
            }
            let take = take.unwrap();
            self.fragment(&rest[..take]);
            at += take;
            if at >= t.len() {
                return;
            }
            at += 1;
            if at == t.len() {
                return;
            }
            self.new_line();
        }
    }
    fn nodes(&mut self, n: &[In]) {
        for n in n {
            match n {
                In::Text(t) => self.text(t),
                In::Box(k, st, kids) => {
                    let margin = |side: usize| st.m[side].get(self.cbw).unwrap_or(0.);
                    let (ml, mr) = (margin(LEFT), margin(RIGHT));
                    let (l, r) = (st.pb(LEFT, self.cbw), st.pb(RIGHT, self.cbw));
                    let shift = self.shift() + relative_offset(st, self.cbw, None).0;
                    self.x += ml;
                    let piece = self.out.len();
                    self.out.push(Piece::Box { k: *k, line: self.line, x: self.x + shift, w: l });
                    self.x += l;
                    self.open.push(OpenBox { k: *k, piece, from: self.x, shift });
                    let size = self.size;
                    if let Some(s) = self.sizes {
                        self.size = s[*k]
                    }
                    self.nodes(kids);
                    self.size = size;
                    let o = self.open.pop().unwrap();
                    let by = self.x - o.from + r;
                    self.grow(o.piece, by);
                    self.x += r + mr;
                }
            }
        }
    }
}
fn check_lines(items: &[Item], lines: &Lines, x0: f32, y0: f32) {
    let mut next = lines.out.iter();
    let height = lines.size * 1.2;
    let ascender = crate::fonts::BITSTREAM_VERA_SANS.ascender().0 * lines.size;
    for i in items {
        match i {
            Item::Text { glyphs, .. } if glyphs.is_empty() => {}
            Item::Text { x, y, size, glyphs, .. } => match next.next() {
                Some(Piece::Text { glyphs: g, line, x: at }) => {
                    v::check(*glyphs == *g, "each line has the words that fit, in order");
                    v::check(*x == x0 + at, "text starts where what precedes it on the line ends");
                    v::check(*size == lines.size, "text has its element's font size");
                    v::check(close(*y, y0 + *line as f32 * height + ascender), "text is on its line's baseline");
                    v::observe_f32(*x);
                }
                _ => v::check(false, "text is painted where CSS has none"),
            },
            Item::Rect { x, y, w, h, rgb, .. } => match next.next() {
                Some(Piece::Box { k, line, x: at, w: width }) => {
                    v::check(rgb[0] == *k as f32 / 255., "boxes are painted in order");
                    v::check(*x == x0 + at, "a fragment of an inline box starts where CSS puts it");
                    v::check(*w == *width, "a fragment of an inline box is as wide as its contents and own edges");
                    let _ = h;
                    v::check(close(*y, y0 + *line as f32 * height), "a fragment of an inline box is on its line");
                    v::observe_f32(*x);
                }
                _ => v::check(false, "a box is painted where CSS has none"),
            },
        }
    }
    v::check(next.next().is_none(), "everything on the lines is painted");
}
