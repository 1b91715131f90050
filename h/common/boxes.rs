// Block boxes described by CSS declarations, and where CSS 2 puts them.

#[derive(Clone)]
enum A {
    Auto,
    Px(Num),
    /// Percent
    Pct(i64),
}
use A::*;
const NO: A = Auto;
impl A {
    fn zero() -> A {
        Px(constant(0))
    }
    fn get(&self, basis: f32) -> Option<f32> {
        match self {
            Auto => None,
            Px(n) => Some(n.v),
            Pct(p) => Some(basis * (*p as f32 / 100.)),
        }
    }
}
#[derive(Clone)]
struct St {
    w: A,
    h: A,
    /// top, right, bottom, left
    m: [A; 4],
    p: [A; 4],
    /// Widths of solid borders; Auto: no declaration
    b: [A; 4],
    /// A width is declared but the style is left at none.
    no_border_style: [bool; 4],
    /// 0: static, 1: relative, 2: absolute
    pos: u8,
    off: [A; 4],
    flow_root: bool,
    extra: &'static str,
}
const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
impl St {
    fn new() -> St {
        let z = || [A::zero(), A::zero(), A::zero(), A::zero()];
        St { w: Auto, h: Auto, m: z(), p: z(), b: [NO, NO, NO, NO], no_border_style: [false; 4], pos: 0, off: [NO, NO, NO, NO], flow_root: false, extra: "" }
    }
    fn css(&self, k: usize) -> Vec<u8> {
        let mut c = Css::new();
        if k > 0 {
            c = c.s(&bg(k));
        }
        let one = |c: Css, name: &str, suffix: &str, a: &A, default_auto: bool| -> Css {
            let c = match a {
                Auto => {
                    if default_auto {
                        return c;
                    }
                    c.s(name).s(suffix).s(":auto")
                }
                Px(n) if !default_auto && !n.free && n.v == 0. => return c,
                Px(n) => c.s(name).s(suffix).s(":").n(n).s("px"),
                Pct(p) => c.s(name).s(suffix).s(":").s(&p.to_string()).s("%"),
            };
            c.s(";")
        };
        c = one(c, "width", "", &self.w, true);
        c = one(c, "height", "", &self.h, true);
        for i in 0..4 {
            c = one(c, "margin-", SIDES[i], &self.m[i], false);
            c = one(c, "padding-", SIDES[i], &self.p[i], false);
            c = one(c, SIDES[i], "", &self.off[i], true);
            if let Px(n) = &self.b[i] {
                c = c.s("border-").s(SIDES[i]).s("-width:").n(n).s("px;");
                if !self.no_border_style[i] {
                    c = c.s("border-").s(SIDES[i]).s("-style:solid;");
                }
            }
        }
        match self.pos {
            1 => c = c.s("position:relative;"),
            2 => c = c.s("position:absolute;"),
            _ => {}
        }
        if self.flow_root {
            c = c.s("display:flow-root;")
        }
        c.s(self.extra).0
    }
    fn border(&self, side: usize) -> f32 {
        match &self.b[side] {
            Px(n) if !self.no_border_style[side] => n.v,
            _ => 0.,
        }
    }
    fn padding(&self, side: usize, cbw: f32) -> f32 {
        self.p[side].get(cbw).unwrap()
    }
    /// Border and padding.
    fn pb(&self, side: usize, cbw: f32) -> f32 {
        self.border(side) + self.padding(side, cbw)
    }
}
const TOP: usize = 0;
const RIGHT: usize = 1;
const BOTTOM: usize = 2;
const LEFT: usize = 3;

struct Bx {
    k: usize,
    st: St,
    kids: Vec<Bx>,
}
fn html_of(b: &Bx, out: &mut String) {
    out.push_str(&format!("<div style=@{}>", b.k));
    for kid in &b.kids {
        html_of(kid, out)
    }
    out.push_str("</div>");
}
fn styles_of(b: &Bx, out: &mut Vec<(&'static str, Vec<u8>)>) {
    out.push((Box::leak(format!("@{}", b.k).into_boxed_str()), b.st.css(b.k)));
    for kid in &b.kids {
        styles_of(kid, out)
    }
}
/// The tree in a body without margins of an 600 x 800 px page.
fn page_of(b: &[Bx]) -> Document {
    let mut html = "<!doctype html><body style='margin:0'>".to_string();
    let mut parts = Vec::new();
    for b in b {
        html_of(b, &mut html);
        styles_of(b, &mut parts);
    }
    page(&html, parts)
}

/// 10.3.3: (left margin, content width)
fn inline_axis(st: &St, cbw: f32) -> (f32, f32) {
    let pb = st.pb(LEFT, cbw) + st.pb(RIGHT, cbw);
    let (ml, mr) = (st.m[LEFT].get(cbw), st.m[RIGHT].get(cbw));
    match st.w.get(cbw) {
        None => {
            let l = ml.unwrap_or(0.);
            (l, (cbw - pb - l - mr.unwrap_or(0.)).max(0.))
        }
        Some(w) => {
            let rest = cbw - pb - w;
            let l = match (ml, mr) {
                (Some(l), _) => l,
                // Overflow: auto margins are zero.
                (None, None) => rest.max(0.) / 2.,
                (None, Some(r)) => (rest - r).max(0.),
            };
            (l, w)
        }
    }
}

/// Adjoining margins (8.3.1)
#[derive(Clone, Copy)]
struct Set {
    positive: f32,
    negative: f32,
}
impl Set {
    fn new() -> Set {
        Set { positive: 0., negative: 0. }
    }
    fn add(&mut self, m: f32) {
        self.positive = self.positive.max(m);
        self.negative = self.negative.min(m);
    }
    fn join(&mut self, o: &Set) {
        self.positive = self.positive.max(o.positive);
        self.negative = self.negative.min(o.negative);
    }
    fn solve(&self) -> f32 {
        self.positive + self.negative
    }
}
/// Border box of a box by number, relative to some origin; `at` accumulates.
struct Placed {
    k: usize,
    r: [f32; 4],
}
/// An absolutely positioned box that has yet to meet its containing block, and its static position relative to the same origin as `all`.
struct Pending<'a> {
    b: &'a Bx,
    x: f32,
    y: f32,
}
struct Res<'a> {
    abs: Vec<Pending<'a>>,
    start: Set,
    end: Set,
    through: bool,
    /// Height of the border box
    h: f32,
    /// The box itself and its descendants, relative to its border box's top edge and its parent's content's left edge
    all: Vec<Placed>,
}
fn relative_offset(st: &St, cbw: f32, cbh: Option<f32>) -> (f32, f32) {
    if st.pos != 1 {
        return (0., 0.);
    }
    let pair = |start: Option<f32>, end: Option<f32>| match (start, end) {
        (Some(s), _) => s,
        (None, Some(e)) => -e,
        (None, None) => 0.,
    };
    // Percentages of an undetermined height compute to auto.
    let vertical = |a: &A| match (a, cbh) {
        (Pct(_), None) => None,
        (a, b) => a.get(b.unwrap_or(0.)),
    };
    (pair(st.off[LEFT].get(cbw), st.off[RIGHT].get(cbw)), pair(vertical(&st.off[TOP]), vertical(&st.off[BOTTOM])))
}
/// In-flow block boxes (9.4.1, 10.3.3, 10.6.3, 8.3.1, 9.4.3).
fn block<'a>(b: &'a Bx, cbw: f32, cbh: Option<f32>) -> Res<'a> {
    let st = &b.st;
    let (ml, w) = inline_axis(st, cbw);
    let h = match (&st.h, cbh) {
        (Pct(_), None) => None,
        (a, b) => a.get(b.unwrap_or(0.)),
    };
    let (pbt, pbb) = (st.pb(TOP, cbw), st.pb(BOTTOM, cbw));
    let pbl = st.pb(LEFT, cbw);
    let mut in_lead = !st.flow_root && pbt == 0.;
    let mut lead = Set::new();
    let mut pend = Set::new();
    let mut y = 0.;
    let mut all = Vec::new();
    let mut abs = Vec::new();
    for kid in &b.kids {
        if kid.st.pos == 2 {
            abs.push(Pending { b: kid, x: ml + pbl, y: y + pend.solve() + pbt });
            continue;
        }
        let r = block(kid, w, h);
        let at;
        if in_lead {
            lead.join(&r.start);
            at = 0.;
            if r.through {
                lead.join(&r.end)
            } else {
                in_lead = false;
                y = r.h;
                pend = r.end
            }
        } else {
            pend.join(&r.start);
            at = y + pend.solve();
            if r.through {
                pend.join(&r.end)
            } else {
                y = at + r.h;
                pend = r.end
            }
        }
        for p in r.abs {
            abs.push(Pending { b: p.b, x: p.x + ml + pbl, y: p.y + at + pbt })
        }
        for p in r.all {
            all.push(Placed { k: p.k, r: [p.r[0] + ml + pbl, p.r[1] + at + pbt, p.r[2], p.r[3]] })
        }
    }
    let mut start = Set::new();
    start.add(st.m[TOP].get(cbw).unwrap_or(0.));
    start.join(&lead);
    let mut end = Set::new();
    end.add(st.m[BOTTOM].get(cbw).unwrap_or(0.));
    let open = !st.flow_root && pbb == 0. && h.is_none();
    let through = in_lead && pbb == 0. && h.unwrap_or(0.) == 0.;
    if open {
        end.join(&pend)
    }
    let content = match h {
        Some(h) => h,
        None if open => y.max(0.),
        None => (y + pend.solve()).max(0.),
    };
    let height = pbt + content + pbb;
    let (dx, dy) = relative_offset(st, cbw, cbh);
    all.insert(0, Placed { k: b.k, r: [ml, 0., pbl + w + st.pb(RIGHT, cbw), height] });
    for p in &mut all {
        p.r[0] += dx;
        p.r[1] += dy;
    }
    for p in &mut abs {
        p.x += dx;
        p.y += dy;
    }
    if st.pos != 0 {
        // The padding box is the containing block.
        let (x, y) = (ml + st.border(LEFT) + dx, st.border(TOP) + dy);
        let (w, h) = (st.padding(LEFT, cbw) + w + st.padding(RIGHT, cbw), st.padding(TOP, cbw) + content + st.padding(BOTTOM, cbw));
        for p in abs.drain(..) {
            for q in absolute(&p, x, y, w, h) {
                all.push(q)
            }
        }
    }
    Res { start, end, through, h: height, all, abs }
}
/// An absolutely positioned box of definite width and margins, and at most one horizontal offset, in the containing block given.
fn absolute(p: &Pending, x: f32, y: f32, w: f32, h: f32) -> Vec<Placed> {
    let st = &p.b.st;
    let width = st.w.get(w).unwrap();
    let mut flow = Bx { k: p.b.k, st: st.clone(), kids: Vec::new() };
    flow.st.flow_root = true;
    let margin = |side: usize| st.m[side].get(w).unwrap_or(0.);
    let height = match (st.h.get(h), st.off[TOP].get(h), st.off[BOTTOM].get(h)) {
        // What the offsets leave does not depend on the contents.
        (None, Some(t), Some(b)) => Some((h - t - b - margin(TOP) - margin(BOTTOM) - st.pb(TOP, w) - st.pb(BOTTOM, w)).max(0.)),
        (height, _, _) => height,
    };
    flow.st.h = match height {
        Some(v) => Px(Num { text: Vec::new(), v, free: false }),
        None => Auto,
    };
    // Contents
    for kid in &p.b.kids {
        flow.kids.push(kid.copy())
    }
    let r = block(&flow, w, Some(h));
    let outer_w = st.pb(LEFT, w) + width + st.pb(RIGHT, w);
    let left = match (st.off[LEFT].get(w), st.off[RIGHT].get(w)) {
        (Some(l), None) => x + l + margin(LEFT),
        (None, Some(r)) => x + w - r - margin(RIGHT) - outer_w,
        (None, None) => p.x + margin(LEFT),
        _ => panic!("not modelled"),
    };
    let top = match (st.off[TOP].get(h), st.off[BOTTOM].get(h)) {
        (Some(t), _) => y + t + margin(TOP),
        (None, Some(b)) => y + h - b - margin(BOTTOM) - r.h,
        (None, None) => p.y + margin(TOP),
        _ => panic!("not modelled"),
    };
    let at = inline_axis(&flow.st, w).0;
    r.all.into_iter().map(|q| Placed { k: q.k, r: [q.r[0] - at + left, q.r[1] + top, q.r[2], q.r[3]] }).collect()
}
impl Bx {
    fn copy(&self) -> Bx {
        Bx { k: self.k, st: self.st.clone(), kids: self.kids.iter().map(|k| k.copy()).collect() }
    }
}
/// The same for the boxes directly in the body of `page_of`.
fn expected(b: Vec<Bx>) -> Vec<Placed> {
    let body = Bx { k: 0, st: St::new(), kids: b };
    let r = block(&body, 600., None);
    // The root element is a block formatting context root.
    let mut m = r.start;
    if r.through {
        m.join(&r.end)
    }
    let dy = r.start.solve();
    let mut abs = Vec::new();
    for p in &r.abs {
        for q in absolute(&Pending { b: p.b, x: p.x, y: p.y + dy }, 0., 0., 600., 800.) {
            abs.push(Placed { k: q.k, r: [q.r[0], q.r[1] - dy, q.r[2], q.r[3]] })
        }
    }
    r.all.into_iter().chain(abs).filter(|p| p.k > 0).map(|p| Placed { k: p.k, r: [p.r[0], p.r[1] + dy, p.r[2], p.r[3]] }).collect()
}
