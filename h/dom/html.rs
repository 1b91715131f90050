use super::*;
include!("../../vh/src/api.rs");
include!("../common/pdfread.rs");
include!("../common/web.rs");
include!("../common/tree.rs");

const DOC: usize = 0;
struct Model {
    sink: Sink,
    ids: Vec<NodeId>,
    tree: Tree,
}
impl Model {
    fn new() -> Self {
        let mut sink = Sink { document: Document::new(), quirks_mode: QuirksMode::NoQuirks };
        let id = sink.get_document();
        Model { sink, ids: vec![id], tree: Tree::new() }
    }
    fn element(&mut self, name: &str, attrs: Vec<html5ever::Attribute>) -> usize {
        let name = QualName::new(None, ns!(html), LocalName::from(name));
        let id = self.sink.create_element(name, attrs, ElementFlags::default());
        self.ids.push(id);
        self.tree.push(Kind::Element)
    }
    /// A node to insert: an element that is not an ancestor of where it goes, or text.
    fn child(&mut self, parent: usize, detached: bool, max: usize) -> (NodeOrText<NodeId>, Result<usize, Vec<u8>>) {
        let k = v::pick(max + 1);
        if k == max {
            let text = vec![letter(), letter()];
            (NodeOrText::AppendText(StrTendril::from(string(text.clone()))), Err(text))
        } else {
            let k = k + 1;
            v::assume(!self.tree.ancestors(parent).contains(&k));
            v::assume(!detached || self.tree.parent(k).is_none());
            (NodeOrText::AppendNode(self.ids[k]), Ok(k))
        }
    }
    fn check(&self) {
        same_tree(&self.sink.document, &self.tree, |k| self.ids.get(k).cloned())
    }
}
fn letter() -> u8 {
    v::range(b'a' as u64, b'z' as u64) as u8
}
/// Any sequence of the operations the HTML parser uses, against lists of children.
#[no_mangle]
pub extern "C" fn vh_dom_operations() {
    let n = v::param("elements", 3) as usize;
    let mut m = Model::new();
    for _ in 0..n {
        m.element("p", vec![]);
    }
    // Some tree to start with: each element is detached, or the last child of the document or an earlier element, with text before it or not.
    for k in 1..=n {
        let p = v::pick(k + 1);
        if p == k {
            continue;
        }
        if v::param("text", 1) == 1 && v::pick(2) == 1 {
            m.sink.append(&m.ids[p], NodeOrText::AppendText(StrTendril::from("t")));
            m.tree.insert_text(p, None, b"t");
        }
        m.sink.append(&m.ids[p], NodeOrText::AppendNode(m.ids[k]));
        m.tree.insert(p, None, k);
    }
    for _ in 0..v::param("operations", 1) {
        let op = v::pick(5);
        // Nodes that are not elements are not handed out by the parser.
        let a = v::pick(n + 1);
        match op {
            0 => {
                let (new, what) = m.child(a, true, n);
                m.sink.append(&m.ids[a], new);
                match what {
                    Ok(k) => m.tree.insert(a, None, k),
                    Err(text) => m.tree.insert_text(a, None, &text),
                }
            }
            1 | 2 => {
                v::assume(a != DOC);
                let p = m.tree.parent(a);
                v::assume(op == 2 || p.is_some());
                let prev = if op == 2 { v::pick(n + 1) } else { DOC };
                let (place, before) = match p {
                    Some(p) => (p, Some(a)),
                    None => (prev, None),
                };
                v::assume(op == 1 || p.is_none() || prev == DOC);
                let (new, what) = m.child(place, op == 2 && p.is_none(), n);
                v::assume(what != Ok(a));
                if op == 1 {
                    m.sink.append_before_sibling(&m.ids[a], new)
                } else {
                    m.sink.append_based_on_parent_node(&m.ids[a], &m.ids[prev], new)
                }
                match what {
                    Ok(k) => m.tree.insert(place, before, k),
                    Err(text) => m.tree.insert_text(place, before, &text),
                }
            }
            3 => {
                v::assume(a != DOC);
                m.sink.remove_from_parent(&m.ids[a]);
                m.tree.detach(a)
            }
            _ => {
                let b = v::pick(n + 1);
                v::assume(b != DOC && a != b && !m.tree.ancestors(b).contains(&a));
                m.sink.reparent_children(&m.ids[a], &m.ids[b]);
                for c in m.tree.children[a].clone() {
                    m.tree.insert(b, None, c)
                }
            }
        }
        v::cover(1 + op as u32);
    }
    m.check()
}
/// Attributes of an element: those added later do not replace those that are there.
#[no_mangle]
pub extern "C" fn vh_dom_attributes() {
    const NAMES: [&str; 3] = ["id", "class", "style"];
    let mut m = Model::new();
    let mut expected: Vec<(usize, u8)> = Vec::new();
    let attrs = |expected: &mut Vec<(usize, u8)>, max: usize| {
        let mut list = Vec::new();
        let old = expected.len();
        for _ in 0..v::pick(max + 1) {
            let name = v::pick(3);
            // The tokenizer removes duplicates.
            v::assume(!list.iter().any(|(n, _): &(usize, u8)| *n == name));
            let value = letter();
            list.push((name, value));
            if !expected[..old].iter().any(|(n, _)| *n == name) {
                expected.push((name, value))
            }
        }
        list.into_iter()
            .map(|(n, x)| html5ever::Attribute { name: QualName::new(None, ns!(), LocalName::from(NAMES[n])), value: string(vec![x]).into() })
            .collect::<Vec<_>>()
    };
    let list = attrs(&mut expected, 2);
    let e = m.element("p", list);
    for _ in 0..2 {
        let list = attrs(&mut expected, 2);
        m.sink.add_attrs_if_missing(&m.ids[e], list);
    }
    let data = m.sink.document[m.ids[e]].as_element().unwrap();
    for n in 0..3 {
        let got = data.get_attr(&LocalName::from(NAMES[n]));
        match expected.iter().find(|(x, _)| *x == n) {
            None => v::check(got.is_none(), "an element has no attributes but those given"),
            Some((_, x)) => {
                v::check(got.map_or(false, |g| g.len() == 1 && g.as_bytes()[0] == *x), "an attribute has the first value given for it");
                v::cover(1)
            }
        }
    }
}
/// Comments, processing instructions and a doctype are nodes of the tree, but not text.
#[no_mangle]
pub extern "C" fn vh_dom_other_nodes() {
    let mut m = Model::new();
    let root = m.element("html", vec![]);
    let at = v::pick(2);
    for i in 0..v::param("nodes", 4) {
        if i == at as u64 {
            m.sink.append(&m.ids[DOC], NodeOrText::AppendNode(m.ids[root]));
            m.tree.insert(DOC, None, root);
        }
        let parent = if i > at as u64 { v::pick(2) } else { DOC };
        let kind = v::pick(if parent == root { 3 } else { 2 });
        let id = match kind {
            0 => m.sink.create_comment("x".into()),
            1 => m.sink.create_pi("x".into(), "y".into()),
            _ => {
                let text = vec![letter()];
                m.sink.append(&m.ids[parent], NodeOrText::AppendText(StrTendril::from(string(text.clone()))));
                m.tree.insert_text(parent, None, &text);
                v::cover(2);
                continue;
            }
        };
        // Only elements and other nodes have ids in the model.
        m.sink.append(&m.ids[parent], NodeOrText::AppendNode(id));
        let k = m.tree.push(Kind::Other);
        while m.ids.len() < k {
            m.ids.push(id)
        }
        m.ids.push(id);
        m.tree.insert(parent, None, k);
        v::cover(1);
    }
    m.check();
    let document = m.sink.finish();
    v::check(document.root_element() == m.ids[root], "the root element is found among other nodes");
}
fn attribute(name: &str, value: Vec<u8>) -> html5ever::Attribute {
    html5ever::Attribute { name: QualName::new(None, ns!(), LocalName::from(name)), value: string(value).into() }
}
/// The style sheets are the texts of the style elements, in tree order.
#[no_mangle]
pub extern "C" fn vh_dom_stylesheets() {
    let n = v::param("styles", 2) as usize;
    let mut m = Model::new();
    let root = m.element("html", vec![]);
    let div = m.element("div", vec![]);
    let p = m.element("p", vec![attribute("style", Css::new().s(&bg(1)).s("height:5px;margin:0;display:block").0)]);
    for &(parent, child) in &[(DOC, root), (root, div), (root, p)] {
        m.sink.append(&m.ids[parent], NodeOrText::AppendNode(m.ids[child]));
        m.tree.insert(parent, None, child);
    }
    let mut widths = Vec::new();
    for _ in 0..n {
        let mut attrs = Vec::new();
        let mut css = true;
        let types = v::param("types", 4);
        match if types < 4 { 3 * (types == 1) as usize } else { v::pick(5) } {
            0 => {}
            4 => {
                let mut a = attribute("type", b"text/css2".to_vec());
                a.name.ns = html5ever::Namespace::from("o");
                attrs.push(a)
            }
            1 => attrs.push(attribute("type", vec![])),
            2 => {
                attrs.push(attribute("type", b"text/css2".to_vec()));
                css = false
            }
            _ => {
                let bytes: Vec<u8> = (0..8).map(|_| { let b = v::u8(); v::assume(b < 128); b }).collect();
                css = fork(bytes.iter().zip(b"text/css").fold(true, |ok, (a, b)| ok & (a.to_ascii_lowercase() == *b)));
                attrs.push(attribute("type", bytes))
            }
        }
        let name = if v::param("plain", 0) == 1 { 0 } else { v::pick(3) };
        let style = m.element(["style", "style", "script"][name], attrs);
        let x = num_of(2, false);
        widths.push((style, x.v, css && name < 2));
        let text = Css::new().s("p{width:").n(&x).s("px}").0;
        // The text may be in two parts around a comment, or around an element whose text does not count.
        let cut = if name == 1 { 9 } else { text.len() };
        m.sink.append(&m.ids[style], NodeOrText::AppendText(StrTendril::from(string(text[..cut].to_vec()))));
        if cut < text.len() {
            let other = if v::pick(2) == 1 {
                m.sink.create_comment("7".into())
            } else {
                let b = m.sink.create_element(QualName::new(None, ns!(html), LocalName::from("b")), vec![], ElementFlags::default());
                m.sink.append(&b, NodeOrText::AppendText("7".into()));
                b
            };
            m.sink.append(&m.ids[style], NodeOrText::AppendNode(other));
            m.sink.append(&m.ids[style], NodeOrText::AppendText(StrTendril::from(string(text[cut..].to_vec()))));
        }
        // Anywhere: the last child of an element or before another style element, or taken out again
        let at = v::pick(3 + widths.len());
        if at < 3 {
            let parent = [root, div, p][at];
            m.sink.append(&m.ids[parent], NodeOrText::AppendNode(m.ids[style]));
            m.tree.insert(parent, None, style);
        } else if at - 3 < widths.len() - 1 {
            let before = widths[at - 3].0;
            let parent = m.tree.parent(before);
            v::assume(parent.is_some());
            m.sink.append_before_sibling(&m.ids[before], NodeOrText::AppendNode(m.ids[style]));
            m.tree.insert(parent.unwrap(), Some(before), style);
        } else {
            m.sink.append(&m.ids[div], NodeOrText::AppendNode(m.ids[style]));
            m.sink.remove_from_parent(&m.ids[style]);
        }
    }
    let mut order = Vec::new();
    m.tree.preorder(DOC, &mut order);
    let last = order.iter().rev().find_map(|&k| widths.iter().find(|w| w.0 == k && w.2));
    let document = m.sink.finish();
    let r = rects(&painted(&document), 1);
    v::check(r.len() == 1, "the box is painted once");
    v::check(r[0][2] == last.map_or(600., |w| w.1), "the rule in the last style element in tree order wins, if it is CSS and in the tree");
    v::observe_f32(r[0][2]);
    v::cover(last.is_some() as u32);
}
/// The link elements of a document, with their two attributes, in tree order.
#[no_mangle]
pub extern "C" fn vh_dom_links() {
    let mut m = Model::new();
    let root = m.element("html", vec![]);
    m.sink.append(&m.ids[DOC], NodeOrText::AppendNode(m.ids[root]));
    m.tree.insert(DOC, None, root);
    let mut links = Vec::new();
    for _ in 0..v::param("links", 2) {
        let is = v::pick(3);
        let (rel, href) = (letter(), letter());
        let has = v::pick(4);
        let mut attrs = Vec::new();
        if has & 2 != 0 {
            attrs.push(attribute("href", vec![href]))
        }
        if has & 1 != 0 {
            attrs.push(attribute("rel", vec![rel]))
        }
        let other = if v::param("other", 1) == 1 { v::pick(3) } else { 0 };
        if other > 0 {
            let mut a = attribute(["href", "rel"][v::pick(2)], vec![b'7']);
            a.name.ns = html5ever::Namespace::from("o");
            attrs.insert(if other == 1 { 0 } else { attrs.len() }, a)
        }
        let name = QualName::new(None, if is == 1 { ns!() } else { ns!(html) }, LocalName::from(if is == 2 { "a" } else { "link" }));
        let id = m.sink.create_element(name, attrs, ElementFlags::default());
        m.ids.push(id);
        let k = m.tree.push(Kind::Element);
        // Before or inside an earlier element
        let other = v::pick(k - 1) + 1;
        if other > root && v::pick(2) == 1 {
            m.sink.append_before_sibling(&m.ids[other], NodeOrText::AppendNode(id));
            let p = m.tree.parent(other).unwrap();
            m.tree.insert(p, Some(other), k)
        } else {
            m.sink.append(&m.ids[other], NodeOrText::AppendNode(id));
            m.tree.insert(other, None, k)
        }
        links.push((k, is == 0 && has == 3, rel, href));
    }
    let mut order = Vec::new();
    m.tree.preorder(DOC, &mut order);
    let mut expected = order.iter().filter_map(|&k| links.iter().find(|l| l.0 == k && l.1));
    let document = m.sink.finish();
    for (rel, href) in document.html_link_elements() {
        match expected.next() {
            None => v::check(false, "no link is listed but those in the tree with both attributes"),
            Some(l) => {
                v::check(rel.as_bytes() == [l.2] && href.as_bytes() == [l.3], "links are listed in tree order, with their attributes");
                v::cover(1)
            }
        }
    }
    v::check(expected.next().is_none(), "all links are listed");
    v::cover(2);
}
const TAGS: [&str; 12] = ["<b>", "</b>", "<p style='display:block;height:5px;margin:0;background-color:rgb(1,1,2)'>", "</p>", "<a>", "</a>", "<div>", "</div>", "<i>", "</i>", "<br>", "<!--x-->"];
/// Any sequence of tags, nested well or badly, with texts between them.
#[no_mangle]
pub extern "C" fn vh_dom_misnested() {
    let n = v::param("tags", 4);
    let few = v::param("few", 12) as usize;
    let mut html = b"<!doctype html><body>".to_vec();
    let mut text = Vec::new();
    for i in 0..n {
        html.extend_from_slice(TAGS[v::pick(few)].as_bytes());
        let c = if v::param("free", 0) == 1 { letter() } else { b'a' + i as u8 };
        html.push(c);
        text.push(c);
    }
    let d = Document::parse_html(&html);
    let got = consistent(&d);
    v::check(got.len() == text.len() && got.iter().zip(&text).all(|(a, b)| a == b), "all text is in the tree, in the order of the source");
    v::cover(1);
}
/// Any bytes as a document, or in one.
#[no_mangle]
pub extern "C" fn vh_dom_any_html() {
    const BEFORE: [&str; 8] = ["", "<!doctype html><p>", "<b", "<b a=", "<b a='", "<!--", "<style>", "<table>"];
    let before = BEFORE[v::param("before", 0) as usize];
    let mut html = before.as_bytes().to_vec();
    for _ in 0..v::param("bytes", 2) {
        let b = v::u8();
        v::assume(v::param("ascii", 0) == 0 || b < 128);
        // Names are hashed, which is too hard for the solver: letters are split into single values.
        html.push(if v::param("split", 1) == 1 && fork(b.is_ascii_alphabetic()) { v::concrete(b as u64) as u8 } else { b });
    }
    html.extend_from_slice(["x", "'><p>x", "--></b><p>x"][v::param("after", 0) as usize].as_bytes());
    let d = Document::parse_html(&html);
    consistent(&d);
    if v::param("paint", 1) == 1 {
        v::observe(painted(&d).len() as u64);
    }
    v::cover(1);
}
/// Any bytes in an XML document: an error or a tree.
#[no_mangle]
pub extern "C" fn vh_dom_any_xml() {
    const BEFORE: [&str; 8] = ["", "<a>", "<a><b", "<a b=", "<a b='", "<a><!--", "<a><![CDATA[", "<a>&#"];
    const AFTER: [&str; 6] = ["", "</a>", "/></a>", "'/>", "--></a>", "]]></a>"];
    let before = BEFORE[v::param("before", 1) as usize];
    let after = AFTER[v::param("after", 1) as usize];
    let mut xml = before.as_bytes().to_vec();
    for _ in 0..v::param("bytes", 1) {
        let b = v::u8();
        xml.push(b);
    }
    xml.extend_from_slice(after.as_bytes());
    match Document::parse_xml(&xml) {
        Err(_) => v::cover(2),
        Ok(d) => {
            consistent(&d);
            v::cover(1);
        }
    }
}
/// A well-formed document of any structure is read as its tree.
#[no_mangle]
pub extern "C" fn vh_dom_parse_tree() {
    let xml = v::param("xml", 0) == 1;
    let mut t = Tree::new();
    let mut current = t.push(Kind::Element);
    t.insert(DOC, None, current);
    let mut source;
    if xml {
        source = b"<?xml version='1.0'?>\n<r xmlns='u' p:q='w' xmlns:p='o'>".to_vec();
    } else {
        source = b"<!DOCTYPE html><html><head></head><body>".to_vec();
        let doctype = t.push(Kind::Other);
        t.insert(DOC, Some(current), doctype);
        let head = t.push(Kind::Element);
        t.insert(current, None, head);
        let body = t.push(Kind::Element);
        t.insert(current, None, body);
        current = body
    }
    let top = current;
    let mut attributes = Vec::new();
    for i in 0..v::param("items", 3) {
        match v::pick(if xml { 8 } else { 6 }) {
            0 => {
                // In the first namespace, or another
                let x = letter();
                let name = v::pick(2);
                source.extend_from_slice(if xml { [&b"<e k='"[..], b"<p:e xmlns='v' k='"][name] } else { [&b"<div k='"[..], b"<i k='"][name] });
                source.push(x);
                source.extend_from_slice(b"'>");
                let k = t.push(Kind::Element);
                t.insert(current, None, k);
                attributes.push((k, x, name));
                current = k
            }
            1 => {
                v::assume(current != top);
                let name = attributes.iter().find(|a| a.0 == current).unwrap().2;
                source.extend_from_slice(if xml { [&b"</e>"[..], b"</p:e>"][name] } else { [&b"</div>"[..], b"</i>"][name] });
                current = t.parent(current).unwrap()
            }
            2 => {
                let x = [letter(), letter()];
                source.extend_from_slice(&x);
                t.insert_text(current, None, &x)
            }
            3 => {
                let e = v::pick(4);
                source.extend_from_slice([&b"&amp;"[..], b"&lt;", b"&#x41;", b"&#66;"][e]);
                t.insert_text(current, None, [b"&", b"<", b"A", b"B"][e])
            }
            4 => {
                source.extend_from_slice([&b" "[..], b"\n\t"][i as usize % 2]);
                t.insert_text(current, None, [&b" "[..], b"\n\t"][i as usize % 2])
            }
            5 => {
                // XML comments are dropped.
                source.extend_from_slice(b"<!--c-->");
                if !xml {
                    let k = t.push(Kind::Other);
                    t.insert(current, None, k)
                }
            }
            6 => {
                let x = letter();
                source.extend_from_slice(b"<![CDATA[<");
                source.push(x);
                source.extend_from_slice(b"]]>");
                t.insert_text(current, None, &[b'<', x])
            }
            _ => {
                source.extend_from_slice(b"<?i d?>");
                let k = t.push(Kind::Other);
                t.insert(current, None, k)
            }
        }
    }
    while current != top {
        let name = attributes.iter().find(|a| a.0 == current).unwrap().2;
        source.extend_from_slice(if xml { [&b"</e>"[..], b"</p:e>"][name] } else { [&b"</div>"[..], b"</i>"][name] });
        current = t.parent(current).unwrap()
    }
    source.extend_from_slice(if xml { b"</r>\n" } else { b"</body></html>" });
    let d = if xml {
        match Document::parse_xml(&source) {
            Ok(d) => d,
            Err(_) => {
                v::check(false, "a well-formed document is not an error");
                return;
            }
        }
    } else {
        Document::parse_html(&source)
    };
    same_tree(&d, &t, |k| if k == DOC { Some(Document::document_node_id()) } else { None });
    consistent(&d);
    // Elements in tree order have their names and attributes.
    let mut order = Vec::new();
    t.preorder(DOC, &mut order);
    for (x, k) in d.nodes().zip(order) {
        if let Some(a) = attributes.iter().find(|a| a.0 == k) {
            let e = d[x].as_element().unwrap();
            let value = e.get_attr(&LocalName::from("k"));
            v::check(value.map_or(false, |v| v.len() == 1 && v.as_bytes()[0] == a.1), "an element has its attribute");
            let name = if xml { "e" } else { ["div", "i"][a.2] };
            v::check(&*e.name.local == name, "an element has its name");
            let other = if !xml { "http://www.w3.org/1999/xhtml" } else if a.2 == 1 { "o" } else { "" };
            if other != "" {
                v::check(&*e.name.ns == other, "an element has its namespace")
            } else {
                // The default namespace is that of the nearest ancestor that declares one.
                let v = t.ancestors(k).iter().any(|&p| attributes.iter().any(|b| b.0 == p && b.2 == 1));
                v::check(&*e.name.ns == if v { "v" } else { "u" }, "an element has its namespace")
            }
            v::cover(2);
        }
    }
    v::cover(1);
}
