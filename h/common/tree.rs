// A tree as lists of children, and its comparison with a document.

#[derive(Clone, PartialEq)]
enum Kind {
    Document,
    Element,
    Text(Vec<u8>),
    Other,
}
struct Tree {
    kinds: Vec<Kind>,
    children: Vec<Vec<usize>>,
}
#[allow(dead_code)]
impl Tree {
    fn new() -> Self {
        Tree { kinds: vec![Kind::Document], children: vec![Vec::new()] }
    }
    fn push(&mut self, kind: Kind) -> usize {
        self.kinds.push(kind);
        self.children.push(Vec::new());
        self.kinds.len() - 1
    }
    fn parent(&self, k: usize) -> Option<usize> {
        (0..self.children.len()).find(|&p| self.children[p].contains(&k))
    }
    /// The node and its ancestors
    fn ancestors(&self, k: usize) -> Vec<usize> {
        let mut v = vec![k];
        while let Some(p) = self.parent(*v.last().unwrap()) {
            v.push(p)
        }
        v
    }
    fn detach(&mut self, k: usize) {
        for c in &mut self.children {
            c.retain(|&x| x != k)
        }
    }
    fn insert(&mut self, parent: usize, before: Option<usize>, k: usize) {
        self.detach(k);
        let i = self.place(parent, before);
        self.children[parent].insert(i, k)
    }
    fn place(&self, parent: usize, before: Option<usize>) -> usize {
        match before {
            None => self.children[parent].len(),
            Some(b) => self.children[parent].iter().position(|&x| x == b).unwrap(),
        }
    }
    fn insert_text(&mut self, parent: usize, before: Option<usize>, text: &[u8]) {
        let i = self.place(parent, before);
        if i > 0 {
            let previous = self.children[parent][i - 1];
            if let Kind::Text(t) = &mut self.kinds[previous] {
                t.extend_from_slice(text);
                return;
            }
        }
        let k = self.push(Kind::Text(text.to_vec()));
        self.children[parent].insert(i, k)
    }
    fn preorder(&self, k: usize, out: &mut Vec<usize>) {
        out.push(k);
        for &c in &self.children[k] {
            self.preorder(c, out)
        }
    }
}
/// Checks that the document has the tree, and that all links agree. The ids of texts are not known beforehand.
fn same_tree(d: &Document, t: &Tree, id: impl Fn(usize) -> Option<NodeId>) {
    let n = t.kinds.len();
    let mut ids: Vec<Option<NodeId>> = (0..n).map(|k| if let Kind::Text(_) = t.kinds[k] { None } else { id(k) }).collect();
    for p in 0..n {
        let node = match ids[p] {
            Some(p) => &d[p],
            None => continue,
        };
        let mut link = node.first_child;
        let mut previous = None;
        for &c in &t.children[p] {
            let child = match link {
                Some(c) => c,
                None => {
                    v::check(false, "a node has all the children it was given");
                    return;
                }
            };
            if ids[c].is_none() {
                ids[c] = Some(child)
            }
            v::check(ids[c] == Some(child), "a node's children are the ones it was given, in order");
            v::check(d[child].parent == ids[p], "a child's parent is its parent");
            v::check(d[child].previous_sibling == previous, "a child's previous sibling is the child before it");
            match (&t.kinds[c], &d[child].data) {
                (Kind::Text(a), NodeData::Text { contents }) => {
                    v::check(contents.len() == a.len() && contents.bytes().zip(a).all(|(x, y)| x == *y), "a text node has all the text inserted there, in order");
                    v::check(d[child].first_child.is_none(), "a text node has no children")
                }
                (Kind::Element, NodeData::Element(_)) => {}
                (Kind::Other, NodeData::Comment { .. }) | (Kind::Other, NodeData::ProcessingInstruction { .. }) | (Kind::Other, NodeData::Doctype { .. }) => {}
                _ => v::check(false, "a child is of its kind"),
            }
            previous = link;
            link = d[child].next_sibling;
        }
        v::check(link.is_none(), "a node has no children but those it was given");
        v::check(node.last_child == previous, "a node's last child is the last of its children");
    }
    for k in 0..n {
        if let Some(i) = ids[k] {
            if t.parent(k).is_none() {
                let x = &d[i];
                v::check(x.parent.is_none() && x.next_sibling.is_none() && x.previous_sibling.is_none(), "a node that was removed has no parent and no siblings")
            }
        }
    }
    let mut order = Vec::new();
    t.preorder(0, &mut order);
    let mut rest = order.iter();
    for x in d.nodes() {
        let y = rest.next();
        v::check(y.map_or(false, |&y| ids[y] == Some(x)), "all nodes of the tree are visited in tree order")
    }
    v::check(rest.next().is_none(), "all nodes of the tree are visited")
}
/// Checks that all links of the document agree, whatever its tree is, and gives its text.
#[allow(dead_code)]
fn consistent(d: &Document) -> Vec<u8> {
    let mut text = Vec::new();
    let mut seen = 0;
    let mut elements = 0;
    for x in d.nodes() {
        seen += 1;
        if seen > d.nodes.len() {
            v::check(false, "the tree has no cycle");
            v::end()
        }
        let node = &d[x];
        let mut link = node.first_child;
        let mut previous = None;
        while let Some(c) = link {
            v::check(d[c].parent == Some(x), "a child's parent is its parent");
            v::check(d[c].previous_sibling == previous, "a child's previous sibling is the child before it");
            previous = link;
            link = d[c].next_sibling;
        }
        v::check(node.last_child == previous, "a node's last child is the last of its children");
        match &node.data {
            NodeData::Text { contents } => {
                text.extend_from_slice(contents.as_bytes());
                v::check(node.parent != Some(Document::document_node_id()), "no text is a child of the document");
                v::check(node.next_sibling.map_or(true, |n| d[n].as_text().is_none()), "no text node is next to another");
                v::check(node.first_child.is_none(), "a text node has no children")
            }
            NodeData::Element(_) => elements += (node.parent == Some(Document::document_node_id())) as u32,
            _ => {}
        }
    }
    v::check(elements == 1, "the document has one root element");
    text
}
