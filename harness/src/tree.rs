//! P01, P02, P03: tree edits against a list model of the tree.
use crate::common::*;

/// The model: for every node of the pool its children, in order.
#[derive(Clone, PartialEq)]
pub struct Model {
    pub kids: Vec<Vec<usize>>,
}

impl Model {
    pub fn new(n: usize) -> Self {
        Model { kids: vec![Vec::new(); n] }
    }
    pub fn parent(&self, i: usize) -> Option<usize> {
        self.kids.iter().position(|k| k.contains(&i))
    }
    pub fn detach(&mut self, i: usize) {
        for k in self.kids.iter_mut() {
            k.retain(|x| *x != i);
        }
    }
    /// is `a` the node `d` or one of its ancestors?
    pub fn covers(&self, a: usize, d: usize) -> bool {
        let mut n = Some(d);
        while let Some(x) = n {
            if x == a {
                return true;
            }
            n = self.parent(x);
        }
        false
    }
    pub fn place(&mut self, parent: usize, new: usize, before: Option<usize>) {
        if before == Some(new) {
            return;
        }
        self.detach(new);
        let k = &mut self.kids[parent];
        let at = before.and_then(|b| k.iter().position(|x| *x == b)).unwrap_or(k.len());
        k.insert(at, new);
    }
    pub fn swap(&mut self, parent: usize, new: usize, old: usize) {
        if new == old {
            return;
        }
        self.detach(new);
        let k = &mut self.kids[parent];
        let at = k.iter().position(|x| *x == old).unwrap();
        k[at] = new;
    }
}

pub struct World {
    pub nodes: Vec<RefNode>,
    /// which document each node belongs to (index of the document node)
    pub doc: Vec<usize>,
    pub m: Model,
}

pub fn kind_allowed(parent: &NodeType, child: &NodeType) -> bool {
    let content = matches!(
        child,
        NodeType::Element
            | NodeType::Text
            | NodeType::Comment
            | NodeType::ProcessingInstruction
            | NodeType::CData
            | NodeType::EntityReference
    );
    match parent {
        NodeType::Element | NodeType::EntityReference | NodeType::Entity | NodeType::DocumentFragment => content,
        NodeType::Attribute => matches!(child, NodeType::Text | NodeType::EntityReference),
        NodeType::Document => matches!(child, NodeType::Element | NodeType::Comment | NodeType::ProcessingInstruction),
        _ => false,
    }
}

impl World {
    pub fn is_elem(&self, i: usize) -> bool {
        self.nodes[i].node_type() == NodeType::Element
    }

    /// Links must agree with each other, whatever the shape.
    pub fn links(&self) {
        let n = self.nodes.len();
        let lists: Vec<Vec<RefNode>> = self.nodes.iter().map(|x| x.child_nodes()).collect();
        for i in 0..n {
            let node = &self.nodes[i];
            let list = &lists[i];
            sym::assert(same_node(&node.first_child(), &list.first().cloned()), "P01.first-child");
            sym::assert(same_node(&node.last_child(), &list.last().cloned()), "P01.last-child");
            sym::assert(node.has_child_nodes() != list.is_empty(), "P01.has-children");
            for (k, c) in list.iter().enumerate() {
                sym::assert(same_node(&c.parent_node(), &Some(node.clone())), "P01.child-parent");
                let prev = if k == 0 { None } else { Some(list[k - 1].clone()) };
                sym::assert(same_node(&c.previous_sibling(), &prev), "P01.previous-sibling");
                sym::assert(same_node(&c.next_sibling(), &list.get(k + 1).cloned()), "P01.next-sibling");
                sym::assert(list.iter().filter(|x| *x == c).count() == 1, "P01.listed-once");
            }
            match node.parent_node() {
                None => {
                    sym::assert(node.previous_sibling().is_none() && node.next_sibling().is_none(), "P01.orphan-sibling");
                    sym::assert(lists.iter().all(|l| !l.contains(node)), "P01.orphan-listed");
                }
                Some(p) => {
                    let p = idx(&self.nodes, &p);
                    sym::assert(p < n && lists[p].contains(node), "P01.parent-lists-child");
                }
            }
            // no cycles: the way up ends
            let mut up = node.parent_node();
            let mut steps = 0;
            while let Some(x) = up {
                steps += 1;
                sym::assert(steps <= n, "P01.cycle");
                if steps > n {
                    break;
                }
                up = x.parent_node();
            }
        }
    }

    pub fn agrees(&self, id: &str) {
        for i in 0..self.nodes.len() {
            let got: Vec<usize> = self.nodes[i].child_nodes().iter().map(|c| idx(&self.nodes, c)).collect();
            sym::assert(got == self.m.kids[i], id);
            let parent = self.nodes[i].parent_node().map(|p| idx(&self.nodes, &p));
            sym::assert(parent == self.m.parent(i), id);
            let owner = self.nodes[i].owner_document();
            if self.doc[i] == i {
                sym::assert(owner.is_none(), id);
            } else {
                sym::assert(same_node(&owner, &Some(self.nodes[self.doc[i]].clone())), id);
            }
            sym::observe(parent.map(|x| x as u64).unwrap_or(99));
            for g in got {
                sym::observe(g as u64);
            }
        }
    }

    /// errors that the documentation lists for this edit
    fn expected(&self, op: usize, t: usize, new: usize, rf: Option<usize>) -> Vec<Error> {
        let mut e = Vec::new();
        if op != 3 {
            let (tt, nt) = (self.nodes[t].node_type(), self.nodes[new].node_type());
            let second = tt == NodeType::Document
                && nt == NodeType::Element
                && self.m.kids[t].iter().any(|c| *c != new && self.is_elem(*c) && !(op == 2 && rf == Some(*c)));
            if !kind_allowed(&tt, &nt) || self.m.covers(new, t) || second {
                e.push(Error::HierarchyRequest);
            }
            if self.doc[t] != self.doc[new] {
                e.push(Error::WrongDocument);
            }
        }
        if let Some(r) = rf {
            if !self.m.kids[t].contains(&r) {
                e.push(Error::NotFound);
            }
        }
        e
    }

    /// one edit, on the tree and on the model
    pub fn edit(&mut self, op: usize, t: usize, new: usize, rf: Option<usize>) {
        let want = self.expected(op, t, new, rf);
        let mut target = self.nodes[t].clone();
        let n = self.nodes[new].clone();
        let r = rf.map(|r| self.nodes[r].clone());
        let res = match op {
            0 => target.append_child(n),
            1 => target.insert_before(n, r),
            2 => target.replace_child(n, r.unwrap()),
            _ => target.remove_child(r.unwrap()),
        };
        sym::observe(code(&res));
        if want.is_empty() {
            sym::assert(res.is_ok(), "P02.legal-edit-accepted");
            match op {
                0 => self.m.place(t, new, None),
                1 => self.m.place(t, new, rf),
                2 => self.m.swap(t, new, rf.unwrap()),
                _ => self.m.detach(rf.unwrap()),
            }
            let back = if op >= 2 { rf.unwrap() } else { new };
            sym::assert(res.is_ok() && idx(&self.nodes, &res.unwrap()) == back, "P02.returned-node");
            self.agrees("P02.result");
            match op {
                0 => sym::reach("P02.append"),
                1 => sym::reach("P02.insert"),
                2 => sym::reach("P02.replace"),
                _ => sym::reach("P02.remove"),
            }
        } else {
            sym::assert(res.is_err(), "P03.illegal-edit-rejected");
            if let Err(e) = &res {
                sym::assert(want.contains(e), "P03.documented-error");
                if let Error::HierarchyRequest = e {
                    sym::reach("P03.hierarchy");
                }
                if let Error::WrongDocument = e {
                    sym::reach("P03.wrong-document");
                }
                if let Error::NotFound = e {
                    sym::reach("P03.not-found");
                }
            }
            self.agrees("P03.tree-unchanged");
        }
        self.links();
        sym::reach("P01.checked");
    }

    /// a pick of any edit
    pub fn any_edit(&mut self) {
        let n = self.nodes.len();
        let op = sym::pick("op", 4);
        let t = sym::pick("target", n);
        let new = if op == 3 { 0 } else { sym::pick("new", n) };
        let rf = match op {
            0 => None,
            1 => Some(sym::pick("ref", n)),
            _ => Some(sym::pick("old", n)),
        };
        self.edit(op, t, new, rf);
    }
}

pub fn make(doc: &RefNode, kind: usize, s: &str) -> RefNode {
    match kind {
        0 => doc.create_text_node(s),
        1 => doc.create_comment(s),
        2 => doc.create_processing_instruction("p", Some(s)).unwrap(),
        3 => doc.create_cdata_section(s).unwrap(),
        4 => doc.create_entity_reference("r").unwrap(),
        _ => doc.create_element("k").unwrap(),
    }
}

/// 0 document, 1 its element, 2-3 elements, 4 another kind of node, 5 an element of another document
fn world() -> World {
    let doc = new_doc();
    let other = new_doc();
    let r = root(&doc);
    let e1 = doc.create_element("a").unwrap();
    let e2 = doc.create_element("b").unwrap();
    let kind = sym::pick("kind", if sym::thorough() { 5 } else { 2 });
    let x = make(&doc, kind, "t");
    let f = root(&other);
    let mut w = World { nodes: vec![doc, r, e1, e2, x, f, other], doc: vec![0, 0, 0, 0, 0, 6, 6], m: Model::new(7) };
    w.m.kids[0].push(1);
    w.m.kids[6].push(5);
    let comment = kind == 1 || kind == 2;
    for i in 2..5 {
        // 0: no parent; k: node k
        let p = sym::pick("parent", i);
        // the parent may also be the document, and the order of siblings may be the other way round
        let p = if p == 0 && i == 4 && comment && sym::pick("in-document", 2) == 1 { Some(0) } else if p == 0 { None } else { Some(p) };
        if let Some(p) = p {
            let first = w.m.kids[p].first().copied();
            let mut t = w.nodes[p].clone();
            let before = if first.is_some() && sym::pick("before", 2) == 1 { first } else { None };
            let _ = t.insert_before(w.nodes[i].clone(), before.map(|b| w.nodes[b].clone())).unwrap();
            w.m.place(p, i, before);
        }
    }
    w
}

pub fn h_tree() {
    let mut w = world();
    w.any_edit();
    if sym::thorough() {
        let op = sym::pick("op2", 2);
        let t = 1 + sym::pick("target2", 3);
        let new = 2 + sym::pick("new2", 3);
        match op {
            0 => w.edit(1, t, new, w.m.kids[t].first().copied()),
            _ => w.edit(0, t, new, None),
        }
    }
}

/// a list of siblings: insert, move and replace at every position
pub fn h_list() {
    let doc = new_doc();
    let other = new_doc();
    let r = root(&doc);
    let n = sym::pick("siblings", if sym::thorough() { 7 } else { 5 });
    let mut nodes = vec![doc.clone(), r, doc.create_element("n").unwrap()];
    for i in 0..n {
        nodes.push(make(&doc, (i + 5) % 6, "s"));
    }
    let total = nodes.len();
    let mut w = World { nodes, doc: vec![0; total], m: Model::new(total) };
    drop(other);
    w.m.kids[0].push(1);
    for i in 3..total {
        let mut t = w.nodes[1].clone();
        let _ = t.append_child(w.nodes[i].clone()).unwrap();
        w.m.place(1, i, None);
    }
    for _ in 0..2 {
        let op = sym::pick("op", 4);
        let new = if op == 3 { 0 } else { 2 + sym::pick("new", total - 2) };
        let rf = if op == 0 { None } else { Some(2 + sym::pick("ref", total - 2)) };
        w.edit(op, 1, new, rf);
    }
}

/// a long list or a deep chain: every kind of edit at the ends, beside them and in the middle
pub fn h_large() {
    let doc = new_doc();
    let r = root(&doc);
    let n = if sym::thorough() { [5, 8, 11, 16, 17, 33, 40][sym::pick("size", 7)] } else { [5, 8, 17][sym::pick("size", 3)] };
    let chain = sym::bool("chain");
    let mut nodes = vec![doc.clone(), r, doc.create_element("n").unwrap()];
    for i in 0..n {
        nodes.push(make(&doc, if chain { 5 } else { (i + 5) % 6 }, "s"));
    }
    let total = nodes.len();
    let mut w = World { nodes, doc: vec![0; total], m: Model::new(total) };
    w.m.kids[0].push(1);
    for i in 3..total {
        let p = if chain && i > 3 { i - 1 } else { 1 };
        let mut t = w.nodes[p].clone();
        let _ = t.append_child(w.nodes[i].clone()).unwrap();
        w.m.place(p, i, None);
    }
    let places = [2, 3, 4, 3 + n / 2, total - 2, total - 1];
    let op = sym::pick("op", 4);
    let new = if op == 3 { 0 } else { places[sym::pick("new", 6)] };
    if chain {
        let t = [1, 3, 3 + n / 2, total - 1][sym::pick("target", 4)];
        let rf = w.m.kids[t].first().copied();
        if op > 0 && rf.is_none() {
            return;
        }
        w.edit(op, t, new, if op == 0 { None } else { rf });
    } else {
        let rf = if op == 0 { None } else { Some(places[1 + sym::pick("ref", 5)]) };
        w.edit(op, 1, new, rf);
    }
}

/// containers of every kind in each other, and any edit
pub fn h_chain() {
    let doc = new_doc();
    let r = root(&doc);
    let top = sym::pick("top", 6);
    let t = match top {
        0 => r.clone(),
        1 => doc.create_document_fragment().unwrap(),
        2 => doc.create_attribute("at").unwrap(),
        3 => doc.create_entity_reference("er").unwrap(),
        4 => create_internal_entity(doc.clone(), "en", "v").unwrap(),
        _ => doc.create_element("e").unwrap(),
    };
    let mut nodes = vec![doc.clone(), r];
    if top > 0 {
        nodes.push(t);
    }
    let first = nodes.len();
    for i in 0..3 {
        let reference = sym::pick("reference", 2) == 1 || (i == 0 && top == 2);
        nodes.push(if reference { doc.create_entity_reference("r") } else { doc.create_element("e") }.unwrap());
    }
    nodes.push(doc.create_text_node("t"));
    let total = nodes.len();
    let mut w = World { nodes, doc: vec![0; total], m: Model::new(total) };
    w.m.kids[0].push(1);
    for i in first..total {
        let mut p = w.nodes[i - 1].clone();
        let _ = p.append_child(w.nodes[i].clone()).unwrap();
        w.m.place(i - 1, i, None);
    }
    for _ in 0..if sym::thorough() { 2 } else { 1 } {
        let op = sym::pick("op", 4);
        let t = sym::pick("target", total);
        let new = if op == 3 { 0 } else { sym::pick("new", total) };
        let rf = match (op, w.m.kids[t].first()) {
            (0, _) => None,
            (_, Some(r)) => Some(*r),
            (1, None) => None,
            _ => return,
        };
        w.edit(op, t, new, rf);
    }
}

/// the children of documents, fragments, attributes, entity references and entities
pub fn h_parents() {
    let doc = new_doc();
    let r = root(&doc);
    let kind = sym::pick("parent-kind", 5);
    let p = match kind {
        0 => doc.clone(),
        1 => doc.create_document_fragment().unwrap(),
        2 => doc.create_attribute("at").unwrap(),
        3 => doc.create_entity_reference("er").unwrap(),
        _ => create_internal_entity(doc.clone(), "en", "v").unwrap(),
    };
    let t = if kind == 0 { 0 } else { 2 };
    let mut nodes = vec![doc.clone(), r];
    if t == 2 {
        nodes.push(p.clone());
    }
    let first = nodes.len();
    let n = sym::pick("children", if sym::thorough() { 5 } else { 4 });
    let at = if kind == 0 { sym::pick("root-at", n + 1) } else { n };
    let mut m = Model::new(first + n + 3);
    m.kids[0].push(1);
    for i in 0..n {
        let c = match kind {
            0 => make(&doc, 1 + i % 2, "c"),
            2 => make(&doc, if i % 2 == 0 { 0 } else { 4 }, "c"),
            _ => make(&doc, (i + 5) % 6, "c"),
        };
        nodes.push(c.clone());
        let before = if kind == 0 && i < at { Some(nodes[1].clone()) } else { None };
        let _ = p.clone().insert_before(c, before).unwrap();
        m.place(t, first + i, if kind == 0 && i < at { Some(1) } else { None });
    }
    // children that are not there yet; one of them is in the element
    nodes.push(make(&doc, [0, 0, 0, 4, 2][kind], "x"));
    nodes.push(make(&doc, [2, 3, 4, 0, 1][kind], "y"));
    nodes.push(make(&doc, 1, "z"));
    let total = nodes.len();
    let _ = nodes[1].clone().append_child(nodes[total - 2].clone()).unwrap();
    m.kids[1].push(total - 2);
    let mut w = World { nodes, doc: vec![0; total], m };
    for i in 0..if sym::thorough() { 2 } else { 1 } {
        let op = sym::pick("op", 4);
        let to = if sym::bool("in-element") { 1 } else { t };
        let new = if op == 3 { 0 } else { first - 1 + sym::pick("new", total - first + 1) };
        // what a fragment stands for is for P04
        if kind == 1 && new == 2 {
            return;
        }
        let rf = if op == 0 { None } else { Some(1 + sym::pick("ref", total - 1)) };
        if i == 1 && op == 3 && to == 1 {
            return;
        }
        w.edit(op, to, new, rf);
    }
}
