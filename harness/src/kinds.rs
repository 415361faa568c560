//! P04 which kinds nest, P05 ownership, P21 casts and the per-kind tables, P26 dropped documents.
use crate::common::*;
use crate::tree::kind_allowed;

pub const KINDS: usize = 12;

/// a node of kind `k` (by its DOM node type code), belonging to `doc`
pub fn of_kind(doc: &RefNode, k: usize) -> RefNode {
    match k {
        1 => doc.create_element("e").unwrap(),
        2 => doc.create_attribute("a").unwrap(),
        3 => doc.create_text_node("t"),
        4 => doc.create_cdata_section("c").unwrap(),
        5 => doc.create_entity_reference("r").unwrap(),
        6 => create_internal_entity(doc.clone(), "n", "v").unwrap(),
        7 => doc.create_processing_instruction("p", Some("d")).unwrap(),
        8 => doc.create_comment("m"),
        9 => empty_doc(),
        10 => get_implementation().create_document_type("y", Some("pub"), Some("sys")).unwrap(),
        11 => doc.create_document_fragment().unwrap(),
        _ => create_notation(doc.clone(), "o", Some("pub"), Some("sys")).unwrap(),
    }
}
pub fn type_of(k: usize) -> NodeType {
    use NodeType::*;
    [Element, Attribute, Text, CData, EntityReference, Entity, ProcessingInstruction, Comment, Document, DocumentType, DocumentFragment, Notation][k - 1]
        .clone()
}

/// P04: every kind of parent, every kind of child, every edit
pub fn h_matrix() {
    sym::panic_id("P04.panic");
    let doc = empty_doc();
    let p = 1 + sym::pick("parent", KINDS);
    let c = 1 + sym::pick("child", KINDS);
    let mut parent = if p == 9 { doc.clone() } else { of_kind(&doc, p) };
    let (pt, ct) = (type_of(p), type_of(c));
    // a first child to refer to, where there can be one
    let first = match p {
        1 | 5 | 6 | 11 => Some(doc.create_text_node("x")),
        2 => Some(doc.create_entity_reference("x").unwrap()),
        9 => Some(doc.create_comment("x")),
        _ => None,
    };
    if let Some(f) = &first {
        let ok = parent.append_child(f.clone());
        sym::assert(ok.is_ok(), "P04.legal-accepted");
    }
    let op = sym::pick("op", if first.is_some() { 4 } else { 2 });
    // a child that is already somewhere else in the tree moves
    let child = of_kind(&doc, c);
    if sym::bool("moved") && kind_allowed(&NodeType::Element, &ct) {
        let mut old = doc.create_element("old").unwrap();
        sym::assert(old.append_child(child.clone()).is_ok(), "P04.legal-accepted");
    }
    let mut inside: Vec<RefNode> = Vec::new();
    if c == 11 && sym::bool("filled") {
        let t = doc.create_text_node("in fragment");
        sym::assert(child.clone().append_child(t.clone()).is_ok(), "P04.legal-accepted");
        inside.push(t);
    }
    let old_parent = child.parent_node();
    let before = parent.child_nodes();
    let res = match op {
        0 => parent.append_child(child.clone()),
        1 => parent.insert_before(child.clone(), None),
        2 => parent.insert_before(child.clone(), first.clone()),
        _ => parent.replace_child(child.clone(), first.clone().unwrap()),
    };
    sym::observe(code(&res));
    let after = parent.child_nodes();
    if c == 11 && kind_allowed(&pt, &NodeType::Text) {
        // the children of a fragment are inserted in its place
        if res.is_ok() {
            let f: Vec<RefNode> = first.into_iter().collect();
            let want = match op {
                0 | 1 => [f, inside].concat(),
                2 => [inside, f].concat(),
                _ => inside,
            };
            sym::assert(after == want && !child.has_child_nodes(), "P04.fragment-placed");
        } else {
            sym::assert(matches!(res, Err(Error::HierarchyRequest)), "P04.fragment-error");
            sym::assert(after == before && child.child_nodes() == inside, "P04.refused-unchanged");
            sym::assert(false, "P04.fragment");
        }
        return;
    }
    if kind_allowed(&pt, &ct) {
        sym::assert(res.is_ok(), "P04.legal-accepted");
        let f: Vec<RefNode> = first.into_iter().collect();
        let want = match op {
            0 | 1 => [f, vec![child.clone()]].concat(),
            2 => [vec![child.clone()], f].concat(),
            _ => vec![child.clone()],
        };
        sym::assert(after == want, "P04.children");
        if p != 2 {
            sym::assert(same_node(&child.parent_node(), &Some(parent.clone())), "P04.parent");
        }
        if let Some(o) = old_parent {
            sym::assert(!o.has_child_nodes(), "P04.moved");
        }
        sym::reach("P04.legal");
    } else {
        sym::assert(matches!(res, Err(Error::HierarchyRequest)), "P04.illegal-refused");
        sym::assert(after == before, "P04.refused-unchanged");
        sym::assert(same_node(&child.parent_node(), &old_parent), "P04.refused-unchanged");
        sym::reach("P04.illegal");
    }
}

/// P04: a document has at most one element, whatever else it has
pub fn h_one_element() {
    sym::panic_id("P04.panic");
    let mut doc = empty_doc();
    let n = sym::pick("children", 4);
    let mut kids: Vec<RefNode> = Vec::new();
    let mut elem = None;
    for i in 0..n {
        let k = [8, 7, 1][sym::pick("kind", 3)];
        let c = of_kind(&doc, k);
        let r = doc.append_child(c.clone());
        if k == 1 && elem.is_some() {
            sym::assert(matches!(r, Err(Error::HierarchyRequest)), "P04.second-element");
        } else {
            sym::assert(r.is_ok(), "P04.legal-accepted");
            if k == 1 {
                elem = Some(i);
            }
            kids.push(c);
        }
    }
    sym::assert(doc.child_nodes() == kids, "P04.children");
    let e = kids.iter().find(|k| is_element(k)).cloned();
    sym::assert(same_node(&doc.document_element(), &e), "P04.document-element");
    if kids.is_empty() {
        return;
    }
    let at = sym::pick("at", kids.len());
    let rf = kids[at].clone();
    // a new element, or the one that is there
    let own = e.is_some() && sym::bool("own");
    let new = if own { e.clone().unwrap() } else { of_kind(&doc, 1) };
    let replace = sym::bool("replace");
    let res = if replace { doc.replace_child(new.clone(), rf.clone()) } else { doc.insert_before(new.clone(), Some(rf.clone())) };
    sym::observe(code(&res));
    let fine = e.is_none() || own || (replace && is_element(&rf));
    sym::assert(res.is_ok() == fine, "P04.one-element");
    let count = doc.child_nodes().iter().filter(|c| is_element(c)).count();
    sym::assert(count <= 1, "P04.at-most-one-element");
    if fine {
        sym::assert(same_node(&doc.document_element(), &Some(new)), "P04.document-element");
        sym::reach("P04.element-placed");
    } else {
        sym::assert(matches!(res, Err(Error::HierarchyRequest)), "P04.second-element");
        sym::assert(doc.child_nodes() == kids, "P04.refused-unchanged");
        sym::reach("P04.second-refused");
    }
}

fn create_any(doc: &RefNode, k: usize, how: usize) -> RefNode {
    match (k, how) {
        (1, 0) => doc.create_element_ns(NS, "p:e").unwrap(),
        (2, 0) => doc.create_attribute_ns(NS, "p:a").unwrap(),
        (2, 1) => doc.create_attribute_with("a", "v").unwrap(),
        (6, 0) => create_entity(doc.clone(), "n", Some("p"), Some("s")).unwrap(),
        (7, 0) => doc.create_processing_instruction("p", None).unwrap(),
        _ => of_kind(doc, k),
    }
}

/// P05: which document a node belongs to
pub fn h_owner() {
    sym::panic_id("P05.panic");
    let doc = new_doc();
    let mut other = new_doc();
    warm(&doc);
    let k = 1 + sym::pick("kind", KINDS);
    let n = create_any(&other, k, sym::pick("how", 3));
    let own = |n: &RefNode, d: &RefNode, id: &str| sym::assert(same_node(&n.owner_document(), &Some(d.clone())), id);
    if k == 9 || k == 10 {
        sym::assert(n.owner_document().is_none(), "P05.no-owner");
        if k == 10 {
            let d = get_implementation().create_document(None, Some("r"), Some(n.clone())).unwrap();
            own(&n, &d, "P05.doctype");
            let again = get_implementation().create_document(None, Some("r"), Some(n.clone()));
            sym::assert(matches!(again, Err(Error::WrongDocument)), "P05.doctype-reused");
            own(&n, &d, "P05.doctype");
            sym::reach("P05.doctype");
        }
        return;
    }
    own(&n, &other, "P05.creator");
    for c in n.child_nodes() {
        own(&c, &other, "P05.creator-children");
    }
    if matches!(k, 1..=5 | 7 | 8 | 11) {
        for deep in [false, true] {
            let c = n.clone_node(deep).unwrap();
            own(&c, &other, "P05.clone");
            for kid in c.child_nodes() {
                own(&kid, &other, "P05.clone");
            }
            for a in c.attributes().values() {
                own(a, &other, "P05.clone");
            }
        }
    }
    // the same node under a parent of another document
    let p = [1, 9, 11, 2, 5][sym::pick("parent", 5)];
    let mut parent = if p == 9 { doc.clone() } else { of_kind(&doc, p) };
    let was = parent.child_nodes();
    // the other document may be gone by then
    let gone = sym::bool("dropped");
    let attach = !gone && sym::pick("from", 2) == 1 && kind_allowed(&NodeType::Element, &type_of(k));
    let mut oroot = root(&other);
    if attach {
        let _ = oroot.append_child(n.clone()).unwrap();
    }
    let keep = if gone { None } else { Some(other.clone()) };
    if gone {
        drop((oroot, other));
        oroot = root(&doc);
        other = doc.clone();
    }
    let stays = |n: &RefNode| sym::assert(same_node(&n.owner_document(), &keep), "P05.foreign-owner");
    let allowed = kind_allowed(&type_of(p), &type_of(k)) && !(p == 9 && k == 1);
    let op = sym::pick("op", 4);
    let res = match op {
        0 => parent.append_child(n.clone()),
        1 => parent.insert_before(n.clone(), parent.first_child()),
        2 if !was.is_empty() => parent.replace_child(n.clone(), was[0].clone()),
        2 => parent.append_child(n.clone()),
        _ => {
            // attributes are attached to elements, not as children
            if k != 2 {
                return;
            }
            let mut r = root(&doc);
            let res = if sym::bool("ns") { r.set_attribute_node_ns(n.clone()) } else { r.set_attribute_node(n.clone()) };
            sym::assert(matches!(res, Err(Error::WrongDocument)), "P05.foreign-attribute");
            sym::assert(!r.has_attributes() && as_attribute(&n).unwrap().owner_element().is_none(), "P05.foreign-unchanged");
            stays(&n);
            sym::reach("P05.attribute");
            return;
        }
    };
    sym::observe(code(&res));
    sym::assert(res.is_err(), "P05.foreign-refused");
    if allowed {
        sym::assert(matches!(res, Err(Error::WrongDocument)), "P05.wrong-document");
        sym::reach("P05.wrong-document");
    }
    sym::assert(parent.child_nodes() == was, "P05.foreign-unchanged");
    stays(&n);
    let up = if attach { Some(oroot.clone()) } else { None };
    if k != 2 {
        sym::assert(same_node(&n.parent_node(), &up), "P05.foreign-unchanged");
    }
    if gone {
        sym::reach("P05.dropped");
        return;
    }
    // moving around in its own document keeps the owner, in and out of the tree
    if kind_allowed(&NodeType::Element, &type_of(k)) {
        let mut e = other.create_element("e2").unwrap();
        let _ = e.append_child(n.clone()).unwrap();
        own(&n, &other, "P05.moved");
        let _ = e.remove_child(n.clone()).unwrap();
        own(&n, &other, "P05.removed");
        let _ = oroot.append_child(n.clone()).unwrap();
        own(&n, &other, "P05.moved");
        sym::reach("P05.moved");
    }
}

/// P05: two documents are two after they were dropped, too
pub fn h_owner_dropped() {
    sym::panic_id("P05.panic");
    let k = 1 + sym::pick("kind", KINDS);
    let p = [1, 11, 2, 5, 6][sym::pick("parent", 5)];
    if k == 9 || k == 10 {
        return;
    }
    let (n, mut parent, old, t);
    {
        let (a, b) = (new_doc(), new_doc());
        warm(&a);
        n = of_kind(&a, k);
        parent = of_kind(&b, p);
        old = b.create_text_node("old");
        t = b.create_text_node("its own");
        let _ = parent.append_child(old.clone()).unwrap();
    }
    let res = match sym::pick("op", 4) {
        0 => parent.append_child(n.clone()),
        1 => parent.insert_before(n.clone(), Some(old.clone())),
        2 => parent.replace_child(n.clone(), old.clone()),
        _ => {
            if p != 1 || k != 2 {
                return;
            }
            parent.set_attribute_node(n.clone())
        }
    };
    sym::observe(code(&res));
    sym::assert(res.is_err(), "P05.foreign-refused");
    sym::assert(parent.child_nodes() == [old.clone()] && !parent.has_attributes(), "P05.foreign-unchanged");
    sym::assert(n.parent_node().is_none() && n.owner_document().is_none(), "P05.foreign-unchanged");
    // one of the same document is still taken
    sym::assert(parent.append_child(t.clone()).is_ok(), "P05.own-accepted");
    sym::assert(same_node(&t.parent_node(), &Some(parent.clone())), "P05.own-accepted");
    sym::reach("P05.both-dropped");
}

/// P21: the kind of a node, as every function tells it
pub fn h_kinds() {
    sym::panic_id("P21.panic");
    let doc = empty_doc();
    let k = 1 + sym::pick("kind", KINDS);
    let mut n = of_kind(&doc, k);
    sym::assert(n.node_type() == type_of(k), "P21.type");
    sym::assert(n.node_type() as u16 == k as u16, "P21.type-code");
    let text_like = k == 3 || k == 4 || k == 8;
    let is = [
        is_element(&n),
        is_attribute(&n),
        is_text(&n),
        is_cdata_section(&n),
        is_entity_reference(&n),
        is_entity_(&n),
        is_processing_instruction(&n),
        is_comment(&n),
        is_document(&n),
        is_document_type(&n),
        is_document_fragment(&n),
        is_notation(&n),
    ];
    for (i, b) in is.iter().enumerate() {
        sym::assert(*b == (i + 1 == k), "P21.is");
    }
    sym::assert(is_character_data(&n) == text_like, "P21.is-character-data");
    sym::assert(as_character_data(&n).is_ok() == text_like, "P21.as-character-data");
    sym::assert(as_character_data_mut(&mut n).is_ok() == text_like, "P21.as-character-data");
    macro_rules! cast {
        ($k:expr, $f:ident, $m:ident) => {
            sym::assert($f(&n).is_ok() == (k == $k), "P21.as");
            if k != $k {
                sym::assert(matches!($f(&n).err(), Some(Error::InvalidState)), "P21.as-error");
            }
            sym::assert($m(&mut n).is_ok() == (k == $k), "P21.as-mut");
        };
    }
    cast!(1, as_element, as_element_mut);
    cast!(2, as_attribute, as_attribute_mut);
    cast!(3, as_text, as_text_mut);
    cast!(4, as_cdata_section, as_cdata_section_mut);
    cast!(5, as_entity_reference, as_entity_reference_mut);
    cast!(6, as_entity, as_entity_mut);
    cast!(7, as_processing_instruction, as_processing_instruction_mut);
    cast!(8, as_comment, as_comment_mut);
    cast!(9, as_document, as_document_mut);
    cast!(9, as_document_decl, as_document_decl_mut);
    cast!(10, as_document_type, as_document_type_mut);
    cast!(11, as_document_fragment, as_document_fragment_mut);
    cast!(12, as_notation, as_notation_mut);
    sym::assert(as_element_namespaced(&n).is_ok() == (k == 1), "P21.as");
    let names = ["e", "a", "#text", "#cdata-section", "r", "n", "p", "#comment", "#document", "y", "#document-fragment", "o"];
    sym::assert(n.node_name().to_string() == names[k - 1], "P21.name");
    let values = [None, None, Some("t"), Some("c"), None, Some("v"), Some("d"), Some("m"), None, None, None, None];
    // an entity's value is an extension; an attribute's value is in its children
    sym::assert(n.node_value().as_deref() == values[k - 1], "P21.value");
    sym::assert(n.attributes().is_empty() && !n.has_attributes(), "P21.no-attributes");
    sym::assert(n.namespace_uri().is_none() && n.prefix().is_none(), "P21.no-namespace");
    let s = sym::astring("new", 0, 2);
    let res = n.set_node_value(&s);
    match k {
        3 | 4 | 7 | 8 => {
            sym::assert(res.is_ok() && sym::same_opt(&n.node_value(), &Some(s.clone())), "P21.set-value");
            sym::assert(n.unset_node_value().is_ok() && n.node_value().is_none(), "P21.unset-value");
            sym::reach("P21.value");
        }
        1 | 5 | 9 | 10 | 11 | 12 => {
            sym::assert(n.node_value().is_none(), "P21.value-null");
            let _ = n.unset_node_value();
            sym::assert(n.node_value().is_none(), "P21.value-null");
            sym::reach("P21.no-value");
        }
        _ => (),
    }
    sym::observe(k as u64);
}

/// P26: a node outlives its document and its parent
pub fn h_dropped() {
    sym::panic_id("P26.panic");
    let k = 1 + sym::pick("kind", KINDS);
    let mut n;
    let attached = sym::bool("attached");
    {
        let doc = new_doc();
        warm(&doc);
        n = of_kind(&doc, k);
        let mut r = root(&doc);
        if attached {
            if k == 2 {
                let _ = r.set_attribute_node(n.clone());
            } else {
                let _ = r.append_child(n.clone());
            }
            let _ = r.append_child(doc.create_text_node("z"));
        }
        if k == 1 {
            let t = doc.create_text_node("x");
            let _ = n.append_child(t);
            let a = doc.create_attribute_with("b", "c").unwrap();
            let _ = n.set_attribute_node(a);
        }
    }
    // the document and its element are gone
    sym::assert(n.owner_document().is_none() && n.parent_node().is_none(), "P26.none");
    sym::assert(n.previous_sibling().is_none() && n.next_sibling().is_none(), "P26.none");
    let f = empty_doc();
    let op = sym::pick("op", 10);
    match op {
        0 => {
            sym::observe_str(&n.to_string());
            sym::observe_opt(&n.node_value());
        }
        1 => {
            let c = n.clone_node(true);
            sym::assert(c.is_some() && c.unwrap().node_type() == n.node_type(), "P26.clone");
        }
        2 => n.normalize(),
        3 => {
            sym::assert(n.append_child(f.create_text_node("y")).is_err(), "P26.foreign");
        }
        4 => {
            if k == 1 {
                sym::assert(n.set_attribute("q", "v").is_ok(), "P26.set-attribute");
                sym::assert(n.get_attribute("q").as_deref() == Some("v"), "P26.get-attribute");
                sym::assert(n.set_attribute("id", "v").is_ok() && n.set_attribute("xml:id", "w").is_ok(), "P26.set-attribute");
                sym::assert(n.remove_attribute("q").is_ok() && !n.has_attribute("q"), "P26.remove-attribute");
            }
        }
        5 => {
            if k == 1 {
                let c = n.first_child().unwrap();
                sym::assert(n.remove_child(c.clone()).is_ok() && c.parent_node().is_none(), "P26.remove");
                sym::assert(n.append_child(c.clone()).is_ok(), "P26.append");
                sym::assert(same_node(&c.parent_node(), &Some(n.clone())), "P26.append");
            }
        }
        6 => {
            if k == 3 || k == 4 {
                let t = n.split(0);
                sym::assert(t.is_ok(), "P26.split");
            }
        }
        7 => {
            if k == 2 {
                sym::assert(n.set_value("nv").is_ok(), "P26.set-value");
                sym::assert(as_attribute(&n).unwrap().value().as_deref() == Some("nv"), "P26.value");
                sym::assert(as_attribute(&n).unwrap().owner_element().is_none(), "P26.none");
                sym::assert(n.unset_value().is_ok(), "P26.set-value");
            }
        }
        8 => {
            if k == 1 {
                sym::assert(Element::get_elements_by_tag_name(&n, "*").is_empty(), "P26.elements");
                sym::assert(n.set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").is_ok(), "P26.set-attribute");
                let ns = as_element_namespaced(&n).unwrap();
                let _ = ns.resolve_namespace(Some("p"));
                let _ = ns.resolve_prefix("urn:p");
                let _ = ns.get_namespace(Some("p"));
                let _ = ns.contains_mapping(Some("p"));
            }
        }
        _ => {
            let d = f.clone();
            let mut r = d.clone();
            sym::assert(r.append_child(n.clone()).is_err(), "P26.foreign");
            sym::assert(n.has_attributes() == (k == 1), "P26.attributes");
        }
    }
    sym::reach("P26.survived");
}

/// P26: what was under a parent of any kind, after the document, and then the parent, is dropped
pub fn h_dropped_parent() {
    sym::panic_id("P26.panic");
    let mut kids: Vec<RefNode> = vec![];
    let mut parent;
    let top;
    {
        let doc = new_doc();
        warm(&doc);
        parent = of_kind(&doc, [1, 2, 5, 6, 11][sym::pick("parent", 5)]);
        let attr = is_attribute(&parent);
        for i in 0..3 {
            let k = if attr { [3, 5][i % 2] } else { [3, 1, 8][i] };
            kids.push(of_kind(&doc, k));
            let _ = parent.append_child(kids[i].clone()).unwrap();
        }
        // what the parent was in
        let mut r = root(&doc);
        if attr {
            let _ = r.set_attribute_node(parent.clone()).unwrap();
        } else if matches!(parent.node_type(), NodeType::Element | NodeType::EntityReference) {
            let _ = r.append_child(parent.clone()).unwrap();
        }
        // the element may be kept
        top = if sym::bool("element-kept") { Some(r) } else { None };
    }
    let up = match (&top, parent.node_type()) {
        (Some(r), NodeType::Element | NodeType::EntityReference) => Some(r.clone()),
        _ => None,
    };
    sym::assert(same_node(&parent.parent_node(), &up) && parent.owner_document().is_none(), "P26.parent");
    if is_attribute(&parent) {
        sym::assert(same_node(&as_attribute(&parent).unwrap().owner_element(), &top), "P26.owner-element");
    }
    sym::assert(parent.child_nodes() == kids, "P26.children");
    let at = sym::pick("at", 3);
    let mut n = kids[at].clone();
    sym::assert(same_node(&n.parent_node(), &Some(parent.clone())) && n.owner_document().is_none(), "P26.links");
    sym::assert(same_node(&n.next_sibling(), &kids.get(at + 1).cloned()), "P26.links");
    sym::assert(same_node(&n.previous_sibling(), &if at > 0 { Some(kids[at - 1].clone()) } else { None }), "P26.links");
    match sym::pick("op", 7) {
        0 => {
            sym::assert(parent.remove_child(n.clone()).is_ok() && n.parent_node().is_none(), "P26.remove");
            let _ = kids.remove(at);
        }
        1 => {
            sym::assert(parent.insert_before(n.clone(), parent.first_child()).is_ok(), "P26.move");
            let k = kids.remove(at);
            kids.insert(0, k);
        }
        2 => {
            if is_text(&n) {
                let new = n.split(1);
                sym::assert(new.is_ok(), "P26.split");
                kids.insert(at + 1, new.unwrap());
            }
        }
        3 => {
            parent.normalize();
        }
        4 => {
            let c = parent.clone_node(true).unwrap();
            sym::assert(c.child_nodes().len() == 3 && c.to_string() == parent.to_string(), "P26.clone");
        }
        5 => {
            sym::assert(parent.remove_child(n.clone()).is_ok() && parent.append_child(n.clone()).is_ok(), "P26.append");
            let k = kids.remove(at);
            kids.push(k);
        }
        _ => {
            // the parent is dropped as well
            let keep = kids.remove(at);
            drop((parent, top, up, n));
            kids.clear();
            sym::assert(keep.parent_node().is_none() && keep.owner_document().is_none(), "P26.none");
            sym::assert(keep.previous_sibling().is_none() && keep.next_sibling().is_none(), "P26.none");
            let _ = keep.to_string();
            sym::assert(keep.clone_node(true).is_some(), "P26.clone");
            keep.clone().normalize();
            sym::reach("P26.parent-dropped");
            return;
        }
    }
    sym::assert(parent.child_nodes() == kids, "P26.children");
    for k in &kids {
        sym::assert(same_node(&k.parent_node(), &Some(parent.clone())), "P26.links");
    }
    sym::reach("P26.parent-kept");
}

/// P27: an operation of another kind's interface
pub fn h_other_interface() {
    sym::panic_id("P27.panic");
    let doc = new_doc();
    warm(&doc);
    let k = 1 + sym::pick("kind", KINDS);
    let mut n = of_kind(&doc, k);
    if matches!(k, 1 | 5 | 11) {
        let _ = n.append_child(doc.create_text_node("child")).unwrap();
    }
    if k == 9 {
        let _ = n.append_child(n.create_comment("child")).unwrap();
    }
    let (shown, value, kids) = (n.to_string(), n.node_value(), n.child_nodes());
    let s = sym::astring("arg", 0, 1);
    let (x, y) = (sym::usize("offset"), sym::usize("count"));
    let ok: bool;
    match sym::pick("op", 22) {
        // elements
        0..=6 if k == 1 => return,
        op @ 0..=6 => {
            sym::assert(n.get_attribute("a").is_none() && n.get_attribute_ns("urn:a", "a").is_none(), "P27.reads");
            sym::assert(!n.has_attribute("a") && !n.has_attribute_ns("urn:a", "a") && !n.has_attributes(), "P27.reads");
            sym::assert(n.get_attribute_node("a").is_none() && n.get_attribute_node_ns("urn:a", "a").is_none(), "P27.reads");
            sym::assert(Element::get_elements_by_tag_name(&n, "*").is_empty(), "P27.reads");
            let a = doc.create_attribute_ns("urn:a", "a").unwrap();
            ok = match op {
                0 => n.set_attribute("a", &s).is_ok(),
                1 => n.set_attribute_ns("urn:a", "a", &s).is_ok(),
                2 => n.set_attribute_node(a.clone()).is_ok(),
                3 => n.set_attribute_node_ns(a.clone()).is_ok(),
                4 => n.remove_attribute_node(a.clone()).is_ok(),
                // removing what is not there is no error
                5 => n.remove_attribute("a").is_err(),
                _ => n.remove_attribute_ns("urn:a", "a").is_err(),
            };
            sym::assert(as_attribute(&a).unwrap().owner_element().is_none(), "P27.attribute-free");
            sym::reach("P27.element");
        }
        // attributes
        7..=9 if k == 2 => return,
        op @ 7..=9 => {
            sym::assert(n.owner_element().is_none(), "P27.reads");
            ok = match op {
                7 => n.set_value(&s).is_ok(),
                8 => n.unset_value().is_ok(),
                _ => n.value().is_some(),
            };
            sym::reach("P27.attribute");
        }
        // character data; a processing instruction has data, too
        10..=14 if matches!(k, 3 | 4 | 7 | 8) => return,
        op @ 10..=14 => {
            sym::assert(CharacterData::data(&n).is_none() || k == 6, "P27.reads");
            ok = match op {
                10 => CharacterData::append_data(&mut n, "more").is_ok(),
                11 => n.insert_data(x, &s).is_ok(),
                12 => n.delete_data(x, y).is_ok(),
                13 => n.replace_data(x, y, &s).is_ok(),
                _ => n.substring_data(x, y).is_ok(),
            };
            sym::reach("P27.data");
        }
        15 if k == 3 || k == 4 => return,
        15 => {
            ok = n.split(x).is_ok();
            sym::reach("P27.split");
        }
        // documents and document types
        16 if k == 9 => return,
        16 => {
            ok = xml_dom::level2::ext::DocumentDecl::set_xml_declaration(&mut n, XmlDecl::default()).is_ok();
            sym::assert(xml_dom::level2::ext::DocumentDecl::xml_declaration(&n).is_none(), "P27.reads");
            sym::assert(n.doc_type().is_none() && n.get_element_by_id("a").is_none(), "P27.reads");
            sym::reach("P27.document");
        }
        17 if k == 10 => return,
        17 => {
            ok = DocumentType::public_id(&n).is_some() || DocumentType::system_id(&n).is_some() || n.internal_subset().is_some();
            sym::assert(n.entities().is_empty() && n.notations().is_empty(), "P27.reads");
        }
        18 if k == 6 => return,
        18 => ok = Entity::public_id(&n).is_some() || Entity::system_id(&n).is_some() || n.notation_name().is_some(),
        19 if k == 12 => return,
        19 => ok = Notation::public_id(&n).is_some() || Notation::system_id(&n).is_some(),
        20 if k == 1 => return,
        20 => {
            use xml_dom::level2::ext::Namespaced;
            ok = n.contains_mapping(None) || n.get_namespace(None).is_some() || n.contains_mapped_namespace("urn:a") || !n.get_prefix("urn:a").is_none();
        }
        _ => {
            // what only elements and parents have
            ok = (k != 1 && !n.attributes().is_empty()) || (k != 9 && k != 10 && n.owner_document().is_none());
            n.normalize();
        }
    }
    sym::assert(!ok, "P27.refused");
    sym::assert(n.to_string() == shown && n.node_value() == value && n.child_nodes() == kids, "P27.unchanged");
}
