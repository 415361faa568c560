//! P18 serialization, P19 searches by tag name, P20 clones: trees of a bounded number of nodes.
use crate::common::*;
use crate::values::{escaped, normal};

const N1: &str = "urn:1";
const N2: &str = "urn:2";
const NAMES: &[(Option<&str>, &str)] = &[(None, "a"), (Some(N1), "p:a"), (Some(N2), "p:a"), (Some(N1), "b"), (None, "p:b")];

fn element(doc: &RefNode, k: usize) -> RefNode {
    match NAMES[k] {
        (Some(ns), q) => doc.create_element_ns(ns, q).unwrap(),
        (None, q) => doc.create_element(q).unwrap(),
    }
}
fn local(q: &str) -> &str {
    q.rsplit(':').next().unwrap()
}

/// P19
pub fn h_by_tag() {
    sym::panic_id("P19.panic");
    let n = if sym::thorough() { 4 } else { 3 };
    let doc = get_implementation().create_document(Some(N1), Some("b"), None).unwrap();
    let mut nodes = vec![root(&doc)];
    let mut kind = vec![3usize];
    let mut kids: Vec<Vec<usize>> = vec![vec![]];
    for i in 1..=n {
        // an entity reference, or an element with one of the names
        let k = sym::pick("kind", NAMES.len() + 1);
        let node = if k == NAMES.len() { doc.create_entity_reference("a").unwrap() } else { element(&doc, k) };
        let p = sym::pick("parent", i);
        let _ = nodes[p].clone().append_child(node.clone()).unwrap();
        if i == 2 {
            let _ = nodes[p].clone().append_child(doc.create_comment("a")).unwrap();
        }
        kids[p].push(i);
        nodes.push(node);
        kind.push(k);
        kids.push(vec![]);
    }
    fn walk(kids: &[Vec<usize>], n: usize, out: &mut Vec<usize>) {
        for k in &kids[n] {
            out.push(*k);
            walk(kids, *k, out);
        }
    }
    let l = sym::u8("letter");
    sym::assume((l >= b'a') & (l <= b'z'));
    let l = (l as char).to_string();
    let from = sym::pick("from", n + 2);
    let mut below = Vec::new();
    if from > n {
        below.push(0);
        walk(&kids, 0, &mut below);
    } else {
        walk(&kids, from, &mut below);
    }
    below.retain(|i| kind[*i] < NAMES.len());
    let pick = |f: &dyn Fn(Option<&str>, &str) -> bool| -> Vec<RefNode> {
        below.iter().filter(|i| f(NAMES[kind[**i]].0, NAMES[kind[**i]].1)).map(|i| nodes[*i].clone()).collect()
    };
    let search = |q: &str| {
        if from > n {
            Document::get_elements_by_tag_name(&doc, q)
        } else {
            Element::get_elements_by_tag_name(&nodes[from], q)
        }
    };
    let search_ns = |ns: &str, q: &str| {
        if from > n {
            Document::get_elements_by_tag_name_ns(&doc, ns, q)
        } else {
            Element::get_elements_by_tag_name_ns(&nodes[from], ns, q)
        }
    };
    if from <= n && kind[from] == NAMES.len() {
        // not an element
        sym::assert(search("*").is_empty() && search_ns("*", "*").is_empty(), "P19.not-an-element");
        return;
    }
    for q in ["a", "b", "p:a", "p:b", &l] {
        let got = search(q);
        sym::observe(got.len() as u64);
        sym::assert(got == pick(&|_, n| n == q), "P19.by-name");
        if !got.is_empty() {
            sym::reach("P19.by-name");
        }
    }
    sym::assert(search("*") == pick(&|_, _| true), "P19.all");
    for ns in [N1, N2, "urn:3"] {
        for q in ["a", "b", &l] {
            let got = search_ns(ns, q);
            sym::observe(got.len() as u64);
            sym::assert(got == pick(&|u, n| u == Some(ns) && local(n) == q), "P19.by-namespace");
            if !got.is_empty() {
                sym::reach("P19.by-namespace");
            }
        }
        sym::assert(search_ns(ns, "*") == pick(&|u, _| u == Some(ns)), "P19.any-local");
    }
    for ns in ["", "urn:", "URN:1"] {
        for q in ["a", "b", "*"] {
            sym::assert(search_ns(ns, q).is_empty(), "P19.other-namespace");
        }
    }
    sym::assert(search("").is_empty() && search_ns("*", "").is_empty() && search("A").is_empty(), "P19.by-name");
    let near = format!("urn:{}", l);
    sym::assert(search_ns(&near, "*").is_empty(), "P19.other-namespace");
    for q in ["a", "b", &l] {
        sym::assert(search_ns("*", q) == pick(&|_, n| local(n) == q), "P19.any-namespace");
    }
    sym::assert(search_ns("*", "*") == pick(&|_, _| true), "P19.all");
}

/// a tree that knows what it should look like
struct T {
    node: RefNode,
    kind: usize,
    name: String,
    text: Option<String>,
    /// qualified name and raw value
    attrs: Vec<(String, String)>,
    kids: Vec<usize>,
}

fn attributes_shown(t: &T) -> Vec<String> {
    let one: Vec<String> = t.attrs.iter().map(|(n, v)| format!(" {}=\"{}\"", n, escaped(&normal(v)))).collect();
    if one.len() == 2 {
        vec![format!("{}{}", one[0], one[1]), format!("{}{}", one[1], one[0])]
    } else {
        vec![one.concat()]
    }
}
/// every text that is right (the order of attributes is open)
fn shown(ts: &[T], i: usize) -> Vec<String> {
    let t = &ts[i];
    let text = t.text.clone();
    match t.kind {
        0 | 1 => {
            let mut inner = vec![String::new()];
            for k in &t.kids {
                let more = shown(ts, *k);
                inner = inner.iter().flat_map(|a| more.iter().map(move |b| format!("{}{}", a, b))).collect();
            }
            let mut out = Vec::new();
            for a in attributes_shown(t) {
                for s in &inner {
                    out.push(format!("<{}{}>{}</{}>", t.name, a, s, t.name));
                }
            }
            out
        }
        2 => vec![escaped(&text.unwrap_or_default())],
        3 => vec![format!("<![CDATA[ {} ]]>", text.unwrap())],
        4 => vec![format!("<!--{}-->", escaped(&text.unwrap()))],
        5 => vec![match text {
            Some(d) => format!("<?{} {}?>", t.name, d),
            None => format!("<?{}?>", t.name),
        }],
        _ => vec![format!("&{};", t.name)],
    }
}
const TEXTS: &[&str] = &["u1", "u2", "u3", "u4", "u5"];
fn grow(doc: &RefNode, r: RefNode, n: usize, kinds: usize, empty: bool) -> Vec<T> {
    let mut ts = vec![T { node: r, kind: 0, name: "root".to_string(), text: None, attrs: vec![], kids: vec![] }];
    for _ in 0..n {
        let kind = sym::pick("kind", kinds);
        let ups: Vec<usize> = (0..ts.len()).filter(|i| ts[*i].kind < 2 || ts[*i].kind == 6).collect();
        let p = ups[sym::pick("parent", ups.len())];
        let id = ts.len();
        let text = if kind < 6 && kind > 1 && empty { sym::one_of("text", &["", TEXTS[id - 1]]) } else { TEXTS[id - 1] }.to_string();
        let (node, name, text) = match kind {
            0 => (doc.create_element("e").unwrap(), "e", None),
            1 => (doc.create_element_ns(N1, "p:e").unwrap(), "p:e", None),
            2 => (doc.create_text_node(&text), "#text", Some(text)),
            3 => (doc.create_cdata_section(&text).unwrap(), "#cdata-section", Some(text)),
            4 => (doc.create_comment(&text), "#comment", Some(text)),
            5 => {
                let d = if sym::bool("data") { Some(text) } else { None };
                (doc.create_processing_instruction("pi", d.as_deref()).unwrap(), "pi", d)
            }
            _ => (doc.create_entity_reference("ent").unwrap(), "ent", None),
        };
        let _ = ts[p].node.clone().append_child(node.clone()).unwrap();
        ts[p].kids.push(id);
        ts.push(T { node, kind, name: name.to_string(), text, attrs: vec![], kids: vec![] });
    }
    ts
}

/// P18: the shape of the tree
pub fn h_shown() {
    sym::panic_id("P18.panic");
    let doc = new_doc();
    warm(&doc);
    let ts = grow(&doc, root(&doc), if sym::thorough() { 4 } else { 3 }, 7, false);
    let want = shown(&ts, 0);
    let got = root(&doc).to_string();
    sym::observe(got.len() as u64);
    sym::assert(want.contains(&got), "P18.element");
    sym::assert(doc.to_string() == got, "P18.document");
    for i in 1..ts.len() {
        sym::assert(shown(&ts, i).contains(&ts[i].node.to_string()), "P18.part");
    }
    sym::reach("P18.tree");
}

/// P18: the characters in it
pub fn h_shown_text() {
    sym::panic_id("P18.panic");
    let doc = new_doc();
    warm(&doc);
    let mut ts = grow(&doc, root(&doc), 2, 6, true);
    let at = sym::pick("at", 3);
    if ts[at].kind < 2 {
        // its attributes
        for (n, v) in [("x", sym::astring("len", 0, 1)), ("y", "1".to_string())].iter().take(sym::pick("attributes", 3)) {
            let v = if n == &"x" && sym::bool("ref") { "&lt;\n".to_string() } else { v.clone() };
            let mut e = ts[at].node.clone();
            let q = if *n == "y" { "p:y" } else { n };
            if *n == "y" { e.set_attribute_ns(N1, q, &v) } else { e.set_attribute(q, &v) }.unwrap();
            ts[at].attrs.push((q.to_string(), v));
        }
        sym::reach("P18.attributes");
    } else if ts[at].text.is_some() {
        let s = sym::string("len", 0, 1);
        ts[at].node.clone().set_node_value(&s).unwrap();
        ts[at].text = Some(s);
        sym::reach("P18.text");
    }
    let want = shown(&ts, 0);
    let got = root(&doc).to_string();
    sym::observe(got.len() as u64);
    sym::assert(want.iter().any(|w| sym::same(w, &got)), "P18.element");
    sym::assert(doc.to_string().len() == got.len(), "P18.document");
}

/// P18: declarations, document types and what is around the document element
pub fn h_shown_document() {
    sym::panic_id("P18.panic");
    let imp = get_implementation();
    let mut want = String::new();
    let ids = ["p&i", "s<i"];
    let dt = match sym::pick("doctype", 5) {
        0 => None,
        k => {
            let (p, s) = (if k & 1 == 1 { Some(ids[0]) } else { None }, if k > 2 { Some(ids[1]) } else { None });
            Some((imp.create_document_type("q:d", p, s).unwrap(), p, s))
        }
    };
    let mut doc = imp.create_document(None, Some("r"), dt.as_ref().map(|d| d.0.clone())).unwrap();
    if sym::bool("declaration") {
        let mut d = as_document_decl_mut(&mut doc).unwrap();
        let enc = if sym::bool("encoding") { Some("UTF-8".to_string()) } else { None };
        let alone = [None, Some(true), Some(false)][sym::pick("standalone", 3)];
        let v = sym::bool("version");
        let x = XmlDecl::new(if v { XmlVersion::V11 } else { XmlVersion::V10 }, enc.clone(), alone);
        d.set_xml_declaration(x).unwrap();
        want.push_str(if v { "<?xml version=\"1.1\"" } else { "<?xml version=\"1.0\"" });
        if let Some(e) = enc {
            want.push_str(&format!(" encoding=\"{}\"", e));
        }
        if let Some(a) = alone {
            want.push_str(if a { " standalone=\"yes\"" } else { " standalone=\"no\"" });
        }
        want.push_str("?>");
        sym::reach("P18.declaration");
    }
    if let Some((_, p, s)) = &dt {
        want.push_str("<!DOCTYPE q:d");
        if let Some(p) = p {
            want.push_str(&format!(" PUBLIC \"{}\"", p));
        }
        if let Some(s) = s {
            want.push_str(&format!(" SYSTEM \"{}\"", s));
        }
        want.push('>');
        sym::reach("P18.doctype");
    }
    let r = root(&doc);
    let (mut before, mut after) = (String::new(), String::new());
    for _ in 0..sym::pick("around", 3) {
        let (n, s) = if sym::bool("comment") {
            (doc.create_comment("c"), "<!--c-->")
        } else {
            (doc.create_processing_instruction("i", None).unwrap(), "<?i?>")
        };
        if sym::bool("before") {
            doc.insert_before(n, Some(r.clone())).unwrap();
            before.push_str(s);
        } else {
            doc.append_child(n).unwrap();
            after.push_str(s);
        }
    }
    want.push_str(&format!("{}<r></r>{}", before, after));
    let got = doc.to_string();
    sym::observe_str(&got);
    sym::assert(got == want, "P18.whole");
}

/// the same type, name, value, attributes and children, in other nodes
fn copied(orig: &RefNode, copy: &RefNode, all: &[RefNode], deep: bool, id: &str) {
    sym::assert(!all.contains(copy), "P20.new-nodes");
    let (a, b) = (orig.node_name(), copy.node_name());
    sym::assert(orig.node_type() == copy.node_type(), id);
    sym::assert(a == b && a.to_string() == b.to_string() && a.namespace_uri() == b.namespace_uri(), id);
    sym::assert(sym::same_opt(&orig.node_value(), &copy.node_value()), id);
    sym::assert(same_node(&orig.owner_document(), &copy.owner_document()), "P20.owner");
    let (x, y) = (orig.attributes(), copy.attributes());
    sym::assert(x.len() == y.len(), "P20.attributes");
    for (n, at) in &x {
        match y.get(n) {
            None => sym::assert(false, "P20.attributes"),
            Some(c) => {
                sym::assert(c != at && c.to_string() == at.to_string(), "P20.attributes");
                sym::assert(same_node(&as_attribute(c).unwrap().owner_element(), &Some(copy.clone())), "P20.attribute-owner");
            }
        }
    }
    let kids = copy.child_nodes();
    if !deep {
        sym::assert(kids.is_empty() && copy.first_child().is_none(), "P20.shallow");
        return;
    }
    let from = orig.child_nodes();
    sym::assert(kids.len() == from.len(), "P20.children");
    for (i, k) in kids.iter().enumerate() {
        sym::assert(same_node(&k.parent_node(), &Some(copy.clone())), "P20.child-parent");
        sym::assert(same_node(&k.next_sibling(), &kids.get(i + 1).cloned()), "P20.child-sibling");
        copied(&from[i], k, all, true, id);
    }
}

/// P20
pub fn h_clone() {
    sym::panic_id("P20.panic");
    let mut options = ProcessingOptions::new();
    options.set_add_namespaces();
    let doc = get_implementation_ext().create_document_with_options(None, Some("root"), None, options).unwrap();
    warm(&doc);
    let ts = grow(&doc, root(&doc), if sym::thorough() { 3 } else { 2 }, 7, true);
    let at = sym::pick("at", ts.len());
    let mut n = ts[at].node.clone();
    let attrs = if ts[at].kind < 2 { sym::pick("attributes", 3) } else { 0 };
    if attrs > 0 {
        n.set_attribute("xml:id", "one").unwrap();
        n.set_attribute_ns(N1, "p:x", "a&lt;b").unwrap();
    }
    if attrs > 1 {
        n.set_attribute_ns(XMLNS_NS, "xmlns:p", N1).unwrap();
        let mut empty = doc.create_attribute("none").unwrap();
        n.set_attribute_node(empty.clone()).unwrap();
        empty.append_child(doc.create_text_node("v")).unwrap();
        empty.append_child(doc.create_text_node("w")).unwrap();
    }
    let mut all: Vec<RefNode> = ts.iter().map(|t| t.node.clone()).collect();
    all.push(doc.clone());
    let before = doc.to_string().len();
    let parent = n.parent_node();
    let deep = sym::bool("deep");
    let c = n.clone_node(deep);
    sym::assert(c.is_some(), "P20.cloned");
    let mut c = c.unwrap();
    copied(&n, &c, &all, deep, "P20.same");
    sym::assert(c.parent_node().is_none() && c.next_sibling().is_none() && c.previous_sibling().is_none(), "P20.no-parent");
    sym::assert(doc.to_string().len() == before && same_node(&n.parent_node(), &parent), "P20.original-kept");
    if deep && attrs < 2 {
        // the attributes of both are listed in some order each
        sym::assert(c.to_string().len() == n.to_string().len(), "P20.shown");
    }
    if attrs > 0 {
        sym::assert(same_node(&doc.get_element_by_id("one"), &Some(n.clone())), "P20.id-of-original");
        sym::reach("P20.attributes");
    }
    if attrs > 1 {
        let ns = as_element_namespaced(&c).unwrap();
        sym::assert(ns.get_namespace(Some("p")).as_deref() == Some(N1), "P20.namespaces");
    }
    // either one is changed; the other stays
    let flip = sym::bool("change-original");
    let kids = if deep && flip { c.child_nodes() } else { n.child_nodes() };
    let (hand, other) = if flip { (&mut n, &c) } else { (&mut c, &n) };
    let (names, text, value) = (other.attributes().len(), other.to_string().len(), other.node_value());
    let (was_kids, x) = (other.child_nodes(), other.get_attribute("p:x"));
    match ts[at].kind {
        0 | 1 => {
            for k in hand.child_nodes() {
                let _ = k.clone().set_node_value("changed by this");
                let _ = hand.remove_child(k).unwrap();
            }
            let _ = hand.append_child(doc.create_text_node("more")).unwrap();
            if attrs > 0 {
                hand.get_attribute_node("p:x").unwrap().set_value("changed").unwrap();
                hand.remove_attribute("xml:id").unwrap();
            }
            hand.set_attribute_ns(XMLNS_NS, "xmlns:p", N2).unwrap();
            hand.set_attribute_ns(XMLNS_NS, "xmlns:q", N2).unwrap();
        }
        6 => {
            let _ = hand.append_child(doc.create_text_node("more")).unwrap();
        }
        _ => hand.set_node_value("changed").unwrap(),
    }
    sym::assert(other.attributes().len() == names && other.to_string().len() == text, "P20.independent");
    sym::assert(other.get_attribute("p:x") == x, "P20.independent-attributes");
    sym::assert(sym::same_opt(&other.node_value(), &value), "P20.independent-value");
    sym::assert(other.child_nodes() == was_kids, "P20.independent-children");
    if deep || !flip {
        sym::assert(other.child_nodes() == kids, "P20.independent-children");
    }
    if ts[at].kind < 2 {
        let ns = as_element_namespaced(other).unwrap();
        sym::assert(ns.get_namespace(Some("p")).as_deref() == if attrs > 1 { Some(N1) } else { None }, "P20.independent-namespaces");
        sym::assert(ns.get_namespace(Some("q")).is_none(), "P20.independent-namespaces");
        sym::reach("P20.element");
    } else {
        sym::reach("P20.leaf");
    }
}

/// P20: what is in a fragment, a reference or an attribute
pub fn h_clone_top() {
    sym::panic_id("P20.panic");
    let doc = new_doc();
    warm(&doc);
    let top = sym::pick("top", 4);
    let mut n = match top {
        0 => doc.create_document_fragment().unwrap(),
        1 => doc.create_entity_reference("r").unwrap(),
        2 => doc.create_attribute("a").unwrap(),
        _ => doc.create_element("e").unwrap(),
    };
    let mut r = root(&doc);
    if sym::bool("attached") {
        match top {
            0 => (),
            2 => {
                let _ = r.set_attribute_node(n.clone()).unwrap();
            }
            _ => {
                let _ = r.append_child(n.clone()).unwrap();
            }
        }
    }
    let mut all = vec![doc.clone(), n.clone()];
    for _ in 0..sym::pick("children", 4) {
        let k = if top == 2 { sym::pick("kind", 2) * 4 } else { sym::pick("kind", 6) };
        let mut c = crate::tree::make(&doc, k, "s");
        if k >= 4 && top != 2 {
            let mut g = doc.create_element_ns(N1, "p:g").unwrap();
            g.set_attribute("x", "y").unwrap();
            let t = doc.create_text_node("");
            let _ = g.append_child(t.clone()).unwrap();
            let _ = c.append_child(g.clone()).unwrap();
            all.push(g);
            all.push(t);
        } else if k == 4 {
            let t = doc.create_text_node("t");
            let _ = c.append_child(t.clone()).unwrap();
            all.push(t);
        }
        let _ = n.append_child(c.clone()).unwrap();
        all.push(c);
    }
    let deep = sym::bool("deep");
    let (before, shown) = (n.child_nodes(), doc.to_string().len());
    let mut c = n.clone_node(deep).unwrap();
    sym::assert(c.parent_node().is_none() && c.next_sibling().is_none() && c.previous_sibling().is_none(), "P20.no-parent");
    if top == 2 {
        sym::assert(as_attribute(&c).unwrap().owner_element().is_none(), "P20.attribute-free");
        sym::assert(as_attribute(&c).unwrap().value() == as_attribute(&n).unwrap().value(), "P20.attribute-value");
        let (x, y) = (n.child_nodes(), c.child_nodes());
        sym::assert(x.len() == y.len(), "P20.children");
        for (a, b) in x.iter().zip(&y) {
            sym::assert(a != b && a.node_type() == b.node_type() && a.node_value() == b.node_value(), "P20.same");
            sym::assert(same_node(&b.parent_node(), &Some(c.clone())), "P20.child-parent");
        }
    } else {
        copied(&n, &c, &all, deep, "P20.same");
    }
    sym::assert(n.child_nodes() == before && doc.to_string().len() == shown, "P20.original-kept");
    // it is emptied
    for k in c.child_nodes() {
        sym::assert(c.remove_child(k).is_ok(), "P20.usable");
    }
    sym::assert(n.child_nodes() == before && doc.to_string().len() == shown, "P20.independent");
    for k in &before {
        sym::assert(same_node(&k.parent_node(), &Some(n.clone())), "P20.independent");
    }
    sym::reach("P20.top");
}

/// P20: a cloned attribute always has its value; a clone of arbitrary text is that text
pub fn h_clone_value() {
    sym::panic_id("P20.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let deep = sym::bool("deep");
    let s = sym::string("len", 0, 1);
    match sym::pick("kind", 5) {
        0 => {
            let mut a = doc.create_attribute_ns(N1, "p:a").unwrap();
            let _ = a.append_child(doc.create_text_node("v")).unwrap();
            if sym::bool("entity") {
                let _ = a.append_child(doc.create_entity_reference("lt").unwrap()).unwrap();
            }
            if sym::bool("attached") {
                let _ = r.set_attribute_node_ns(a.clone()).unwrap();
            }
            let mut c = a.clone_node(deep).unwrap();
            let val = |n: &RefNode| as_attribute(n).unwrap().value();
            sym::assert(val(&c) == val(&a) && val(&a).is_some(), "P20.attribute-value");
            sym::assert(as_attribute(&c).unwrap().owner_element().is_none(), "P20.attribute-free");
            sym::assert(c.node_name() == a.node_name() && c != a, "P20.same");
            sym::assert(c.child_nodes().iter().all(|k| same_node(&k.parent_node(), &Some(c.clone()))), "P20.child-parent");
            let was = val(&a);
            c.set_value("other").unwrap();
            sym::assert(val(&a) == was && val(&c).as_deref() == Some("other"), "P20.independent-value");
            let mut e = doc.create_element("e").unwrap();
            sym::assert(e.set_attribute_node_ns(c.clone()).is_ok(), "P20.attribute-usable");
            sym::reach("P20.attribute");
        }
        k => {
            let n = match k {
                1 => doc.create_text_node(&s),
                2 => doc.create_comment(&s),
                3 => doc.create_cdata_section(&s).unwrap(),
                _ => doc.create_processing_instruction("p", Some(&s)).unwrap(),
            };
            let mut c = n.clone_node(deep).unwrap();
            sym::assert(sym::same_opt(&c.node_value(), &Some(s.clone())), "P20.text");
            c.set_node_value("x").unwrap();
            sym::assert(sym::same_opt(&n.node_value(), &Some(s.clone())), "P20.independent-value");
            sym::reach("P20.text");
        }
    }
}
