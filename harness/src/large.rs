//! Larger structures: the sizes are concrete, where something happens in them is symbolic. For code
//! whose behaviour depends on how many there are.
use crate::common::*;
use crate::values::{escaped, normal};

const N1: &str = "urn:1";
const N2: &str = "urn:2";

/// how many
fn size() -> usize {
    if sym::thorough() {
        [5, 6, 9, 17, 33][sym::pick("size", 5)]
    } else {
        [5, 9, 17][sym::pick("size", 3)]
    }
}
/// one of the places 0..n: the ends, those beside them, the middle
fn place(name: &str, n: usize) -> usize {
    let p = [0, 1, n / 2, n - 2, n - 1];
    p[sym::pick(name, 5)]
}
fn long(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}

/// P08: many pieces of text, and long ones, in any kind of node that has children
pub fn h_normalize_large() {
    sym::panic_id("P08.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let kind = sym::pick("parent", 4);
    let mut p = match kind {
        0 => doc.create_element("p").unwrap(),
        1 => doc.create_entity_reference("p").unwrap(),
        2 => doc.create_attribute("p").unwrap(),
        _ => doc.create_document_fragment().unwrap(),
    };
    let n = if sym::thorough() { size() } else { [5, 17][sym::pick("size", 2)] };
    // text of this length, with other nodes every so many, one of them different
    let len = [1, 20, 0][sym::pick("length", 3)];
    let run = [100, 2, 3][sym::pick("run", 3)];
    let odd = place("odd", n);
    let what = sym::pick("what", 4);
    let mut want: Vec<Option<String>> = Vec::new();
    let mut push = |want: &mut Vec<Option<String>>, t: Option<String>| match (want.last_mut(), t) {
        (_, Some(t)) if t.is_empty() => (),
        (Some(Some(l)), Some(t)) => l.push_str(&t),
        (_, t) => want.push(t),
    };
    for i in 0..n {
        let mut c = if i == odd {
            match what {
                0 => doc.create_text_node(""),
                1 => doc.create_text_node(&sym::ascii("chr").to_string()),
                2 if kind == 2 => doc.create_text_node(&long(300)),
                2 => doc.create_cdata_section("c").unwrap(),
                _ => doc.create_entity_reference("lt").unwrap(),
            }
        } else if i % run == run - 1 {
            if kind == 2 { doc.create_entity_reference("lt").unwrap() } else { doc.create_element("e").unwrap() }
        } else {
            doc.create_text_node(&long(len))
        };
        if c.node_type() == NodeType::Text {
            push(&mut want, c.node_value());
        } else {
            push(&mut want, None);
        }
        if c.node_type() == NodeType::Element || c.node_type() == NodeType::EntityReference {
            // with something to normalize in it
            for t in ["", "in", "", "ner", ""] {
                let _ = c.append_child(doc.create_text_node(t)).unwrap();
            }
        }
        let _ = p.append_child(c).unwrap();
    }
    if sym::bool("from-above") {
        match kind {
            0 | 1 => {
                let _ = r.append_child(p.clone()).unwrap();
                r.normalize();
            }
            2 => {
                let _ = r.set_attribute_node(p.clone()).unwrap();
                r.normalize();
            }
            _ => p.normalize(),
        }
    } else {
        p.normalize();
    }
    let got = p.child_nodes();
    if kind == 2 && want.is_empty() {
        // the value of an attribute is empty, not absent
        sym::assert(got.len() <= 1 && got.iter().all(|g| g.node_value().as_deref() == Some("")), "P08.attribute-text-kept");
        return;
    }
    sym::observe(got.len() as u64);
    sym::assert(got.len() == want.len(), "P08.many");
    for (g, w) in got.iter().zip(&want) {
        match w {
            Some(_) => {
                sym::assert(g.node_type() == NodeType::Text, "P08.many");
                sym::assert(sym::same_opt(&g.node_value(), w), "P08.text-kept");
            }
            None => {
                sym::assert(g.node_type() != NodeType::Text, "P08.many");
                if g.node_type() != NodeType::CData {
                    let inner = g.child_nodes();
                    sym::assert(inner.len() == 1 && inner[0].node_value().as_deref() == Some("inner"), "P08.inside");
                    sym::reach("P08.inside");
                }
            }
        }
    }
    sym::reach("P08.many");
}

/// P16: long text with many characters to escape
pub fn h_escape_long() {
    sym::panic_id("P16.panic");
    let doc = new_doc();
    let n = [3, 8, 16, 40, 100][sym::pick("size", if sym::thorough() { 5 } else { 4 })];
    let what = sym::one_of("what", &["a", "<", "&", "'\"", "]]>", "&#60;", "\u{e9}", "\r\n"]);
    let at = place("at", n);
    let mut s = String::new();
    for i in 0..n {
        if i == at {
            s.push(sym::ascii("asc"));
        }
        s.push_str(what);
    }
    let n = if sym::bool("comment") { doc.create_comment(&s) } else { doc.create_text_node(&s) };
    sym::assert(sym::same_opt(&n.node_value(), &Some(s.clone())), "P16.value-raw");
    let data = CharacterData::data(&n);
    sym::observe_opt(&data);
    sym::assert(sym::same_opt(&data, &Some(escaped(&s))), "P16.data-escaped");
    sym::assert(CharacterData::length(&n) == s.len(), "P16.length-raw");
    sym::reach("P16.long");
}

/// P17: values with many references and line ends
pub fn h_value_many() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    let n = [3, 8, 17, 4, 40][sym::pick("size", if sym::thorough() { 5 } else { 3 })];
    let a = sym::one_of("first", &["&lt;", "&amp;", "&#65;", "&#x263a;", "\r\n", "\t", "&", ";", "x"]);
    let b = sym::one_of("second", &["", "&gt;", "&#38;", " "]);
    // an arbitrary character between them, in the shortest and, thoroughly, in all
    let at = if n == 3 || sym::thorough() { [0, n / 2, n - 1][sym::pick("at", 3)] } else { n };
    let mut s = String::new();
    for i in 0..n {
        if i == at {
            s.push(sym::ascii("asc"));
        }
        s.push_str(if i % 2 == 0 { a } else { b });
    }
    let want = Some(escaped(&normal(&s)));
    let mut e = root(&doc);
    sym::assert(e.set_attribute("a", &s).is_ok(), "P17.set");
    let got = e.get_attribute("a");
    sym::observe_opt(&got);
    sym::assert(sym::same_opt(&got, &want), "P17.many");
    sym::reach("P17.many");
}

/// P09: many attributes, and an operation on one of them
pub fn h_attr_many() {
    sym::panic_id("P09.panic");
    let doc = new_doc();
    warm(&doc);
    let mut e = root(&doc);
    let n = size();
    let mut model: Vec<(String, String)> = Vec::new();
    for i in 0..n {
        let (k, v) = (format!("n{}", i), format!("v{}", i));
        if i % 3 == 2 {
            sym::assert(e.set_attribute_node(doc.create_attribute_with(&k, &v).unwrap()).is_ok(), "P09.set-node-ok");
        } else {
            sym::assert(e.set_attribute(&k, &v).is_ok(), "P09.set-ok");
        }
        model.push((k, v));
    }
    let at = place("at", n);
    let name = model[at].0.clone();
    match sym::pick("op", 5) {
        0 => {
            sym::assert(e.set_attribute(&name, "new").is_ok(), "P09.set-ok");
            model[at].1 = "new".to_string();
        }
        1 => {
            sym::assert(e.set_attribute_node(doc.create_attribute_with(&name, "new").unwrap()).is_ok(), "P09.set-node-ok");
            model[at].1 = "new".to_string();
        }
        2 => {
            sym::assert(e.remove_attribute(&name).is_ok(), "P09.remove-ok");
            let _ = model.remove(at);
        }
        3 => {
            let a = e.get_attribute_node(&name).unwrap();
            sym::assert(e.remove_attribute_node(a).is_ok(), "P09.remove-ok");
            let _ = model.remove(at);
        }
        _ => {
            // one more, whose name may be that of another
            let c = sym::u8("digit");
            sym::assume((c >= b'0') & (c <= b'9'));
            let k = format!("n{}", c as char);
            sym::assert(e.set_attribute(&k, "new").is_ok(), "P09.set-ok");
            match model.iter().position(|(m, _)| *m == k) {
                Some(i) => model[i].1 = "new".to_string(),
                None => model.push((k, "new".to_string())),
            }
        }
    }
    let all = e.attributes();
    sym::observe(all.len() as u64);
    sym::assert(all.len() == model.len(), "P09.count");
    for (k, v) in &model {
        sym::assert(e.get_attribute(k).as_ref() == Some(v), "P09.get");
        sym::assert(e.has_attribute(k), "P09.has");
        let a = e.get_attribute_node(k);
        sym::assert(a.is_some() && all.get(&Name::from_str(k).unwrap()) == a.as_ref(), "P09.map");
    }
    sym::assert(!e.has_attribute("n") && !e.has_attribute("n99"), "P09.has");
    sym::assert(model.iter().any(|(k, _)| *k == name) == e.has_attribute(&name), "P09.has");
    sym::reach("P09.many");
}

/// P10: one local name in many namespaces, many local names in one
pub fn h_attr_ns_many() {
    sym::panic_id("P10.panic");
    let doc = new_doc();
    warm(&doc);
    let mut e = root(&doc);
    let n = if sym::thorough() { [4, 5, 9, 17][sym::pick("size", 4)] } else { [4, 9][sym::pick("size", 2)] };
    let by_local = sym::bool("local-names");
    // namespace, prefix, local name, value
    let mut model: Vec<(String, String, String, String)> = Vec::new();
    for i in 0..n {
        let (u, p, l) = if by_local { (N1.to_string(), "p".to_string(), format!("n{}", i)) } else { (format!("urn:{}", i), format!("p{}", i), "n".to_string()) };
        sym::assert(e.set_attribute_ns(&u, &format!("{}:{}", p, l), &i.to_string()).is_ok(), "P10.set-ok");
        model.push((u, p, l, i.to_string()));
    }
    let at = place("at", n);
    let (u, p, l, _) = model[at].clone();
    match sym::pick("op", 4) {
        0 => {
            sym::assert(e.set_attribute_ns(&u, &format!("z:{}", l), "new").is_ok(), "P10.set-ok");
            model[at].1 = "z".to_string();
            model[at].3 = "new".to_string();
        }
        1 => {
            sym::assert(e.remove_attribute_ns(&u, &l).is_ok(), "P10.remove-ok");
            let _ = model.remove(at);
        }
        2 => {
            sym::assert(e.remove_attribute(&format!("{}:{}", p, l)).is_ok(), "P10.remove-ok");
            let _ = model.remove(at);
        }
        _ => {
            let mut a = doc.create_attribute_ns(&u, &l).unwrap();
            a.set_value("new").unwrap();
            sym::assert(e.set_attribute_node_ns(a).is_ok(), "P10.set-node-ok");
            model[at].1 = String::new();
            model[at].3 = "new".to_string();
        }
    }
    sym::assert(e.attributes().len() == model.len(), "P10.count");
    for (u, p, l, v) in &model {
        sym::assert(e.has_attribute_ns(u, l) && e.get_attribute_ns(u, l).as_ref() == Some(v), "P10.get-ns");
        let q = if p.is_empty() { l.clone() } else { format!("{}:{}", p, l) };
        sym::assert(e.get_attribute(&q).as_ref() == Some(v), "P10.get-by-name");
        let a = e.get_attribute_node_ns(u, l).map(|a| a.node_name().to_string());
        sym::assert(a.as_ref() == Some(&q), "P10.node-prefix");
    }
    let here = model.iter().any(|m| m.0 == u && m.2 == l);
    sym::assert(e.has_attribute_ns(&u, &l) == here, "P10.absent-ns");
    sym::assert(!e.has_attribute_ns("urn:99", "n") && !e.has_attribute_ns(N1, "n99"), "P10.absent-ns");
    sym::observe(here as u64);
    sym::reach("P10.many");
}

/// P11: what happens to an attribute whose element is dropped
pub fn h_attr_dropped() {
    sym::panic_id("P11.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let mut e = doc.create_element("e").unwrap();
    let mut f = doc.create_element("f").unwrap();
    let ns = sym::bool("ns");
    let a = if ns { doc.create_attribute_ns(N1, "p:x").unwrap() } else { doc.create_attribute_with("x", "v").unwrap() };
    if sym::bool("in-tree") {
        let _ = r.append_child(e.clone()).unwrap();
    }
    let set = |e: &mut RefNode, a: &RefNode| if ns { e.set_attribute_node_ns(a.clone()) } else { e.set_attribute_node(a.clone()) };
    sym::assert(set(&mut e, &a).is_ok(), "P11.set");
    sym::assert(matches!(set(&mut f, &a), Err(Error::InUseAttribute)), "P11.in-use");
    match sym::pick("how", 4) {
        0 => {
            if e.parent_node().is_some() {
                let _ = r.remove_child(e.clone()).unwrap();
            }
            drop(e);
        }
        1 => {
            let c = e.clone_node(true).unwrap();
            let own = c.attributes().into_values().next().unwrap();
            sym::assert(own != a && same_node(&as_attribute(&own).unwrap().owner_element(), &Some(c.clone())), "P11.owner-element");
            drop(c);
            sym::assert(as_attribute(&own).unwrap().owner_element().is_none(), "P11.owner-dropped");
            sym::assert(set(&mut f, &own).is_ok(), "P11.dropped-is-free");
            sym::reach("P11.clone-dropped");
            return;
        }
        2 => {
            // taken out of the tree, but still there
            if e.parent_node().is_some() {
                let _ = r.remove_child(e.clone()).unwrap();
            }
            sym::assert(same_node(&as_attribute(&a).unwrap().owner_element(), &Some(e.clone())), "P11.owner-element");
            sym::assert(matches!(set(&mut f, &a), Err(Error::InUseAttribute)), "P11.in-use");
            return;
        }
        _ => {
            let _ = e.remove_attribute_node(a.clone()).unwrap();
        }
    }
    sym::assert(as_attribute(&a).unwrap().owner_element().is_none(), "P11.owner-dropped");
    let s = set(&mut f, &a);
    sym::assert(s.is_ok(), "P11.dropped-is-free");
    sym::assert(same_node(&as_attribute(&a).unwrap().owner_element(), &Some(f.clone())), "P11.owner-element");
    sym::assert(f.attributes().len() == 1 && f.get_attribute_node(if ns { "p:x" } else { "x" }) == Some(a), "P11.found-by-name");
    sym::reach("P11.dropped");
}

/// P12: many elements with identifiers
pub fn h_ids_many() {
    sym::panic_id("P12.panic");
    let doc = new_doc();
    warm(&doc);
    let r = root(&doc);
    let n = size();
    let chain = sym::bool("chain");
    let mut es = vec![];
    let mut ids: Vec<Option<String>> = vec![];
    for i in 0..n {
        let mut e = doc.create_element("e").unwrap();
        let mut p = if chain && i > 0 { es[i - 1] } else { &r }.clone();
        let _ = p.append_child(e.clone()).unwrap();
        sym::assert(e.set_attribute("xml:id", &format!("i{}", i)).is_ok(), "P12.unique-accepted");
        ids.push(Some(format!("i{}", i)));
        es.push(Box::leak(Box::new(e)));
    }
    let (a, b) = (place("a", n), place("b", n));
    let mut e = es[a].clone();
    match sym::pick("op", 4) {
        0 => {
            let clash = ids[b].clone().unwrap();
            let ok = e.set_attribute("xml:id", &clash).is_ok();
            sym::assert(ok == (a == b), "P12.duplicate-refused");
        }
        1 => {
            e.remove_attribute("xml:id").unwrap();
            ids[a] = None;
        }
        2 => {
            sym::assert(e.set_attribute("xml:id", "new").is_ok(), "P12.unique-accepted");
            ids[a] = Some("new".to_string());
            let mut f = es[b].clone();
            let ok = f.set_attribute("xml:id", &format!("i{}", a)).is_ok();
            sym::assert(ok, "P12.unique-accepted");
            ids[b] = Some(format!("i{}", a));
        }
        _ => {
            // the identifier is free again, for another
            e.remove_attribute("xml:id").unwrap();
            ids[a] = None;
            let mut f = doc.create_element("f").unwrap();
            sym::assert(f.set_attribute("xml:id", &format!("i{}", a)).is_ok(), "P12.unique-accepted");
            sym::assert(doc.get_element_by_id(&format!("i{}", a)) == Some(f), "P12.found");
        }
    }
    for i in 0..n {
        let id = format!("i{}", i);
        let want = ids.iter().position(|x| x.as_ref() == Some(&id)).map(|k| es[k].clone());
        sym::assert(same_node(&doc.get_element_by_id(&id), &want), "P12.found");
    }
    sym::observe(n as u64);
    sym::reach("P12.many");
}

/// P13: deep nesting, many declarations
pub fn h_ns_deep() {
    sym::panic_id("P13.panic");
    let doc = new_doc();
    warm(&doc);
    let n = size();
    let mut es = vec![root(&doc)];
    for i in 1..n {
        let e = doc.create_element("e").unwrap();
        let _ = es[i - 1].clone().append_child(e.clone()).unwrap();
        es.push(e);
    }
    let many = sym::bool("many-prefixes");
    let (a, b, at) = (place("a", n), place("b", n), place("at", n));
    let q = |p: usize| if p == 0 { "xmlns".to_string() } else { format!("xmlns:p{}", p) };
    let k = if many { 9 } else { 2 };
    // (level, prefix, namespace)
    let mut decl: Vec<(usize, usize, String)> = vec![];
    for p in 0..k {
        let u = format!("urn:a{}", p);
        sym::assert(es[a].set_attribute_ns(XMLNS_NS, &q(p), &u).is_ok(), "P13.declared");
        decl.push((a, p, u));
    }
    // one of them again, or taken back
    let p = [0, 1, k - 1][sym::pick("again", 3)];
    if sym::bool("again-or-removed") {
        let u = format!("urn:b{}", p);
        sym::assert(es[b].set_attribute_ns(XMLNS_NS, &q(p), &u).is_ok(), "P13.declared");
        decl.retain(|d| !(d.0 == b && d.1 == p));
        decl.push((b, p, u));
    } else {
        let l = if p == 0 { "xmlns".to_string() } else { format!("p{}", p) };
        sym::assert(es[b].remove_attribute_ns(XMLNS_NS, &l).is_ok(), "P13.removed");
        decl.retain(|d| !(d.0 == b && d.1 == p));
    }
    let ns = as_element_namespaced(&es[at]).unwrap();
    for p in 0..k {
        let name = format!("p{}", p);
        let prefix = if p == 0 { None } else { Some(name.as_str()) };
        let own = decl.iter().find(|d| d.0 == at && d.1 == p).map(|d| d.2.as_str());
        let near = decl.iter().filter(|d| d.0 <= at && d.1 == p).max_by_key(|d| d.0).map(|d| d.2.as_str());
        sym::assert(ns.get_namespace(prefix).as_deref() == own, "P13.get-namespace");
        sym::assert(ns.contains_mapping(prefix) == own.is_some(), "P13.contains-mapping");
        sym::assert(ns.resolve_namespace(prefix).as_deref() == near, "P13.resolve-namespace");
        for v in ["a", "b"] {
            let u = format!("urn:{}{}", v, p);
            let is = |g: &NamespacePrefix| match g {
                NamespacePrefix::Default => p == 0,
                NamespacePrefix::Some(s) => p > 0 && *s == name,
                NamespacePrefix::None => false,
            };
            let here = decl.iter().any(|d| d.0 == at && d.2 == u);
            let up = decl.iter().any(|d| d.0 <= at && d.2 == u);
            sym::assert(ns.contains_mapped_namespace(&u) == here, "P13.contains-namespace");
            sym::assert(is(&ns.get_prefix(&u)) == here && ns.get_prefix(&u).is_none() != here, "P13.get-prefix");
            sym::assert(is(&ns.resolve_prefix(&u)) == up && ns.resolve_prefix(&u).is_none() != up, "P13.resolve-prefix");
        }
    }
    sym::observe(decl.len() as u64);
    sym::reach("P13.deep");
}

/// a chain, a list, or a chain with a leaf before and after each link; the elements in document order
fn large_tree(doc: &RefNode, n: usize, shape: usize, leaf: bool) -> Vec<RefNode> {
    let mut all = vec![root(doc)];
    for i in 1..n {
        let e = if i % 2 == 0 { doc.create_element_ns(N1, "p:e").unwrap() } else { doc.create_element("e").unwrap() };
        let mut p = if shape == 1 { all[0].clone() } else { all[i - 1].clone() };
        if leaf {
            let _ = p.append_child(doc.create_text_node("t")).unwrap();
        }
        let _ = p.append_child(e.clone()).unwrap();
        if leaf && shape != 1 {
            let _ = p.append_child(doc.create_comment("c")).unwrap();
        }
        all.push(e);
    }
    all
}

/// P18: wide and deep trees, long text, many attributes
pub fn h_shown_large() {
    sym::panic_id("P18.panic");
    let doc = get_implementation().create_document(None, Some("r"), None).unwrap();
    warm(&doc);
    let n = size();
    match sym::pick("what", 4) {
        shape @ 0..=1 => {
            let leaf = sym::bool("leaves");
            let es = large_tree(&doc, n, shape, leaf);
            let at = place("at", n);
            let c = sym::ascii("asc");
            let mut e = es[at].clone();
            let _ = e.append_child(doc.create_text_node(&c.to_string())).unwrap();
            let name = |i: usize| if i == 0 { "r" } else if i % 2 == 0 { "p:e" } else { "e" };
            let text = escaped(&c.to_string());
            let tail = |i: usize| format!("{}</{}>", if i == at { text.as_str() } else { "" }, name(i));
            let mut want = String::new();
            if shape == 1 {
                want.push_str("<r>");
                for i in 1..n {
                    want.push_str(&format!("{}<{}>{}", if leaf { "t" } else { "" }, name(i), tail(i)));
                }
                want.push_str(&tail(0));
            } else {
                for i in 0..n {
                    want.push_str(&format!("<{}>{}", name(i), if leaf && i + 1 < n { "t" } else { "" }));
                }
                for i in (0..n).rev() {
                    want.push_str(&format!("{}{}", if leaf && i + 1 < n { "<!--c-->" } else { "" }, tail(i)));
                }
            }
            let got = doc.to_string();
            sym::observe_str(&got);
            sym::assert(sym::same(&got, &want), "P18.large");
            sym::reach("P18.large");
        }
        2 => {
            // long text of every kind
            let s = long([20, 64, 129, 300][sym::pick("length", 4)]);
            let mut r = root(&doc);
            let k = sym::pick("kind", 5);
            let (node, want) = match k {
                0 => (doc.create_text_node(&s), s.clone()),
                1 => (doc.create_comment(&s), format!("<!--{}-->", s)),
                2 => (doc.create_cdata_section(&s).unwrap(), format!("<![CDATA[ {} ]]>", s)),
                3 => (doc.create_processing_instruction("pi", Some(&s)).unwrap(), format!("<?pi {}?>", s)),
                _ => (doc.create_element(&s).unwrap(), format!("<{}></{}>", s, s)),
            };
            let _ = r.append_child(node).unwrap();
            r.set_attribute("long", &s).unwrap();
            let got = doc.to_string();
            sym::observe(got.len() as u64);
            sym::assert(got == format!("<r long=\"{}\">{}</r>", s, want), "P18.long");
            sym::reach("P18.long");
        }
        _ => {
            // the order of attributes is open
            let mut r = root(&doc);
            let at = place("at", n);
            let mut parts = vec![];
            for i in 0..n {
                let v = if i == at { sym::ascii("asc").to_string() } else { i.to_string() };
                if i % 3 == 1 {
                    r.set_attribute_ns(N1, &format!("p:n{}", i), &v).unwrap();
                    parts.push(format!(" p:n{}=\"{}\"", i, escaped(&normal(&v))));
                } else {
                    r.set_attribute(&format!("n{}", i), &v).unwrap();
                    parts.push(format!(" n{}=\"{}\"", i, escaped(&normal(&v))));
                }
            }
            let got = doc.to_string();
            sym::observe(got.len() as u64);
            sym::assert(got.len() == "<r></r>".len() + parts.iter().map(|p| p.len()).sum::<usize>(), "P18.attributes");
            sym::assert(got.starts_with("<r ") && got.ends_with("></r>"), "P18.attributes");
            for p in &parts {
                sym::assert(got.contains(p.as_str()), "P18.attributes");
            }
            sym::reach("P18.many-attributes");
        }
    }
}

/// P19: wide and deep trees
pub fn h_by_tag_large() {
    sym::panic_id("P19.panic");
    let doc = get_implementation().create_document(None, Some("r"), None).unwrap();
    let n = size();
    let es = large_tree(&doc, n, sym::pick("shape", 2), sym::bool("leaves"));
    let chain = es[2].parent_node() == Some(es[1].clone());
    let from = place("from", n);
    let at = place("target", n);
    let l = sym::u8("letter");
    sym::assume((l >= b'a') & (l <= b'z'));
    let l = (l as char).to_string();
    let mut e = es[at].clone();
    let t = doc.create_element_ns(N2, "x").unwrap();
    let _ = e.append_child(t.clone()).unwrap();
    // those below `from`, in document order
    let mut below: Vec<(RefNode, &str, Option<&str>)> = vec![];
    let mut after = vec![];
    for i in 0..n {
        let inside = if chain { i > from } else { from == 0 && i > 0 };
        if inside {
            below.push((es[i].clone(), "e", if i % 2 == 0 { Some(N1) } else { None }));
        }
        if i == at && (inside || i == from) {
            if chain || i == 0 {
                // after everything below that element
                after.push((t.clone(), "x", Some(N2)));
            } else {
                below.push((t.clone(), "x", Some(N2)));
            }
        }
    }
    below.extend(after);
    let pick = |f: &dyn Fn(&str, &str, Option<&str>) -> bool| -> Vec<RefNode> {
        below.iter().filter(|(_, l, u)| f(l, if *u == Some(N1) { "p:e" } else { l }, *u)).map(|(n, _, _)| n.clone()).collect()
    };
    let e = &es[from];
    sym::assert(Element::get_elements_by_tag_name(e, "*") == pick(&|_, _, _| true), "P19.all");
    for q in ["e", "p:e", &l] {
        let got = Element::get_elements_by_tag_name(e, q);
        sym::observe(got.len() as u64);
        sym::assert(got == pick(&|_, x, _| x == q), "P19.by-name");
    }
    for q in ["e", "*", &l] {
        sym::assert(Element::get_elements_by_tag_name_ns(e, "*", q) == pick(&|x, _, _| q == "*" || x == q), "P19.any-namespace");
        sym::assert(Element::get_elements_by_tag_name_ns(e, N1, q) == pick(&|x, _, u| u == Some(N1) && (q == "*" || x == q)), "P19.by-namespace");
        sym::assert(Element::get_elements_by_tag_name_ns(e, N2, q) == pick(&|x, _, u| u == Some(N2) && (q == "*" || x == q)), "P19.by-namespace");
    }
    sym::assert(Document::get_elements_by_tag_name(&doc, "x") == vec![t], "P19.by-name");
    sym::assert(Document::get_elements_by_tag_name(&doc, "*").len() == n + 1, "P19.all");
    sym::reach("P19.large");
}

/// P20: wide and deep trees, many attributes
pub fn h_clone_large() {
    sym::panic_id("P20.panic");
    let doc = get_implementation().create_document(None, Some("r"), None).unwrap();
    warm(&doc);
    let n = size();
    let mut es = large_tree(&doc, n, sym::pick("shape", 2), sym::bool("leaves"));
    let at = place("at", n);
    for i in 0..7 {
        if i % 2 == 0 {
            es[at].set_attribute(&format!("n{}", i), &i.to_string()).unwrap();
        } else {
            es[at].set_attribute_ns(N1, &format!("p:n{}", i), &i.to_string()).unwrap();
        }
    }
    let long = long(200);
    let _ = es[at].append_child(doc.create_text_node(&long)).unwrap();
    let r = root(&doc);
    let before = doc.to_string();
    let c = r.clone_node(true).unwrap();
    sym::assert(c.parent_node().is_none(), "P20.no-parent");
    fn both(a: &RefNode, b: &RefNode) -> usize {
        sym::assert(a != b && a.node_name() == b.node_name() && a.node_type() == b.node_type() && a.node_value() == b.node_value(), "P20.same");
        sym::assert(same_node(&a.owner_document(), &b.owner_document()), "P20.owner");
        let (x, y) = (a.attributes(), b.attributes());
        sym::assert(x.len() == y.len(), "P20.attributes");
        for (n, v) in &x {
            let w = y.get(n);
            sym::assert(w.map(|w| w != v && w.to_string() == v.to_string() && as_attribute(w).unwrap().owner_element().as_ref() == Some(b)) == Some(true), "P20.attributes");
        }
        let (x, y) = (a.child_nodes(), b.child_nodes());
        sym::assert(x.len() == y.len(), "P20.children");
        let mut k = 1;
        for (i, (p, q)) in x.iter().zip(&y).enumerate() {
            sym::assert(same_node(&q.parent_node(), &Some(b.clone())) && same_node(&q.next_sibling(), &y.get(i + 1).cloned()), "P20.child-parent");
            k += both(p, q);
        }
        k
    }
    let k = both(&r, &c);
    sym::observe(k as u64);
    sym::assert(k > n && doc.to_string() == before, "P20.original-kept");
    let shallow = es[at].clone_node(false).unwrap();
    sym::assert(!shallow.has_child_nodes() && shallow.attributes().len() == 7, "P20.shallow");
    sym::reach("P20.large");
}

/// P14: long names
pub fn h_name_longer() {
    sym::panic_id("P14.panic");
    let doc = new_doc();
    let n = if sym::thorough() { [15, 31, 64, 255][sym::pick("size", 4)] } else { [15, 64][sym::pick("size", 2)] };
    let at = [0, 1, n / 2, n - 1, n][sym::pick("at", 5)];
    let mut cs: Vec<char> = long(n).chars().collect();
    let colon = sym::bool("prefix");
    if colon {
        cs[n / 3] = ':';
    }
    cs.insert(at, sym::chr("chr"));
    let s: String = cs.iter().collect();
    let (ok, _) = crate::names::qname(&cs);
    let r = if sym::bool("attribute") { doc.create_attribute(&s) } else { doc.create_element(&s) };
    sym::observe(code(&r));
    sym::assert(r.is_ok() == ok, "P14.long-names");
    if let Ok(e) = r {
        let back = e.node_name().to_string();
        sym::assert(sym::same(&back, &s), "P14.name-kept");
        sym::reach("P14.long");
    }
}
