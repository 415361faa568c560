//! P09-P11 attributes of an element, P12 the ID index, P13 namespace declarations, P15 reserved
//! namespaces, P17 attribute values.
use crate::common::*;

#[derive(Clone)]
struct A {
    ns: Option<&'static str>,
    prefix: Option<String>,
    local: String,
    value: String,
}
impl A {
    fn q(&self) -> String {
        match &self.prefix {
            Some(p) => format!("{}:{}", p, self.local),
            None => self.local.clone(),
        }
    }
}
fn split(q: &str) -> (Option<String>, String) {
    match q.find(':') {
        Some(i) => (Some(q[..i].to_string()), q[i + 1..].to_string()),
        None => (None, q.to_string()),
    }
}
fn letter(n: &str) -> char {
    let c = sym::u8(n);
    sym::assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_'));
    c as char
}

/// P09: names are symbolic, so whether two operations name the same attribute is for the solver
pub fn h_attr_names() {
    sym::panic_id("P09.panic");
    let doc = new_doc();
    warm(&doc);
    let mut e = root(&doc);
    let mut model: Vec<(String, String)> = Vec::new();
    let steps = if sym::thorough() { 4 } else { 3 };
    for i in 0..steps {
        let mut name = letter("name").to_string();
        if sym::bool("long") {
            name.push('7');
        }
        let value = ["v0", "v1", "v2", "v3"][i];
        let at = model.iter().position(|(n, _)| *n == name);
        match sym::pick("op", 3) {
            0 => {
                let r = e.set_attribute(&name, value);
                sym::assert(r.is_ok(), "P09.set-ok");
                match at {
                    Some(k) => {
                        model[k].1 = value.to_string();
                        sym::reach("P09.overwritten");
                    }
                    None => model.push((name.clone(), value.to_string())),
                }
            }
            1 => {
                let r = e.remove_attribute(&name);
                sym::assert(r.is_ok(), "P09.remove-ok");
                if let Some(k) = at {
                    let _ = model.remove(k);
                    sym::reach("P09.removed");
                }
            }
            _ => {
                let a = doc.create_attribute_with(&name, value).unwrap();
                let r = e.set_attribute_node(a);
                sym::assert(r.is_ok(), "P09.set-node-ok");
                if let Some(k) = at {
                    let _ = model.remove(k);
                }
                model.push((name.clone(), value.to_string()));
            }
        }
        let here = model.iter().find(|(n, _)| *n == name).map(|(_, v)| v.clone());
        sym::assert(e.get_attribute(&name) == here, "P09.get");
        sym::assert(e.has_attribute(&name) == here.is_some(), "P09.has");
    }
    let all = e.attributes();
    sym::observe(all.len() as u64);
    sym::assert(all.len() == model.len(), "P09.count");
    sym::assert(e.has_attributes() != model.is_empty(), "P09.has-attributes");
    for (n, v) in &model {
        sym::assert(e.get_attribute(n).as_ref() == Some(v), "P09.get");
        sym::assert(e.has_attribute(n), "P09.has");
        match e.get_attribute_node(n) {
            None => sym::assert(false, "P09.get-node"),
            Some(a) => {
                sym::assert(a.node_name().to_string() == *n, "P09.get-node");
                sym::assert(as_attribute(&a).unwrap().value().as_ref() == Some(v), "P09.node-value");
                sym::assert(all.get(&a.node_name()) == Some(&a), "P09.map");
            }
        }
    }
    // a name that nothing was set for
    let probe = letter("probe").to_string();
    let here = model.iter().find(|(n, _)| *n == probe).map(|(_, v)| v.clone());
    sym::assert(e.get_attribute(&probe) == here, "P09.get");
    sym::assert(e.has_attribute(&probe) == here.is_some(), "P09.has");
    sym::assert(e.get_attribute_node(&probe).is_some() == here.is_some(), "P09.get-node");
    if here.is_none() {
        sym::reach("P09.absent");
    }
    sym::assert(e.get_attribute("not a name").is_none() && !e.has_attribute(""), "P09.bad-name");
    sym::assert(matches!(e.set_attribute("1x", "v"), Err(Error::InvalidCharacter)), "P09.bad-name");
    sym::assert(e.attributes().len() == model.len(), "P09.bad-name");
}

/// P09: an attribute, and a name that is the same or differs in one character
pub fn h_attr_names_near() {
    sym::panic_id("P09.panic");
    let doc = new_doc();
    warm(&doc);
    let mut e = root(&doc);
    let base = sym::one_of("base", &["name", "p:q", "i"]);
    let v = sym::one_of("value", &["", "v", "two words"]);
    let w = sym::one_of("new-value", &["", "w"]);
    sym::assert(e.set_attribute(base, v).is_ok(), "P09.set-ok");
    let q = near("edit", base, any_ascii);
    let cs: Vec<char> = q.chars().collect();
    let (ok, _) = crate::names::qname(&cs);
    let eq = sym::same(&q, base);
    let got = e.get_attribute(&q);
    sym::observe_opt(&got);
    sym::assert(got.is_some() == eq, "P09.near-get");
    if let Some(g) = &got {
        sym::assert(sym::same(g, v), "P09.near-get");
        sym::reach("P09.near-same");
    }
    sym::assert(e.has_attribute(&q) == eq, "P09.near-has");
    sym::assert(e.get_attribute_node(&q).is_some() == eq, "P09.near-get-node");
    sym::assert(e.set_attribute(&q, w).is_ok() == ok, "P09.near-set");
    sym::assert(e.attributes().len() == if ok & !eq { 2 } else { 1 }, "P09.near-count");
    sym::assert(e.get_attribute(base).as_deref() == Some(if eq { w } else { v }), "P09.near-other");
    sym::assert(e.get_attribute(&q).as_deref() == if ok { Some(w) } else { None }, "P09.near-get");
    if !ok {
        sym::reach("P09.near-refused");
    }
    sym::assert(e.remove_attribute(&q).is_ok(), "P09.remove-ok");
    sym::assert(!e.has_attribute(&q) && e.get_attribute(&q).is_none(), "P09.near-removed");
    sym::assert(e.has_attribute(base) != eq, "P09.near-other");
    sym::assert(e.attributes().len() == if eq { 0 } else { 1 }, "P09.near-count");
}

const NA: &str = "urn:a";
const NB: &str = "urn:b";
const POOL: &[(Option<&str>, &str)] = &[
    (Some(NA), "p:x"),
    (Some(NA), "q:x"),
    (None, "p:x"),
    (Some(NB), "p:y"),
    (Some(NA), "x"),
    (None, "y"),
    (Some(NB), "r:x"),
];

fn ns_state(e: &RefNode, model: &[A]) {
    let all = e.attributes();
    sym::observe(all.len() as u64);
    sym::assert(all.len() == model.len(), "P10.count");
    for a in model {
        let q = a.q();
        let name = Name::from_str(&q).unwrap();
        sym::assert(e.has_attribute(&q), "P10.has-by-name");
        if model.iter().filter(|b| b.q() == q).count() == 1 {
            sym::assert(e.get_attribute(&q).as_deref() == Some(&a.value), "P10.get-by-name");
        }
        if let Some(ns) = a.ns {
            sym::assert(e.has_attribute_ns(ns, &a.local), "P10.has-ns");
            sym::assert(e.get_attribute_ns(ns, &a.local).as_deref() == Some(&a.value), "P10.get-ns");
            match e.get_attribute_node_ns(ns, &a.local) {
                None => sym::assert(false, "P10.get-node-ns"),
                Some(n) => {
                    let got = n.node_name();
                    sym::assert(got.namespace_uri().as_deref() == Some(ns), "P10.node-namespace");
                    sym::assert(got.local_name() == name.local_name(), "P10.node-local-name");
                    sym::assert(got.prefix() == name.prefix(), "P10.node-prefix");
                }
            }
        }
    }
    for ns in [NA, NB] {
        for local in ["x", "y"] {
            if !model.iter().any(|a| a.ns == Some(ns) && a.local == local) {
                sym::assert(!e.has_attribute_ns(ns, local), "P10.absent-ns");
                sym::assert(e.get_attribute_ns(ns, local).is_none(), "P10.absent-ns");
                sym::assert(e.get_attribute_node_ns(ns, local).is_none(), "P10.absent-ns");
            }
        }
    }
    for q in ["p:x", "q:x", "p:y", "x", "y", "r:x"] {
        if !model.iter().any(|a| a.q() == q) {
            sym::assert(e.get_attribute(q).is_none() && !e.has_attribute(q), "P10.absent-by-name");
        }
    }
}

/// P10: attributes by namespace and local name, together with those by qualified name
pub fn h_attr_ns() {
    sym::panic_id("P10.panic");
    let doc = new_doc();
    warm(&doc);
    let mut e = root(&doc);
    let mut model: Vec<A> = Vec::new();
    let steps = if sym::thorough() { 4 } else { 3 };
    for i in 0..steps {
        let (ns, q) = POOL[sym::pick("name", POOL.len())];
        let (prefix, local) = split(q);
        let value = ["v0", "v1", "v2", "v3"][i].to_string();
        let op = sym::pick("op", if i == 0 { 2 } else { 4 });
        // which attribute this operation is about
        let at = match ns {
            Some(_) => model.iter().position(|a| a.ns == ns && a.local == local),
            None => model.iter().position(|a| a.q() == q),
        };
        match op {
            0 => {
                let r = match ns {
                    Some(n) => e.set_attribute_ns(n, q, &value),
                    None => e.set_attribute(q, &value),
                };
                sym::assert(r.is_ok(), "P10.set-ok");
                match (at, ns) {
                    (Some(k), None) => model[k].value = value,
                    (Some(k), Some(_)) => {
                        model[k].value = value;
                        model[k].prefix = prefix;
                        sym::reach("P10.overwritten");
                    }
                    _ => model.push(A { ns, prefix, local, value }),
                }
            }
            1 => {
                let mut a = match ns {
                    Some(n) => doc.create_attribute_ns(n, q),
                    None => doc.create_attribute(q),
                }
                .unwrap();
                a.set_value(&value).unwrap();
                let r = if ns.is_some() { e.set_attribute_node_ns(a.clone()) } else { e.set_attribute_node(a.clone()) };
                sym::assert(r.is_ok(), "P10.set-node-ok");
                if let Some(k) = at {
                    let _ = model.remove(k);
                }
                model.push(A { ns, prefix, local, value });
            }
            2 => {
                let r = match ns {
                    Some(n) => e.remove_attribute_ns(n, &local),
                    None => e.remove_attribute(q),
                };
                sym::assert(r.is_ok(), "P10.remove-ok");
                if let Some(k) = at {
                    let _ = model.remove(k);
                    sym::reach("P10.removed");
                }
            }
            _ => {
                let n = match ns {
                    Some(n) => e.get_attribute_node_ns(n, &local),
                    None => e.get_attribute_node(q),
                };
                sym::assert(n.is_some() == at.is_some(), "P10.get-node");
                if let (Some(n), Some(k)) = (n, at) {
                    sym::assert(e.remove_attribute_node(n).is_ok(), "P10.remove-node-ok");
                    let _ = model.remove(k);
                }
            }
        }
        // two attributes with one qualified name: which one a lookup by that name finds is open
        for a in &model {
            if model.iter().filter(|b| b.q() == a.q()).count() > 1 {
                return;
            }
        }
        ns_state(&e, &model);
    }
    sym::reach("P10.end");
}

/// P10: near misses: the namespace, the prefix or the local name differs in one character
pub fn h_attr_ns_near() {
    sym::panic_id("P10.panic");
    let doc = new_doc();
    warm(&doc);
    let mut e = root(&doc);
    let with_prefix = sym::bool("with-prefix");
    e.set_attribute_ns(NA, if with_prefix { "p:x" } else { "x" }, "v").unwrap();
    let (mut ns, mut prefix, mut local) = (NA.to_string(), Some("p".to_string()), "x".to_string());
    match sym::pick("what", 3) {
        0 => ns = near("edit", NA, any_ascii),
        1 if sym::bool("no-prefix") => prefix = None,
        1 => prefix = Some(near("edit", "p", any_ascii)),
        _ => local = near("edit", "x", any_ascii),
    }
    let q = match &prefix {
        Some(p) => format!("{}:{}", p, local),
        None => local.clone(),
    };
    let (ok, _) = crate::names::qname(&q.chars().collect::<Vec<char>>());
    let ok = ok & !ns.is_empty();
    let same = sym::same(&ns, NA) & sym::same(&local, "x");
    sym::assert(e.has_attribute_ns(&ns, &local) == same, "P10.near");
    sym::assert(e.get_attribute_ns(&ns, &local).is_some() == same, "P10.near");
    sym::assert(e.get_attribute_node_ns(&ns, &local).is_some() == same, "P10.near");
    let named = sym::same(&q, if with_prefix { "p:x" } else { "x" });
    sym::assert(e.has_attribute(&q) == named, "P10.near");
    sym::assert(e.get_attribute(&q).is_some() == named, "P10.near");
    // with a colon it is not a local name
    sym::assert(!e.has_attribute_ns(NA, "p:x") && e.get_attribute_ns(NA, "p:x").is_none(), "P10.near");
    sym::assert(e.set_attribute_ns(&ns, &q, "w").is_ok() == ok, "P10.set-ok");
    sym::assert(e.attributes().len() == if same | !ok { 1 } else { 2 }, "P10.near-count");
    if ok {
        sym::assert(e.get_attribute_ns(&ns, &local).as_deref() == Some("w"), "P10.near");
        sym::assert(e.has_attribute_ns(&ns, &local), "P10.near");
    } else {
        sym::reach("P10.near-refused");
    }
    sym::assert(e.get_attribute_ns(NA, "x").as_deref() == Some(if same & ok { "w" } else { "v" }), "P10.near");
    sym::observe(same as u64);
    if same & ok {
        sym::reach("P10.near-same");
        let n = e.get_attribute_node_ns(NA, "x").unwrap().node_name();
        sym::assert(sym::same_opt(n.prefix(), &prefix), "P10.near-prefix");
    } else {
        sym::reach("P10.near-other");
    }
    sym::assert(e.remove_attribute_ns(&ns, &local).is_ok(), "P10.remove-ok");
    sym::assert(e.has_attribute_ns(NA, "x") != same, "P10.near-removed");
}

/// P11: attribute nodes and the elements that own them
pub fn h_attr_nodes() {
    sym::panic_id("P11.panic");
    let doc = new_doc();
    warm(&doc);
    let mut es = [doc.create_element("e").unwrap(), doc.create_element("f").unwrap()];
    let attrs = [
        doc.create_attribute_with("x", "0").unwrap(),
        doc.create_attribute_with("x", "1").unwrap(),
        doc.create_attribute_ns(NA, "p:y").unwrap(),
        doc.create_attribute_ns(NA, "q:y").unwrap(),
    ];
    let class = [0, 0, 1, 1];
    let mut owner: [Option<usize>; 4] = [None; 4];
    let steps = if sym::thorough() { 4 } else { 3 };
    for _ in 0..steps {
        let k = sym::pick("element", 2);
        let a = sym::pick("attribute", 4);
        let attr = attrs[a].clone();
        let before: Vec<Option<usize>> = owner.to_vec();
        match sym::pick("op", 4) {
            op @ (0 | 1) => {
                let r = if op == 0 { es[k].set_attribute_node(attr) } else { es[k].set_attribute_node_ns(attr) };
                match owner[a] {
                    Some(o) if o != k => {
                        sym::assert(matches!(r, Err(Error::InUseAttribute)), "P11.in-use");
                        sym::reach("P11.in-use");
                    }
                    _ => {
                        sym::assert(r.is_ok(), "P11.set-accepted");
                        for b in 0..4 {
                            if b != a && class[b] == class[a] && owner[b] == Some(k) {
                                owner[b] = None;
                                sym::reach("P11.replaced");
                            }
                        }
                        owner[a] = Some(k);
                    }
                }
            }
            2 => {
                let r = es[k].remove_attribute_node(attr.clone());
                if owner[a] == Some(k) {
                    sym::assert(r.is_ok() && r.unwrap() == attr, "P11.remove-accepted");
                    owner[a] = None;
                    sym::reach("P11.removed");
                } else {
                    sym::assert(matches!(r, Err(Error::NotFound)), "P11.not-found");
                    sym::reach("P11.not-found");
                }
            }
            _ => {
                let r = if class[a] == 0 { es[k].remove_attribute("x") } else { es[k].remove_attribute_ns(NA, "y") };
                sym::assert(r.is_ok(), "P11.remove-by-name");
                for b in 0..4 {
                    if class[b] == class[a] && owner[b] == Some(k) {
                        owner[b] = None;
                    }
                }
            }
        }
        let _ = before;
        for a in 0..4 {
            let got = as_attribute(&attrs[a]).unwrap().owner_element();
            let want = owner[a].map(|k| es[k].clone());
            sym::assert(same_node(&got, &want), "P11.owner-element");
            for k in 0..2 {
                let listed = es[k].attributes().values().filter(|n| **n == attrs[a]).count();
                sym::assert(listed == (owner[a] == Some(k)) as usize, "P11.listed-by-owner");
                if owner[a] == Some(k) {
                    let n = if class[a] == 0 { es[k].get_attribute_node("x") } else { es[k].get_attribute_node_ns(NA, "y") };
                    sym::assert(n.as_ref() == Some(&attrs[a]), "P11.found-by-name");
                }
            }
            sym::assert(attrs[a].parent_node().is_none(), "P11.no-parent");
            sym::assert(attrs[a].next_sibling().is_none() && attrs[a].previous_sibling().is_none(), "P11.no-sibling");
        }
        for k in 0..2 {
            sym::assert(es[k].attributes().len() == owner.iter().filter(|o| **o == Some(k)).count(), "P11.count");
        }
    }
    // not an attribute, not an element
    let mut t = doc.create_text_node("t");
    sym::assert(es[0].set_attribute_node(t.clone()).is_err(), "P11.not-an-attribute");
    sym::assert(t.set_attribute_node(attrs[0].clone()).is_err() && t.set_attribute("x", "v").is_err(), "P11.not-an-element");
    sym::assert(es[0].set_attribute_node(doc.create_element("x").unwrap()).is_err(), "P11.not-an-attribute");
}

/// P12: `get_element_by_id` finds the element that has the identifier now
pub fn h_ids() {
    sym::panic_id("P12.panic");
    let mut options = ProcessingOptions::new();
    let lax = sym::bool("lax");
    if lax {
        options.set_assume_ids();
    }
    let doc = get_implementation_ext().create_document_with_options(None, Some("r"), None, options).unwrap();
    warm(&doc);
    let mut r = root(&doc);
    let mut es = [r.clone(), doc.create_element("e").unwrap()];
    let _ = r.append_child(es[1].clone()).unwrap();
    // the attribute that identifies: xml:id, or id where the options say so
    let by_ns = sym::bool("ns");
    let qname = if lax && !by_ns { "id" } else { "xml:id" };
    let plain = if lax { "identity" } else { "id" };
    let mut have: [Option<String>; 2] = [None, None];
    let mut there = [false; 2];
    let steps = if sym::thorough() { 4 } else { 3 };
    for _ in 0..steps {
        let k = sym::pick("element", 2);
        let op = sym::pick("op", 8);
        let id = if op < 3 { sym::one_of("id", &["i", "j"]) } else { "" }.to_string();
        let clash = have[1 - k].as_ref() == Some(&id);
        let set = |r: Result<()>, have: &mut [Option<String>; 2], there: &mut [bool; 2]| {
            if clash {
                sym::assert(r.is_err(), "P12.duplicate-refused");
                sym::reach("P12.duplicate");
            } else {
                sym::assert(r.is_ok(), "P12.unique-accepted");
                have[k] = Some(id.clone());
                there[k] = true;
            }
        };
        match op {
            0 => {
                let r = if by_ns { es[k].set_attribute_ns(XML_NS, "xml:id", &id) } else { es[k].set_attribute(qname, &id) };
                set(r, &mut have, &mut there);
            }
            1 => {
                let mut a = if by_ns { doc.create_attribute_ns(XML_NS, "xml:id") } else { doc.create_attribute(qname) }.unwrap();
                a.set_value(&id).unwrap();
                set(es[k].set_attribute_node(a).map(|_| ()), &mut have, &mut there);
            }
            2 => {
                let a = es[k].get_attribute_node(qname);
                sym::assert(a.is_some() == there[k], "P12.attribute");
                if let Some(mut a) = a {
                    set(a.set_value(&id), &mut have, &mut there);
                    sym::reach("P12.value-changed");
                }
            }
            3 => {
                let r = if by_ns { es[k].remove_attribute_ns(XML_NS, "id") } else { es[k].remove_attribute(qname) };
                sym::assert(r.is_ok(), "P12.removed");
                have[k] = None;
                there[k] = false;
            }
            4 => {
                if let Some(a) = es[k].get_attribute_node(qname) {
                    sym::assert(es[k].remove_attribute_node(a).is_ok(), "P12.removed");
                    have[k] = None;
                    there[k] = false;
                    sym::reach("P12.node-removed");
                }
            }
            5 => {
                // no value, but there
                if let Some(mut a) = es[k].get_attribute_node(qname) {
                    sym::assert(a.unset_value().is_ok(), "P12.unset");
                    have[k] = None;
                    sym::reach("P12.unset");
                }
            }
            6 => {
                // another without a value takes its place
                let a = if by_ns { doc.create_attribute_ns(XML_NS, "xml:id") } else { doc.create_attribute(qname) }.unwrap();
                sym::assert(es[k].set_attribute_node_ns(a).is_ok(), "P12.replaced");
                have[k] = None;
                there[k] = true;
            }
            _ => {
                // not an identifier
                sym::assert(es[k].set_attribute(plain, "k").is_ok(), "P12.plain");
            }
        }
        for id in ["i", "j", "k"] {
            let want = (0..2).find(|k| have[*k].as_deref() == Some(id)).map(|k| es[k].clone());
            sym::assert(same_node(&doc.get_element_by_id(id), &want), "P12.found");
            sym::observe(want.is_some() as u64);
        }
        for k in 0..2 {
            sym::assert(es[k].get_attribute(qname) == have[k], "P12.value");
        }
    }
    sym::reach("P12.end");
}

/// P12: an identifier, and ones that differ in one character
pub fn h_ids_near() {
    sym::panic_id("P12.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let mut e = doc.create_element("e").unwrap();
    let _ = r.append_child(e.clone()).unwrap();
    let a = "id-1";
    let b = near("b", a, any_name_char);
    let c = near("c", a, any_name_char);
    sym::assert(r.set_attribute("xml:id", a).is_ok(), "P12.unique-accepted");
    let ab = sym::same(a, &b);
    let res = e.set_attribute("xml:id", &b);
    sym::assert(res.is_ok() != ab, "P12.duplicate-refused");
    let got = doc.get_element_by_id(&c);
    if sym::same(&c, a) {
        sym::assert(got.as_ref() == Some(&r), "P12.found");
    } else if sym::same(&c, &b) {
        sym::assert(got.as_ref() == Some(&e), "P12.found");
        sym::reach("P12.second");
    } else {
        sym::assert(got.is_none(), "P12.found");
        sym::reach("P12.none");
    }
    sym::observe(ab as u64);
}

/// P12: which attributes are identifiers: one character of the name may differ
pub fn h_id_names() {
    sym::panic_id("P12.panic");
    let lax = sym::bool("lax");
    let mut options = ProcessingOptions::new();
    if lax {
        options.set_assume_ids();
    }
    let doc = get_implementation_ext().create_document_with_options(None, Some("r"), None, options).unwrap();
    warm(&doc);
    let mut e = root(&doc);
    let ns = [None, Some(XML_NS), Some("urn:x")][sym::pick("ns", 3)];
    let base = if ns == Some(XML_NS) { sym::one_of("base", &["xml:id", "id"]) } else { sym::one_of("base", &["id", "p:id", "xml:id"]) };
    sym::assume(!(ns == Some("urn:x") && base == "xml:id"));
    let q = near("edit", base, any_name_char);
    let (prefix, local) = split(&q);
    let r = match ns {
        None => e.set_attribute(&q, "i"),
        Some(u) => e.set_attribute_ns(u, &q, "i"),
    };
    if r.is_err() {
        sym::assert(doc.get_element_by_id("i").is_none(), "P12.refused");
        return;
    }
    let is_id = sym::same(&local, "id");
    let xml = ns == Some(XML_NS) || (ns.is_none() && prefix.as_ref().map(|p| sym::same(p, "xml")).unwrap_or(false));
    let want = is_id & (lax | xml);
    sym::assert(doc.get_element_by_id("i").is_some() == want, "P12.id-names");
    sym::observe(want as u64);
    if want {
        sym::reach("P12.id-name");
    } else {
        sym::reach("P12.other-name");
    }
    sym::assert(doc.get_element_by_id("").is_none() && doc.get_element_by_id("I").is_none(), "P12.found");
    let r = match ns {
        None => e.remove_attribute(&q),
        Some(u) => e.remove_attribute_ns(u, &local),
    };
    sym::assert(r.is_ok() && doc.get_element_by_id("i").is_none(), "P12.id-removed");
}

/// P12: elements that have an identifier and are moved, taken out, cloned or dropped
pub fn h_ids_dropped() {
    sym::panic_id("P12.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let mut e = doc.create_element("e").unwrap();
    let attached = sym::bool("attached");
    let mut f = doc.create_element("f").unwrap();
    let depth = sym::bool("deep");
    if depth {
        let _ = f.append_child(e.clone()).unwrap();
    }
    let mut top = if depth { f.clone() } else { e.clone() };
    if attached {
        let _ = r.append_child(top.clone()).unwrap();
    }
    e.set_attribute("xml:id", "i").unwrap();
    sym::assert(doc.get_element_by_id("i").as_ref() == Some(&e), "P12.found");
    let _ = r.set_attribute("xml:id", "j").unwrap();
    match sym::pick("op", 3) {
        0 => {
            // dropped
            if attached {
                let _ = r.remove_child(top.clone()).unwrap();
            }
            drop(e);
            drop(top);
            drop(f);
            sym::assert(doc.get_element_by_id("i").is_none(), "P12.dropped");
            let mut g = doc.create_element("g").unwrap();
            sym::assert(g.set_attribute("xml:id", "i").is_ok(), "P12.dropped-is-free");
            sym::assert(doc.get_element_by_id("i").as_ref() == Some(&g), "P12.found");
            sym::reach("P12.dropped");
        }
        1 => {
            // the attribute kept, the element dropped
            let mut a = e.get_attribute_node("xml:id").unwrap();
            if attached {
                let _ = r.remove_child(top.clone()).unwrap();
            }
            drop(e);
            drop(top);
            drop(f);
            sym::assert(a.set_value("k").is_ok(), "P12.attribute-kept");
            sym::assert(doc.get_element_by_id("k").is_none() && doc.get_element_by_id("i").is_none(), "P12.dropped");
        }
        _ => {
            // a clone does not take the identifier over
            let c = top.clone_node(true).unwrap();
            sym::assert(doc.get_element_by_id("i").as_ref() == Some(&e), "P12.found");
            drop(c);
            sym::assert(doc.get_element_by_id("i").as_ref() == Some(&e), "P12.found");
            if attached {
                let _ = r.append_child(top.clone()).unwrap();
                sym::assert(doc.get_element_by_id("i").as_ref() == Some(&e), "P12.found");
            }
            sym::assert(top.set_node_value("x").is_ok() && e.remove_attribute("xml:id").is_ok(), "P12.removed");
            sym::assert(doc.get_element_by_id("i").is_none(), "P12.found");
        }
    }
    sym::assert(doc.get_element_by_id("j").as_ref() == Some(&r), "P12.found");
}

/// P13: declarations on nested elements
pub fn h_ns() {
    sym::panic_id("P13.panic");
    let doc = new_doc();
    warm(&doc);
    let mut es = vec![root(&doc)];
    for n in ["a", "b"] {
        let e = doc.create_element(n).unwrap();
        let _ = es.last().unwrap().clone().append_child(e.clone()).unwrap();
        es.push(e);
    }
    // declared[level][prefix]
    let prefixes = [Some("p"), Some("q"), None];
    let uris = ["urn:1", "urn:2"];
    let mut decl: [[Option<&str>; 3]; 3] = [[None; 3]; 3];
    let steps = if sym::thorough() { 4 } else { 3 };
    for _ in 0..steps {
        let l = sym::pick("level", 3);
        let p = sym::pick("prefix", if sym::thorough() { 3 } else { 2 } + 1 - 1);
        let p = if p == 1 && !sym::thorough() { 2 } else { p };
        let (q, local) = match prefixes[p] {
            Some(x) => (format!("xmlns:{}", x), x),
            None => ("xmlns".to_string(), "xmlns"),
        };
        match sym::pick("op", 4) {
            0 => {
                let u = sym::one_of("uri", &uris);
                sym::assert(es[l].set_attribute_ns(XMLNS_NS, &q, u).is_ok(), "P13.declared");
                decl[l][p] = Some(u);
            }
            1 => {
                sym::assert(es[l].remove_attribute_ns(XMLNS_NS, local).is_ok(), "P13.removed");
                if decl[l][p].is_some() {
                    sym::reach("P13.removed");
                }
                decl[l][p] = None;
            }
            2 => {
                let mut a = doc.create_attribute_ns(XMLNS_NS, &q).unwrap();
                let u = sym::one_of("uri", &uris);
                a.set_value(u).unwrap();
                sym::assert(es[l].set_attribute_node_ns(a).is_ok(), "P13.declared");
                decl[l][p] = Some(u);
            }
            _ => {
                if let Some(mut a) = es[l].get_attribute_node_ns(XMLNS_NS, local) {
                    sym::assert(a.set_value("urn:2").is_ok(), "P13.changed");
                    decl[l][p] = Some("urn:2");
                    sym::reach("P13.changed");
                }
            }
        }
    }
    let out = sym::bool("detached");
    if out {
        let a = es[1].clone();
        let _ = es[0].remove_child(a).unwrap();
    }
    lookups(&es, &decl, if out { 1 } else { 0 });
    sym::reach("P13.end");
}

const PREFIXES: [Option<&str>; 3] = [Some("p"), Some("q"), None];

/// every lookup from every level; levels from `cut` on are not below the others
fn lookups(es: &[RefNode], decl: &[[Option<&str>; 3]; 3], cut: usize) {
    let prefixes = PREFIXES;
    for l in 0..3 {
        let ns = as_element_namespaced(&es[l]).unwrap();
        let up: Vec<usize> = (0..=l).rev().filter(|k| !(*k < cut && l >= cut)).collect();
        for p in 0..3 {
            let own = decl[l][p];
            sym::assert(ns.contains_mapping(prefixes[p]) == own.is_some(), "P13.contains-mapping");
            sym::assert(ns.get_namespace(prefixes[p]).as_deref() == own, "P13.get-namespace");
            let near = up.iter().find_map(|k| decl[*k][p]);
            sym::assert(ns.resolve_namespace(prefixes[p]).as_deref() == near, "P13.resolve-namespace");
        }
        for u in ["urn:1", "urn:2"] {
            let ok = |k: usize, g: &NamespacePrefix| match g {
                NamespacePrefix::None => false,
                NamespacePrefix::Default => decl[k][2] == Some(u),
                NamespacePrefix::Some(s) => (0..2).any(|p| prefixes[p] == Some(s) && decl[k][p] == Some(u)),
            };
            let has = |k: usize| decl[k].contains(&Some(u));
            sym::assert(ns.contains_mapped_namespace(u) == has(l), "P13.contains-namespace");
            let g = ns.get_prefix(u);
            sym::assert(if has(l) { ok(l, &g) } else { g.is_none() }, "P13.get-prefix");
            let g = ns.resolve_prefix(u);
            match up.iter().find(|k| has(**k)) {
                Some(k) => sym::assert(ok(*k, &g), "P13.resolve-prefix"),
                None => sym::assert(g.is_none(), "P13.resolve-prefix"),
            }
        }
    }
}

/// P13: entity references on the way up, and the other ways to take a declaration back
pub fn h_ns_through() {
    sym::panic_id("P13.panic");
    let doc = new_doc();
    warm(&doc);
    let mut es = vec![root(&doc)];
    let mut tops = vec![];
    let through = sym::pick("through", 4);
    for (i, n) in ["a", "b"].iter().enumerate() {
        let e = doc.create_element(n).unwrap();
        let mut up = es.last().unwrap().clone();
        let mut top = e.clone();
        if through & (1 << i) != 0 {
            let mut r = doc.create_entity_reference("r").unwrap();
            let _ = r.append_child(e.clone()).unwrap();
            top = r;
        }
        let _ = up.append_child(top.clone()).unwrap();
        tops.push(top);
        es.push(e);
    }
    let mut decl: [[Option<&str>; 3]; 3] = [[None; 3]; 3];
    for l in 0..3 {
        let (q, p, u) = [("", 0, ""), ("xmlns:p", 0, "urn:1"), ("xmlns:p", 0, "urn:2"), ("xmlns", 2, "urn:1")][sym::pick("declared", 4)];
        if q != "" {
            es[l].set_attribute_ns(XMLNS_NS, q, u).unwrap();
            decl[l][p] = Some(u);
        }
    }
    let l = sym::pick("level", 3);
    let p = if sym::pick("prefix", 2) == 1 { 2 } else { 0 };
    let (q, local) = if p == 0 { ("xmlns:p", "p") } else { ("xmlns", "xmlns") };
    let mut cut = 0;
    let attr = es[l].get_attribute_node_ns(XMLNS_NS, local);
    sym::assert(attr.is_some() == decl[l][p].is_some(), "P13.attribute");
    match (sym::pick("op", 6), attr) {
        (0, Some(mut a)) => {
            sym::assert(a.unset_value().is_ok(), "P13.unset");
            decl[l][p] = None;
            sym::reach("P13.unset");
        }
        (1, Some(a)) => {
            sym::assert(es[l].remove_attribute_node(a).is_ok(), "P13.removed");
            decl[l][p] = None;
        }
        (2, _) => {
            sym::assert(es[l].remove_attribute(q).is_ok(), "P13.removed");
            decl[l][p] = None;
        }
        (3, Some(_)) => {
            sym::assert(es[l].set_attribute(q, "urn:2").is_ok(), "P13.changed");
            decl[l][p] = Some("urn:2");
        }
        (4, _) => {
            // one without a value
            let a = doc.create_attribute_ns(XMLNS_NS, q).unwrap();
            sym::assert(es[l].set_attribute_node(a).is_ok(), "P13.replaced");
            decl[l][p] = None;
        }
        (5, _) if l > 0 => {
            // out of the tree, and back, or not
            let mut up = tops[l - 1].parent_node().unwrap();
            let _ = up.remove_child(tops[l - 1].clone()).unwrap();
            cut = l;
            if p == 2 {
                let _ = up.append_child(tops[l - 1].clone()).unwrap();
                cut = 0;
            }
            sym::reach("P13.moved");
        }
        _ => (),
    }
    lookups(&es, &decl, cut);
    sym::reach("P13.through");
}

fn any_uri_char() -> char {
    let c = sym::ascii("asc");
    sym::assume((c > ' ') & (c != '&') & (c != '<') & (c != '"') & (c != '\'') & (c != '>'));
    c
}

/// P13: declared and looked up with an arbitrary character; nothing is kept unless it was asked for
pub fn h_ns_near() {
    sym::panic_id("P13.panic");
    let on = sym::bool("add-namespaces");
    let mut options = ProcessingOptions::new();
    if on {
        options.set_add_namespaces();
    }
    let doc = get_implementation_ext().create_document_with_options(None, Some("r"), None, options).unwrap();
    warm(&doc);
    let mut r = root(&doc);
    let mut e = doc.create_element("e").unwrap();
    let _ = r.append_child(e.clone()).unwrap();
    let prefixes = sym::bool("prefixes");
    let a = "pr".to_string();
    let b = if prefixes { near("b", "pr", any_name_char) } else { "pr".to_string() };
    let c = if prefixes { near("c", "pr", any_name_char) } else { "pr".to_string() };
    let (u1, u2) = ("urn:1".to_string(), if prefixes { "urn:2".to_string() } else { near("uri", "urn:1", any_uri_char) });
    sym::assume(!u2.is_empty());
    let u3 = if prefixes { "urn:2".to_string() } else { near("lookup", "urn:1", any_uri_char) };
    sym::assert(r.set_attribute_ns(XMLNS_NS, &format!("xmlns:{}", a), &u1).is_ok(), "P13.declared");
    let declared = e.set_attribute_ns(XMLNS_NS, &format!("xmlns:{}", b), &u2).is_ok();
    // not every string is a prefix
    let (valid, _) = crate::names::qname(&b.chars().collect::<Vec<char>>());
    sym::assert(declared == valid, "P13.declared");
    let ns = as_element_namespaced(&e).unwrap();
    let got = ns.resolve_namespace(Some(&c));
    let cb = declared & sym::same(&c, &b);
    let ca = sym::same(&c, &a);
    if on & cb {
        sym::assert(got.map(|g| sym::same(&g, &u2)) == Some(true), "P13.resolve-namespace");
        sym::reach("P13.nearest");
    } else if on & ca {
        sym::assert(got.map(|g| sym::same(&g, &u1)) == Some(true), "P13.resolve-namespace");
        sym::reach("P13.ancestor");
    } else {
        sym::assert(got.is_none(), "P13.resolve-namespace");
    }
    sym::assert(ns.get_namespace(Some(&c)).is_some() == (on & cb), "P13.get-namespace");
    sym::assert(ns.contains_mapping(Some(&c)) == (on & cb), "P13.contains-mapping");
    sym::assert(ns.resolve_namespace(None).is_none(), "P13.no-default");
    let here = declared & sym::same(&u3, &u2);
    let up = sym::same(&u3, &u1);
    sym::assert(ns.contains_mapped_namespace(&u3) == (on & here), "P13.contains-namespace");
    sym::assert(ns.get_prefix(&u3).is_some() == (on & here), "P13.get-prefix");
    let p = ns.resolve_prefix(&u3).some();
    sym::assert(p.is_some() == (on & (here | up)), "P13.resolve-prefix");
    if let Some(p) = p {
        sym::assert(if here { sym::same(&p, &b) } else { sym::same(&p, &a) }, "P13.resolve-prefix");
    }
    // an ordinary attribute declares nothing
    e.set_attribute_ns(NA, "xyz:z", "urn:33").unwrap();
    e.set_attribute("z", "urn:33").unwrap();
    let ns = as_element_namespaced(&e).unwrap();
    sym::assert(!ns.contains_mapped_namespace("urn:33") && (ns.get_namespace(Some("z")).is_none() | sym::same(&b, "z")), "P13.only-declarations");
}

/// P15: the reserved prefixes and names
pub fn h_reserved() {
    sym::panic_id("P15.panic");
    let doc = new_doc();
    let base = sym::one_of("qname", &["xml:a", "xmlns:a", "xmlns", "p:a", "a"]);
    let base_uri = sym::one_of("uri", &[XML_NS, XMLNS_NS, "urn:a", ""]);
    let (q, u) = match sym::pick("changed", 2) {
        0 => (near("name-edit", base, any_name_char), base_uri.to_string()),
        _ => (base.to_string(), near("uri-edit", base_uri, any_ascii)),
    };
    let (name_ok, _) = crate::names::qname(&q.chars().collect::<Vec<char>>());
    sym::assume(name_ok);
    let (prefix, local) = split(&q);
    let is = |s: &str| prefix.as_ref().map(|p| sym::same(p, s)).unwrap_or(false);
    let lone = |s: &str| prefix.is_none() & sym::same(&local, s);
    let not_xml = !sym::same(&u, XML_NS);
    let not_xmlns = !sym::same(&u, XMLNS_NS);
    let wrong = (is("xml") & not_xml) | (is("xmlns") & not_xmlns) | (lone("xmlns") & not_xmlns);
    // the reserved names as local parts of other names are left open
    sym::assume(!(sym::same(&local, "xml") | (prefix.is_some() & sym::same(&local, "xmlns"))));
    let r = match sym::pick("how", 5) {
        0 => doc.create_element_ns(&u, &q).map(|n| n.node_name()),
        1 => doc.create_attribute_ns(&u, &q).map(|n| n.node_name()),
        2 => {
            let mut e = root(&doc);
            let r = e.set_attribute_ns(&u, &q, "v");
            let n = e.attributes().len();
            sym::assert(n == r.is_ok() as usize, "P15.refused-unchanged");
            r.map(|_| e.attributes().into_keys().next().unwrap())
        }
        3 => get_implementation().create_document(Some(&u), Some(&q), None).map(|d| root(&d).node_name()),
        _ => Name::new_ns(&u, &q),
    };
    sym::observe(code(&r));
    match &r {
        Ok(n) => {
            sym::assert(!wrong, "P15.reserved-refused");
            sym::assert(!u.is_empty(), "P15.empty-namespace");
            sym::assert(sym::same_opt(n.namespace_uri(), &Some(u.clone())), "P15.namespace-kept");
            sym::assert(sym::same_opt(n.prefix(), &prefix) & sym::same(n.local_name(), &local), "P15.name-kept");
            sym::reach("P15.accepted");
        }
        Err(e) => {
            sym::assert(wrong | u.is_empty(), "P15.legal-accepted");
            if u.is_empty() {
                sym::assert(matches!(e, Error::Syntax | Error::Namespace), "P15.empty-error");
                sym::reach("P15.empty");
            } else {
                sym::assert(matches!(e, Error::Namespace), "P15.namespace-error");
                sym::reach("P15.reserved");
            }
        }
    }
}

/// P15: changing the prefix of a name keeps to the same rules
pub fn h_set_prefix() {
    sym::panic_id("P15.panic");
    let (ns, q) = [(Some(XML_NS), "xml:a"), (Some(XMLNS_NS), "xmlns:a"), (Some(NS), "p:a"), (Some(NS), "a"), (None, "p:a"), (None, "a")]
        [sym::pick("name", 6)];
    let mut n = match ns {
        Some(u) => Name::new_ns(u, q).unwrap(),
        None => Name::from_str(q).unwrap(),
    };
    let old = n.clone();
    let s: Option<String> = match sym::pick("prefix", 4) {
        0 => None,
        1 => Some(sym::string("len", 0, if sym::thorough() { 2 } else { 1 })),
        2 => Some(format!("xm{}", sym::ascii("asc"))),
        _ => Some(format!("xmln{}", sym::ascii("asc"))),
    };
    let r = n.set_prefix(s.as_deref());
    sym::observe(code(&r));
    let mut legal = true;
    if let Some(p) = &s {
        legal = !p.is_empty();
        for (i, c) in p.chars().enumerate() {
            legal &= if i == 0 { name_start(c) } else { name_char(c) };
        }
        let xml = sym::same(p, "xml") & (ns != Some(XML_NS));
        let xmlns = sym::same(p, "xmlns") & (ns != Some(XMLNS_NS));
        legal &= ns.is_none() | !(xml | xmlns);
    }
    sym::assert(r.is_ok() == legal, "P15.prefix-accepted");
    if r.is_ok() {
        sym::assert(sym::same_opt(n.prefix(), &s), "P15.prefix-set");
        sym::assert(n.local_name() == old.local_name() && n.namespace_uri() == old.namespace_uri(), "P15.prefix-only");
        sym::reach("P15.prefix-ok");
    } else {
        sym::assert(n == old, "P15.prefix-unchanged");
        sym::reach("P15.prefix-refused");
    }
}

/// changes or keeps the value of an attribute through its children; the new value
fn through_children(doc: &RefNode, a: &mut RefNode, op: usize, new: &str) -> String {
    let old = a.value().unwrap_or_default();
    let mut t = a.first_child().unwrap();
    match op {
        0 => t.set_node_value(new).unwrap(),
        1 => as_character_data_mut(&mut t).unwrap().set_data(new).unwrap(),
        2 => t.replace_data(0, old.chars().count(), new).unwrap(),
        3 => {
            let _ = a.replace_child(doc.create_text_node(new), t).unwrap();
        }
        4 => {
            let _ = a.append_child(doc.create_text_node(new)).unwrap();
            return old + new;
        }
        5 => {
            let _ = a.insert_before(doc.create_text_node(new), Some(t)).unwrap();
            return new.to_string() + &old;
        }
        6 => {
            t.append_data(new).unwrap();
            return old + new;
        }
        7 => {
            t.insert_data(0, new).unwrap();
            return new.to_string() + &old;
        }
        // the value stays
        8 => {
            let _ = as_text_mut(&mut t).unwrap().split(1).unwrap();
            return old;
        }
        9 => {
            let _ = a.append_child(doc.create_text_node("")).unwrap();
            a.normalize();
            return old;
        }
        _ => {
            let _ = a.remove_child(t.clone()).unwrap();
            let _ = a.append_child(t).unwrap();
            return old;
        }
    }
    new.to_string()
}

/// P12: the identifier changed through the children of its attribute
pub fn h_ids_child() {
    sym::panic_id("P12.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let mut e = doc.create_element("e").unwrap();
    let _ = r.append_child(e.clone()).unwrap();
    sym::assert(r.set_attribute("xml:id", "j").is_ok() && e.set_attribute("xml:id", "i9").is_ok(), "P12.unique-accepted");
    let mut a = e.get_attribute_node("xml:id").unwrap();
    let new = sym::one_of("new", &["k", "i9"]);
    let v = through_children(&doc, &mut a, sym::pick("op", 11), new);
    sym::assert(e.get_attribute("xml:id").as_deref() == Some(v.as_str()), "P12.value");
    let found = doc.get_element_by_id(&v).as_ref() == Some(&e);
    if v == "i9" {
        sym::assert(found, "P12.found");
        sym::reach("P12.value-kept");
    } else {
        sym::reach("P12.value-changed-below");
        sym::assert(found && doc.get_element_by_id("i9").is_none(), "P12.through-child");
    }
    sym::assert(doc.get_element_by_id("j").as_ref() == Some(&r) && doc.get_element_by_id("").is_none(), "P12.found");
    sym::observe(found as u64);
}

/// P13: a namespace changed through the children of its declaration
pub fn h_ns_child() {
    sym::panic_id("P13.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let mut e = doc.create_element("e").unwrap();
    let _ = r.append_child(e.clone()).unwrap();
    let default = sym::bool("default");
    let (q, l, p) = if default { ("xmlns", "xmlns", None) } else { ("xmlns:p", "p", Some("p")) };
    sym::assert(r.set_attribute_ns(XMLNS_NS, q, "urn:i").is_ok() && r.set_attribute_ns(XMLNS_NS, "xmlns:o", "urn:j").is_ok(), "P13.declared");
    let mut a = r.get_attribute_node_ns(XMLNS_NS, l).unwrap();
    let new = sym::one_of("new", &["urn:k", "urn:i"]);
    let v = through_children(&doc, &mut a, sym::pick("op", 11), new);
    sym::assert(r.get_attribute_ns(XMLNS_NS, l).as_deref() == Some(v.as_str()), "P13.value");
    let ns = as_element_namespaced(&e).unwrap();
    let got = ns.resolve_namespace(p);
    sym::assert(got.is_some(), "P13.resolve-namespace");
    if v == "urn:i" {
        sym::assert(got.as_deref() == Some("urn:i") && !ns.resolve_prefix("urn:i").is_none(), "P13.resolve-namespace");
        sym::reach("P13.value-kept");
    } else {
        sym::reach("P13.value-changed-below");
        sym::assert(got.as_deref() == Some(v.as_str()), "P13.through-child");
    }
    sym::assert(ns.resolve_namespace(Some("o")).as_deref() == Some("urn:j"), "P13.resolve-namespace");
    sym::observe_opt(&got);
}
