//! P22 XML declarations, P23 processing options, P24 features, P25 new documents and document types.
use crate::common::*;

fn alnum(c: u32) -> bool {
    within(c, 0x30, 0x39) | within(c, 0x41, 0x5A) | within(c, 0x61, 0x7A)
}
/// EncName ::= [A-Za-z] ([A-Za-z0-9._] | '-')*
fn enc_name(s: &str) -> bool {
    let mut ok = !s.is_empty();
    for (i, c) in s.chars().enumerate() {
        let c = c as u32;
        ok &= if i == 0 {
            alnum(c) & !within(c, 0x30, 0x39)
        } else {
            alnum(c) | (c == 0x2E) | (c == 0x5F) | (c == 0x2D)
        };
    }
    ok
}

/// P22: the encoding is checked; what is accepted is kept and printed
pub fn h_decl() {
    sym::panic_id("P22.panic");
    let mut doc = empty_doc();
    sym::assert(as_document_decl(&doc).unwrap().xml_declaration().is_none(), "P22.none");
    let s = match sym::pick("form", 3) {
        0 => sym::string("len", 0, if sym::thorough() { 3 } else { 2 }),
        1 => {
            let mut v: Vec<char> = sym::one_of("name", &["UTF-8", "ISO-8859-1", "x.y_z"]).chars().collect();
            let at = sym::pick("at", v.len());
            v[at] = sym::chr("chr");
            v.into_iter().collect()
        }
        _ => {
            let a = sym::ascii("asc");
            format!("ISO{}{}9", a, sym::ascii("asc"))
        }
    };
    let v = sym::bool("v11");
    let version = if v { XmlVersion::V11 } else { XmlVersion::V10 };
    let alone = [None, Some(false), Some(true)][sym::pick("standalone", 3)];
    let valid = enc_name(&s);
    // what is refused is refused by a panic
    let valid = sym::concretize(valid as u64) == 1;
    sym::panic_id(["+P22.refused", "P22.panic"][valid as usize]);
    let x = XmlDecl::new(version, Some(s.clone()), alone);
    sym::panic_id("P22.panic");
    sym::assert(valid, "P22.invalid-refused");
    sym::assert(sym::same_opt(&x.encoding(), &Some(s.clone())), "P22.encoding");
    sym::assert(x.standalone() == alone, "P22.standalone");
    sym::assert((x.version() == XmlVersion::V11) == v, "P22.version");
    let want = format!(
        "<?xml version=\"{}\" encoding=\"{}\"{}?>",
        if v { "1.1" } else { "1.0" },
        s,
        match alone {
            None => "",
            Some(true) => " standalone=\"yes\"",
            _ => " standalone=\"no\"",
        }
    );
    let got = x.to_string();
    sym::observe_str(&got);
    sym::assert(sym::same(&got, &want), "P22.shown");
    sym::assert(as_document_decl_mut(&mut doc).unwrap().set_xml_declaration(x).is_ok(), "P22.set");
    let y = as_document_decl(&doc).unwrap().xml_declaration();
    sym::assert(y.is_some(), "P22.kept");
    let y = y.unwrap();
    sym::assert(sym::same_opt(&y.encoding(), &Some(s)) & (y.standalone() == alone), "P22.kept");
    sym::assert((y.version() == XmlVersion::V11) == v, "P22.kept");
    sym::assert(sym::same(&doc.to_string(), &want), "P22.document");
    // set again
    let d = XmlDecl::default();
    sym::assert(as_document_decl_mut(&mut doc).unwrap().set_xml_declaration(d).is_ok(), "P22.set");
    sym::assert(doc.to_string() == "<?xml version=\"1.0\"?>", "P22.default");
    sym::reach("P22.accepted");
}

/// P22: versions
pub fn h_version() {
    sym::panic_id("P22.panic");
    let s = if sym::bool("near") {
        let mut v: Vec<char> = sym::one_of("version", &["1.0", "1.1"]).chars().collect();
        let at = sym::pick("at", 3);
        v[at] = sym::chr("chr");
        v.into_iter().collect()
    } else {
        sym::astring("len", 0, if sym::thorough() { 5 } else { 4 })
    };
    let r = XmlVersion::from_str(&s);
    let (a, b) = (sym::same(&s, "1.0"), sym::same(&s, "1.1"));
    sym::assert(r.is_ok() == (a | b), "P22.version-known");
    if let Ok(v) = r {
        sym::assert((v == XmlVersion::V10) == a, "P22.version-read");
        sym::assert(sym::same(&v.to_string(), &s), "P22.version-shown");
        sym::reach("P22.version");
    }
    // only documents have one
    let k = 1 + sym::pick("kind", 12);
    if k != 9 {
        let mut n = crate::kinds::of_kind(&empty_doc(), k);
        sym::assert(as_document_decl(&n).is_err() && as_document_decl_mut(&mut n).is_err(), "P22.documents-only");
    }
}

/// P23
pub fn h_options() {
    sym::panic_id("P23.panic");
    warm(&new_doc());
    let mut o = [ProcessingOptions::new(), ProcessingOptions::default()];
    let mut m = [0u8; 2];
    for _ in 0..if sym::thorough() { 5 } else { 4 } {
        let i = sym::pick("which", 2);
        match sym::pick("op", 6) {
            0 => {
                o[i].set_assume_ids();
                m[i] |= 1;
            }
            1 => {
                o[i].set_parse_entities();
                m[i] |= 2;
            }
            2 => {
                o[i].set_add_namespaces();
                m[i] |= 4;
            }
            3 => {
                o[i] = o[0].clone() | o[1].clone();
                m[i] = m[0] | m[1];
            }
            4 => {
                o[i] = o[0].clone() & o[1].clone();
                m[i] = m[0] & m[1];
            }
            _ => {
                o[i] = ProcessingOptions::new();
                m[i] = 0;
            }
        }
    }
    for i in 0..2 {
        let (x, b) = (&o[i], m[i]);
        sym::assert(x.has_assume_ids() == (b & 1 != 0), "P23.assume-ids");
        sym::assert(x.has_parse_entities() == (b & 2 != 0), "P23.parse-entities");
        sym::assert(x.has_add_namespaces() == (b & 4 != 0), "P23.add-namespaces");
        sym::assert(x.has_none() == (b == 0), "P23.none");
        let mut names = Vec::new();
        for (k, n) in ["AssumeIDs", "ParseEntities", "AddNamespaces"].iter().enumerate() {
            if b >> k & 1 == 1 {
                names.push(*n);
            }
        }
        sym::assert(x.to_string() == format!("ProcessingOptions {{{}}}", names.join(", ")), "P23.shown");
        sym::observe(b as u64);
    }
    sym::assert((o[0] == o[1]) == (m[0] == m[1]), "P23.equal");
    // and what a document does with them
    let d = get_implementation_ext().create_document_with_options(Some(NS), Some("r"), None, o[0].clone()).unwrap();
    let mut r = root(&d);
    r.set_attribute("id", "i").unwrap();
    sym::assert(d.get_element_by_id("i").is_some() == (m[0] & 1 != 0), "P23.ids-assumed");
    r.set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").unwrap();
    let ns = as_element_namespaced(&r).unwrap();
    sym::assert(ns.get_namespace(Some("p")).is_some() == (m[0] & 4 != 0), "P23.namespaces-kept");
    sym::reach("P23.end");
}

/// P24
pub fn h_feature() {
    sym::panic_id("P24.panic");
    let near = |base: &str, n: &str| -> String {
        let mut v: Vec<char> = base.chars().collect();
        match sym::pick(n, 4) {
            0 => (),
            1 => {
                let at = sym::pick("at", v.len() + 1);
                v.insert(at, sym::chr("chr"));
            }
            2 => {
                let at = sym::pick("at", v.len());
                v[at] = sym::chr("chr");
            }
            _ => {
                let at = sym::pick("at", v.len());
                let _ = v.remove(at);
            }
        }
        v.into_iter().collect()
    };
    let upper = sym::bool("upper");
    let base = sym::one_of("feature", &["core", "xml", "html"]);
    let f = near(&if upper { base.to_uppercase() } else { base.to_string() }, "feature-edit");
    let v = if sym::pick("any", 2) == 1 {
        sym::astring("version", 0, if sym::thorough() { 3 } else { 1 })
    } else {
        near(sym::one_of("base", &["1.0", "2.0", "3.0"]), "version-edit")
    };
    let got = get_implementation().has_feature(&f, &v);
    let is = |name: &str| -> bool {
        if f.len() != name.len() {
            return false;
        }
        let mut same = true;
        for (a, b) in f.bytes().zip(name.bytes()) {
            same &= (a == b) | (a == b - 32);
        }
        same
    };
    let versions = v.is_empty() | sym::same(&v, "1.0") | sym::same(&v, "2.0");
    let want = (is("core") | is("xml")) & versions;
    sym::observe(got as u64);
    sym::assert(got == want, "P24.has-feature");
    let d = empty_doc();
    sym::assert(as_document(&d).unwrap().implementation().has_feature(&f, &v) == got, "P24.of-document");
    sym::assert(d.is_supported(&f, &v) == got, "P24.is-supported");
    if got {
        for k in 1..=12 {
            sym::assert(crate::kinds::of_kind(&d, k).is_supported(&f, &v), "P24.is-supported");
        }
        sym::reach("P24.supported");
    } else {
        sym::reach("P24.not-supported");
    }
}

/// P25: new documents
pub fn h_new_document() {
    sym::panic_id("P25.panic");
    let imp = get_implementation();
    let ns = [None, Some("urn:1"), Some(""), Some(XML_NS), Some(XMLNS_NS)][sym::pick("namespace", 5)];
    let q = [None, Some("r"), Some("p:r"), Some("xml:r"), Some("xmlns:r"), Some(""), Some("1"), Some("a:b:c")][sym::pick("name", 8)];
    let name = q.map(|q| q.to_string());
    // a name with an arbitrary character
    let name = if q == Some("r") { Some(sym::ascii("chr").to_string()) } else { name };
    let how = sym::pick("doctype", 3);
    let mut first = None;
    let dt = if how == 0 { None } else { Some(imp.create_document_type("d", Some("p"), Some("s")).unwrap()) };
    if how == 2 {
        let d = imp.create_document(None, Some("other"), dt.clone()).unwrap();
        sym::assert(same_node(&d.doc_type(), &dt), "P25.doctype");
        first = Some(d);
    }
    let ext = sym::bool("with-options");
    let res = if ext {
        get_implementation_ext().create_document_with_options(ns, name.as_deref(), dt.clone(), ProcessingOptions::new())
    } else {
        imp.create_document(ns, name.as_deref(), dt.clone())
    };
    sym::observe(code(&res));
    let legal_name = match (&name, q) {
        (None, _) => ns.is_none(),
        (Some(n), Some("r")) => name_start(n.chars().next().unwrap()),
        (Some(_), Some("p:r")) => true,
        (Some(_), Some("xml:r")) => ns == Some(XML_NS) || ns.is_none(),
        (Some(_), Some("xmlns:r")) => ns == Some(XMLNS_NS) || ns.is_none(),
        _ => false,
    };
    let legal = legal_name && ns != Some("") && how != 2;
    if ns.is_none() && matches!(q, Some("xml:r") | Some("xmlns:r")) {
        // a reserved prefix without a namespace is left open
        return;
    }
    sym::assert(res.is_ok() == legal, "P25.accepted");
    match res {
        Err(e) => {
            if how == 2 && legal_name {
                sym::assert(matches!(e, Error::WrongDocument), "P25.doctype-used");
                sym::assert(same_node(&dt.as_ref().unwrap().owner_document(), &first), "P25.doctype-kept");
                sym::reach("P25.used");
            }
            if how == 1 {
                // a refused document does not take the document type
                let dt = dt.unwrap();
                sym::assert(dt.owner_document().is_none(), "P25.doctype-free");
                sym::assert(imp.create_document(None, Some("r"), Some(dt)).is_ok(), "P25.doctype-free");
                sym::reach("P25.refused");
            }
        }
        Ok(d) => {
            sym::assert(d.node_type() == NodeType::Document && d.owner_document().is_none() && d.parent_node().is_none(), "P25.document");
            sym::assert(same_node(&d.doc_type(), &dt), "P25.doctype");
            if let Some(dt) = &dt {
                sym::assert(same_node(&dt.owner_document(), &Some(d.clone())), "P25.doctype-owner");
            }
            match &name {
                None => {
                    sym::assert(d.document_element().is_none() && !d.has_child_nodes(), "P25.empty");
                    sym::reach("P25.empty");
                }
                Some(n) => {
                    let r = d.document_element();
                    sym::assert(r.is_some() && d.child_nodes() == vec![r.clone().unwrap()], "P25.element");
                    let r = r.unwrap();
                    sym::assert(sym::same(&r.node_name().to_string(), n), "P25.name");
                    sym::assert(r.node_name().namespace_uri().as_deref() == ns, "P25.namespace");
                    sym::assert(same_node(&r.owner_document(), &Some(d.clone())), "P25.owner");
                    sym::assert(same_node(&r.parent_node(), &Some(d.clone())), "P25.parent");
                    sym::assert(!r.has_attributes() && !r.has_child_nodes(), "P25.bare");
                    sym::reach("P25.element");
                }
            }
            sym::assert(as_document_decl(&d).unwrap().xml_declaration().is_none(), "P25.no-declaration");
        }
    }
}

/// P25: identifiers of document types, entities and notations
pub fn h_identifiers() {
    sym::panic_id("P25.panic");
    let doc = empty_doc();
    let id = |n: &str| match sym::pick(n, 3) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(format!("i{}", sym::chr("chr"))),
    };
    let (p, s) = (id("public"), id("system"));
    match sym::pick("what", 4) {
        0 => {
            let t = get_implementation().create_document_type("x:t", p.as_deref(), s.as_deref()).unwrap();
            let d = as_document_type(&t).unwrap();
            sym::assert(sym::same_opt(&d.public_id(), &p) & sym::same_opt(&d.system_id(), &s), "P25.doctype-ids");
            sym::assert(d.entities().is_empty() && d.notations().is_empty() && d.internal_subset().is_none(), "P25.doctype-empty");
            sym::assert(t.node_name().to_string() == "x:t" && t.owner_document().is_none(), "P25.doctype-name");
        }
        1 => {
            let n = create_entity(doc.clone(), "e", p.as_deref(), s.as_deref()).unwrap();
            let e = as_entity(&n).unwrap();
            sym::assert(sym::same_opt(&e.public_id(), &p) & sym::same_opt(&e.system_id(), &s), "P25.entity-ids");
            sym::assert(n.node_value().is_none() && e.notation_name().is_none(), "P25.external-entity");
        }
        2 => {
            let n = create_notation(doc.clone(), "n", p.as_deref(), s.as_deref()).unwrap();
            let e = as_notation(&n).unwrap();
            sym::assert(sym::same_opt(&e.public_id(), &p) & sym::same_opt(&e.system_id(), &s), "P25.notation-ids");
        }
        _ => {
            let v = p.clone().unwrap_or_default();
            let n = create_internal_entity(doc.clone(), "e", &v).unwrap();
            let e = as_entity(&n).unwrap();
            sym::assert(e.public_id().is_none() && e.system_id().is_none(), "P25.internal-entity");
            sym::assert(sym::same_opt(&n.node_value(), &Some(v)), "P25.internal-entity");
        }
    }
    sym::reach("P25.identifiers");
}
