//! P14: which names are accepted, and what a created node is called.
use crate::common::*;

/// verdict of the QName production over the characters, without forking on each of them
pub fn qname(cs: &[char]) -> (bool, bool) {
    // (valid QName, only legal characters)
    let mut ok = !cs.is_empty();
    let mut chars_ok = true;
    let mut start = true;
    let mut colons = 0u32;
    for c in cs {
        let colon = *c == ':';
        let good = if start { name_start(*c) } else { name_char(*c) };
        chars_ok &= colon | name_char(*c);
        if colon {
            ok &= !start;
            colons += 1;
            start = true;
        } else {
            ok &= good;
            start = false;
        }
    }
    ok &= !start & (colons <= 1);
    (ok, chars_ok)
}

fn create(doc: &RefNode, kind: usize, s: &str) -> Result<RefNode> {
    match kind {
        0 => doc.create_element(s),
        1 => doc.create_attribute(s),
        2 => doc.create_attribute_with(s, "v"),
        3 => doc.create_entity_reference(s),
        4 => doc.create_processing_instruction(s, Some("d")),
        5 => get_implementation().create_document_type(s, None, None),
        6 => create_entity(doc.clone(), s, None, None),
        7 => create_notation(doc.clone(), s, None, None),
        8 => create_internal_entity(doc.clone(), s, "v"),
        _ => get_implementation().create_document(None, Some(s), None).map(|d| root(&d)),
    }
}

fn check(doc: &RefNode, kind: usize, cs: &[char]) {
    let s: String = cs.iter().collect();
    sym::panic_id("P14.panic");
    let (ok, chars_ok) = qname(cs);
    let mut xml = false;
    if kind == 4 && cs.len() == 3 {
        xml = ((cs[0] == 'x') | (cs[0] == 'X')) & ((cs[1] == 'm') | (cs[1] == 'M')) & ((cs[2] == 'l') | (cs[2] == 'L'));
    }
    let r = create(doc, kind, &s);
    sym::observe(code(&r));
    match &r {
        Ok(n) => {
            sym::assert(ok, "P14.accepts-only-names");
            sym::assert(!xml, "P14.pi-target-xml");
            let name = n.node_name();
            let back = name.to_string();
            sym::observe_str(&back);
            sym::assert(sym::same(&back, &s), "P14.name-kept");
            let parts: Vec<&str> = s.split(':').collect();
            let (p, l) = if parts.len() == 2 { (Some(parts[0].to_string()), parts[1]) } else { (None, parts[0]) };
            sym::assert(sym::same_opt(name.prefix(), &p), "P14.prefix");
            sym::assert(sym::same(name.local_name(), l), "P14.local-name");
            sym::assert(name.namespace_uri().is_none(), "P14.no-namespace");
            sym::reach("P14.ok");
        }
        Err(e) => {
            sym::assert(!ok | xml, "P14.accepts-all-names");
            sym::assert(matches!(e, Error::InvalidCharacter | Error::Syntax | Error::Namespace), "P14.error");
            if chars_ok {
                sym::reach("P14.malformed");
            } else {
                sym::reach("P14.err");
            }
        }
    }
}

/// every creator, short names
pub fn h_name_short() {
    let doc = new_doc();
    let kind = sym::pick("kind", 10);
    let n = sym::pick("len", if sym::thorough() && kind < 2 { 4 } else { 3 });
    let cs: Vec<char> = (0..n).map(|_| sym::chr("chr")).collect();
    check(&doc, kind, &cs);
}

/// one arbitrary character anywhere in a longer name
pub fn h_name_long() {
    let doc = new_doc();
    let kind = sym::pick("kind", if sym::thorough() { 10 } else { 5 });
    let base: Vec<char> = sym::one_of("base", &["ab:c.d", "xml", "name-1", "a:b:c"]).chars().collect();
    let at = sym::pick("at", base.len() + 1);
    let mut cs = base.clone();
    if sym::bool("insert") || at == base.len() {
        cs.insert(at, sym::chr("chr"));
    } else {
        cs[at] = sym::chr("chr");
    }
    check(&doc, kind, &cs);
}
