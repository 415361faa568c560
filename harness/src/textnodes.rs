//! P07 split, P08 normalize, P16 escaping.
use crate::common::*;
use crate::tree::make;

/// P07: under every kind of parent, among one, few or many siblings
pub fn h_split_parents() {
    sym::panic_id("P07.panic");
    let doc = new_doc();
    let mut p = match sym::pick("parent", 6) {
        0 => root(&doc),
        1 => doc.create_document_fragment().unwrap(),
        2 => doc.create_attribute("at").unwrap(),
        3 => doc.create_entity_reference("er").unwrap(),
        4 => create_internal_entity(doc.clone(), "en", "v").unwrap(),
        _ => doc.create_element("e").unwrap(),
    };
    let attr = p.node_type() == NodeType::Attribute;
    let cdata = !attr && sym::pick("cdata", 2) == 1;
    let n: usize = [0, 1, 2, 4, 8, 16][sym::pick("siblings", 6)];
    let at = [0, 1, n / 2, n.saturating_sub(1), n][sym::pick("at", 5)].min(n);
    let mut kids = vec![];
    let s = sym::one_of("data", &["a\u{e9}b", "", "ab cd &lt;"]);
    let mut node = make(&doc, if cdata { 3 } else { 0 }, s);
    for i in 0..=n {
        if i == at {
            kids.push(node.clone());
        }
        if i < n {
            kids.push(make(&doc, if attr { [0, 4][i % 2] } else { (i + 5) % 6 }, "k"));
        }
    }
    for k in &kids {
        let _ = p.append_child(k.clone()).unwrap();
    }
    sym::assert(p.child_nodes() == kids, "P07.siblings");
    let off = sym::usize("off");
    let at = kids.iter().position(|k| *k == node).unwrap();
    let r = node.split(off);
    sym::observe(code(&r));
    match r {
        Ok(new) => {
            let cut = (0..s.len()).find(|i| *i == off).unwrap_or(s.len());
            sym::assert(s.is_char_boundary(cut), "P07.inside-character");
            sym::assert(node.node_value().as_deref() == Some(&s[..cut]), "P07.head");
            sym::assert(new.node_value().as_deref() == Some(&s[cut..]), "P07.tail");
            sym::assert(new.node_type() == node.node_type(), "P07.same-kind");
            sym::assert(same_node(&new.owner_document(), &Some(doc.clone())), "P07.owner");
            kids.insert(at + 1, new.clone());
            sym::assert(p.child_nodes() == kids, "P07.next-sibling");
            sym::assert(same_node(&new.previous_sibling(), &Some(node.clone())), "P07.next-sibling");
            sym::assert(same_node(&new.parent_node(), &Some(p.clone())), "P07.same-parent");
            sym::reach("P07.parents");
        }
        Err(_) => {
            sym::assert(s.len() == 4 && off == 2, "P07.boundary-accepted");
            sym::assert(p.child_nodes() == kids && node.node_value().as_deref() == Some(s), "P07.rejected-unchanged");
            sym::reach("P07.index");
        }
    }
}

/// P16: what looks like markup or like a reference already
pub fn h_escape_near() {
    sym::panic_id("P16.panic");
    let doc = new_doc();
    let kind = sym::pick("kind", 4);
    let base = sym::one_of(
        "base",
        &["&#38;", "&#60;b", "&amp;a", "&lt;", "&#x26;", "<a/>", "<!--", "-->", "]]>", "<![CDATA[", "<?p?>", "\"'\"", "&&&", "a < b > c", "&#38;#38;", "  ", "\r\n\t"],
    );
    let s = near("edit", base, any_ascii);
    let node = make(&doc, kind, &s);
    let data = match kind {
        2 => ProcessingInstruction::data(&node),
        _ => CharacterData::data(&node),
    };
    let mut want = String::new();
    for c in s.chars() {
        match c {
            '&' if kind < 2 => want.push_str("&#38;"),
            '\'' if kind < 2 => want.push_str("&#39;"),
            '>' if kind < 2 => want.push_str("&#62;"),
            '<' if kind < 2 => want.push_str("&#60;"),
            '"' if kind < 2 => want.push_str("&#34;"),
            c => want.push(c),
        }
    }
    sym::observe_opt(&data);
    sym::assert(sym::same_opt(&data, &Some(want)), "P16.data-escaped");
    sym::assert(sym::same_opt(&node.node_value(), &Some(s.clone())), "P16.value-raw");
    sym::reach("P16.near");
}

/// P07: splitting at any offset
pub fn h_split() {
    sym::panic_id("P07.panic");
    let doc = new_doc();
    let kind = sym::pick("kind", 6);
    let s = if kind == 4 || kind == 5 {
        String::new()
    } else if sym::bool("ascii") {
        sym::astring("len", 0, if sym::thorough() { 5 } else { 4 })
    } else {
        sym::string("len", 0, if sym::thorough() { 3 } else { 2 })
    };
    let mut node = make(&doc, kind, &s);
    let mut r = root(&doc);
    let place = sym::pick("place", 3);
    // next to the node is a node of any kind
    let beside = if place > 0 { sym::pick("beside", if s.len() < 3 { 6 } else { 1 }) } else { 0 };
    let (before, after) = (make(&doc, beside, "<<"), make(&doc, beside, ">>"));
    let last = doc.create_comment("last");
    if place > 0 {
        let _ = r.append_child(before.clone()).unwrap();
        let _ = r.append_child(node.clone()).unwrap();
        if place > 1 {
            let _ = r.append_child(after.clone()).unwrap();
            let _ = r.append_child(last.clone()).unwrap();
        }
    }
    let kids = r.child_nodes();
    let off = sym::usize("off");
    let res = node.split(off);
    sym::observe(code(&res));
    let raw = node.node_value();
    let text = kind == 0 || kind == 3;
    let mut boundary = off == s.len();
    let mut i = 0;
    for c in s.chars() {
        boundary |= off == i;
        i += c.len_utf8();
    }
    let unchanged = |id: &str| {
        if kind < 4 {
            sym::assert(sym::same_opt(&raw, &Some(s.clone())), id);
        }
        sym::assert(r.child_nodes() == kids, id);
    };
    match &res {
        Err(e) => {
            sym::assert(!text | !boundary, "P07.boundary-accepted");
            if text {
                sym::assert(matches!(e, Error::IndexSize), "P07.index-size");
                sym::reach("P07.index");
            } else {
                sym::reach("P07.not-text");
            }
            unchanged("P07.rejected-unchanged");
        }
        Ok(new) => {
            sym::assert(text, "P07.only-text");
            // past the end nothing is split off; inside a character there is nothing to split at
            sym::assert(boundary | (off > s.len()), "P07.inside-character");
            let tail = new.node_value().unwrap_or_default();
            let head = raw.clone().unwrap_or_default();
            sym::observe_str(&tail);
            sym::assert(sym::same(&format!("{}{}", head, tail), &s), "P07.nothing-lost");
            sym::assert((head.len() == off) | (off > s.len()), "P07.position");
            if off > s.len() {
                sym::assert(tail.is_empty(), "P07.past-end-empty");
                sym::reach("P07.past-end");
            }
            sym::assert(new.node_type() == node.node_type(), "P07.same-kind");
            sym::assert(same_node(&new.owner_document(), &Some(doc.clone())), "P07.owner");
            if place == 0 {
                sym::assert(new.parent_node().is_none() && node.parent_node().is_none(), "P07.detached");
            } else {
                let mut want = vec![before.clone(), node.clone(), new.clone()];
                if place > 1 {
                    want.push(after.clone());
                    want.push(last.clone());
                }
                sym::assert(r.child_nodes() == want, "P07.next-sibling");
                sym::assert(same_node(&new.parent_node(), &Some(r.clone())), "P07.parent");
                sym::reach("P07.placed");
            }
        }
    }
}

#[derive(Clone)]
enum Item {
    Text(String),
    Node(RefNode),
}

fn check_normal(id: &str, node: &RefNode, want: &[Item], keep_empty: bool) {
    let got = node.child_nodes();
    // adjacent text merged, empty text dropped
    let mut merged: Vec<Item> = Vec::new();
    for it in want {
        match (it, merged.last_mut()) {
            (Item::Text(t), _) if t.is_empty() && !keep_empty => (),
            (Item::Text(t), Some(Item::Text(p))) => p.push_str(t),
            _ => merged.push(it.clone()),
        }
    }
    let id2 = format!("P08.{}", id);
    sym::assert(got.len() == merged.len(), &id2);
    for (k, c) in got.iter().enumerate() {
        match merged.get(k) {
            Some(Item::Text(t)) => {
                sym::assert(c.node_type() == NodeType::Text, &id2);
                sym::assert(sym::same_opt(&c.node_value(), &Some(t.clone())), "P08.text-kept");
            }
            Some(Item::Node(n)) => sym::assert(c == n, &id2),
            None => (),
        }
        if !is_attribute(node) {
            sym::assert(same_node(&c.parent_node(), &Some(node.clone())), "P08.parent");
        }
    }
}

/// up to `max` children: text of a symbolic length, or another kind of node
fn fill(doc: &RefNode, node: &mut RefNode, max: usize, kinds: usize) -> Vec<Item> {
    let n = sym::pick("children", max + 1);
    let mut items = Vec::new();
    for _ in 0..n {
        let k = sym::pick("child", kinds);
        let child = match k {
            0 => doc.create_text_node(""),
            1 | 2 => {
                let mut s = String::new();
                s.push(sym::ascii("chr"));
                if k == 2 {
                    s.push(sym::ascii("chr"));
                }
                doc.create_text_node(&s)
            }
            3 => {
                let mut t = doc.create_text_node("gone");
                t.unset_node_value().unwrap();
                t
            }
            4 => doc.create_cdata_section("c").unwrap(),
            5 => doc.create_cdata_section("").unwrap(),
            6 => doc.create_entity_reference("r").unwrap(),
            7 => doc.create_comment(""),
            _ => doc.create_processing_instruction("p", None).unwrap(),
        };
        items.push(if k < 4 { Item::Text(child.node_value().unwrap_or_default()) } else { Item::Node(child.clone()) });
        let _ = node.append_child(child).unwrap();
    }
    items
}

/// P08: one element
pub fn h_normalize() {
    sym::panic_id("P08.panic");
    let doc = new_doc();
    let mut r = root(&doc);
    let items = fill(&doc, &mut r, if sym::thorough() { 5 } else { 4 }, if sym::thorough() { 9 } else { 6 });
    r.normalize();
    check_normal("merged", &r, &items, false);
    let once = r.child_nodes();
    r.normalize();
    sym::assert(r.child_nodes() == once, "P08.idempotent");
    sym::observe(once.len() as u64);
    sym::reach("P08.flat");
}

/// P08: elements in elements, and attributes
pub fn h_normalize_deep() {
    sym::panic_id("P08.panic");
    let doc = new_doc();
    warm(&doc);
    let mut r = root(&doc);
    let mut a = doc.create_element("a").unwrap();
    let mut b = doc.create_element("b").unwrap();
    // the nested element is a child of the root or of its child, first, in the middle or last
    let mut top = Vec::new();
    let n = sym::pick("top", if sym::thorough() { 3 } else { 2 });
    let at = sym::pick("at", n + 1);
    for i in 0..=n {
        if i == at {
            let _ = r.append_child(a.clone()).unwrap();
            top.push(Item::Node(a.clone()));
        } else {
            let s = sym::astring("len", 0, 1);
            let _ = r.append_child(doc.create_text_node(&s)).unwrap();
            top.push(Item::Text(s));
        }
    }
    let mut mid = Vec::new();
    if sym::bool("text-first") {
        let _ = a.append_child(doc.create_text_node("")).unwrap();
        mid.push(Item::Text(String::new()));
    }
    let _ = a.append_child(b.clone()).unwrap();
    mid.push(Item::Node(b.clone()));
    let low = fill(&doc, &mut b, 2, 3);
    // an attribute whose value is in several pieces
    let mut attr = doc.create_attribute("x").unwrap();
    let mut want = String::new();
    for _ in 0..sym::pick("pieces", 4) {
        let piece = sym::one_of("piece", &["", "uv"]);
        let _ = attr.append_child(doc.create_text_node(piece)).unwrap();
        want.push_str(piece);
    }
    let where_ = 2 * sym::pick("attribute-of", 2);
    let mut owner = [r.clone(), a.clone(), b.clone()][where_].clone();
    let _ = owner.set_attribute_node(attr.clone()).unwrap();
    let mut from = if sym::bool("from-document") { doc.clone() } else { r.clone() };
    from.normalize();
    check_normal("deep", &r, &top, false);
    check_normal("deep", &a, &mid, false);
    check_normal("deep", &b, &low, false);
    let kids = attr.child_nodes();
    sym::assert(kids.len() <= 1, "P08.attribute-merged");
    sym::assert(kids.iter().all(|k| k.node_type() == NodeType::Text), "P08.attribute-merged");
    let raw: String = kids.iter().map(|k| k.node_value().unwrap_or_default()).collect();
    sym::assert(sym::same(&raw, &want), "P08.attribute-text-kept");
    sym::reach("P08.deep");
}

/// P16: the text that `data()` gives
pub fn h_escape() {
    sym::panic_id("P16.panic");
    let doc = new_doc();
    let kind = sym::pick("kind", 4);
    let s = sym::string("len", 0, if sym::thorough() { 3 } else { 2 });
    let mut node = if sym::bool("later") {
        let mut n = make(&doc, kind, "old");
        n.set_node_value(&s).unwrap();
        n
    } else {
        make(&doc, kind, &s)
    };
    sym::assert(sym::same_opt(&node.node_value(), &Some(s.clone())), "P16.value-raw");
    let data = match kind {
        2 => ProcessingInstruction::data(&node),
        _ => CharacterData::data(&node),
    };
    let mut want = String::new();
    for c in s.chars() {
        if kind >= 2 {
            want.push(c);
            continue;
        }
        match c {
            '&' => want.push_str("&#38;"),
            '\'' => want.push_str("&#39;"),
            '>' => want.push_str("&#62;"),
            '<' => want.push_str("&#60;"),
            '"' => want.push_str("&#34;"),
            c => want.push(c),
        }
    }
    sym::observe_opt(&data);
    sym::assert(sym::same_opt(&data, &Some(want)), "P16.data-escaped");
    let len = match kind {
        2 => ProcessingInstruction::length(&node),
        _ => CharacterData::length(&node),
    };
    sym::assert(len == s.len(), "P16.length-raw");
    if kind < 2 {
        let d = data.unwrap();
        sym::assert(!d.contains(['<', '>', '"', '\'']), "P16.no-markup");
        sym::reach("P16.escaped");
    } else {
        sym::reach("P16.raw");
    }
    if sym::bool("unset") {
        node.unset_node_value().unwrap();
        sym::assert(node.node_value().is_none() && CharacterData::data(&node).is_none(), "P16.unset");
        sym::assert(CharacterData::length(&node) == 0, "P16.unset-length");
        sym::reach("P16.unset");
    }
}
