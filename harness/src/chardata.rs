//! P06: character data editing against a plain string model.
use crate::common::*;

/// is `off` a character boundary in `s`?
fn valid(s: &str, off: usize) -> bool {
    let mut r = off == s.len();
    let mut i = 0;
    for c in s.chars() {
        r |= off == i;
        i += c.len_utf8();
    }
    r
}

fn one(node: &mut RefNode, model: &mut String, op: usize, off: usize, cnt: usize, arg: &str) {
    let before = node.node_value();
    let len = model.len();
    let end = off.saturating_add(cnt).min(len);
    let end = if op == 1 || op == 4 { off } else { end };
    let ok = valid(model, off) && (valid(model, end));
    sym::panic_id("P06.panic");
    let r = match op {
        0 => node.substring_data(off, cnt).map(Some),
        1 => node.insert_data(off, arg).map(|_| None),
        2 => node.delete_data(off, cnt).map(|_| None),
        3 => node.replace_data(off, cnt, arg).map(|_| None),
        _ => node.append_data(arg).map(|_| None),
    };
    sym::observe(code(&r));
    if op == 4 {
        sym::assert(r.is_ok(), "P06.append-ok");
        model.push_str(arg);
    } else if ok {
        sym::assert(r.is_ok(), "P06.in-range-accepted");
        let off = sym::concretize(off as u64) as usize;
        let end = sym::concretize(end as u64) as usize;
        match op {
            0 => {
                let got = r.clone().unwrap().unwrap();
                sym::observe_str(&got);
                sym::assert(sym::same(&got, &model[off..end]), "P06.substring");
            }
            _ => {
                let mut m = model[..off].to_string();
                if op != 2 {
                    m.push_str(arg);
                }
                m.push_str(&model[end..]);
                *model = m;
            }
        }
        sym::reach("P06.ok");
    } else {
        sym::assert(r.is_err(), "P06.out-of-range-rejected");
        sym::assert(matches!(r, Err(Error::IndexSize)), "P06.index-size");
        sym::assert(sym::same_opt(&node.node_value(), &before), "P06.rejected-unchanged");
        sym::reach("P06.err");
    }
    let v = node.node_value();
    if op == 0 {
        sym::assert(sym::same_opt(&v, &before), "P06.read-only");
    }
    sym::observe_opt(&v);
    sym::assert(sym::same(&v.unwrap_or_default(), model), "P06.content");
    sym::assert(CharacterData::length(node) == model.len(), "P06.length");
}

fn node(doc: &RefNode, kind: usize, data: &str) -> RefNode {
    match kind {
        0 => doc.create_text_node(data),
        1 => doc.create_comment(data),
        _ => doc.create_cdata_section(data).unwrap(),
    }
}

/// arbitrary characters, arbitrary 64-bit offset and count, every operation
pub fn h_chardata() {
    let doc = new_doc();
    let kind = sym::pick("kind", 3);
    let t = sym::thorough();
    let data = sym::string("len", 0, if t { 3 } else { 2 });
    let mut n = node(&doc, kind, &data);
    let mut model = data.clone();
    if data.is_empty() && sym::bool("unset") {
        n.unset_node_value().unwrap();
    }
    let op = sym::pick("op", 5);
    let arg = sym::string("arg", 0, 1);
    let (off, cnt) = (sym::usize("off"), sym::usize("cnt"));
    one(&mut n, &mut model, op, off, cnt, &arg);
    if t {
        let op = sym::pick("op", 5);
        let (off, cnt) = (sym::usize("off"), sym::usize("cnt"));
        one(&mut n, &mut model, op, off, cnt, "z");
    }
}

/// longer concrete data (with characters that need escaping), arbitrary offset and count
pub fn h_chardata_wide() {
    let doc = new_doc();
    const PAT: &str = "a<b&c>d\"e'f;g]]>hi\tj\n<<&&]]>-->klmno?>pq";
    let lens: &[usize] = if sym::thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 24, 40] } else { &[0, 3, 6, 9, 17] };
    let l = lens[sym::pick("len", lens.len())];
    let data = &PAT[..l];
    let kind = sym::pick("kind", 3);
    let mut n = node(&doc, kind, data);
    // attached, so that editing is also checked not to disturb the siblings
    let mut r = root(&doc);
    let before = r.append_child(doc.create_text_node("before")).unwrap();
    r.append_child(n.clone()).unwrap();
    let after = r.append_child(doc.create_text_node("after")).unwrap();
    let mut model = data.to_string();
    let op = sym::pick("op", 5);
    let arg = if l > 9 { "xyz" } else { sym::one_of("arg", &["", "&", "xyz"]) };
    let (off, cnt) = (sym::usize("off"), sym::usize("cnt"));
    one(&mut n, &mut model, op, off, cnt, arg);
    sym::assert(before.node_value().as_deref() == Some("before"), "P06.siblings");
    sym::assert(after.node_value().as_deref() == Some("after"), "P06.siblings");
    sym::assert(r.child_nodes() == vec![before, n, after], "P06.siblings");
}
