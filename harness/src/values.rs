//! P17 attribute values.
use crate::common::*;

/// XML 1.1 2.11: line ends become one line feed
fn line_ends(s: &[char]) -> Vec<char> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            '\r' => {
                out.push('\n');
                if i + 1 < s.len() && (s[i + 1] == '\n' || s[i + 1] == '\u{85}') {
                    i += 1;
                }
            }
            '\u{85}' | '\u{2028}' => out.push('\n'),
            c => out.push(c),
        }
        i += 1;
    }
    out
}
/// the character that the reference at the start of `s` stands for, and the length of the reference
pub fn reference(s: &[char]) -> Option<(char, usize)> {
    for (n, c) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&apos;", '\''), ("&quot;", '"')] {
        if s.len() >= n.len() && n.chars().zip(s).all(|(a, b)| a == *b) {
            return Some((c, n.len()));
        }
    }
    if s.len() < 4 || s[0] != '&' || s[1] != '#' {
        return None;
    }
    let hex = s[2] == 'x';
    let start = if hex { 3 } else { 2 };
    let mut i = start;
    let mut v: u64 = 0;
    while i < s.len() && s[i] != ';' {
        let d = s[i] as u32;
        let d = if within(d, 0x30, 0x39) {
            d - 0x30
        } else if hex && within(d | 0x20, 0x61, 0x66) {
            (d | 0x20) - 0x61 + 10
        } else {
            return None;
        };
        v = (v * if hex { 16 } else { 10 } + d as u64).min(0x11_0000);
        i += 1;
    }
    if i == start || i == s.len() {
        return None;
    }
    char::from_u32(v as u32).map(|c| (c, i + 1))
}
/// XML 1.0 3.3.3 for CDATA attributes
pub fn normal(s: &str) -> String {
    let s: Vec<char> = s.chars().collect();
    let s = line_ends(&s);
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            '\t' | '\n' | '\r' => out.push(' '),
            '&' => {
                if let Some((c, n)) = reference(&s[i..]) {
                    out.push(c);
                    i += n;
                    continue;
                }
                out.push('&')
            }
            c => out.push(c),
        }
        i += 1;
    }
    out
}
pub fn escaped(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '&' => out.push_str("&#38;"),
            '\'' => out.push_str("&#39;"),
            '>' => out.push_str("&#62;"),
            '<' => out.push_str("&#60;"),
            '"' => out.push_str("&#34;"),
            c => out.push(c),
        }
    }
    out
}

fn check(doc: &RefNode, s: &str) {
    let want = Some(escaped(&normal(s)));
    let a = doc.create_attribute_with("a", s).unwrap();
    let got = as_attribute(&a).unwrap().value();
    sym::observe_opt(&got);
    sym::assert(sym::same_opt(&got, &want), "P17.value");
    let mut e = root(doc);
    sym::assert(e.set_attribute("a", s).is_ok(), "P17.set");
    sym::assert(sym::same_opt(&e.get_attribute("a"), &want), "P17.get");
}

/// P17: arbitrary characters
pub fn h_value_any() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    let s = sym::string("len", 0, if sym::thorough() { 2 } else { 1 });
    check(&doc, &s);
    sym::reach("P17.any");
}

/// P17: arbitrary ASCII characters
pub fn h_value_ascii() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    let s = sym::astring("len", 0, if sym::thorough() { 3 } else { 2 });
    check(&doc, &s);
    sym::reach("P17.ascii");
}

/// P17: references with arbitrary characters in them
pub fn h_value_refs() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    let mut s = String::from("x");
    match sym::pick("form", 4) {
        0 => {
            s.push_str("&#");
            s.push_str(&sym::astring("digits", 0, 2));
            s.push(';');
        }
        1 => {
            s.push_str("&#x");
            s.push_str(&sym::astring("hex", 0, if sym::thorough() { 2 } else { 1 }));
            s.push(';');
        }
        2 => {
            // one character of a reference replaced
            let base: Vec<char> =
                sym::one_of("name", &["&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&other;", "%pe;"]).chars().collect();
            let at = sym::pick("at", base.len());
            for (i, c) in base.iter().enumerate() {
                s.push(if i == at { sym::ascii("chr") } else { *c });
            }
        }
        _ => {
            // codes at the edges of the planes and of what is a character
            let c = ["&#55295;", "&#55296;", "&#57343;", "&#57344;", "&#xD7FF;", "&#xDFFF;", "&#x10FFFF;", "&#x110000;", "&#1114111;",
                "&#1114112;", "&#4294967361;", "&#x100000041;", "&#00065;", "&#x0;", "&#99999999999999999999;"];
            s.push_str(c[sym::pick("code", c.len())]);
        }
    }
    s.push('z');
    check(&doc, &s);
    sym::reach("P17.refs");
}

/// P17: line ends, white space and references side by side, through every way to set a value
pub fn h_value_routes() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    let pool = ["\r", "\n", "\u{85}", "\u{2028}", "\t", "&#13;", "&lt;", "&amp;", "x", "<"];
    let pool = if sym::thorough() { &pool[..] } else { &pool[..9] };
    let n = sym::pick("pieces", if sym::thorough() { 4 } else { 3 });
    let parts: Vec<&str> = (0..n).map(|_| pool[sym::pick("piece", pool.len())]).collect();
    let s: String = parts.concat();
    let mut e = root(&doc);
    let mut want = Some(escaped(&normal(&s)));
    let route = sym::pick("route", 7);
    match route {
        0 => {
            let _ = e.set_attribute("a", &s).unwrap();
        }
        1 => {
            let _ = e.set_attribute_ns("urn:a", "a", &s).unwrap();
        }
        2 => {
            let _ = e.set_attribute_node(doc.create_attribute_with("a", &s).unwrap()).unwrap();
        }
        3 => {
            let _ = e.set_attribute("a", "old").unwrap();
            let mut a = e.get_attribute_node("a").unwrap();
            a.set_value(&s).unwrap();
        }
        4 => {
            // a text node for each piece; no line end or reference spans two of them
            let mut a = doc.create_attribute("a").unwrap();
            if n == 0 {
                want = None;
            }
            for p in &parts {
                let _ = a.append_child(doc.create_text_node(p)).unwrap();
            }
            let _ = e.set_attribute_node(a).unwrap();
        }
        5 => {
            // an entity reference node after the text
            let mut a = doc.create_attribute_with("a", &s).unwrap();
            let (name, text) = [("quot", "&#34;"), ("other", "&#38;other;"), ("lt", "&#60;")][sym::pick("entity", 3)];
            let _ = a.append_child(doc.create_entity_reference(name).unwrap()).unwrap();
            let _ = e.set_attribute_node(a).unwrap();
            want = want.map(|w| format!("{}{}", w, text));
        }
        _ => {
            // set twice, unset in between
            let mut a = doc.create_attribute_with("a", "old").unwrap();
            let _ = e.set_attribute_node(a.clone()).unwrap();
            a.unset_value().unwrap();
            sym::assert(as_attribute(&a).unwrap().value().is_none(), "P17.unset");
            a.set_value(&s).unwrap();
        }
    }
    let got = e.get_attribute("a");
    sym::observe_opt(&got);
    // an attribute without a value reads as none
    sym::assert(sym::same_opt(&got, &want), "P17.route-get");
    let a = e.get_attribute_node("a").unwrap();
    sym::assert(sym::same_opt(&as_attribute(&a).unwrap().value(), &want), "P17.route-value");
    if route == 1 {
        sym::assert(sym::same_opt(&e.get_attribute_ns("urn:a", "a"), &want), "P17.route-get");
    }
    if route < 4 || route == 6 {
        let kids = a.child_nodes();
        sym::assert(kids.len() == 1 && kids[0].node_type() == NodeType::Text, "P17.one-text-child");
        sym::assert(sym::same_opt(&kids[0].node_value(), &Some(s.clone())), "P17.raw-kept");
    }
    // the display form quotes it
    let shown = a.to_string();
    sym::assert(sym::same(&shown, &format!("a=\"{}\"", want.unwrap_or_default())), "P17.shown");
    sym::reach("P17.routes");
}

/// P17: references to any character, by its decimal or hexadecimal code
pub fn h_value_codes() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    // two arbitrary digits for the stars
    let mut codes = vec!["&#**;", "&#1**;", "&#82**;", "&#xD7**;", "&#x20**;", "&#x1F6**;", "&#00**;"];
    if sym::thorough() {
        codes.extend(["&#5529**;", "&#5734*4*;", "&#1*4*1*;", "&#xDF**;", "&#x10FF**;", "&#x*85*;", "&#*33;*", "&#*x*;"]);
    }
    let base = sym::one_of("code", &codes);
    let mut s = String::new();
    for c in base.chars() {
        if c != '*' {
            s.push(c);
            continue;
        }
        let d = sym::u8("digit");
        let mut ok = (d >= b'0') & (d <= b'9');
        if base.contains('x') {
            ok |= (d >= b'A') & (d <= b'F');
            ok |= (d >= b'a') & (d <= b'f');
        }
        sym::assume(ok);
        s.push(d as char);
    }
    let a = doc.create_attribute_with("a", &s).unwrap();
    let got = as_attribute(&a).unwrap().value();
    sym::observe_opt(&got);
    sym::assert(sym::same_opt(&got, &Some(escaped(&normal(&s)))), "P17.code");
    sym::reach("P17.code");
}

/// P17: two arbitrary characters near the ends or in the middle of a long value
pub fn h_value_long() {
    sym::panic_id("P17.panic");
    let doc = new_doc();
    warm(&doc);
    let n = [7, 15, 31, 63, 130][sym::pick("length", if sym::thorough() { 5 } else { 3 })];
    let at = [0, 1, n / 2, n - 1, n][sym::pick("at", 5)];
    let mut s = String::new();
    for i in 0..=n {
        if i == at {
            s.push(sym::ascii("asc"));
            if sym::bool("two") {
                s.push_str(["\u{85}", "\u{2028}", "&lt;", "&#10;", "\n", "\r"][sym::pick("second", 6)]);
            }
        }
        if i < n {
            s.push((b'a' + (i % 26) as u8) as char);
        }
    }
    check(&doc, &s);
    sym::reach("P17.long");
}
