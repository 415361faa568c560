//! P28, P29: reading text. The oracle is a small recursive-descent reader of its own, with three
//! answers: the tree the text describes, malformed, or open (what XML and the library's
//! documentation leave undecided, or where the library is knowingly more lenient).
use crate::common::*;
use crate::values::{escaped, normal, reference};
use xml_dom::parser::*;

#[derive(Clone, PartialEq)]
enum K {
    Element,
    Text,
    Cdata,
    Comment,
    Pi,
}
#[derive(Clone)]
struct N {
    kind: K,
    name: String,
    value: Option<String>,
    attrs: Vec<(String, String)>,
    kids: Vec<N>,
}
impl N {
    fn leaf(kind: K, name: &str, value: Option<&str>) -> N {
        N { kind, name: name.into(), value: value.map(|s| s.to_string()), attrs: vec![], kids: vec![] }
    }
}
#[derive(Clone, Default)]
struct Doc {
    version: Option<bool>, // Some(true): 1.1
    encoding: Option<String>,
    standalone: Option<bool>,
    kids: Vec<N>,
}
#[derive(PartialEq)]
enum No {
    Malformed,
    Open,
}
type R<T> = core::result::Result<T, No>;

// ------------------------------------------------------------------------------------------------
// The oracle

struct Rd<'a> {
    s: &'a [char],
    i: usize,
}
fn ws(c: char) -> bool {
    (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r')
}
fn trimmed(s: &[char]) -> &[char] {
    let mut a = 0;
    let mut b = s.len();
    while a < b && ws(s[a]) {
        a += 1;
    }
    while b > a && ws(s[b - 1]) {
        b -= 1;
    }
    &s[a..b]
}
fn text_of(s: &[char]) -> String {
    s.iter().collect()
}
/// the text with its references replaced
fn replaced(s: &[char]) -> R<String> {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != '&' {
            out.push(s[i]);
            i += 1;
            continue;
        }
        match reference(&s[i..]) {
            Some((c, n)) => {
                if (c as u32) < 0x20 {
                    return Err(No::Open);
                }
                out.push(c);
                i += n
            }
            None => {
                return Err(if i + 2 < s.len() && s[i + 1] == '#' && (s[i + 2] == '+' || s[i + 2] == 'x') {
                    No::Open
                } else {
                    No::Malformed
                })
            }
        }
    }
    Ok(out)
}
fn check_name(s: &[char]) -> R<()> {
    let mut part = 0;
    let mut colons = 0;
    for c in s {
        if *c == ':' {
            if part == 0 {
                return Err(No::Malformed);
            }
            part = 0;
            colons += 1;
        } else {
            if if part == 0 { !name_start(*c) } else { !name_char(*c) } {
                return Err(No::Malformed);
            }
            part += 1;
        }
    }
    if part == 0 || colons > 1 {
        return Err(No::Malformed);
    }
    if s.len() >= 3 && (s[0] as u32 | 0x20 == 0x78) & (s[1] as u32 | 0x20 == 0x6d) & (s[2] as u32 | 0x20 == 0x6c) {
        return Err(No::Open);
    }
    Ok(())
}
impl Rd<'_> {
    fn at(&self, t: &str) -> bool {
        self.i + t.len() <= self.s.len() && t.chars().zip(&self.s[self.i..]).all(|(a, b)| a == *b)
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn skip_ws(&mut self) -> usize {
        let b = self.i;
        while self.i < self.s.len() && ws(self.s[self.i]) {
            self.i += 1;
        }
        self.i - b
    }
    /// up to `t`, which is skipped
    fn until(&mut self, t: &str) -> R<&[char]> {
        let b = self.i;
        while self.i < self.s.len() {
            if self.at(t) {
                let e = self.i;
                self.i += t.len();
                return Ok(&self.s[b..e]);
            }
            self.i += 1;
        }
        Err(No::Malformed)
    }
    /// name="value" pairs up to the end of the tag
    fn attribute(&mut self) -> R<(String, Vec<char>)> {
        let b = self.i;
        while let Some(c) = self.peek() {
            if ws(c) || c == '=' || c == '/' || c == '>' {
                break;
            }
            // the end of the tag is found by its quotes, so what follows may be anything
            if c == '"' || c == '\'' {
                return Err(No::Malformed);
            }
            self.i += 1;
        }
        let name = &self.s[b..self.i];
        check_name(name)?;
        let name = text_of(name);
        self.skip_ws();
        if self.peek() != Some('=') {
            return Err(No::Malformed);
        }
        self.i += 1;
        self.skip_ws();
        let q = match self.peek() {
            Some(q) if q == '"' || q == '\'' => q,
            _ => return Err(No::Malformed),
        };
        self.i += 1;
        let v = self.until(if q == '"' { "\"" } else { "'" })?.to_vec();
        Ok((name, v))
    }
    fn comment(&mut self) -> R<N> {
        let v = self.until("-->")?;
        // "--" inside, and references, which comments do not have
        let dashes = v.windows(2).any(|w| w[0] == '-' && w[1] == '-') || v.last() == Some(&'-') || v.first() == Some(&'>') || v.first() == Some(&'-');
        if dashes || v.contains(&'&') {
            return Err(No::Open);
        }
        Ok(N::leaf(K::Comment, "#comment", Some(&text_of(v))))
    }
    fn pi(&mut self) -> R<N> {
        let v = self.until("?>")?;
        let e = v.iter().position(|c| ws(*c)).unwrap_or(v.len());
        check_name(&v[..e])?;
        let data = trimmed(&v[e..]);
        Ok(N::leaf(K::Pi, &text_of(&v[..e]), if data.is_empty() { None } else { Some(text_of(data)) }.as_deref()))
    }
    fn declaration(&mut self, d: &mut Doc) -> R<()> {
        let mut k = 0;
        loop {
            let sp = self.skip_ws();
            if self.at("?>") {
                self.i += 2;
                return if d.version.is_none() { Err(No::Open) } else { Ok(()) };
            }
            if sp == 0 {
                return Err(No::Open);
            }
            let (n, v) = self.attribute().map_err(|_| No::Open)?;
            let v = text_of(&v);
            if v.contains('>') || v.contains('?') {
                return Err(No::Open);
            }
            match (n.as_str(), k) {
                ("version", 0) => {
                    d.version = Some(match v.as_str() {
                        "1.0" => false,
                        "1.1" => true,
                        _ => return Err(No::Malformed),
                    });
                    k = 1;
                }
                ("encoding", 1) => {
                    let cs: Vec<char> = v.chars().collect();
                    let ok = !cs.is_empty()
                        && cs.iter().enumerate().all(|(i, c)| {
                            let u = *c as u32;
                            let letter = within(u | 0x20, 0x61, 0x7a);
                            letter | ((i > 0) & (within(u, 0x30, 0x39) | (u == 0x2e) | (u == 0x5f) | (u == 0x2d)))
                        });
                    if !ok {
                        return Err(No::Malformed);
                    }
                    d.encoding = Some(v);
                    k = 2;
                }
                ("standalone", 1 | 2) => {
                    d.standalone = Some(match v.as_str() {
                        "yes" => true,
                        "no" => false,
                        _ => return Err(No::Malformed),
                    });
                    k = 3;
                }
                _ => return Err(No::Open),
            }
        }
    }
    /// after the '<' of a start tag
    fn element(&mut self, depth: usize) -> R<N> {
        let b = self.i;
        while let Some(c) = self.peek() {
            if ws(c) || c == '/' || c == '>' {
                break;
            }
            self.i += 1;
        }
        check_name(&self.s[b..self.i])?;
        let mut n = N::leaf(K::Element, &text_of(&self.s[b..self.i]), None);
        let mut spaced = false;
        loop {
            if self.skip_ws() > 0 {
                spaced = true;
            }
            match self.peek() {
                None => return Err(No::Malformed),
                Some('>') => {
                    self.i += 1;
                    break;
                }
                Some('/') => {
                    self.i += 1;
                    if self.peek() != Some('>') {
                        return Err(No::Malformed);
                    }
                    self.i += 1;
                    return Ok(n);
                }
                _ => {
                    if !spaced {
                        return Err(No::Open);
                    }
                    let (name, v) = self.attribute()?;
                    if v.contains(&'<') {
                        return Err(No::Open);
                    }
                    let _ = replaced(&v)?;
                    if n.attrs.iter().any(|(m, _)| *m == name) {
                        return Err(No::Malformed);
                    }
                    n.attrs.push((name, text_of(&v)));
                    spaced = false;
                }
            }
        }
        loop {
            let b = self.i;
            while self.i < self.s.len() && self.s[self.i] != '<' {
                self.i += 1;
            }
            let t = &self.s[b..self.i];
            if t.windows(3).any(|w| w == [']', ']', '>']) {
                return Err(No::Open);
            }
            let t = trimmed(t);
            if !t.is_empty() {
                n.kids.push(N::leaf(K::Text, "#text", Some(&replaced(t)?)));
            }
            if self.i == self.s.len() {
                return Err(No::Malformed);
            }
            self.i += 1;
            if self.at("/") {
                self.i += 1;
                let v = self.until(">")?;
                let mut e = v.len();
                while e > 0 && ws(v[e - 1]) {
                    e -= 1;
                }
                return if text_of(&v[..e]) == n.name { Ok(n) } else { Err(No::Malformed) };
            }
            n.kids.push(if self.at("!--") {
                self.i += 3;
                self.comment()?
            } else if self.at("![CDATA[") {
                self.i += 8;
                let v = self.until("]]>")?;
                N::leaf(K::Cdata, "#cdata-section", Some(&text_of(v)))
            } else if self.at("![") {
                // quick-xml does not mind the case of "CDATA"
                return Err(No::Open);
            } else if self.at("!") {
                return Err(No::Malformed);
            } else if self.at("?") {
                self.i += 1;
                self.pi()?
            } else {
                self.element(depth + 1)?
            })
        }
    }
    fn document(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        let mut roots = 0;
        if self.at("<?xml") && self.i + 5 < self.s.len() && ws(self.s[self.i + 5]) {
            self.i += 5;
            self.declaration(&mut d)?;
        }
        loop {
            self.skip_ws();
            if self.i == self.s.len() {
                return if roots == 1 { Ok(d) } else { Err(No::Malformed) };
            }
            if self.peek() != Some('<') {
                return Err(No::Malformed);
            }
            self.i += 1;
            if self.at("!DOCTYPE") {
                return Err(No::Open);
            }
            d.kids.push(if self.at("!--") {
                self.i += 3;
                self.comment()?
            } else if self.at("!") || self.at("/") {
                return Err(No::Malformed);
            } else if self.at("?") {
                self.i += 1;
                self.pi()?
            } else {
                roots += 1;
                if roots > 1 {
                    return Err(No::Malformed);
                }
                self.element(0)?
            })
        }
    }
}
fn oracle(s: &str) -> R<Doc> {
    let s: Vec<char> = s.chars().collect();
    let r = Rd { s: &s, i: 0 }.document();
    if let Ok(d) = &r {
        // the mutated character may be one that XML does not allow, or a line end
        let _ = d;
        for c in &s {
            let c = *c as u32;
            if ((c < 0x20) & (c != 9) & (c != 10)) | (c == 0x7f) | within(c, 0x80, 0x9f) | within(c, 0xfffe, 0xffff) {
                return Err(No::Open);
            }
        }
    }
    r
}

// ------------------------------------------------------------------------------------------------
// The comparison

fn same_node_tree(n: &N, x: &RefNode) {
    let t = match n.kind {
        K::Element => NodeType::Element,
        K::Text => NodeType::Text,
        K::Cdata => NodeType::CData,
        K::Comment => NodeType::Comment,
        K::Pi => NodeType::ProcessingInstruction,
    };
    sym::assert(x.node_type() == t, "P28.kind");
    if x.node_type() != t {
        return;
    }
    sym::assert(sym::same(&x.node_name().to_string(), &n.name), "P28.name");
    if n.kind == K::Element {
        let map = x.attributes();
        sym::assert(map.len() == n.attrs.len(), "P28.attribute-count");
        for (k, v) in &n.attrs {
            let got = x.get_attribute(k);
            sym::assert(sym::same_opt(&got, &Some(escaped(&normal(v)))), "P28.attribute");
        }
    } else {
        sym::assert(sym::same_opt(&x.node_value(), &n.value), "P28.value");
    }
    same_kids(&n.kids, &x.child_nodes());
}
fn same_kids(ns: &[N], xs: &[RefNode]) {
    sym::observe(xs.len() as u64);
    sym::assert(ns.len() == xs.len(), "P28.children");
    for (n, x) in ns.iter().zip(xs) {
        same_node_tree(n, x);
    }
}
fn same_document(d: &Doc, x: &RefNode) {
    sym::assert(x.node_type() == NodeType::Document, "P28.document");
    let decl = as_document_decl(x).unwrap().xml_declaration();
    match (&decl, d.version) {
        (None, None) => (),
        (Some(got), Some(v11)) => {
            sym::assert((got.version() == XmlVersion::V11) == v11, "P28.version");
            sym::assert(sym::same_opt(&got.encoding(), &d.encoding), "P28.encoding");
            sym::assert(got.standalone() == d.standalone, "P28.standalone");
        }
        _ => sym::assert(false, "P28.declaration"),
    }
    same_kids(&d.kids, &x.child_nodes());
    let r = x.document_element();
    sym::assert(r.is_some(), "P28.root");
}

/// both properties, for one text
fn check(s: &str) {
    sym::panic_id("P29.panic");
    let got = read_xml(s);
    sym::observe(got.is_ok() as u64);
    sym::panic_id("");
    match (oracle(s), &got) {
        (Ok(d), Ok(x)) => {
            sym::reach("P28.read");
            same_document(&d, x)
        }
        (Ok(_), Err(_)) => sym::assert(false, "P28.refused"),
        (Err(No::Malformed), Ok(_)) => sym::assert(false, "P29.accepted"),
        (Err(No::Malformed), Err(_)) => sym::reach("P29.malformed"),
        (Err(No::Open), _) => sym::reach("P29.open"),
    }
}

// ------------------------------------------------------------------------------------------------
// Entries

const BASES: [&str; 5] = [
    "<a b=\"c\"><d/>t</a>",
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<a/>",
    "<!--c--><p:a><?q r?><p:b x='&lt;' y=\"&#65;\"/></p:a>",
    "<a>t&amp;u<![CDATA[x]]><!--y-->&#x42;</a>",
    "<?xml version='1.1' standalone='no'?><a><b><c></c >v</b></a>",
];

/// one arbitrary ASCII character inserted or replaced anywhere in a document, a part removed, or
/// the rest cut off
pub fn h_read_near() {
    warm(&new_doc());
    let mut v: Vec<char> = BASES[sym::pick("base", BASES.len())].chars().collect();
    match sym::pick("change", 4) {
        0 => {
            let at = sym::pick("at", v.len() + 1);
            v.insert(at, sym::ascii("asc"));
        }
        1 => {
            let at = sym::pick("at", v.len());
            v[at] = sym::ascii("asc");
        }
        2 => {
            let at = sym::pick("at", v.len());
            let n = 1 + sym::pick("n", if sym::thorough() { 6 } else { 2 });
            for _ in 0..n {
                if at < v.len() {
                    let _ = v.remove(at);
                }
            }
        }
        _ => {
            let at = sym::pick("at", v.len());
            v.truncate(at);
        }
    }
    let s: String = v.into_iter().collect();
    check(&s);
}

/// any sequence of constructs
pub fn h_read_any() {
    warm(&new_doc());
    let mut s = String::new();
    let k = if sym::thorough() { 5 } else { 4 };
    for _ in 0..k {
        s.push_str(sym::one_of(
            "piece",
            &["<a>", "</a>", "<b c='d'/>", "t", "<!-- e -->", "<?f  g ?>", "<![CDATA[ h ]]>", "<?xml version='1.0'?>", "&lt;", " "],
        ));
    }
    check(&s);
}

/// deep and wide documents, long values, many attributes and references
pub fn h_read_large() {
    warm(&new_doc());
    let n = if sym::thorough() { [5, 9, 17, 40, 70][sym::pick("size", 5)] } else { [5, 17][sym::pick("size", 2)] };
    let place = |name: &str| [0, 1, n / 2, n - 2, n - 1][sym::pick(name, 5)];
    let mut s = String::new();
    match sym::pick("what", 7) {
        0 => {
            // one end tag that is missing, there twice, or another's
            let at = place("at");
            let how = sym::pick("how", 4);
            for i in 0..n {
                s.push_str(&format!("<e{}>", i));
            }
            for i in (0..n).rev() {
                match (i == at, how) {
                    (true, 1) => (),
                    (true, 2) => s.push_str(&format!("</e{}></e{}>", i, i)),
                    (true, 3) => s.push_str("</e>"),
                    _ => s.push_str(&format!("</e{}>", i)),
                }
            }
        }
        1 => {
            // elements with one name in each other, one end tag missing or more
            let missing = sym::pick("missing", 3);
            s.push_str(&"<e>".repeat(n));
            s.push_str(&"</e>".repeat(n + 1 - missing));
        }
        2 => {
            let at = place("at");
            s.push_str("<r>");
            for i in 0..n {
                if i == at {
                    s.push(sym::ascii("asc"));
                }
                s.push_str(["<a/>", "t", "<!--c-->", "<?p d?>", "<b x='1'></b>", "<![CDATA[c]]>", "&lt;"][i % 7]);
            }
            s.push_str("</r>");
        }
        3 => {
            // attributes; two may have one name
            let (a, b) = (place("a"), place("b"));
            s.push_str("<r");
            for i in 0..n {
                let k = if i == a { b } else { i };
                if i == n / 2 {
                    s.push_str(&format!(" n{}='v{}'", k, sym::ascii("asc")));
                } else {
                    s.push_str(&format!(" n{}='v{}'", k, i));
                }
            }
            s.push_str("/>");
        }
        4 => {
            // something long, with an arbitrary character in it
            let len = if sym::thorough() { [20, 64, 130, 300][sym::pick("length", 4)] } else { [20, 70][sym::pick("length", 2)] };
            let at = [0, 1, len / 2, len - 1][sym::pick("at", 4)];
            let (x, y) = [("<r>", "</r>"), ("<r x='", "'/>"), ("<r><!--", "--></r>"), ("<r><?p ", "?></r>"), ("<r><![CDATA[", "]]></r>"), ("<r", "/>"), ("<r ", "='1'/>")]
                [sym::pick("in", 7)];
            let c = if x == "<r " { '-' } else { sym::ascii("asc") };
            let text: String = (0..len).map(|i| if i == at { c } else { (b'a' + (i % 26) as u8) as char }).collect();
            s = format!("{}{}{}", x, text, y);
        }
        5 => {
            // references
            let at = place("at");
            let attr = sym::pick("attribute", 2) == 1;
            s.push_str(if attr { "<r x='" } else { "<r>" });
            for i in 0..n {
                if i == at {
                    s.push(sym::ascii("asc"));
                }
                s.push_str(["&amp;", "&#65;", "&lt;", "&#x42;"][i % 4]);
            }
            s.push_str(if attr { "'/>" } else { "</r>" });
        }
        _ => {
            // around the document element
            let at = sym::pick("at", n + 1);
            let decl = sym::pick("declaration", 3);
            for i in 0..n {
                if i == decl {
                    s.push_str("<?xml version='1.0'?>");
                }
                if i == at {
                    s.push_str("<r/>");
                }
                s.push_str(["<!--c-->", "<?p d?>", " ", "\n"][i % 4]);
            }
            if at == n {
                s.push_str("<r/>");
            }
        }
    }
    check(&s);
}

/// any character, in each place that takes one
pub fn h_read_char() {
    warm(&new_doc());
    let (a, b) = [
        ("<r>a", "b</r>"),
        ("<r x=\"a", "b\"/>"),
        ("<r x='a", "b'/>"),
        ("<r><!--a", "b--></r>"),
        ("<r><?x a", "b?></r>"),
        ("<r><![CDATA[a", "b]]></r>"),
        ("<r><a", "/></r>"),
        ("<r><", "/></r>"),
        ("<r a", "='1'/>"),
        ("<r><?a", "?></r>"),
    ][sym::pick("place", 10)];
    let mut s = String::from(a);
    s.push(sym::chr("chr"));
    s.push_str(b);
    check(&s);
}

/// references of arbitrary characters
pub fn h_read_refs() {
    warm(&new_doc());
    let mut s = String::from(sym::one_of("in", &["<r>", "<r x='"]));
    let attr = s.ends_with('\'');
    s.push_str(sym::one_of("start", &["&", "&#", "&#x", "&#1", "&#x1", "&#x2F", "&a", "&am", "&qu"]));
    for _ in 0..1 + sym::pick("n", 2) {
        s.push(sym::ascii("asc"));
    }
    s.push_str(sym::one_of("end", &[";", "p;", "t;"]));
    s.push_str(if attr { "'/>" } else { "</r>" });
    check(&s);
}

/// a source that gives its text in parts, and may fail
struct Parts<'a> {
    s: &'a [u8],
    at: usize,
    cuts: [usize; 2],
    every: bool,
    fail: Option<usize>,
}
impl std::io::Read for Parts<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = std::io::BufRead::fill_buf(self)?;
        let n = p.len().min(buf.len());
        buf[..n].copy_from_slice(&p[..n]);
        std::io::BufRead::consume(self, n);
        Ok(n)
    }
}
impl std::io::BufRead for Parts<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let mut e = self.s.len();
        for c in self.cuts {
            if c > self.at && c < e {
                e = c;
            }
        }
        if self.every {
            e = (self.at + 1).min(self.s.len());
        }
        if let Some(f) = self.fail {
            if self.at >= f {
                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
            }
            e = e.min(f);
        }
        Ok(&self.s[self.at..e])
    }
    fn consume(&mut self, n: usize) {
        self.at += n
    }
}

const SOURCE: &str = "<?xml version='1.0'?><a b=\"c>\"><!--d->--e--><?f g?h?><![CDATA[i]]j]]>k&lt;\u{e9}\u{20ac}<l/>m</a><!--n-->";

/// wherever the parts of a source end
pub fn h_read_parts() {
    warm(&new_doc());
    let every = sym::pick("every", 2) == 1;
    let n = SOURCE.len();
    let (a, b) = if every {
        (0, 0)
    } else {
        let a = 1 + sym::pick("cut", n - 1);
        (a, (a + 1 + sym::pick("next", if sym::thorough() { 40 } else { 6 })).min(n))
    };
    let fail = if sym::pick("fail", 2) == 1 { Some(b.max(1)) } else { None };
    sym::panic_id("P29.panic-source");
    let got = read_reader(Parts { s: SOURCE.as_bytes(), at: 0, cuts: [a, b], every, fail });
    sym::panic_id("");
    match (&got, fail) {
        (_, Some(f)) if f <= n => {
            sym::reach("P29.source-failed");
            sym::assert(got.is_err(), "P29.source-error-lost")
        }
        (Ok(x), _) => {
            sym::reach("P28.parts");
            let want = Doc {
                version: Some(false),
                kids: vec![
                    N {
                        attrs: vec![("b".into(), "c>".into())],
                        kids: vec![
                            N::leaf(K::Comment, "#comment", Some("d->--e")),
                            N::leaf(K::Pi, "f", Some("g?h")),
                            N::leaf(K::Cdata, "#cdata-section", Some("i]]j")),
                            N::leaf(K::Text, "#text", Some("k<\u{e9}\u{20ac}")),
                            N::leaf(K::Element, "l", None),
                            N::leaf(K::Text, "#text", Some("m")),
                        ],
                        ..N::leaf(K::Element, "a", None)
                    },
                    N::leaf(K::Comment, "#comment", Some("n")),
                ],
                ..Doc::default()
            };
            same_document(&want, x)
        }
        _ => sym::assert(false, "P28.parts-refused"),
    }
}

/// what is printed, read back
pub fn h_read_printed() {
    printed(true)
}
/// with an arbitrary character somewhere
pub fn h_read_printed_char() {
    printed(false)
}
fn printed(tree: bool) {
    let doc = get_implementation().create_document(None, Some("r"), None).unwrap();
    warm(&doc);
    let mut want = Doc { kids: vec![N::leaf(K::Element, "r", None)], ..Doc::default() };
    let mut doc2 = doc.clone();
    if tree && sym::pick("declared", 2) == 1 {
        let _ = as_document_decl_mut(&mut doc2)
            .unwrap()
            .set_xml_declaration(XmlDecl::new(XmlVersion::V11, Some("UTF-8".to_string()), Some(true)));
        want.version = Some(true);
        want.encoding = Some("UTF-8".to_string());
        want.standalone = Some(true);
    }
    let kinds = if tree { 1 } else { 5 };
    let place = if tree { 5 } else { sym::pick("place", kinds) };
    // an arbitrary character somewhere
    let c = if tree {
        'x'
    } else {
        let c = if place == 1 { sym::ascii("asc") } else { sym::chr("chr") };
        let u = c as u32;
        sym::assume(
            (u > 0x20)
                & !within(u, 0x7f, 0xa0)
                & !within(u, 0x1680, 0x1680)
                & !within(u, 0x2000, 0x200a)
                & !within(u, 0x2028, 0x202f)
                & (u != 0x205f)
                & (u != 0x3000)
                & !within(u, 0xfffe, 0xffff),
        );
        c
    };
    let mut r = root(&doc);
    let add = |p: &mut RefNode, n: &mut N, x: N| {
        let k = match x.kind {
            K::Element => doc.create_element(&x.name).unwrap(),
            K::Text => doc.create_text_node(x.value.as_ref().unwrap()),
            K::Comment => doc.create_comment(x.value.as_ref().unwrap()),
            K::Pi => doc.create_processing_instruction(&x.name, x.value.as_deref()).unwrap(),
            K::Cdata => unreachable!(),
        };
        n.kids.push(x);
        p.append_child(k).unwrap()
    };
    let mut s = String::from(c);
    let w = &mut want.kids[0];
    match place {
        0 => {
            s.push('x');
            let _ = add(&mut r, w, N::leaf(K::Text, "#text", Some(&s)));
        }
        1 => {
            r.set_attribute("a", &s).unwrap();
            w.attrs.push(("a".to_string(), s));
        }
        2 => {
            sym::assume(c != '-');
            let _ = add(&mut r, w, N::leaf(K::Comment, "#comment", Some(&s)));
        }
        3 => {
            sym::assume(c != '?');
            let _ = add(&mut r, w, N::leaf(K::Pi, "p", Some(&s)));
        }
        4 => {
            sym::assume(name_start(c));
            let _ = add(&mut r, w, N::leaf(K::Element, &s, None));
        }
        _ => (),
    }
    // and a tree
    if tree {
        let k = if sym::thorough() { 4 } else { 3 };
        let mut at: Vec<(RefNode, Vec<usize>)> = vec![(r.clone(), vec![])];
        for i in 0..k {
            let (p, path) = at[sym::pick("parent", at.len())].clone();
            let mut m = &mut want.kids[0];
            for j in &path {
                m = &mut m.kids[*j];
            }
            let mut x = match sym::pick("kind", 5) {
                0 => N::leaf(K::Element, "e", None),
                1 => N::leaf(K::Element, "n:f", None),
                2 => N::leaf(K::Comment, "#comment", Some(" & <c> ")),
                3 => N::leaf(K::Pi, "p", None),
                _ => {
                    // texts next to each other become one
                    if m.kids.last().map_or(false, |l| l.kind == K::Text) {
                        continue;
                    }
                    N::leaf(K::Text, "#text", Some(["x", "&lt;y", "]]>\"'"][i % 3]))
                }
            };
            let attr = x.name == "n:f";
            if attr {
                x.attrs.push(("v:w".to_string(), "&quot;&amp;lt;".to_string()));
            }
            let element = x.kind == K::Element;
            let at_i = m.kids.len();
            let mut p2 = p.clone();
            let mut node = add(&mut p2, m, x);
            if attr {
                node.set_attribute("v:w", "&quot;&amp;lt;").unwrap();
            }
            if element {
                let mut path = path.clone();
                path.push(at_i);
                at.push((node, path));
            }
        }
    }
    let text = doc.to_string();
    sym::observe_str(&text);
    sym::panic_id("P29.panic-printed");
    let got = read_xml(&text);
    sym::panic_id("");
    match &got {
        Ok(x) => {
            sym::reach("P28.printed");
            same_document(&want, x);
            sym::assert(place == 5 || text.len() > 0, "P28.printed-empty");
        }
        Err(_) => sym::assert(false, "P28.printed-refused"),
    }
}

/// a comment has no references
pub fn h_read_comment() {
    warm(&new_doc());
    let c = sym::ascii("asc");
    sym::assume((c as u32 > 0x20) & (c != '-') & (c as u32 != 0x7f));
    let mut v = String::from("a&");
    v.push(c);
    v.push('b');
    let s = format!("<r><!--{}--></r>", v);
    match read_xml(&s) {
        Ok(x) => {
            let r = root(&x);
            let k = r.child_nodes();
            sym::assert(k.len() == 1 && sym::same_opt(&k[0].node_value(), &Some(v)), "P28.comment-value")
        }
        Err(_) => sym::assert(false, "P28.comment-ampersand"),
    }
}
