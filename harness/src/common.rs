#![allow(dead_code, unused_imports)]
pub use crate::sym;
pub use std::str::FromStr;
pub use xml_dom::level2::convert::*;
pub use xml_dom::level2::ext::convert::{as_document_decl, as_document_decl_mut, as_element_namespaced};
pub use xml_dom::level2::ext::dom_impl::{create_entity, create_internal_entity, create_notation, get_implementation_ext};
pub use xml_dom::level2::ext::{NamespacePrefix, ProcessingOptions, XmlDecl, XmlVersion};
pub use xml_dom::level2::*;

pub const NS: &str = "http://example.org/ns";
pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

pub fn new_doc() -> RefNode {
    get_implementation().create_document(Some(NS), Some("root"), None).unwrap()
}
pub fn empty_doc() -> RefNode {
    get_implementation().create_document(None, None, None).unwrap()
}
pub fn root(doc: &RefNode) -> RefNode {
    doc.document_element().unwrap()
}
/// builds the regular expressions that attribute values go through, once, before any fork
pub fn warm(doc: &RefNode) {
    let a = doc.create_attribute_with("w", "x y&#65;").unwrap();
    let _ = as_attribute(&a).unwrap().value();
}
/// the string itself, or with one character (from `chr`) inserted or replaced, one removed, or empty
pub fn near(n: &str, base: &str, chr: fn() -> char) -> String {
    let mut v: Vec<char> = base.chars().collect();
    let place = |k: usize| -> usize {
        if k <= 6 || sym::thorough() {
            sym::pick("at", k)
        } else {
            [0, 1, k / 2, k - 2, k - 1][sym::pick("at", 5)]
        }
    };
    match sym::pick(n, 5) {
        0 => (),
        1 => {
            let at = place(v.len() + 1);
            v.insert(at, chr());
        }
        2 if !v.is_empty() => {
            let at = place(v.len());
            v[at] = chr();
        }
        3 if !v.is_empty() => {
            let at = place(v.len());
            let _ = v.remove(at);
        }
        _ => v.clear(),
    }
    v.into_iter().collect()
}
/// any ASCII character
pub fn any_ascii() -> char {
    sym::ascii("asc")
}
/// any ASCII character that a name can have, but no colon
pub fn any_name_char() -> char {
    let c = sym::ascii("asc");
    sym::assume(name_char(c));
    c
}
/// same node (identity)?
pub fn same_node(a: &Option<RefNode>, b: &Option<RefNode>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a == b,
        _ => false,
    }
}
/// position of a node in a list of handles
pub fn idx(pool: &[RefNode], n: &RefNode) -> usize {
    pool.iter().position(|x| x == n).unwrap_or(usize::MAX)
}
/// error code, 0 for success
pub fn code<T>(r: &Result<T>) -> u64 {
    match r {
        Ok(_) => 0,
        Err(e) => err_code(e),
    }
}
pub fn err_code(e: &Error) -> u64 {
    e.clone() as u64
}
/// non-short-circuit range test
#[inline(always)]
pub fn within(c: u32, lo: u32, hi: u32) -> bool {
    (c >= lo) & (c <= hi)
}
/// XML 1.0 5th edition production 4, without the colon
pub fn name_start(c: char) -> bool {
    let c = c as u32;
    within(c, 0x41, 0x5A)
        | (c == 0x5F)
        | within(c, 0x61, 0x7A)
        | within(c, 0xC0, 0xD6)
        | within(c, 0xD8, 0xF6)
        | within(c, 0xF8, 0x2FF)
        | within(c, 0x370, 0x37D)
        | within(c, 0x37F, 0x1FFF)
        | within(c, 0x200C, 0x200D)
        | within(c, 0x2070, 0x218F)
        | within(c, 0x2C00, 0x2FEF)
        | within(c, 0x3001, 0xD7FF)
        | within(c, 0xF900, 0xFDCF)
        | within(c, 0xFDF0, 0xFFFD)
        | within(c, 0x10000, 0xEFFFF)
}
/// production 4a, without the colon
pub fn name_char(c: char) -> bool {
    let u = c as u32;
    name_start(c)
        | (u == 0x2D)
        | (u == 0x2E)
        | within(u, 0x30, 0x39)
        | (u == 0xB7)
        | within(u, 0x300, 0x36F)
        | within(u, 0x203F, 0x2040)
}
