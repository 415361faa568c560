//! Harness entries. Each `h_*` function is one symbolic driver: inputs come from `sym`, the
//! property is asserted over them, and the engine decides it for every value in the bounds.
mod attrs;
mod chardata;
mod common;
mod docmeta;
mod docs;
mod kinds;
mod large;
mod names;
#[cfg(feature = "parser")]
mod parse;
mod selftest;
pub mod sym;
mod textnodes;
mod tree;
mod values;

macro_rules! entries {
    ($($(#[$a:meta])* $m:ident :: $f:ident),* $(,)?) => {
        #[cfg(not(feature = "replay"))]
        pub mod exported {
            $($(#[$a])* #[no_mangle] pub extern "C" fn $f() { super::$m::$f() })*
        }
        #[cfg(not(feature = "replay"))]
        const ENTRIES: &[(&str, extern "C" fn())] = &[$($(#[$a])* (stringify!($f), exported::$f)),*];
        #[cfg(feature = "replay")]
        const ENTRIES: &[(&str, fn())] = &[$($(#[$a])* (stringify!($f), $m::$f)),*];
    };
}

entries! {
    chardata::h_chardata,
    chardata::h_chardata_wide,
    selftest::h_selftest,
    names::h_name_short,
    names::h_name_long,
    kinds::h_matrix,
    kinds::h_one_element,
    kinds::h_owner,
    kinds::h_owner_dropped,
    kinds::h_kinds,
    kinds::h_dropped,
    kinds::h_dropped_parent,
    kinds::h_other_interface,
    attrs::h_attr_names,
    attrs::h_attr_names_near,
    attrs::h_attr_ns,
    attrs::h_attr_ns_near,
    attrs::h_attr_nodes,
    attrs::h_ids,
    attrs::h_ids_near,
    attrs::h_id_names,
    attrs::h_ids_dropped,
    attrs::h_ns,
    attrs::h_ns_through,
    attrs::h_ns_near,
    attrs::h_ids_child,
    attrs::h_ns_child,
    attrs::h_reserved,
    attrs::h_set_prefix,
    tree::h_tree,
    tree::h_list,
    tree::h_large,
    tree::h_parents,
    tree::h_chain,
    large::h_normalize_large,
    large::h_escape_long,
    large::h_value_many,
    large::h_attr_many,
    large::h_attr_ns_many,
    large::h_attr_dropped,
    large::h_ids_many,
    large::h_ns_deep,
    large::h_shown_large,
    large::h_by_tag_large,
    large::h_clone_large,
    large::h_name_longer,
    textnodes::h_split,
    textnodes::h_split_parents,
    textnodes::h_normalize,
    textnodes::h_normalize_deep,
    textnodes::h_escape,
    textnodes::h_escape_near,
    docs::h_by_tag,
    docs::h_shown,
    docs::h_shown_text,
    docs::h_shown_document,
    docs::h_clone,
    docs::h_clone_top,
    docs::h_clone_value,
    docmeta::h_decl,
    docmeta::h_version,
    docmeta::h_options,
    docmeta::h_feature,
    docmeta::h_new_document,
    docmeta::h_identifiers,
    values::h_value_any,
    values::h_value_ascii,
    values::h_value_refs,
    values::h_value_routes,
    values::h_value_codes,
    values::h_value_long,
    #[cfg(feature = "parser")]
    parse::h_read_near,
    #[cfg(feature = "parser")]
    parse::h_read_any,
    #[cfg(feature = "parser")]
    parse::h_read_large,
    #[cfg(feature = "parser")]
    parse::h_read_char,
    #[cfg(feature = "parser")]
    parse::h_read_refs,
    #[cfg(feature = "parser")]
    parse::h_read_parts,
    #[cfg(feature = "parser")]
    parse::h_read_printed,
    #[cfg(feature = "parser")]
    parse::h_read_comment,
    #[cfg(feature = "parser")]
    parse::h_read_printed_char,
}

#[cfg(not(feature = "replay"))]
fn main() {
    // keeps every entry alive; never run
    let n = std::env::args().count();
    if let Some((_, f)) = ENTRIES.get(n) {
        f()
    }
}

/// `h ENTRY FILE`: every line of FILE is one recorded path, `name:width:value ...`; prints one
/// result line for each.
#[cfg(feature = "replay")]
fn main() {
    use std::io::Write;
    use std::sync::Mutex;
    static LAST: Mutex<String> = Mutex::new(String::new());
    let a: Vec<String> = std::env::args().collect();
    let f = ENTRIES.iter().find(|(n, _)| *n == a[1]).expect("entry").1;
    let text = std::fs::read_to_string(&a[2]).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        *LAST.lock().unwrap() = format!("{} {}", l, m.replace(['\n', '\r'], " "));
    }));
    for line in text.lines() {
        let vals = line
            .split_whitespace()
            .map(|w| {
                let mut it = w.rsplitn(3, ':');
                let v = it.next().unwrap().parse().unwrap();
                let b = it.next().unwrap().parse().unwrap();
                (it.next().unwrap().to_string(), b, v)
            })
            .collect();
        sym::imp::T.with(|t| *t.borrow_mut() = sym::imp::Tape { vals, ..Default::default() });
        let r = std::panic::catch_unwind(f);
        let (obs, pid, reached) = sym::imp::T.with(|t| {
            let t = t.borrow();
            (t.obs.clone(), t.panic_id.clone(), t.reached.clone())
        });
        let res = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => match e.downcast_ref::<sym::imp::Stop>() {
                Some(s) => s.0.clone(),
                None => format!("panic {} {}", if pid.is_empty() { "panic" } else { &pid }, LAST.lock().unwrap()),
            },
        };
        let o: Vec<String> = obs.iter().map(|x| x.to_string()).collect();
        println!("{}\t{}\t{}", res, o.join(","), reached.join(","));
        std::io::stdout().flush().unwrap();
    }
}
