//! Not about a property: runs a broad sample of std through the engine, so that its results can be
//! compared with a native run (`selftest.sh`).
use crate::common::*;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Write;
use std::rc::{Rc, Weak};

fn o(s: &str) {
    sym::observe_str(s)
}
struct D<'a>(&'a Cell<u32>);
impl Drop for D<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1)
    }
}
trait Shape {
    fn area(&self) -> u64;
    fn name(&self) -> String {
        "shape".to_string()
    }
}
struct Sq(u64);
struct Re(u64, u64);
impl Shape for Sq {
    fn area(&self) -> u64 {
        self.0 * self.0
    }
}
impl Shape for Re {
    fn area(&self) -> u64 {
        self.0 * self.1
    }
    fn name(&self) -> String {
        format!("rect {}x{}", self.0, self.1)
    }
}

pub fn h_selftest() {
    sym::panic_id("self.panic");
    let text = "The quick brown fox — jumps över the lazy dog; 0123456789, ünïcödé ΑΒΓΔ 漢字 😀😀 end.";
    // a symbolic part, so that not all is constant
    let k = sym::u8("k");
    sym::assume((k >= b'a') & (k <= b'z'));
    let part = sym::pick("part", 12);
    sym::observe(part as u64);
    match part {
        0 => {
            // strings
            o(&text.to_uppercase());
            o(&text.to_lowercase());
            o(&text.chars().rev().collect::<String>());
            o(&text.replace("the", "THE").replace('o', "0"));
            o(&text.replacen("o", "<o>", 2));
            for w in text.split_whitespace().rev() {
                o(w);
            }
            for w in text.split(&[',', ';'][..]).map(str::trim) {
                o(w);
            }
            for w in text.rsplitn(3, ' ') {
                o(w);
            }
            for (i, w) in text.char_indices().filter(|(_, c)| c.is_alphabetic() && !c.is_ascii()) {
                sym::observe(i as u64 * 7 + w as u64);
            }
            sym::observe(text.find("lazy").unwrap() as u64);
            sym::observe(text.rfind("the").unwrap_or(0) as u64);
            sym::observe(text.find(|c: char| c.is_numeric()).unwrap() as u64);
            sym::observe(text.contains("😀 end") as u64);
            sym::observe(text.matches("o").count() as u64);
            o(text.trim_end_matches('.').trim_start_matches("The "));
            o(text.strip_prefix("The").unwrap_or("-"));
            if let Some((a, b)) = text.split_once(';') {
                o(a);
                o(b);
            }
            if let Some((a, b)) = text.rsplit_once(' ') {
                o(a);
                o(b);
            }
            let mut s = String::from(text);
            s.retain(|c| c != ' ');
            s.insert(3, 'é');
            s.insert_str(0, "<<");
            s.truncate(20);
            let _ = s.pop();
            let _ = s.remove(0);
            s.drain(..2).for_each(drop);
            s.replace_range(1..2, "xyz");
            o(&s);
            o(&s.repeat(3));
            sym::observe(s.is_char_boundary(2) as u64);
            o(&format!("{:?} {:>8} {:<6}| {:^7} {:+} {:#x} {:08b} {:e}", "a\"b\n\u{1}é", "r", "l", "c", 5, 255, 5u8, 1500));
            o(&format!("{:?}", text.bytes().take(5).collect::<Vec<u8>>()));
            o(&format!("{:#?}", Some(("a", 1))));
            o(&String::from_utf8_lossy(&[b'a', 0xff, b'b', 0xe4, 0xbd]));
            sym::observe(std::str::from_utf8(&[0xc3, 0x28]).is_err() as u64);
            o(&text.escape_debug().to_string());
            o(&text.escape_unicode().take(40).collect::<String>());
            sym::observe(text.eq_ignore_ascii_case("x") as u64);
            o(&"AbC".to_ascii_lowercase());
            sym::observe(("abc".cmp("abd") as i8) as u64);
        }
        1 => {
            // numbers
            for s in ["0", "42", "-7", "99999999999", "x", "", "+3", "255", "256"] {
                sym::observe(s.parse::<u8>().map(|x| x as u64).unwrap_or(1000));
                sym::observe(s.parse::<i32>().map(|x| x as i64 as u64).unwrap_or(5000));
                sym::observe(s.parse::<u64>().unwrap_or(7));
            }
            sym::observe(u32::from_str_radix("fF", 16).unwrap() as u64);
            sym::observe(u128::MAX.count_ones() as u64);
            let x = 0x1234_5678_9abc_def0_u64 as u128 * 0xfedc_ba98_7654_3210;
            sym::observe((x >> 64) as u64);
            sym::observe((x / 12345678901234567890123) as u64);
            sym::observe((x % 998244353) as u64);
            sym::observe(17u64.pow(5) + 17u64.isqrt());
            sym::observe(255u8.wrapping_add(7) as u64);
            sym::observe(250u8.saturating_add(7) as u64);
            sym::observe(250u8.checked_add(7).is_none() as u64);
            sym::observe(5u32.overflowing_sub(7).0 as u64);
            sym::observe(i64::MIN.leading_zeros() as u64 + 40u64.trailing_zeros() as u64);
            sym::observe(0x1234u16.swap_bytes() as u64);
            sym::observe(0x12345678u32.rotate_left(8) as u64);
            sym::observe(0x1u32.reverse_bits() as u64);
            sym::observe((-7i32).rem_euclid(3) as u64);
            sym::observe((-7i32 / 2) as u64);
            sym::observe(7i32.signum() as u64 + (-9i64).unsigned_abs());
            sym::observe(u64::from_be_bytes([1, 2, 3, 4, 5, 6, 7, 8]));
            sym::observe(10u64.abs_diff(13).max(2).min(9).clamp(1, 4));
            o(&12345678901234567890u64.to_string());
            sym::observe((k as u64 * 3 + 1) % 7 + (k as u64) / 5);
        }
        2 => {
            // vectors and slices
            let mut v: Vec<i32> = (0..40).map(|x| (x * 37) % 41 - 20).collect();
            v.sort();
            sym::observe(v.binary_search(&3).unwrap_or(99) as u64);
            v.sort_by(|a, b| b.cmp(a));
            v.sort_by_key(|x| x % 5);
            v.sort_unstable_by_key(|x| x.abs());
            v.dedup_by_key(|x| *x / 3);
            v.retain(|x| x % 2 == 0);
            v.reverse();
            v.rotate_left(2);
            v.swap(0, 1);
            v.extend_from_slice(&[1, 2, 3]);
            v.insert(1, 77);
            let _ = v.remove(2);
            let _ = v.swap_remove(0);
            let t = v.split_off(3);
            v.truncate(2);
            v.resize(5, 9);
            let d: Vec<i32> = v.drain(1..3).collect();
            v.splice(0..1, [8, 8, 8]).for_each(drop);
            for x in v.iter().chain(&t).chain(d.iter()) {
                sym::observe(*x as u64);
            }
            for w in t.windows(2).chain(t.chunks(3)) {
                sym::observe(w.iter().sum::<i32>() as u64);
            }
            sym::observe(t.iter().max().copied().unwrap_or(0) as u64);
            sym::observe(t.iter().position(|x| *x == 2).unwrap_or(100) as u64);
            sym::observe(t.concat_len());
            let (a, b) = t.split_at(1);
            sym::observe((a.len() * 10 + b.len()) as u64);
            let j = [vec!["a", "b"], vec!["c"]].concat().join("-");
            o(&j);
            let mut big: Vec<String> = (0..60).map(|i| format!("k{}", (i * 17) % 60)).collect();
            big.sort();
            o(&big.join(","));
            big.sort_by(|a, b| a.len().cmp(&b.len()).then_with(|| b.cmp(a)));
            o(&big.concat());
            big.dedup();
            sym::observe(big.iter().rev().skip(3).step_by(7).map(String::len).sum::<usize>() as u64);
            let (e, f): (Vec<&String>, Vec<&String>) = big.iter().partition(|s| s.ends_with('1'));
            sym::observe((e.len() * 100 + f.len()) as u64);
            let z: Vec<(usize, char)> = "xyz".chars().enumerate().zip(1..).map(|((a, b), c)| (a + c, b)).collect();
            for (a, b) in z {
                sym::observe(a as u64 * 1000 + b as u64);
            }
            let f: Vec<u8> = [vec![1u8, 2], vec![], vec![3]].into_iter().flatten().collect();
            sym::observe(f.iter().fold(0u64, |a, b| a * 10 + *b as u64));
            sym::observe([3, 1, 2].iter().scan(0, |s, x| { *s += x; Some(*s) }).last().unwrap() as u64);
            sym::observe((1..=5).flat_map(|x| (0..x)).take_while(|x| *x < 4).filter_map(|x| if x > 0 { Some(x) } else { None }).product::<u64>());
            let mut it = [1, 2, 3].iter().peekable();
            while let Some(x) = it.next() {
                sym::observe(*x as u64 + it.peek().map(|y| **y).unwrap_or(50) as u64);
            }
            sym::observe([1, 5, 2].iter().min_by_key(|x| 10 - **x).copied().unwrap());
            sym::observe(vec![1u8; 70].iter().map(|x| *x as u64).sum());
            let arr: [u8; 4] = [1, 2, 3, 4];
            sym::observe(arr.map(|x| x as u64 * 2).iter().rev().fold(0, |a, b| a * 16 + b));
        }
        3 => {
            // maps and sets
            let mut m: HashMap<String, u32> = HashMap::new();
            for w in text.split(' ') {
                *m.entry(w.to_string()).or_insert(0) += w.len() as u32;
            }
            let mut keys: Vec<_> = m.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
            keys.sort();
            o(&keys.join("|"));
            m.retain(|_, v| *v > 4);
            sym::observe(m.len() as u64);
            sym::observe(m.remove("jumps").unwrap_or(0) as u64);
            sym::observe(m.contains_key("quick") as u64);
            if let Some(x) = m.get_mut("quick") {
                *x += 1;
            }
            sym::observe(m.values().map(|x| *x as u64).sum());
            m.extend([("a".to_string(), 1)]);
            let c = m.clone();
            sym::observe((c == m) as u64);
            m.clear();
            sym::observe(m.is_empty() as u64);
            let h: HashSet<u32> = (0..20).map(|x| x % 7).collect();
            let g: HashSet<u32> = (5..9).collect();
            let mut u: Vec<_> = h.intersection(&g).copied().collect();
            u.sort_unstable();
            sym::observe(u.iter().fold(0, |a, b| a * 10 + *b as u64));
            sym::observe(h.union(&g).count() as u64 + h.difference(&g).count() as u64);
            let mut b: BTreeMap<String, usize> = BTreeMap::new();
            for (i, w) in text.split(' ').enumerate() {
                let _ = b.insert(w.to_string(), i);
            }
            for (k, v) in &b {
                o(k);
                sym::observe(*v as u64);
            }
            for (k, _) in b.range("d".to_string().."m".to_string()).rev() {
                o(k);
            }
            let _ = b.remove("fox");
            sym::observe(b.first_key_value().map(|(_, v)| *v).unwrap() as u64 + b.pop_last().unwrap().1 as u64);
            let s: BTreeSet<i32> = (0..50).map(|x| (x * 7) % 23).collect();
            sym::observe(s.iter().rev().take(3).sum::<i32>() as u64 + s.range(5..9).count() as u64);
            let mut q: VecDeque<u32> = (0..5).collect();
            q.rotate_left(2);
            q.push_front(9);
            let _ = q.pop_back();
            q.make_contiguous().sort();
            sym::observe(q.iter().fold(0, |a, b| a * 10 + *b as u64));
            let mut p: BinaryHeap<u32> = [3, 1, 4, 1, 5].into();
            p.push(2);
            while let Some(x) = p.pop() {
                sym::observe(x as u64);
            }
            let l: LinkedList<u8> = [1, 2].into_iter().collect();
            sym::observe(l.len() as u64);
        }
        4 => {
            // smart pointers, traits, closures
            let c = Cell::new(0);
            {
                let _a = D(&c);
                let b = Box::new(D(&c));
                let r = Rc::new(D(&c));
                let w: Weak<D<'_>> = Rc::downgrade(&r);
                sym::observe(Rc::strong_count(&r) as u64 + 10 * Rc::weak_count(&r) as u64);
                let r2 = r.clone();
                drop(r);
                sym::observe(w.upgrade().is_some() as u64);
                drop(r2);
                sym::observe(w.upgrade().is_some() as u64);
                drop(b);
                std::mem::forget(D(&c));
            }
            sym::observe(c.get() as u64);
            let shapes: Vec<Box<dyn Shape>> = vec![Box::new(Sq(3)), Box::new(Re(2, 5))];
            for s in shapes.iter() {
                sym::observe(s.area());
                o(&s.name());
            }
            let fs: Vec<Box<dyn Fn(u64) -> u64>> = vec![Box::new(|x| x + 1), Box::new(move |x| x * k as u64)];
            let mut t = 3;
            for f in &fs {
                t = f(t);
            }
            sym::observe(t);
            let r = RefCell::new(vec![1]);
            r.borrow_mut().push(2);
            sym::observe(r.try_borrow_mut().is_ok() as u64);
            let g = r.borrow();
            sym::observe(r.try_borrow_mut().is_err() as u64);
            drop(g);
            sym::observe(r.replace(vec![]).len() as u64 + r.take().len() as u64);
            let oc: OnceCell<u32> = OnceCell::new();
            sym::observe(*oc.get_or_init(|| 5) as u64 + *oc.get_or_init(|| 6) as u64);
            let rs: Rc<str> = Rc::from("abc");
            o(&rs);
            let cow: std::borrow::Cow<'_, str> = if k > b'm' { "x".into() } else { String::from("y").into() };
            o(&cow);
            let mut s = String::new();
            write!(s, "{}-{:?}", 1, Some(2)).unwrap();
            o(&s);
            let v: std::result::Result<Vec<u32>, _> = "1,2,x".split(',').map(|x| x.parse::<u32>()).collect();
            sym::observe(v.is_err() as u64);
            let v: Option<Vec<u32>> = [Some(1), None].into_iter().collect();
            sym::observe(v.is_none() as u64);
            let any: Box<dyn std::any::Any> = Box::new(5u32);
            sym::observe(*any.downcast::<u32>().unwrap() as u64);
            let mut a = [1, 2];
            let b = std::mem::replace(&mut a, [3, 4]);
            let (x, y) = a.split_at_mut(1);
            std::mem::swap(&mut x[0], &mut y[0]);
            sym::observe((a[0] * 10 + a[1] + b[0]) as u64);
        }
        5 => {
            // characters
            for c in ['a', 'ß', 'İ', '٣', '漢', '\u{0}', '\u{10FFFF}', 'Ⅷ', '\u{85}', 'ǅ', k as char] {
                sym::observe(
                    c.is_alphabetic() as u64
                        + 2 * c.is_numeric() as u64
                        + 4 * c.is_whitespace() as u64
                        + 8 * c.is_control() as u64
                        + 16 * c.is_uppercase() as u64
                        + 32 * c.is_lowercase() as u64
                        + 64 * c.is_alphanumeric() as u64
                        + 128 * c.is_ascii_punctuation() as u64
                        + 256 * c.len_utf8() as u64
                        + 4096 * c.len_utf16() as u64,
                );
                o(&c.to_uppercase().collect::<String>());
                o(&c.to_lowercase().to_string());
                sym::observe(c.to_digit(36).unwrap_or(99) as u64);
            }
            sym::observe(char::from_u32(0xD800).is_none() as u64 + char::from_digit(7, 10).unwrap() as u64);
            let u: Vec<u16> = "a😀".encode_utf16().collect();
            sym::observe(u.iter().fold(0, |a, b| a * 65536 + *b as u64));
            sym::observe(u8::try_from('é').is_ok() as u64 + u8::try_from('漢').is_err() as u64);
            sym::observe(('a'..='e').rev().map(|c| c as u64).sum::<u64>());
        }
        6 => {
            // searches of many lengths
            let h: String = (0..120).map(|i| (b'a' + (i * i % 23) as u8) as char).collect();
            for n in [1usize, 2, 3, 7, 15, 16, 17, 31, 33] {
                for at in [0usize, 5, 40, 80] {
                    let needle = &h[at..at + n];
                    sym::observe(h.find(needle).unwrap() as u64 * 1000 + h.rfind(needle).unwrap() as u64);
                    sym::observe(h.contains(&format!("{}!", needle)) as u64);
                }
                sym::observe(h.as_bytes()[..n].iter().position(|b| *b == b'z').unwrap_or(500) as u64);
                sym::observe(h.bytes().rposition(|b| b == b'q').unwrap_or(500) as u64);
                sym::observe((h[..n] == h[n..2 * n]) as u64 + 2 * (h[..n] < h[n..2 * n]) as u64);
                sym::observe(h[..n].is_ascii() as u64 + text.is_ascii() as u64);
                sym::observe(text.chars().take(n).count() as u64 + text.chars().count() as u64);
            }
            o(&h.split("ab").collect::<Vec<_>>().join("+"));
            sym::observe(h.chars().filter(|c| "aeiou".contains(*c)).count() as u64);
        }
        7 => {
            // regular expressions, as the library uses them
            let doc = new_doc();
            let mut e = root(&doc);
            for s in ["a b\tc\nd", "&#65;&amp;&lt;x", "\r\n\u{85}", "&#x1F600;&bogus;&#xD800;", "  lead  trail  "] {
                e.set_attribute("a", s).unwrap();
                sym::observe_opt(&e.get_attribute("a"));
            }
            o(&doc.to_string());
            o(&format!("{:?}", e.node_name()));
        }
        8 => {
            // caught panics
            let r = std::panic::catch_unwind(|| {
                let v: Vec<u8> = vec![1];
                if k > b'c' { 7 } else { v[0] }
            });
            sym::observe(r.unwrap_or(9) as u64);
        }
        9 => {
            // floats
            let x = 2.5f64 * k as f64;
            sym::observe(x.to_bits() & 0);
            sym::observe((1.5f64 * 2.0) as u64 + 3.99f32 as u64 + (10f64 / 4.0) as u64);
        }
        10 => {
            // generic code on bytes
            let b = text.as_bytes();
            sym::observe(b.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)));
            sym::observe(b.iter().map(|x| *x as u32).sum::<u32>() as u64);
            sym::observe(b.iter().max().copied().unwrap() as u64 + b.iter().min().copied().unwrap() as u64);
            sym::observe(b.iter().filter(|x| x.is_ascii_digit()).count() as u64);
            sym::observe(b.iter().any(|x| *x == b';') as u64 + b.iter().all(|x| *x > 0) as u64);
            let mut v = b.to_vec();
            v.make_ascii_uppercase();
            v.iter_mut().for_each(|x| *x ^= 1);
            v.fill_with(|| 3);
            v[..10].fill(4);
            v[10..20].copy_from_slice(&b[..10]);
            v.copy_within(5..15, 20);
            sym::observe(v.iter().fold(0u64, |a, x| a.wrapping_mul(131) ^ *x as u64));
            let w: Vec<u32> = (0..64u32).map(|x| x.wrapping_mul(2654435761)).collect();
            sym::observe(w.iter().fold(0u64, |a, x| a ^ (*x as u64) << (x & 7)));
            sym::observe(w.iter().copied().map(u64::from).filter(|x| x & 1 == 0).max().unwrap());
            let eq = w.iter().zip(w.iter().skip(1)).filter(|(a, b)| a > b).count();
            sym::observe(eq as u64);
        }
        _ => {
            // threads and statics that a library may use
            use std::sync::{Arc, Mutex, OnceLock, RwLock};
            static L: OnceLock<Vec<u32>> = OnceLock::new();
            sym::observe(L.get_or_init(|| vec![1, 2, 3]).len() as u64);
            let m = Arc::new(Mutex::new(5));
            *m.lock().unwrap() += 1;
            sym::observe(*m.lock().unwrap() as u64 + Arc::strong_count(&m) as u64);
            let w = RwLock::new(3);
            sym::observe(*w.read().unwrap() as u64);
            *w.write().unwrap() = 4;
            thread_local!(static T: Cell<u32> = const { Cell::new(1) });
            T.with(|t| t.set(t.get() + 1));
            sym::observe(T.with(|t| t.get()) as u64);
            static A: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let _ = A.fetch_add(3, std::sync::atomic::Ordering::SeqCst);
            sym::observe(A.compare_exchange(3, 8, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst).unwrap_or(77) as u64 * 0);
        }
    }
}
trait ConcatLen {
    fn concat_len(&self) -> u64;
}
impl<T: Copy> ConcatLen for Vec<T> {
    fn concat_len(&self) -> u64 {
        [self.clone(), self.clone()].concat().len() as u64
    }
}
