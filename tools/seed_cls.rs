#![allow(dead_code)]
// writing class files, for demonstrations
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn u1(o: &mut Vec<u8>, v: u8) { o.push(v) }
pub fn u2(o: &mut Vec<u8>, v: u16) { o.extend_from_slice(&v.to_be_bytes()) }
pub fn u4(o: &mut Vec<u8>, v: u32) { o.extend_from_slice(&v.to_be_bytes()) }

/// the bytes of a UTF-8 constant
pub fn utf(s: &[u8]) -> Vec<u8> {
    let mut o = vec![1];
    u2(&mut o, s.len() as u16);
    o.extend_from_slice(s);
    o
}

/// an attribute
pub fn attr(name: u16, body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    u2(&mut o, name);
    u4(&mut o, body.len() as u32);
    o.extend_from_slice(body);
    o
}

/// a class with the constants (count: their declared number of slots) and class attributes
pub fn class_n(consts: &[Vec<u8>], count: u16, attrs: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
    u2(&mut o, count + 1);
    for c in consts { o.extend_from_slice(c) }
    for v in &[0x21, 1, 0, 0, 0, 0] { u2(&mut o, *v) }
    u2(&mut o, attrs.len() as u16);
    for a in attrs { o.extend_from_slice(a) }
    o
}

pub fn class(consts: &[Vec<u8>], attrs: &[Vec<u8>]) -> Vec<u8> {
    class_n(consts, consts.len() as u16, attrs)
}

/// a class with one attribute of the given name
pub fn with_attr(name: &str, body: &[u8]) -> Vec<u8> {
    class(&[utf(name.as_bytes())], &[attr(1, body)])
}

/// a class with one Code attribute that holds this code
pub fn with_code(code: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    u2(&mut b, 1);
    u2(&mut b, 2);
    u4(&mut b, code.len() as u32);
    b.extend_from_slice(code);
    u2(&mut b, 0);
    u2(&mut b, 0);
    with_attr("Code", &b)
}

/// text of the result of parsing; "PANIC" if it panics
pub fn show(b: &[u8]) -> String {
    match catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(b))) {
        Err(_) => "PANIC".to_string(),
        Ok(Err(e)) => format!("Err({:?})", e),
        Ok(Ok((_, c))) => format!("{:?}", c),
    }
}

pub fn check(what: &str, ok: bool) {
    println!("{}: {}", what, if ok { "ok" } else { "WRONG" });
    if !ok { std::process::exit(1) }
}
