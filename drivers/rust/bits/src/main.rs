// Line protocol as in bits_cpp.cpp.
use flatdata::{flatdata_read_bytes, flatdata_write_bytes};
use std::io::{self, BufRead, Write};
macro_rules! by_type {
    ($w:expr, $s:expr, $wide:expr, $m:ident, $($a:expr),*) => {
        match (if $wide { 64 } else { $w }, $s) {
            (1..=8, false) => $m!(u8, $($a),*), (1..=8, true) => $m!(i8, $($a),*),
            (9..=16, false) => $m!(u16, $($a),*), (9..=16, true) => $m!(i16, $($a),*),
            (17..=32, false) => $m!(u32, $($a),*), (17..=32, true) => $m!(i32, $($a),*),
            (_, false) => $m!(u64, $($a),*), (_, true) => $m!(i64, $($a),*),
        }
    };
}
macro_rules! rd { ($T:tt, $d:expr, $o:expr, $w:expr) => {{ let v: $T = flatdata_read_bytes!($T, $d.as_ptr(), $o, $w); v as i64 as u64 }}; }
macro_rules! wr { ($T:tt, $d:expr, $o:expr, $w:expr, $v:expr) => {{ let v = $v as $T; let d = &mut $d[..]; flatdata_write_bytes!($T; v, d, $o, $w); }}; }
fn main() {
    let stdin = io::stdin();
    let mut out = io::BufWriter::new(io::stdout());
    let mut m: Vec<u8> = vec![];
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let op = match it.next() { Some(o) => o, None => continue };
        let n: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
        if op == "init" { m = n[1..].iter().map(|&x| x as u8).collect(); continue; }
        let (o, w, s, wide) = (n[0] as usize, n[1] as usize, n[2] != 0, n[3] != 0);
        if op == "read" {
            let v: u64 = by_type!(w, s, wide, rd, m, o, w);
            for b in v.to_le_bytes().iter() { write!(out, "{} ", b).unwrap(); }
        } else {
            let v = n[4..12].iter().enumerate().fold(0u64, |a, (i, &b)| a | (b << (8 * i)));
            by_type!(w, s, wide, wr, m, o, w, v);
            for b in &m { write!(out, "{} ", b).unwrap(); }
        }
        writeln!(out).unwrap();
        out.flush().unwrap();
    }
}
