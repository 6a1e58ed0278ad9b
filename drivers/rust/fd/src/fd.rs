// Runtime of the generated Rust drivers: the line protocol of drivers/fd.h and drivers/bench.h around flatdata-rs.
use flatdata::{Struct, StorageHandle};
use std::collections::HashMap;
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Tok<'a> { it: std::str::SplitWhitespace<'a> }
impl<'a> Tok<'a> {
    pub fn new(s: &'a str) -> Self { Tok { it: s.split_whitespace() } }
    pub fn next(&mut self) -> &'a str { self.it.next().unwrap_or("") }
    pub fn num(&mut self) -> u64 { to_u(self.next()) }
    pub fn n(&mut self) -> usize { self.num() as usize }
}
pub fn to_u(s: &str) -> u64 { s.parse().expect("number") }
pub fn unhex(h: &str) -> Vec<u8> {
    if h == "-" { return vec![]; }
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{:02x}", b)).collect() }

#[derive(Default)]
pub struct Out { pub s: String, st: Vec<char>, first: bool }
impl Out {
    pub fn new() -> Self { Out { s: String::new(), st: vec![], first: true } }
    fn sep(&mut self) { if !self.first { self.s.push(','); } self.first = false; }
    pub fn list(&mut self) { self.sep(); self.s.push('['); self.st.push(']'); self.first = true; }
    pub fn obj(&mut self) { self.sep(); self.s.push('{'); self.st.push('}'); self.first = true; }
    pub fn end(&mut self) { let c = self.st.pop().unwrap(); self.s.push(c); self.first = false; }
    pub fn key(&mut self, k: &str) { self.sep(); self.s += &format!("\"{}\":", k); self.first = true; }
    pub fn null(&mut self) { self.sep(); self.s += "null"; }
    pub fn boolean(&mut self, b: bool) { self.sep(); self.s += if b { "true" } else { "false" }; }
    pub fn u(&mut self, v: u64) { self.sep(); self.s += &v.to_string(); }
    pub fn raw(&mut self, v: &str) { self.sep(); self.s += v; }
    pub fn str(&mut self, x: &str) {
        self.sep();
        self.s.push('"');
        for c in x.chars() {
            if c == '"' || c == '\\' { self.s.push('\\'); self.s.push(c); }
            else if (c as u32) < 32 || (c as u32) > 126 { self.s += &format!("\\u{:04x}", (c as u32) & 0xffff); }
            else { self.s.push(c); }
        }
        self.s.push('"');
    }
}

pub trait Ops: Struct + PartialEq + Sized + 'static {
    const NAME: &'static str;
    fn set_field(&mut self, k: usize, t: &mut Tok);
    fn set(&mut self, t: &mut Tok);
    fn get(&self, o: &mut Out);
    fn pat(&mut self, i: u64);
    fn span(&self, o: &mut Out) -> bool;
    fn fill(&mut self, other: &Self);
}
pub fn bytes_of<T: Ops>(x: &[T]) -> &[u8] { unsafe { std::slice::from_raw_parts(x.as_ptr() as *const u8, x.len() * T::SIZE_IN_BYTES) } }
pub fn born<T: Ops>(n: usize) -> Vec<T> { (0..n).map(|_| unsafe { T::create_unchecked() }).collect() }
pub fn text(f: impl FnOnce(&mut Out)) -> String { let mut o = Out::new(); f(&mut o); o.s }

// a slice as it is indexed, iterated, iterated backwards and split: one story
pub fn dump_slice<T: Ops>(v: &[T], o: &mut Out) {
    let a = text(|o| { o.list(); for i in 0..v.len() { v[i].get(o); } o.end(); });
    let b = text(|o| { o.list(); for x in v { x.get(o); } o.end(); });
    let mut r: Vec<String> = v.iter().rev().map(|x| text(|o| x.get(o))).collect();
    r.reverse();
    if a != b || a != format!("[{}]", r.join(",")) { o.str("iteration disagrees with indexing"); } else { o.raw(&a); }
}
// one place of a large resource, by every way to it
pub fn look_vec<T: Ops>(v: &[T], c: &str, t: &mut Tok, o: &mut Out) {
    if c == "size" { o.u(v.len() as u64); return; }
    let i = t.n() as usize;
    match c {
        "at" => {
            let a = text(|o| v[i].get(o));
            let ways = [text(|o| v.get(i).unwrap().get(o)), text(|o| v.iter().nth(i).unwrap().get(o)), text(|o| v.iter().rev().nth(v.len() - 1 - i).unwrap().get(o)), text(|o| v[i..].first().unwrap().get(o)), text(|o| v[..i + 1].last().unwrap().get(o))];
            if ways.iter().all(|b| *b == a) { o.raw(&a) } else { o.str("ways disagree") }
        }
        "run" => { let n = t.n() as usize; dump_slice(&v[i..i + n], o); }
        "span" => { if !v[i].span(o) { o.null(); } }
        _ => panic!("no such look"),
    }
}
pub fn look_raw(v: &[u8], c: &str, t: &mut Tok, o: &mut Out) {
    if c == "size" { o.u(v.len() as u64); return; }
    let (i, n) = (t.n() as usize, t.n() as usize);
    o.list();
    for b in &v[i..i + n] { o.u(*b as u64); }
    o.end();
}
pub fn dump_spans<T: Ops>(v: &[T], o: &mut Out) {
    o.list();
    for x in v { if !x.span(o) { break; } }
    o.end();
}
fn loaded<T: Ops>(d: &[u8]) -> Vec<u8> { let mut v = d.to_vec(); v.extend_from_slice(&[0xa5; 16]); v }
fn at<T: Ops>(b: &[u8], i: usize) -> &T { assert!((i + 1) * T::SIZE_IN_BYTES <= b.len()); unsafe { &*(b[i * T::SIZE_IN_BYTES..].as_ptr() as *const T) } }
fn at_mut<T: Ops>(b: &mut [u8], i: usize) -> &mut T { assert!((i + 1) * T::SIZE_IN_BYTES <= b.len()); unsafe { &mut *(b[i * T::SIZE_IN_BYTES..].as_mut_ptr() as *mut T) } }

pub trait Growing {
    fn grow(&mut self, t: &mut Tok) -> io::Result<()>;
    fn grow_sets(&mut self, t: &mut Tok) -> io::Result<()>;
    fn pat(&mut self, i: u64) -> io::Result<()>;
    fn size(&self) -> u64;
    fn close(&mut self, o: &mut Out);
    fn close_some(&mut self, o: &mut Out, at: &[usize]);
}
pub struct GrowingVec<T: Ops> { pub v: Option<flatdata::ExternalVector<'static, T>> }
impl<T: Ops> Growing for GrowingVec<T> {
    fn grow(&mut self, t: &mut Tok) -> io::Result<()> { let e = self.v.as_mut().unwrap().grow()?; e.set(t); Ok(()) }
    fn grow_sets(&mut self, t: &mut Tok) -> io::Result<()> { let e = self.v.as_mut().unwrap().grow()?; sets(e, t); Ok(()) }
    fn pat(&mut self, i: u64) -> io::Result<()> { let e = self.v.as_mut().unwrap().grow()?; if i % 3 != 2 { e.pat(i); } Ok(()) }
    fn size(&self) -> u64 { let v = self.v.as_ref().unwrap(); if v.is_empty() != (v.len() == 0) { return !0; } v.len() as u64 }
    fn close(&mut self, o: &mut Out) {
        let r = self.v.take().unwrap().close();
        o.obj();
        o.key("ok"); o.boolean(r.is_ok());
        match r { Ok(v) => { o.key("view"); dump_slice(v, o); o.key("spans"); dump_spans(v, o); } Err(e) => { o.key("exc"); o.str(kind(&e)); } }
        o.end();
    }
    fn close_some(&mut self, o: &mut Out, at: &[usize]) {
        let r = self.v.take().unwrap().close();
        o.obj();
        o.key("ok"); o.boolean(r.is_ok());
        if let Ok(v) = r { o.key("size"); o.u(v.len() as u64); o.key("some"); o.list(); for &i in at { v[i].get(o); } o.end(); }
        o.end();
    }
}

// one multivector of one archive: builder side and reader side
#[macro_export]
macro_rules! multi {
    ($g:ident, $ts:ty, [$($item:tt)*], $($alt:expr, $add:ident, $var:ident, $t:ty);*) => {
        pub mod $g {
            use super::*;
            use $($item)* as Item;
            pub struct G { pub v: Option<flatdata::MultiVector<'static, $ts>> }
            pub fn el(x: &Item<'_>, o: &mut Out) {
                o.list();
                match x { $( Item::$var(e) => { o.str(<$t as Ops>::NAME); e.get(o); } )* }
                o.end();
            }
            pub fn look(v: &flatdata::MultiArrayView<$ts>, c: &str, t: &mut Tok, o: &mut Out) {
                if c == "size" { o.u(v.len() as u64); return; }
                let i = t.n() as usize;
                let a = text(|o| { o.list(); for e in v.at(i) { el(&e, o); } o.end(); });
                let b = text(|o| { for it in v.slice(i..i + 1).iter() { o.list(); for e in it { el(&e, o); } o.end(); } });
                if a == b { o.raw(&a) } else { o.str("ways disagree") }
            }
            pub fn dump(v: &flatdata::MultiArrayView<$ts>, o: &mut Out) {
                let a = text(|o| { o.list(); for i in 0..v.len() { o.list(); for e in v.at(i) { el(&e, o); } o.end(); } o.end(); });
                let b = text(|o| { o.list(); for it in v.iter() { o.list(); for e in it { el(&e, o); } o.end(); } o.end(); });
                let mut r: Vec<String> = v.iter().rev().map(|it| text(|o| { o.list(); for e in it { el(&e, o); } o.end(); })).collect();
                r.reverse();
                let c = format!("[{}]", r.join(","));
                let h = v.len() / 2;
                let mut s: Vec<String> = v.slice(..h).iter().chain(v.slice(h..).iter()).map(|it| text(|o| { o.list(); for e in it { el(&e, o); } o.end(); })).collect();
                let d = format!("[{}]", s.join(","));
                s.clear();
                o.obj();
                o.key("items");
                if a != b || a != c || a != d || v.is_empty() != (v.len() == 0) || v.iter().len() != v.len() { o.str("iteration disagrees with indexing"); } else { o.raw(&a); }
                o.end();
            }
            impl Growing for G {
                fn grow(&mut self, t: &mut Tok) -> std::io::Result<()> {
                    let mut b = self.v.as_mut().unwrap().grow()?;
                    let n = t.n();
                    for _ in 0..n {
                        match t.n() { $( $alt => b.$add().set(t), )* _ => panic!("unknown alternative") }
                    }
                    Ok(())
                }
                fn grow_sets(&mut self, t: &mut Tok) -> std::io::Result<()> {
                    let mut b = self.v.as_mut().unwrap().grow()?;
                    let n = t.n();
                    for _ in 0..n {
                        match t.n() { $( $alt => sets(b.$add(), t), )* _ => panic!("unknown alternative") }
                    }
                    Ok(())
                }
                fn pat(&mut self, i: u64) -> std::io::Result<()> {
                    let mut b = self.v.as_mut().unwrap().grow()?;
                    let types: &[usize] = &[ $( $alt ),* ];
                    for j in 0..i % 4 {
                        match (i + j) as usize % types.len() { $( $alt => { let e = b.$add(); if (i + j) % 3 != 2 { e.pat(i + j) } } )* _ => {} }
                    }
                    Ok(())
                }
                fn size(&self) -> u64 { 0 }
                fn close(&mut self, o: &mut Out) {
                    let r = self.v.take().unwrap().close();
                    o.obj();
                    o.key("ok"); o.boolean(r.is_ok());
                    match r { Ok(v) => { o.key("view"); dump(&v, o); } Err(e) => { o.key("exc"); o.str(kind(&e)); } }
                    o.end();
                }
                fn close_some(&mut self, o: &mut Out, at: &[usize]) {
                    let r = self.v.take().unwrap().close();
                    o.obj();
                    o.key("ok"); o.boolean(r.is_ok());
                    if let Ok(v) = r { o.key("size"); o.u(v.len() as u64); o.key("some"); o.list(); for &i in at { o.list(); for e in v.at(i) { el(&e, o); } o.end(); } o.end(); }
                    o.end();
                }
            }
        }
    };
}

pub fn kind(e: &flatdata::ResourceStorageError) -> &'static str {
    use flatdata::ResourceStorageError as E;
    match e {
        E::Io(x, _) if x.kind() == io::ErrorKind::NotFound => "notfound",
        E::Io(x, _) if x.kind() == io::ErrorKind::AlreadyExists => "exists",
        E::Io(_, _) => "io",
        E::Utf8Error(_) => "utf8",
        E::MissingSchema(_) => "noschema",
        E::MissingData => "nodata",
        E::WrongSignature { .. } => "mismatch",
        E::UnexpectedDataSize => "size",
        E::TooBig { .. } => "toobig",
        E::Missing => "missing",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}

pub trait Builder: Sync {
    fn set(&self, n: &str, t: &mut Tok) -> io::Result<()>;
    fn start(&'static self, n: &str) -> io::Result<Box<dyn Growing>>;
    fn sub(&self, n: &str) -> Result<&'static dyn Builder, flatdata::ResourceStorageError>;
}
pub struct Arch {
    pub dump: fn(StorageHandle, &mut Out),
    pub probe: fn(StorageHandle, &mut Out),
    pub far: fn(StorageHandle, &mut Tok, &mut Out),
    pub par: fn(StorageHandle, &[(u64, u64)], &mut Out),
    pub build: fn(StorageHandle) -> Result<&'static dyn Builder, flatdata::ResourceStorageError>,
}

pub struct Vecs<T: Ops> { v: HashMap<String, flatdata::Vector<T>> }
pub trait Bench { fn cmd(&mut self, c: &str, t: &mut Tok, o: &mut Out); }
impl<T: Ops> Vecs<T> { pub fn new() -> Self { Vecs { v: HashMap::new() } } }
pub fn sets<T: Ops>(e: &mut T, t: &mut Tok) {
    let n = t.next();
    let n = if n.is_empty() { 0 } else { to_u(n) };
    for _ in 0..n { let k = t.n(); e.set_field(k, t); }
}
pub trait Element: Ops { fn mutable<'a>(v: &'a mut flatdata::Vector<Self>, i: usize) -> &'a mut Self; }
impl<T: Ops + Element> Vecs<T> {
    fn state(v: &flatdata::Vector<T>, o: &mut Out) {
        o.key("n"); o.u(v.len() as u64);
        o.key("el"); dump_slice(&v[0..v.len()], o);
        let a = v.as_view();
        o.key("vn"); o.u(a.len() as u64);
        o.key("view"); dump_slice(a, o);
        o.key("rg"); dump_spans(a, o);
        use flatdata::SliceExt;
        o.key("hex"); o.str(&hex(a.as_bytes()));
        o.key("dbg"); o.boolean(!format!("{:?}", v).is_empty());
    }
}
impl<T: Ops + Element> Bench for Vecs<T> {
    fn cmd(&mut self, c: &str, t: &mut Tok, o: &mut Out) {
        match c {
            "size" => { o.key("size"); o.u(T::SIZE_IN_BYTES as u64); o.key("overlap"); o.boolean(T::IS_OVERLAPPING_WITH_NEXT); o.key("mem"); o.u(std::mem::size_of::<T>() as u64); }
            "enc" => {
                let mut v = born::<T>(2);
                v[0].set(t);
                o.key("hex"); o.str(&hex(bytes_of(&v[..1])));
                o.key("get"); v[0].get(o);
                o.key("next"); o.boolean(bytes_of(&v[1..]).iter().all(|&b| b == 0));
            }
            "dec" => {
                let b = loaded::<T>(&unhex(t.next()));
                o.key("get"); at::<T>(&b, 0).get(o);
            }
            "setf" => {
                let d = unhex(t.next());
                let mut b = loaded::<T>(&d);
                let k = t.n();
                at_mut::<T>(&mut b, 0).set_field(k, t);
                o.key("hex"); o.str(&hex(&b[..d.len()]));
                o.key("pad"); o.boolean(b[d.len()..].iter().all(|&x| x == 0xa5));
                o.key("get"); at::<T>(&b, 0).get(o);
            }
            "eq" => {
                let (d, e) = (unhex(t.next()), unhex(t.next()));
                let (a, mut b) = (loaded::<T>(&d), loaded::<T>(&e));
                o.key("eq"); o.boolean(at::<T>(&a, 0) == at::<T>(&b, 0));
                o.key("ne"); o.boolean(at::<T>(&a, 0) != at::<T>(&b, 0));
                at_mut::<T>(&mut b, 0).fill(at::<T>(&a, 0));    // copied field by field
                o.key("filled"); at::<T>(&b, 0).get(o);
                o.key("hex"); o.str(&hex(&b[..e.len()]));
                o.key("same"); o.boolean(at::<T>(&a, 0) == at::<T>(&b, 0) && b[e.len()..].iter().all(|&x| x == 0xa5));
            }
            "vload" => {    // a view of raw memory
                let d = unhex(t.next());
                let b = loaded::<T>(&d);
                use flatdata::SliceExt;
                match <&[T]>::from_bytes(&b[..d.len()]) {
                    Ok(v) => { o.key("ok"); o.boolean(true); o.key("vn"); o.u(v.len() as u64); o.key("view"); dump_slice(v, o); o.key("rg"); dump_spans(v, o); }
                    Err(e) => { o.key("ok"); o.boolean(false); o.key("exc"); o.str(kind(&e)); }
                }
                return;
            }
            "reset" => self.v.clear(),
            _ => {
                let id = t.next().to_string();
                match c {
                    "vnew" => { let n = t.next(); self.v.insert(id.clone(), if n == "-" { flatdata::Vector::new() } else { flatdata::Vector::with_len(to_u(n) as usize) }); }
                    "vdefault" => { self.v.insert(id.clone(), Default::default()); }
                    "vclear" => self.v.get_mut(&id).unwrap().clear(),
                    "vreserve" => { let n = t.n(); self.v.get_mut(&id).unwrap().reserve(n); }
                    "vgrow" => sets(self.v.get_mut(&id).unwrap().grow(), t),
                    "vset" => { let i = t.n(); sets(T::mutable(self.v.get_mut(&id).unwrap(), i), t); }
                    _ => panic!("unknown {}", c),
                }
                Self::state(&self.v[&id], o);
            }
        }
        o.key("ok"); o.boolean(true);
    }
}

pub fn pattern(p: &str, n: usize) -> Vec<u8> { let k = p.bytes().fold(7u8, |a, b| a.wrapping_mul(31).wrapping_add(b)); (0..n).map(|i| (i as u8).wrapping_mul(13).wrapping_add((i >> 8) as u8).wrapping_add(k)).collect() }
// f in one thread each, starting after so many microseconds; drivers/delay.c slows down the opening of files
pub fn parallel(d: &[(u64, u64)], f: impl Fn(usize) -> String + Sync) -> Vec<String> {
    let b = std::sync::Barrier::new(d.len());
    std::thread::scope(|sc| {
        let h: Vec<_> = (0..d.len()).map(|i| { let (b, f) = (&b, &f); std::thread::Builder::new().name(format!("d{}", d[i].1)).spawn_scoped(sc, move || {
            b.wait();
            std::thread::sleep(std::time::Duration::from_micros(d[i].0));
            f(i)
        }).unwrap() }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| "{\"panic\":\"thread\"}".to_string())).collect()
    })
}

fn walk(d: &std::path::Path, pre: &str, o: &mut Out) {
    let mut names: Vec<_> = match std::fs::read_dir(d) { Ok(r) => r.map(|e| e.unwrap().path()).collect(), Err(_) => return };
    names.sort();
    for p in names {
        let n = format!("{}{}", pre, p.file_name().unwrap().to_str().unwrap());
        if p.is_dir() { walk(&p, &format!("{}/", n), o); } else { o.key(&n); o.str(&hex(&std::fs::read(&p).unwrap())); }
    }
}

pub fn run(archives: HashMap<&'static str, Arch>, mut benches: HashMap<&'static str, Box<dyn Bench>>) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin();
    let stdout = io::stdout();
    let mut st: HashMap<String, StorageHandle> = HashMap::new();
    let mut dirs: HashMap<String, String> = HashMap::new();
    let mut bs: HashMap<String, &'static dyn Builder> = HashMap::new();
    let mut gs: HashMap<String, Box<dyn Growing>> = HashMap::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut t = Tok::new(&line);
            let c = t.next();
            let mut o = Out::new();
            o.obj();
            match c {
                "store" => {
                    let (id, k, path) = (t.next(), t.next(), t.next());
                    if k == "tar" {    // file, directory inside of it
                        let sub = t.next();
                        match flatdata::TarArchiveResourceStorage::new(path) {
                            Ok(s) => { let s: StorageHandle = s; st.insert(id.into(), if sub.is_empty() { s } else { s.subdir(sub) }); o.key("ok"); o.boolean(true); }
                            Err(e) => { o.key("ok"); o.boolean(false); o.key("msg"); o.str(&e.to_string()); }
                        }
                        o.end();
                        return o.s;
                    }
                    let s: StorageHandle = if k == "file" { flatdata::FileResourceStorage::new(path) } else { flatdata::MemoryResourceStorage::new(if path.is_empty() { "/verif" } else { path }) };
                    st.insert(id.into(), s);
                    dirs.insert(id.into(), if k == "file" { path.to_string() } else { String::new() });
                    o.key("ok"); o.boolean(true);
                }
                "assign" => {    // storage, path, hex: a file that was there before
                    let s = st[t.next()].clone();
                    let (p, d) = (t.next(), unhex(t.next()));
                    let r = s.create_output_stream(p).and_then(|mut f| f.write_all(&d));
                    o.key("ok"); o.boolean(r.is_ok());
                }
                "files" => {    // storage, candidates: everything it holds
                    let id = t.next();
                    o.key("files"); o.obj();
                    if dirs[id].is_empty() {
                        loop {
                            let p = t.next();
                            if p.is_empty() { break; }
                            if st[id].exists(p) { o.key(p); match st[id].read_resource(p) { Ok(d) => o.str(&hex(d)), Err(_) => o.null() } }
                        }
                    } else { walk(std::path::Path::new(&dirs[id]), "", &mut o); }
                    o.end();
                }
                "end" => { gs.clear(); bs.clear(); o.key("ok"); o.boolean(true); }
                "dump" => {
                    let s = st[t.next()].clone();
                    o.key("dump");
                    (archives[t.next()].dump)(s, &mut o);
                }
                "parwrite" => {    // storage, path, bytes of a pattern
                    let s = &st[t.next()];
                    let (p, n) = (t.next(), t.n());
                    let r = s.create_output_stream(p).and_then(|mut f| f.write_all(&pattern(p, n)));
                    o.key("ok"); o.boolean(r.is_ok());
                }
                "parread" => {    // storage, {path, bytes, start, delay of opening}: threads that read at the same time
                    let s = &st[t.next()];
                    let mut who = vec![];
                    loop { let p = t.next(); if p.is_empty() { break; } who.push((p.to_string(), t.n(), t.num(), t.num())); }
                    let b = std::sync::Barrier::new(who.len());
                    let d: Vec<(u64, u64)> = who.iter().map(|w| (w.2, w.3)).collect();
                    let r = parallel(&d, |i| {
                        let (p, n, _, _) = &who[i];
                        let d = catch_unwind(AssertUnwindSafe(|| s.read_resource(p)));
                        b.wait();    // everybody has got what it asked for
                        std::thread::sleep(std::time::Duration::from_micros(200));
                        let again = s.read_resource(p);
                        text(|o| { o.obj(); match d {
                            Ok(Ok(d)) => { o.key("gone"); o.boolean(false); o.key("len"); o.u(d.len() as u64); o.key("head"); o.str(&hex(&d[..d.len().min(24)]));
                                           o.key("same"); o.boolean(d == &pattern(p, *n)[..] && again.map(|x| x == d).unwrap_or(false)); }
                            Ok(Err(e)) => { o.key("gone"); o.boolean(e.kind() == io::ErrorKind::NotFound); o.key("len"); o.u(!0); o.key("head"); o.str(""); o.key("same"); o.boolean(false); }
                            Err(_) => { o.key("panic"); o.str("panic"); } } o.end(); })
                    });
                    o.key("got"); o.list(); for x in r { o.raw(&x); } o.end();
                }
                "pardump" => {    // storage, archive, {start, delay of opening}
                    let s = st[t.next()].clone();
                    let a = t.next();
                    let mut d = vec![];
                    loop { let x = t.next(); if x.is_empty() { break; } d.push((to_u(x), t.num())); }
                    o.key("dumps"); o.list();
                    (archives[a].par)(s, &d, &mut o);
                    o.end();
                }
                "parset" => {    // builder, {resource, number of words, words}: set at the same time
                    let b = bs[t.next()];
                    let mut who = vec![];
                    loop { let p = t.next(); if p.is_empty() { break; } let n = t.n(); let w: Vec<&str> = (0..n).map(|_| t.next()).collect(); who.push((p, w.join(" "))); }
                    let bar = std::sync::Barrier::new(who.len());
                    let d: Vec<(u64, u64)> = who.iter().map(|_| (0, 0)).collect();
                    let r = parallel(&d, |i| { bar.wait(); let ok = catch_unwind(AssertUnwindSafe(|| b.set(who[i].0, &mut Tok::new(&who[i].1)).is_ok())).unwrap_or(false); text(|o| o.boolean(ok)) });
                    o.key("all"); o.list(); for x in &r { o.raw(x); } o.end();
                    o.key("ok"); o.boolean(r.iter().all(|x| x == "true"));
                }
                "probe" => {    // sizes only
                    let s = st[t.next()].clone();
                    o.key("probe");
                    (archives[t.next()].probe)(s, &mut o);
                }
                "far" => {    // looks at single places: resource ask ask ... ; resource ...
                    let s = st[t.next()].clone();
                    o.key("far");
                    (archives[t.next()].far)(s, &mut t, &mut o);
                }
                "builder" => {
                    let (id, s) = (t.next(), st[t.next()].clone());
                    match (archives[t.next()].build)(s) {
                        Ok(b) => { bs.insert(id.into(), b); o.key("ok"); o.boolean(true); }
                        Err(e) => { o.key("ok"); o.boolean(false); o.key("exc"); o.str(kind(&e)); }
                    }
                }
                "sub" => {
                    let id = t.next();
                    let b = bs[t.next()];
                    match b.sub(t.next()) {
                        Ok(b) => { bs.insert(id.into(), b); o.key("ok"); o.boolean(true); }
                        Err(e) => { o.key("ok"); o.boolean(false); o.key("exc"); o.str(kind(&e)); }
                    }
                }
                "set" => {
                    let b = bs[t.next()];
                    let r = b.set(t.next(), &mut t);
                    o.key("ok"); o.boolean(r.is_ok());
                    if let Err(e) = r { o.key("msg"); o.str(&e.to_string()); }
                }
                "start" => {
                    let (id, b) = (t.next(), bs[t.next()]);
                    match b.start(t.next()) {
                        Ok(g) => { gs.insert(id.into(), g); o.key("ok"); o.boolean(true); }
                        Err(e) => { o.key("ok"); o.boolean(false); o.key("msg"); o.str(&e.to_string()); }
                    }
                }
                "grow" => {
                    let g = gs.get_mut(t.next()).unwrap();
                    let r = g.grow(&mut t);
                    o.key("ok"); o.boolean(r.is_ok());
                    o.key("size"); o.u(g.size());
                }
                "growsets" => {
                    let r = gs.get_mut(t.next()).unwrap().grow_sets(&mut t);
                    o.key("ok"); o.boolean(r.is_ok());
                }
                "growpat" => {
                    let g = gs.get_mut(t.next()).unwrap();
                    let (a, n) = (t.num(), t.num());
                    let mut ok = true;
                    for i in a..a + n { ok = g.pat(i).is_ok() && ok; }
                    o.key("ok"); o.boolean(ok);
                    o.key("size"); o.u(g.size());
                }
                "fullpat" => {    // grows as long as that succeeds
                    let g = gs.get_mut(t.next()).unwrap();
                    let n = t.num();
                    let mut done = 0;
                    while done < n && g.pat(done).is_ok() { done += 1; }
                    o.key("grown"); o.u(done);
                }
                "close" => { o.key("close"); gs.get_mut(t.next()).unwrap().close(&mut o); }
                "closesome" => {
                    let g = gs.get_mut(t.next()).unwrap();
                    let mut at = vec![];
                    loop { let x = t.next(); if x.is_empty() { break; } at.push(to_u(x) as usize); }
                    o.key("close");
                    g.close_some(&mut o, &at);
                }
                "peek" => {
                    let s = &st[t.next()];
                    o.key("hex");
                    match s.read_resource(t.next()) { Ok(d) => o.str(&hex(d)), Err(_) => o.null() }
                }
                "exists" => { let s = &st[t.next()]; o.key("exists"); o.boolean(s.exists(t.next())); }
                "big" => {    // storage, resource, period: the shape of a resource too large to spell out
                    let s = &st[t.next()];
                    let d = s.read_resource(t.next()).unwrap();
                    let (first, per) = (t.n(), t.n());
                    let end = d.len() - 8;
                    o.key("bytes"); o.u(d.len() as u64);
                    o.key("head"); o.str(&hex(&d[..8]));
                    o.key("tail"); o.str(&hex(&d[end..]));
                    o.key("first"); o.str(&hex(&d[8..8 + first.min(end - 8)]));
                    o.key("repeats"); o.boolean((8 + per..end).all(|i| d[i] == d[i - per]));
                }
                "offsets" => {    // storage, index, bytes of an offset, its width, period, bytes of a period
                    let s = &st[t.next()];
                    let d = s.read_resource(t.next()).unwrap();
                    let (ib, w, per, each) = (t.n(), t.num(), t.n(), t.num());
                    let off: Vec<u64> = d[8..d.len() - 8].chunks(ib).map(|c| { let mut v = 0u64; for (i, b) in c.iter().enumerate() { v |= (*b as u64) << (8 * i); } if w < 64 { v & ((1 << w) - 1) } else { v } }).collect();
                    o.key("bytes"); o.u(d.len() as u64);
                    o.key("head"); o.str(&hex(&d[..8]));
                    o.key("tail"); o.str(&hex(&d[d.len() - 8..]));
                    o.key("offsets"); o.list(); for v in off.iter().take(per + 1) { o.u(*v); } o.end();
                    o.key("last"); o.u(*off.last().unwrap());
                    o.key("repeats"); o.boolean((per..off.len()).all(|i| off[i] == off[i - per] + each));
                }
                "substring" => {    // hex, start
                    let d = unhex(t.next());
                    let r = flatdata::RawData::new(&d);
                    let at = t.n();
                    o.key("raw"); o.str(&hex(r.substring_raw(at)));
                    o.key("lossy"); o.str(&hex(r.substring_lossy(at).as_bytes()));
                    o.key("utf8"); match r.substring(at) { Ok(s) => o.str(&hex(s.as_bytes())), Err(_) => o.null() }
                    o.key("len"); o.u(r.len() as u64);
                    o.key("bytes"); o.str(&hex(r.as_bytes()));
                }
                "B" => { let s = t.next(); let c = t.next(); benches.get_mut(s).unwrap().cmd(c, &mut t, &mut o); }
                "drop" => { gs.clear(); bs.clear(); st.clear(); o.key("ok"); o.boolean(true); }
                _ => panic!("unknown command"),
            }
            o.end();
            o.s
        }));
        let s = match r {
            Ok(s) => s,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                text(|o| { o.obj(); o.key("panic"); o.str(&m); o.end(); })
            }
        };
        let mut out = stdout.lock();
        out.write_all(s.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
