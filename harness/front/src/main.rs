//! The front end of the compiler over damaged texts, in one process, under monitors.
use refper::json::quote;
use refper::mon::*;
use refper::rng::Rng;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

#[global_allocator]
static A: Counting = Counting;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
}

const WORDS: &[&str] = &[
    "{", "}", "(", ")", "[", "]", "[[", "]]", ",", ";", ":", "::=", "..", "...", "....", "|", "^", "<", ">", "@", "@id", "&", "&id", "&Type", "-", "--", "\"", "'", "'0F'H", "'01'B", "'2'B",
    "\"text\"", "0", "1", "-1", "-0", "007", "255", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
    "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "99999999999999999999999999999999999999999999999999", "x", "X", "a-b", "A-B", "x-", "id", "INTEGER", "BOOLEAN", "NULL", "REAL", "BIT", "STRING",
    "OCTET", "OBJECT", "IDENTIFIER", "RELATIVE-OID", "CHARACTER", "UTF8String", "PrintableString", "VisibleString", "IA5String", "GeneralizedTime", "UTCTime", "ENUMERATED",
    "SEQUENCE", "SET", "OF", "CHOICE", "CLASS", "WITH", "SYNTAX", "COMPONENTS", "COMPONENT", "UNIQUE", "OPTIONAL", "DEFAULT", "SIZE", "FROM", "INCLUDES", "ALL", "EXCEPT", "UNION",
    "INTERSECTION", "MIN", "MAX", "TRUE", "FALSE", "CONTAINING", "ENCODED", "BY", "PATTERN", "CONSTRAINED", "PRESENT", "ABSENT", "IMPORTS", "EXPORTS", "DEFINITIONS", "AUTOMATIC", "EXPLICIT", "IMPLICIT",
    "TAGS", "EXTENSIBILITY", "IMPLIED", "BEGIN", "END", "UNIVERSAL", "APPLICATION", "PRIVATE", "TYPE-IDENTIFIER", "ABSTRACT-SYNTAX", "EXTERNAL", "EMBEDDED", "PDV", "INSTANCE", "ANY",
    "SIZE(1..4)", "(SIZE(0))", "{...}", "{ }", "()", "(0..MAX)", "(MIN..MAX)", "(MAX..MIN)", "({Set})", "({Set}{@id})", "{{Set}}", "{INTEGER:n}", "{T}", "a NULL", "...,", ", ...", "[0]", "[[ 2: a NULL ]]",
    "\u{e9}", "\u{4e2d}\u{6587}", "\u{1f600}", "\u{feff}", "\0", "\r", "\r\n", "\t", "\n", "-- c\n", "-- c --", "/* c */", "_", "a_b", "#", "\\", "=", ":=", "::", "1.5", "1e9", "0x1",
];

struct Corpus {
    files: Vec<Vec<u8>>,
    bits: Vec<Vec<u8>>,
    words: Vec<&'static str>, // that the tokenizer reads
}

fn corpus(dir: &str) -> Corpus {
    let mut names: Vec<_> = std::fs::read_dir(dir).expect("harness: corpus").map(|e| e.unwrap().path()).collect();
    names.sort();
    let words = WORDS.iter().copied().filter(|w| matches!(guarded(|| asn1_compiler::tokenizer::tokenize(format!("{} ", w).as_bytes()).is_ok()), Ok(true))).collect();
    let mut c = Corpus { files: vec![], bits: vec![], words };
    for n in names {
        let t = std::fs::read(&n).unwrap();
        if n.extension().map_or(false, |e| e == "bit") {
            c.bits.push(t)
        } else {
            c.files.push(t)
        }
    }
    c
}

/// pieces a tokenizer would see, blanks included
fn split(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let class = |b: u8| if b.is_ascii_alphanumeric() || b == b'-' || b == b'&' || b == b'@' || b >= 128 { 0 } else if b.is_ascii_whitespace() { 1 } else if b == b'.' { 2 } else { 3 };
    for b in t {
        match v.last_mut() {
            Some(l) if class(l[0]) == class(*b) && class(*b) != 3 => l.push(*b),
            _ => v.push(vec![*b]),
        }
    }
    v
}

fn nest(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[3u64, 20, 90, 110, 500, 3000, 20000]) as usize;
    let (a, m, z) = *r.pick(&[
        ("SEQUENCE { a ", "NULL", "}"), ("CHOICE { a ", "NULL", "}"), ("SEQUENCE OF ", "NULL", ""), ("SEQUENCE (SIZE(1..2)) OF ", "BOOLEAN", ""), ("(", "1", ")"), ("{", "a", "}"), ("[[", "a NULL", "]]"),
        ("INTEGER (", "0", ")"), ("INTEGER (0..1 | (", "2", "))"), ("A {", "B", "}"), ("OCTET STRING (CONTAINING ", "NULL", ")"), ("SEQUENCE { ..., [[ a ", "NULL", "]] }"), ("ENUMERATED {", "a", "}"), ("SIZE(", "1", ")"), ("-", "1", ""),
        ("INTEGER (1 | ", "2", ")"), ("BIT STRING {", "a(1)", "}"), ("[", "0", "]"), ("CLASS { &Type SEQUENCE { x ", "NULL", "}}"), ("A.", "&b", ""), ("@a.", "b", ""), ("\"", "x", "\""), ("INTEGER (0 ^ (0 | ", "1", "))"),
    ]);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(a)
    }
    s.push_str(m);
    let k = if r.chance(1, 3) { r.below(n as u64 + 1) as usize } else { n };
    for _ in 0..k {
        s.push_str(z)
    }
    let mut o = vec![];
    if r.chance(2, 3) {
        o.extend_from_slice(b"M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= ");
        o.extend_from_slice(s.as_bytes());
        o.extend_from_slice(b" B ::= NULL END");
    } else {
        o.extend_from_slice(s.as_bytes())
    }
    o
}

/// Nested in ways that the grammar allows, several of them at a time.
fn weave(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[8u64, 20, 28, 40, 60, 85, 200, 2000]);
    // what encloses a type, what turns to a constraint, what encloses a constraint, what turns to a type
    let types = [
        ("SEQUENCE { a ", "}"), ("SEQUENCE { a ", " OPTIONAL, ... }"), ("CHOICE { a ", "}"), ("CHOICE { b NULL, ..., a ", "}"), ("SEQUENCE OF ", ""), ("SEQUENCE (SIZE (0..4)) OF ", ""), ("SEQUENCE { ..., [[ a ", "]] }"),
        ("P {", "}"), ("P {{", "}}"), ("SEQUENCE { a BOOLEAN, b ", "}"), ("CHOICE { ..., [[ a ", " ]], b NULL }"),
    ];
    let begins = [("INTEGER (", ")"), ("OCTET STRING (SIZE (", "))"), ("SEQUENCE (SIZE (", ")) OF NULL"), ("A (", ")"), ("IA5String (FROM (", "))"), ("INTEGER (0..9, ..., ", ")"), ("BIT STRING (SIZE (1..4, ..., ", "))"), ("INTEGER (0..4)(", ")")];
    let sets = [("(", ")"), ("(", ")"), ("0 | (", ")"), ("(", ") | 4"), ("(0..4 ^ (", "))"), ("0..9 ^ ", ""), ("1 | ", ""), ("(0..4)|(", ", ...)"), ("SIZE (", ")"), ("(SIZE (", "))"), ("(FROM (", ")) | 1")];
    let ends = [("INTEGER (", ")"), ("CONTAINING ", ""), ("SEQUENCE { a ", "}"), ("A (", ")"), ("SEQUENCE OF ", ""), ("ALL EXCEPT INTEGER (", ")")];
    let few = r.chance(1, 2);
    let (ft, fs) = (r.below(types.len() as u64), r.below(sets.len() as u64));
    let keep = r.below(4) * 30;
    let mut ty = true;
    let mut s = String::from("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN P {T} ::= SEQUENCE { t T } A ::= ");
    let mut close = vec![];
    if keep == 90 {
        let (a, z) = *r.pick(&begins);
        s.push_str(a);
        close.push(z);
        ty = false;
    }
    for _ in 0..n {
        let turn = keep < 90 && r.chance(1, 2 + keep);
        let (a, z) = match (ty, turn) {
            (true, false) if few => types[ft as usize],
            (true, false) => *r.pick(&types),
            (true, true) => *r.pick(&begins),
            (false, false) if few => sets[fs as usize],
            (false, false) => *r.pick(&sets),
            (false, true) => *r.pick(&ends),
        };
        ty ^= turn;
        s.push_str(a);
        close.push(z);
    }
    s.push_str(if ty { *r.pick(&["NULL", "BOOLEAN", "INTEGER (0..3)", "B"]) } else { *r.pick(&["1", "0..3", "B", "b"]) });
    let k = if r.chance(1, 8) { r.below(n + 1) as usize } else { close.len() };
    for z in close.iter().rev().take(k) {
        s.push_str(z)
    }
    s.push_str(" B ::= NULL END");
    s.into_bytes()
}

fn chain(r: &mut Rng) -> Vec<u8> {
    // many definitions that depend on each other in a row
    let n = *r.pick(&[5u64, 50, 120, 1000]) as usize;
    let form = r.below(6);
    let mut s = String::from("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n");
    for i in 0..n {
        let j = if r.chance(1, 60) { r.below(n as u64) as usize } else { i + 1 };
        s.push_str(&match form {
            0 => format!("T{} ::= T{}\n", i, j),
            1 => format!("T{} ::= SEQUENCE {{ a T{} }}\n", i, j),
            2 => format!("v{} INTEGER ::= v{}\n", i, j),
            3 => format!("T{} ::= SEQUENCE OF T{}\n", i, j),
            4 => format!("T{} ::= INTEGER (T{})\n", i, j),
            _ => format!("T{} {{X}} ::= SEQUENCE {{ a T{} {{X}} }}\n", i, j),
        });
    }
    s.push_str(&format!("T{n} {} ::= INTEGER (0..9)\nv{n} INTEGER ::= 4\nZ ::= T0 {}\nEND\n", if form == 5 { "{X}" } else { "" }, if form == 5 { "{NULL}" } else { "" }));
    s.into_bytes()
}

fn text(r: &mut Rng, c: &Corpus, what: &mut &'static str) -> Vec<u8> {
    match r.below(40) {
        0 => {
            *what = "random octets";
            let n = r.below(200);
            (0..n).map(|_| r.below(256) as u8).collect()
        }
        1 => {
            *what = "random words";
            let words = if r.chance(1, 3) { WORDS } else { &c.words[..] };
            let n = r.below(300);
            let mut o = vec![];
            if r.bool() {
                o.extend_from_slice(b"M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n")
            }
            for _ in 0..n {
                o.extend_from_slice(r.pick(words).as_bytes());
                if !r.chance(1, 4) {
                    o.push(b' ')
                }
            }
            o
        }
        2 => {
            *what = "deep nesting";
            if r.bool() {
                weave(r)
            } else {
                nest(r)
            }
        }
        3 => {
            *what = "chains of definitions";
            chain(r)
        }
        4 | 5 | 6 | 7 => {
            *what = "snippets in a module";
            let mut o = b"M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n".to_vec();
            for _ in 0..1 + r.below(6) {
                let b = r.pick(&c.bits).clone();
                o.extend(if r.bool() { damage(r, c, &b) } else { b });
                o.push(b'\n');
            }
            o.extend_from_slice(b"END\n");
            o
        }
        8 => {
            *what = "unchanged text";
            r.pick(&c.files).clone()
        }
        _ => {
            *what = "damaged text";
            let b = r.pick(&c.files).clone();
            damage(r, c, &b)
        }
    }
}

fn damage(r: &mut Rng, c: &Corpus, b: &[u8]) -> Vec<u8> {
    let mut v = split(b);
    let clean = !r.chance(1, 4);
    let words = if clean { &c.words[..] } else { WORDS };
    let times = *r.pick(&[1u64, 1, 1, 2, 3, 8, 30]);
    for _ in 0..times {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len() as u64) as usize;
        let j = (i + 1 + r.below(12) as usize).min(v.len());
        match r.below(15) {
            0 => {
                v.remove(i);
            }
            1 => {
                v.drain(i..j);
            }
            2 => {
                let w = v[i].clone();
                v.insert(i, w)
            }
            3 => {
                let w: Vec<_> = v[i..j].to_vec();
                let n = *r.pick(&[1u64, 1, 2, 40]);
                for _ in 0..n {
                    for (k, x) in w.iter().enumerate() {
                        v.insert(j + k, x.clone())
                    }
                }
            }
            4 => v.swap(i, j - 1),
            5 | 6 | 7 => v[i] = r.pick(words).as_bytes().to_vec(),
            8 | 9 => v.insert(i, r.pick(words).as_bytes().to_vec()),
            10 => v.truncate(i),
            11 => {
                let o = split(r.pick(&c.files));
                if !o.is_empty() {
                    let a = r.below(o.len() as u64) as usize;
                    let z = (a + r.below(30) as usize).min(o.len());
                    for (k, x) in o[a..z].iter().enumerate() {
                        v.insert(i + k, x.clone())
                    }
                }
            }
            12 => {
                // another piece of this text in place of this one
                let k = r.below(v.len() as u64) as usize;
                v[i] = v[k].clone()
            }
            13 if !clean => {
                let k = r.below(v[i].len() as u64) as usize;
                v[i][k] = if r.bool() { v[i][k] ^ (1 << r.below(8)) } else { r.below(256) as u8 }
            }
            _ => {
                v.drain(..i);
            }
        }
    }
    v.concat()
}

fn run(texts: &[Vec<u8>], out: i32, null: i32) -> Result<&'static str, ()> {
    let mut c = asn1_compiler::Asn1Compiler::new();
    for t in texts {
        let mut toks = match asn1_compiler::tokenizer::tokenize(&t[..]) {
            Ok(t) => t,
            Err(_) => return Ok("refused by the tokenizer"),
        };
        let mods = match asn1_compiler::parser::parse(&mut toks) {
            Ok(m) => m,
            Err(_) => return Ok("refused by the parser"),
        };
        for m in mods {
            if !c.add_module(m) {
                return Ok("refused: a module twice");
            }
        }
    }
    if c.resolve_modules().is_err() {
        return Ok("refused by the resolver");
    }
    let _ = std::io::stdout().flush();
    unsafe {
        OUT_FD.store(out, SeqCst);
        dup2(null, 1);
    }
    let r = guarded(|| c.generate());
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(out, 1);
        OUT_FD.store(1, SeqCst);
    }
    match r {
        Ok(Ok(())) => Ok("accepted"),
        Ok(Err(_)) => Ok("refused by the generator"),
        Err(m) => panic!("in the generator: {}", m),
    }
}

fn main() {
    let mut dir = String::new();
    let mut cur = String::new();
    let (mut seed, mut shard, mut cases, mut secs, mut only, mut hashes) = (1u64, 0u64, u64::MAX, 1e9f64, None, None);
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().expect("harness: value");
        match k.as_str() {
            "--corpus" => dir = v,
            "--cur" => cur = v,
            "--prop" => (),
            "--seed" => seed = v.parse().unwrap(),
            "--shard" => shard = v.parse().unwrap(),
            "--cases" => cases = v.parse().unwrap(),
            "--secs" => secs = v.parse().unwrap(),
            "--only" => only = Some(v.parse::<u64>().unwrap()),
            "--hashes" => hashes = Some(v),
            o => panic!("harness: unknown argument {}", o),
        }
    }
    install_panic_hook();
    let c = corpus(&dir);
    watchdog(20_000);
    mem_cap(3 << 30);
    let (out, null) = unsafe { (dup(1), open(c"/dev/null".as_ptr(), 1)) };
    let mut cov = Cov::default();
    let mut top = 0;
    let t0 = Instant::now();
    let (from, to) = match only {
        Some(k) => (k, k + 1),
        None => (0, cases),
    };
    for case in from..to {
        if only.is_none() && t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let mut r = Rng::new(seed ^ 0x0f, (shard << 40) | case);
        let r = &mut r;
        let mut what = "";
        let mut texts = vec![text(r, &c, &mut what)];
        if r.chance(1, 12) {
            texts.push(r.pick(&c.files).clone())
        }
        if r.chance(1, 40) {
            texts.push(text(r, &c, &mut what))
        }
        let len: usize = texts.iter().map(|t| t.len()).sum();
        let joined = texts.join(&b"\n-- next file\n"[..]);
        if !cur.is_empty() {
            std::fs::write(format!("{}{}", cur, shard), &joined).expect("harness: current input");
        }
        if only.is_some() {
            eprintln!("{}", String::from_utf8_lossy(&joined));
        }
        begin_case(what, &joined);
        let live = mem_reset();
        let res = guarded(|| run(&texts, out, null));
        let used = mem_peak() - live;
        cov.evaluations += 1;
        cov.seen(fnv(&[&joined]));
        cov.hit(what);
        if case < 3 {
            cov.sample(|| format!("{}: {}", what, String::from_utf8_lossy(&joined[..joined.len().min(300)])));
        }
        let mut found: Vec<(&str, String)> = vec![];
        match res {
            Ok(Ok(k)) => cov.hit(k),
            Ok(Err(())) => (),
            Err(m) => found.push(("panic", format!("{}: {}", what, m))),
        }
        // a text of some length: the tokens, the tree, the resolved tree and the generated code of it
        let cap = (48 << 20) + 8000 * len as i64;
        if used > cap {
            found.push(("memory", format!("{} octets of input need {} octets of memory", len, used)));
        }
        top = top.max(used / (len as i64 + 1000));
        for (kind, msg) in found {
            let rep = format!("{{\"engine\":\"front\",\"prop\":\"C15\",\"seed\":{},\"shard\":{},\"case\":{},\"hex\":{}}}", seed, shard, case, quote(&hex(&joined[..joined.len().min(100_000)])));
            cov.violate(kind, msg, rep);
        }
        if cov.violations.len() > 20 {
            break;
        }
    }
    cov.add("largest memory per octet of input (+1000), summed over the shards", top as u64);
    cov.finish(hashes.as_deref());
}
