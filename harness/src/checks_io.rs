//! C07 C17: sinks, files and JSON.
use crate::checks_xml::{first_diff, reparse, same, write};
use crate::driver::*;
use crate::gen::G;
use crate::refw;
use crate::strs;
use crate::tape::Tape;
use crate::xnode::{self, Spelling};
use japanese_law_xml_schema::{article_number::*, law::Law, parse_xml, parse_xml_file, result::Error, utils, write_file};
use std::io::{self, Write};

fn law_of(t: &mut Tape, fuel: usize) -> Law {
    let mut g = G::new(t);
    g.fuel = g.fuel.min(fuel as _);
    g.law()
}

// ---------------------------------------------------------------- sinks

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// the n-th write call and all later ones fail
    FromCall(usize),
    /// the n-th write call fails, later ones succeed
    OnceAtCall(usize),
    /// everything past that many bytes fails
    AfterBytes(usize),
}
struct Sink {
    got: Vec<u8>,
    /// how many bytes each call takes at most, in turn; 0 stands for an interrupted call
    pattern: Vec<usize>,
    calls: usize,
    fault: Fault,
    kind: u8,
    injected: bool,
    interrupts: usize,
}
const KINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::Unsupported,
];
impl Sink {
    fn new(pattern: &[usize], fault: Fault, kind: u8) -> Sink {
        Sink { got: vec![], pattern: pattern.to_vec(), calls: 0, fault, kind, injected: false, interrupts: 0 }
    }
    fn fail(&mut self) -> io::Result<usize> {
        self.injected = true;
        match self.kind {
            0 => Err(io::Error::new(io::ErrorKind::Other, "disk fault")),
            1 => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
            2 => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            3 => Err(io::Error::from_raw_os_error(28)),
            4 => Ok(0),
            n => Err(io::Error::from(KINDS[n as usize - 5])),
        }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let i = self.calls;
        self.calls += 1;
        match self.fault {
            Fault::FromCall(n) if i >= n => return self.fail(),
            Fault::OnceAtCall(n) if i == n => return self.fail(),
            Fault::AfterBytes(n) if self.got.len() >= n => return self.fail(),
            _ => (),
        }
        let mut k = if self.pattern.is_empty() { usize::MAX } else { self.pattern[i % self.pattern.len()] };
        if k == 0 {
            self.interrupts += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if let Fault::AfterBytes(n) = self.fault {
            k = k.min(n - self.got.len());
        }
        let k = k.min(buf.len());
        self.got.extend(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c07_sink(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(120);
    let law = law_of(t, 60);
    c07_sinks(&law, &mut Tape::new(&words), rec)
}
/// documents of many buffers
fn c07_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(120);
    let (law, _) = crate::checks_xml::wide_law(t, rec, 6000)?;
    c07_sinks(&law, &mut Tape::new(&words), rec)
}
fn c07_sinks(law: &Law, t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    // at least one non-zero entry, so that every call sequence makes progress
    let pattern: Vec<usize> = match t.below(5) {
        0 => vec![],
        1 => vec![1],
        // interrupted many times in a row
        2 => {
            let mut p = vec![0; 1 + t.below(40)];
            p.push(1 + t.below(9));
            p
        }
        _ => {
            let mut p: Vec<usize> = (0..1 + t.below(6)).map(|_| [0, 1, 1, 2, 3, 5, 64][t.below(7)]).collect();
            p.push(1 + t.below(9));
            p
        }
    };
    let mem = write(law)?;
    let want = reparse(&mem)?;
    let mut sink = Sink::new(&pattern, Fault::None, 0);
    rec.key(law);
    rec.key(&pattern);
    rec.nontrivial = true;
    rec.show(|| format!("pattern {pattern:?} (0 = interrupted)\n{}", mem.chars().take(20000).collect::<String>()));
    rec.sample(|| format!("pattern {pattern:?}, {} bytes", mem.len()));
    let r = lib("write_file", || write_file(law, &mut sink))?;
    if let Err(e) = r {
        return Err(format!("write_file fails on a sink that takes {pattern:?} bytes at a time: {e}"));
    }
    let text = String::from_utf8(sink.got.clone()).map_err(|_| "write_file wrote bytes that are not UTF-8".to_string())?;
    let got = reparse(&text).map_err(|e| format!("written to a chunking sink: {e}"))?;
    if got != want {
        return Err(format!("write_file wrote another document than to_xml: {}", xnode::diff(&want, &got, "").unwrap_or_default()));
    }
    rec.label_if(sink.interrupts > 0, "interrupted writes");
    rec.label_if(pattern == [1], "byte by byte");
    rec.label_if(mem.len() > 8192, "more than 8 kB");
    rec.label_if(mem.len() > 65536, "more than 64 kB");
    let (calls, len) = (sink.calls, sink.got.len());
    // faults: every position when there are few, else a sample that always has the first and the last
    let mut faults = vec![];
    let budget = if mem.len() > 200_000 { 5 } else if mem.len() < 20_000 && t.chance(1, 20) { 3000 } else { 24 };
    let positions = |n: usize, t: &mut Tape| -> Vec<usize> {
        if n <= budget {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = (0..budget - 2).map(|_| t.below(n)).collect();
            v.extend([0, n - 1]);
            v
        }
    };
    for n in positions(calls, t) {
        faults.push(if t.flip() { Fault::FromCall(n) } else { Fault::OnceAtCall(n) });
    }
    for n in positions(len, t) {
        faults.push(Fault::AfterBytes(n));
    }
    rec.label_if(calls <= budget, "fault at every write");
    for f in faults {
        let kind = if t.flip() { t.below(5) } else { 5 + t.below(KINDS.len()) } as u8;
        let mut sink = Sink::new(&pattern, f, kind);
        rec.evals += 1;
        let r = lib("write_file", || write_file(law, &mut sink))?;
        match (sink.injected, r) {
            (true, Ok(())) => {
                return Err(format!("write_file reports success although the sink failed ({f:?}, failure kind {kind}, {} of {len} bytes taken, pattern {pattern:?})", sink.got.len()))
            }
            (true, Err(Error::Io)) => (),
            (true, Err(e)) => return Err(format!("a failing sink ({f:?}) is reported as another error: {e:?}")),
            (false, Err(e)) => return Err(format!("write_file fails although no write failed ({f:?}): {e}")),
            (false, Ok(())) => (),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- files

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
thread_local! {
    static SCRATCH: Scratch = {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("jlx-files.{}.{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    };
}
fn show(r: &Result<Law, Error>) -> String {
    match r {
        Ok(_) => "a law".into(),
        Err(e) => format!("{e:?}"),
    }
}

fn c07_file(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(4000);
    let law = law_of(t, 60);
    let t = &mut Tape::new(&words);
    let dir = SCRATCH.with(|s| s.0.clone());
    const NAMES: [&str; 16] = [
        "law.xml", "法令 第一号.xml", "a", "x.XML", ".hidden", " law.xml", "law.xml ", "law.txt", "law.xml.gz", "%E6%B3%95.xml", "~", "-", "a*b?.xml", "l\naw.xml",
        "が\u{3099}.xml", "law.json",
    ];
    let name = NAMES[t.below(NAMES.len())];
    let name = if t.chance(1, 20) { "法".repeat(80) } else { name.to_string() };
    let path = dir.join(&name);
    // other ways of writing the same path
    let link = dir.join("link.xml");
    let p = match t.below(8) {
        0 => dir.join(".").join(&name),
        1 => dir.join("..").join(dir.file_name().unwrap()).join(&name),
        2 => {
            let up = std::env::current_dir().map_err(|e| format!("harness: {e}"))?.components().count() - 1;
            std::path::PathBuf::from(format!("{}{}", "../".repeat(up), path.to_str().unwrap().trim_start_matches('/')))
        }
        3 => {
            std::fs::remove_file(&link).ok();
            std::os::unix::fs::symlink(&path, &link).map_err(|e| format!("harness: {e}"))?;
            link
        }
        4 => std::path::PathBuf::from(format!("/{}", path.to_str().unwrap())),
        _ => path.clone(),
    };
    let p = p.to_str().unwrap().to_string();
    let tree = refw::law(&law);
    rec.key(&law);
    let what = t.weighted(&[6, 4, 3, 2, 2, 2, 2, 1]);
    rec.key(&what);
    rec.nontrivial = true;
    let outcome = match what {
        // any bytes: the file reads like the bytes
        0..=3 => {
            let mut bytes = match what {
                0 => xnode::plain(&tree).into_bytes(),
                1 => xnode::varied(&tree, t, 6, &mut Spelling::default()),
                _ => xnode::plain(&tree).into_bytes(),
            };
            match what {
                2 => {
                    let i = t.below(bytes.len() + 1);
                    bytes.truncate(i);
                    rec.label("truncated file");
                }
                3 => {
                    for _ in 0..1 + t.below(3) {
                        let i = t.below(bytes.len());
                        bytes[i] = t.below(256) as u8;
                    }
                    rec.label("damaged file");
                }
                _ => rec.label("valid file"),
            }
            std::fs::write(&path, &bytes).map_err(|e| format!("harness: {e}"))?;
            rec.show(|| String::from_utf8_lossy(&bytes).to_string());
            let a = lib("parse_xml", || parse_xml(&bytes))?;
            let b = lib("parse_xml_file", || parse_xml_file(&p))?;
            match (&a, &b) {
                (Ok(x), Ok(y)) if same(x, y) => Ok(()),
                (Ok(x), Ok(y)) => Err(format!("the file is read as another law than its bytes: {}", first_diff(x, y))),
                (Err(x), Err(y)) if format!("{x:?}") == format!("{y:?}") => Ok(()),
                _ => Err(format!("the bytes give {}, the file gives {}", show(&a), show(&b))),
            }
        }
        // write to a file, read it back
        4 => {
            rec.label("written file");
            let mut f = std::fs::File::create(&path).map_err(|e| format!("harness: {e}"))?;
            let r = lib("write_file", || write_file(&law, &mut f))?;
            drop(f);
            match (r, lib("parse_xml_file", || parse_xml_file(&p))?) {
                (Err(e), _) => Err(format!("write_file to a file fails: {e}")),
                (Ok(()), Ok(l)) if same(&law, &l) => Ok(()),
                (Ok(()), Ok(l)) => Err(format!("law changed by writing to and reading from a file: {}", first_diff(&law, &l))),
                (Ok(()), Err(e)) => Err(format!("a file written by write_file is rejected: {e}")),
            }
        }
        5 => {
            rec.label("missing file");
            let q = match t.below(3) {
                0 => dir.join("missing.xml"),
                1 => dir.join("no/such/dir/law.xml"),
                _ => std::path::PathBuf::from(""),
            };
            must_fail(q.to_str().unwrap(), "a missing file")
        }
        6 => {
            rec.label("unreadable file");
            match t.below(3) {
                0 => must_fail(dir.to_str().unwrap(), "a directory"),
                1 => must_fail("law\u{0}.xml", "a path with a NUL"),
                _ => {
                    // opening succeeds, reading fails
                    must_fail("/proc/self/mem", "a file whose reading fails")
                }
            }
        }
        _ => {
            rec.label("full disk");
            match std::fs::OpenOptions::new().write(true).open("/dev/full") {
                Err(_) => Ok(()),
                Ok(mut f) => match lib("write_file", || write_file(&law, &mut f))? {
                    Err(Error::Io) => Ok(()),
                    Err(e) => Err(format!("a full disk is reported as {e:?}")),
                    Ok(()) => Err("write_file reports success on a full disk (/dev/full)".into()),
                },
            }
        }
    };
    std::fs::remove_file(&path).ok();
    rec.sample(|| format!("file case {what}, {} elements", tree.count()));
    outcome
}
fn must_fail(path: &str, what: &str) -> Result<(), String> {
    match lib("parse_xml_file", || parse_xml_file(path))? {
        Err(Error::Io) => Ok(()),
        Err(e) => Err(format!("{what} is reported as {e:?}")),
        Ok(_) => Err(format!("{what} is read as a law")),
    }
}

// ---------------------------------------------------------------- JSON

fn json<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T, what: &str, how: usize) -> Result<String, String> {
    let e = |stage: &str, e: serde_json::Error| format!("{what}: {stage}: {e}");
    let s = match lib("serialize", || serde_json::to_string(v))? {
        Ok(s) => s,
        Err(x) => return Err(e("cannot be serialised", x)),
    };
    let back: T = match how {
        0 => serde_json::from_str(&s).map_err(|x| e("JSON cannot be read back", x))?,
        1 => {
            let val = serde_json::to_value(v).map_err(|x| e("to_value", x))?;
            serde_json::from_value(val).map_err(|x| e("from_value", x))?
        }
        2 => {
            let mut w = vec![];
            serde_json::to_writer_pretty(&mut w, v).map_err(|x| e("to_writer", x))?;
            serde_json::from_reader(&w[..]).map_err(|x| e("from_reader", x))?
        }
        // members in another order mean the same object
        _ => {
            let val: serde_json::Value = serde_json::from_str(&s).map_err(|x| e("not JSON", x))?;
            let mut out = String::new();
            reversed(&val, &mut out);
            serde_json::from_str(&out).map_err(|x| e("JSON with members in another order cannot be read back", x))?
        }
    };
    // equal by the library's own comparison, and nothing of the value lost that the comparison does not see
    if &back != v || format!("{back:?}") != format!("{v:?}") {
        let (a, b) = (format!("{v:?}"), format!("{back:?}"));
        let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
        let cut = |s: &str| s.chars().skip(i.saturating_sub(100)).take(250).collect::<String>();
        return Err(format!("{what} changed by JSON: …{}… became …{}…", cut(&a), cut(&b)));
    }
    let again = serde_json::to_string(&back).map_err(|x| e("second serialisation", x))?;
    if again != s {
        return Err(format!("{what}: equal values give different JSON"));
    }
    Ok(s)
}
fn reversed(v: &serde_json::Value, out: &mut String) {
    use serde_json::Value as V;
    match v {
        V::Object(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().rev().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push(':');
                reversed(x, out);
            }
            out.push('}');
        }
        V::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                reversed(x, out);
            }
            out.push(']');
        }
        x => out.push_str(&x.to_string()),
    }
}

fn c17_law(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let how = t.below(4);
    let split = t.chance(1, 4);
    let loose = t.chance(1, 2);
    let law = {
        let mut g = G::new(t);
        g.split = split;
        g.loose = loose;
        g.law()
    };
    rec.label_if(loose, "values XML cannot hold");
    rec.key(&law);
    let size = refw::law(&law).count();
    rec.nontrivial = size >= 12;
    rec.label(["string", "value", "writer and reader", "members reordered"][how]);
    rec.show(|| format!("{law:?}"));
    let s = json(&law, "law", how)?;
    rec.sample(|| s.clone());
    let twin = law.clone();
    if serde_json::to_string(&twin).ok() != Some(s.clone()) {
        return Err("equal laws give different JSON".into());
    }
    // an equal law that was built another way
    if !split && !loose && size < 60 {
        let xml = xnode::plain(&refw::law(&law));
        if let Ok(Ok(read)) = lib("parse_xml", || parse_xml(xml.as_bytes())) {
            if read == law && serde_json::to_string(&read).ok() != Some(s) {
                return Err("a law read from XML gives other JSON than the equal law built by hand".into());
            }
        }
    }
    Ok(())
}

fn c17_parts(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let how = t.below(4);
    let n = |t: &mut Tape| match t.below(4) {
        0 => t.below(4),
        1 => t.below(1000),
        2 => usize::MAX - t.below(3),
        _ => t.raw() as usize,
    };
    let v = |t: &mut Tape| -> Vec<usize> {
        let k = t.below(4);
        (0..k).map(|_| match t.below(3) { 0 => t.below(4), 1 => t.raw() as usize, _ => usize::MAX }).collect()
    };
    let num = |t: &mut Tape| ArticleNumber { base_number: n(t), eda_numbers: v(t), range_end_numbers: v(t) };
    const PATTERNS: [ItemPattern; 16] = crate::refnum::STYLES;
    rec.nontrivial = true;
    match t.below(3) {
        0 => {
            rec.label("article number");
            let a = num(t);
            rec.key(&a);
            rec.show(|| format!("{a:?}"));
            json(&a, "number", how)?;
        }
        1 => {
            rec.label("item label");
            let p = *t.pick(&PATTERNS);
            let a = num(t);
            let i = ItemNumber {
                str: if t.flip() { strs::text(t) } else { format!("{}\u{1}\u{7f}\r\"\\", strs::text(t)) },
                base_number: a.base_number,
                eda_numbers: a.eda_numbers,
                range_end_numbers: a.range_end_numbers,
                pattern: p,
            };
            rec.key(&i);
            rec.show(|| format!("{i:?}"));
            json(&i, "item label", how)?;
            json(&p, "label style", how)?;
        }
        _ => {
            rec.label("text index");
            let mut ps = vec![];
            {
                let mut g = G::new(t);
                g.fuel = 30;
                for _ in 0..2 {
                    ps.push(g.paragraph());
                }
            }
            rec.key(&ps);
            rec.show(|| format!("{ps:?}"));
            let l = lib("text_info_list_from_paragraph", || utils::text_info_list_from_paragraph(&ps))?;
            rec.nontrivial = l.len() > 2;
            for (i, _) in l {
                json(&i, "text index", how)?;
            }
        }
    }
    Ok(())
}

pub fn check(id: &str) -> Option<Check> {
    let ph = |name, quick, thorough, sizes, case| Phase { name, gen: Gen::Random { quick, thorough, sizes }, case, workers: WORKERS };
    const S: &[(usize, u32)] = &[(40, 2), (200, 4), (800, 3)];
    Some(match id {
        "C07" => Check {
            id: "C07",
            rule: "a generated law is written to a sink that takes it in arbitrary pieces with interruptions, then again with a failure injected at every write or byte position (a sample when there are many); files are compared with their bytes; non-trivial: every case",
            assumptions: &["what a failing flush means is not specified", "the order of attributes is free"],
            phases: vec![ph("sinks", 60000, 2000000, S, c07_sink as CaseFn), ph("files", 60000, 1500000, S, c07_file as CaseFn), ph("large documents", 1500, 50000, &[(400, 1), (3000, 2)], c07_wide as CaseFn)],
        },
        "C17" => Check {
            id: "C17",
            rule: "a generated law is serialised to JSON and read back (string, value, writer and reader, members reordered), the result compared and serialised again; non-trivial: at least 12 elements",
            assumptions: &["serde_json stands for JSON serialisation"],
            phases: vec![ph("laws", 200000, 4000000, S, c17_law as CaseFn), ph("numbers and indices", 100000, 2000000, &[(20, 2), (60, 2)], c17_parts as CaseFn)],
        },
        _ => return None,
    })
}
