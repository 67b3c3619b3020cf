//! C18: results depend only on the arguments.
//! The ground truth for a call is the same call alone in a fresh process.
use crate::checks_text::{any_args, some_text, Args};
use crate::driver::*;
use crate::gen::G;
use crate::ptext;
use crate::refnum;
use crate::refw;
use crate::tape::Tape;
use crate::xnode;
use japanese_law_xml_schema::{article_number::*, law::Law, parse_text, parse_xml, parse_xml_file, to_xml, utils, write_file};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::path::Path;

#[derive(Clone, Debug)]
enum Arg {
    Doc { words: Vec<u32>, law: Box<Law>, xml: Vec<u8> },
    Text { text: String, title: String, a: Args },
    Label(String),
    Num(ArticleNumber, usize),
}
const DOC_F: [&str; 7] = ["parse_xml", "to_xml", "parse_xml_file", "write_file", "article and contents lists", "text extraction", "JSON"];
const LABEL_F: [&str; 4] = ["parse_article_number", "parse_item_number", "from_num_str", "split_number"];
const NUM_F: [&str; 3] = ["labels", "num_str", "item_text"];

#[derive(Clone, Debug)]
struct Op {
    f: usize,
    arg: Arg,
}
impl Op {
    fn functions(&self) -> &'static [&'static str] {
        match self.arg {
            Arg::Doc { .. } => &DOC_F,
            Arg::Text { .. } => &["parse_text"],
            Arg::Label(_) => &LABEL_F,
            Arg::Num(..) => &NUM_F,
        }
    }
    fn name(&self) -> &'static str {
        self.functions()[self.f]
    }
    fn describe(&self) -> String {
        let s = match &self.arg {
            Arg::Doc { law, xml, .. } => match self.f {
                0 | 2 => String::from_utf8_lossy(xml).to_string(),
                _ => xnode::plain(&refw::law(law)),
            },
            Arg::Text { text, title, a } => format!("{a:?} title {title:?}\n{text}"),
            Arg::Label(s) => format!("{s:?}"),
            Arg::Num(n, i) => format!("{n:?} {:?}", refnum::STYLES[*i]),
        };
        format!("{}: {}", self.name(), s.chars().take(3000).collect::<String>())
    }
}

fn doc(words: Vec<u32>) -> Arg {
    let mut t = Tape::new(&words);
    let mut g = G::new(&mut t);
    g.fuel = g.fuel.min(60);
    let law = g.law();
    let xml = xnode::plain(&refw::law(&law)).into_bytes();
    Arg::Doc { words, law: Box::new(law), xml }
}
fn fresh(t: &mut Tape) -> Op {
    let arg = match t.weighted(&[4, 3, 3, 1]) {
        0 => {
            let n = [20, 60, 200, 500][t.below(4)];
            let mut arg = doc(t.derived(n));
            if t.chance(1, 3) {
                // the document damaged
                let words = t.derived(300);
                let t = &mut Tape::new(&words);
                if let Arg::Doc { law, xml, .. } = &mut arg {
                    let mut tree = refw::law(law);
                    let pool = [tree.clone()];
                    if t.flip() {
                        // attribute values only, in many places
                        let k = [2, 4, 8, 50][t.below(4)];
                        odd_attributes(&mut tree, k, t);
                    } else {
                        for _ in 0..1 + t.below(4) {
                            crate::checks_err::mutate_tree(&mut tree, &pool, t);
                        }
                    }
                    *xml = xnode::plain(&tree).into_bytes();
                }
            }
            arg
        }
        1 => {
            let n = [10, 30, 60, 200][t.weighted(&[4, 4, 2, 1])];
            let words = t.derived(n);
            let t = &mut Tape::new(&words);
            let a = if t.flip() { crate::checks_text::args(t) } else { any_args(t) };
            let mut text = some_text(t, false);
            if t.chance(1, 5) {
                // few lines, long ones
                let lines: Vec<&str> = text.lines().collect();
                let keep = (1 + t.below(3)).min(lines.len());
                text = lines[..keep].iter().map(|l| format!("{l}{}", "の規定による場合において、当該".repeat(3 + t.below(12)))).collect::<Vec<_>>().join("\n");
            } else if t.chance(1, 3) {
                // some lines long
                let l: Vec<String> = text.lines().map(|l| if t.chance(1, 2) { format!("{l}{}", "の場合において、当該".repeat(1 + t.below(12))) } else { l.to_string() }).collect();
                text = l.join("\n");
            }
            Arg::Text { text, title: "ある法律".into(), a }
        }
        2 => {
            let words = t.derived(60);
            let t = &mut Tape::new(&words);
            Arg::Label(match t.below(6) {
                0 => ptext::any_line(t, true),
                4 => ptext::odd_label(t),
                5 => {
                    // letters that are digits in one style and letters in another
                    let c = ["ｃ", "ｄ", "ｍ", "ｉ", "ｖ", "ｘ", "ｌ", "ａ", "ｂ", "Ｃ", "Ｄ", "Ｉ", "Ｖ", "Ｘ", "Ｂ", "一", "ニ", "二", "ハ", "八"][t.below(20)];
                    let s = c.repeat(1 + t.weighted(&[6, 1, 1]));
                    let s = if t.flip() { format!("（{s}）") } else { s };
                    if t.chance(1, 4) { s + "の二" } else { s }
                }
                1 => {
                    let n = number(t);
                    let i = t.below(16);
                    let k = refnum::style_kind(refnum::STYLES[i]).0;
                    if refnum::style_ok(k, n.base_number) {
                        refnum::label_in(refnum::STYLES[i], n.base_number)
                    } else {
                        n.num_str_like()
                    }
                }
                2 => number(t).num_str_like(),
                _ => format!("第{}{}", refnum::kansuji(1 + t.below(200)), ["条", "章", "編", "節", "款", "目", "項"][t.below(7)]),
            })
        }
        _ => Arg::Num(number(t), t.below(16)),
    };
    let mut op = Op { f: 0, arg };
    op.f = match op.arg {
        Arg::Doc { .. } => t.weighted(&[5, 2, 2, 2, 2, 2, 1]),
        Arg::Label(_) => t.weighted(&[2, 4, 1, 1]),
        _ => t.below(op.functions().len()),
    };
    op
}
fn odd_attributes(n: &mut xnode::XNode, k: usize, t: &mut Tape) {
    const VALUES: [&str; 16] = ["", "0", "1", "2", "-1", "a", "true", "false", "TRUE", "diagonal", "solid", "１", "1_2", "1:2", "ja", "center"];
    for a in &mut n.attrs {
        if t.chance(1, k) {
            a.1 = match t.below(4) {
                0 => crate::strs::attr(t),
                1 => near(&a.1, t).replace(['\n', '\t'], ""),
                _ => t.pick(&VALUES).to_string(),
            };
        }
    }
    for e in &mut n.kids {
        if let xnode::Kid::E(e) = e {
            odd_attributes(e, k, t);
        }
    }
}
fn number(t: &mut Tape) -> ArticleNumber {
    let words = t.derived(8);
    ptext::number(&mut Tape::new(&words))
}
trait Key {
    fn num_str_like(&self) -> String;
}
impl Key for ArticleNumber {
    fn num_str_like(&self) -> String {
        refnum::key(self)
    }
}
/// another string that is easily mistaken for the first
fn near(s: &str, t: &mut Tape) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() {
        return "第一条".into();
    }
    let i = t.below(c.len());
    match t.below(7) {
        6 => {
            // the same length, the same beginning
            let k = c.len() - 1 - t.below(1 + c.len() / 4);
            if c[k] != '\n' {
                c[k] = if c[k] == '二' { '三' } else { '二' };
            }
        }
        0 => c[i] = c[t.below(c.len())],
        1 => {
            let j = (i + 1) % c.len();
            c.swap(i, j)
        }
        2 => {
            c.remove(i);
        }
        3 => c.insert(i, c[i]),
        4 => c[i] = ['一', '二', '１', '２', 'イ', 'ロ', '条', '章', '　', 'の'][t.below(10)],
        _ => {
            // the same length, the same beginning and end
            let k = c.len() / 2;
            c[k] = if c[k] == '二' { '三' } else { '二' };
        }
    }
    c.into_iter().collect()
}
fn tweak(op: &Op, t: &mut Tape) -> Op {
    let mut op = op.clone();
    match &mut op.arg {
        Arg::Doc { words, xml, .. } => {
            if words.is_empty() || t.chance(1, 3) {
                let s = String::from_utf8_lossy(xml).to_string();
                match t.below(3) {
                    0 => *xml = near(&s, t).into_bytes(),
                    1 => {
                        // one digit of an attribute
                        let at: Vec<usize> = (0..xml.len()).filter(|i| xml[*i].is_ascii_digit()).collect();
                        if !at.is_empty() {
                            let i = at[t.below(at.len())];
                            xml[i] = b'0' + (xml[i] - b'0' + 1 + t.below(9) as u8) % 10;
                        }
                    }
                    _ => {
                        let i = t.below(xml.len());
                        xml.truncate(i)
                    }
                }
            } else {
                let i = t.below(words.len().min(120));
                words[i] = t.raw();
                let w = std::mem::take(words);
                op.arg = doc(w);
            }
        }
        Arg::Text { text, title, a } => match t.below(8) {
            0 => a.year = a.year.wrapping_add(1),
            1 => a.month = a.month.map_or(Some(7), |m| Some(m % 12 + 1)),
            2 => a.day = a.day.map_or(Some(8), |m| Some(m % 28 + 1)),
            3 => a.num = Some(number(t)),
            4 => *title = near(title, t),
            5 => a.law_num = near(&a.law_num, t),
            _ => *text = near(text, t),
        },
        Arg::Label(s) => *s = near(s, t),
        Arg::Num(n, i) => match t.below(4) {
            0 => n.base_number += 1,
            1 => n.eda_numbers.push(1 + t.below(4)),
            2 => n.range_end_numbers.push(1 + t.below(20)),
            _ => *i = (*i + 1 + t.below(15)) % 16,
        },
    }
    op
}

struct Case {
    pool: Vec<Op>,
    /// calls one after the other
    calls: Vec<usize>,
    /// then calls in several threads at once
    threads: Vec<Vec<usize>>,
    env: Vec<(&'static str, &'static str)>,
}
fn case(t: &mut Tape) -> Case {
    let n = 2 + t.below(4);
    let mut pool: Vec<Op> = vec![fresh(t)];
    while pool.len() < n {
        let from = t.below(pool.len());
        let op = match t.below(4) {
            0 => fresh(t),
            1 => {
                let mut op = pool[from].clone();
                op.f = t.below(op.functions().len());
                op
            }
            _ => {
                let mut op = tweak(&pool[from], t);
                if t.chance(1, 4) {
                    op.f = t.below(op.functions().len());
                }
                op
            }
        };
        pool.push(op);
    }
    let words = t.derived(2000);
    let shape = t.below(4);
    let r = &mut Tape::new(&words);
    let mut calls: Vec<usize> = (0..n).collect();
    let more = match shape {
        0 => 3 + r.below(6),
        1 => 10 + r.below(30),
        2 => 100,
        _ => {
            // one call again and again, then the others
            let i = r.below(n);
            calls = std::iter::repeat(i).take(40 + r.below(300)).collect();
            2 * n
        }
    };
    if r.flip() {
        calls.reverse();
    }
    calls.extend((0..more).map(|_| r.below(n)));
    let threads = if t.chance(1, 3) {
        (0..2 + r.below(6)).map(|_| (0..6 + r.below(30)).map(|_| r.below(n)).collect()).collect()
    } else {
        vec![]
    };
    // structuring text takes about a millisecond a line
    let cost = |i: &usize| match &pool[*i].arg {
        Arg::Text { text, .. } => 1 + text.lines().count(),
        _ => 1,
    };
    let afford = |calls: &mut Vec<usize>, limit: usize| {
        let mut sum = 0;
        calls.retain(|i| {
            sum += cost(i);
            sum <= limit
        });
    };
    afford(&mut calls, 350);
    let mut threads = threads;
    for c in &mut threads {
        afford(c, 60);
    }
    let env = ENV.iter().filter(|_| r.chance(1, 4)).copied().collect();
    Case { pool, calls, threads, env }
}

/// A few cheap calls repeated very often in one process.
fn many(t: &mut Tape) -> Case {
    let n = 2 + t.below(4);
    let mut pool: Vec<Op> = vec![];
    let only_numbers = t.chance(1, 3);
    // how long one call takes, in microseconds, roughly
    let cost = |op: &Op| match &op.arg {
        Arg::Doc { xml, .. } => 40 + xml.len() / 8,
        Arg::Text { text, .. } => 1500 * (1 + text.lines().count()),
        Arg::Label(_) => [700, 900, 2, 200][op.f],
        Arg::Num(..) => 10,
    };
    let mut tries = 0;
    while pool.len() < n {
        let mut op = if pool.is_empty() || t.flip() { fresh(t) } else { tweak(&pool[pool.len() - 1], t) };
        tries += 1;
        if only_numbers && tries < 60 {
            match op.arg {
                Arg::Num(..) => (),
                Arg::Label(_) => op.f = 2,
                _ => continue,
            }
        } else if tries < 60 && cost(&op) > 6000 {
            continue;
        }
        pool.push(op);
    }
    let words = t.derived(400);
    let r = &mut Tape::new(&words);
    let round: usize = pool.iter().map(cost).sum();
    let total = (1_500_000 / round.max(1)).clamp(2, 70_000 / n + 1) * n;
    let mut calls = vec![];
    let style = r.below(3);
    let mut i = 0;
    while calls.len() < total {
        match style {
            // in turn, or each for a long while
            0 => calls.push(i % n),
            1 => calls.extend(std::iter::repeat(i % n).take(total / n)),
            _ => calls.push(if calls.len() > total * 9 / 10 { i % n } else { 0 }),
        }
        i += 1;
    }
    calls.extend(0..n);
    let env = ENV.iter().filter(|_| r.chance(1, 4)).copied().collect();
    Case { pool, calls, threads: vec![], env }
}

/// Many calls of every kind, made in two different orders.
struct Order {
    pool: Vec<Op>,
    first: Vec<usize>,
    second: Vec<usize>,
    env: Vec<(&'static str, &'static str)>,
}
const ENV: [(&str, &str); 10] = [
    ("RUST_LOG", "trace"),
    ("DEBUG", "1"),
    ("TZ", "Asia/Tokyo"),
    ("LANG", "ja_JP.UTF-8"),
    ("LC_ALL", "C"),
    ("HOME", "/nonexistent"),
    ("RUST_BACKTRACE", "1"),
    ("VERBOSE", "1"),
    ("TERM", "xterm"),
    ("NO_COLOR", "1"),
];
fn order(t: &mut Tape) -> Order {
    let words = t.derived(1000);
    let mut pool: Vec<Op> = vec![];
    let mut lines = 0;
    while pool.len() < 2 || !t.exhausted() && pool.len() < 150 {
        let op = if !pool.is_empty() && t.chance(1, 4) {
            let from = t.below(pool.len());
            tweak(&pool[from], t)
        } else {
            fresh(t)
        };
        if let Arg::Text { text, .. } = &op.arg {
            lines += text.lines().count();
            if lines > 250 {
                continue;
            }
        }
        pool.push(op);
    }
    let r = &mut Tape::new(&words);
    let first: Vec<usize> = (0..pool.len()).collect();
    let mut second = first.clone();
    if r.flip() {
        second.reverse();
    } else {
        for i in (1..second.len()).rev() {
            let j = r.below(i + 1);
            second.swap(i, j);
        }
    }
    let env = ENV.iter().filter(|_| r.chance(1, 4)).copied().collect();
    Order { pool, first, second, env }
}

// ---------------------------------------------------------------- the child

fn canonical(xml: Result<String, String>) -> String {
    match xml {
        Ok(s) => match xmltree::Element::parse(s.as_bytes()) {
            // the order of attributes is free
            Ok(e) => xnode::plain(&xnode::from_xmltree(&e)),
            Err(e) => format!("not well-formed: {e}"),
        },
        Err(e) => e,
    }
}
fn exec(op: &Op, file: &Path) -> String {
    let r = lib("call", || match &op.arg {
        Arg::Doc { law, xml, .. } => match op.f {
            0 => format!("{:?}", parse_xml(xml)),
            1 => canonical(to_xml(law).map_err(|e| format!("{e:?}"))),
            2 => {
                std::fs::write(file, xml).expect("scratch file");
                format!("{:?}", parse_xml_file(file.to_str().unwrap()))
            }
            3 => {
                let mut v: Vec<u8> = vec![];
                let r = write_file(law, &mut v);
                canonical(r.map(|_| String::from_utf8_lossy(&v).to_string()).map_err(|e| format!("{e:?}")))
            }
            4 => {
                let m = &law.law_body.main_provision;
                let mut s = String::new();
                let _ = write!(s, "{:?}\n{:?}\n{:?}\n", utils::article_list_from_main_provision(m), utils::with_number_article_list_from_main_provision(m), utils::toc_list_from_main_provision(m));
                for p in &law.law_body.suppl_provision {
                    let _ = write!(s, "{:?}\n{:?}\n{:?}\n", utils::article_list_from_suppl_provision(p), utils::with_number_article_list_from_suppl_provision(p), utils::toc_list_from_suppl_provision(p));
                }
                s
            }
            5 => {
                let mut s = String::new();
                let (a, p) = utils::article_list_from_main_provision(&law.law_body.main_provision);
                let mut lists = vec![(a, p)];
                for x in &law.law_body.suppl_provision {
                    lists.push(utils::article_list_from_suppl_provision(x));
                }
                for (a, p) in lists {
                    for x in &a {
                        let _ = write!(s, "{}\n{:?}\n", utils::text_from_article(x), utils::text_info_list_from_paragraph(&x.paragraph));
                    }
                    for x in &p {
                        let _ = write!(s, "{}\n{:?}\n", utils::text_from_paragraph_list(x), utils::text_info_list_from_paragraph(x));
                    }
                }
                s
            }
            _ => {
                let s = serde_json::to_string(law).unwrap_or_else(|e| e.to_string());
                let back: Result<Law, _> = serde_json::from_str(&s);
                format!("{s}\n{:?}", back.map_err(|e| e.to_string()))
            }
        },
        Arg::Text { text, title, a } => {
            format!("{:?}", parse_text(text, a.year, a.month, a.day, a.law_type.clone(), a.lang.clone(), a.num.clone(), a.law_num.clone(), title))
        }
        Arg::Label(s) => match op.f {
            0 => format!("{:?}", parse_article_number(s)),
            1 => format!("{:?}", parse_item_number(s)),
            2 => format!("{:?}", ArticleNumber::from_num_str(s)),
            _ => format!("{:?}", split_number(s)),
        },
        Arg::Num(n, i) => match op.f {
            0 => [n.part_text(), n.chapter_text(), n.section_text(), n.subsection_text(), n.division_text(), n.article_text(), n.paragraph_text()].join("|"),
            1 => n.num_str(),
            _ => n.item_text(refnum::STYLES[*i]),
        },
    });
    r.unwrap_or_else(|e| e)
}
fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
struct Results {
    /// per pool entry: distinct results (hash, beginning)
    seen: Vec<BTreeSet<(u64, String)>>,
}
impl Results {
    fn new(n: usize) -> Results {
        Results { seen: vec![BTreeSet::new(); n] }
    }
    fn write(&self, out: &mut String) {
        for (i, set) in self.seen.iter().enumerate() {
            for (h, s) in set {
                let _ = writeln!(out, "{i}\t{h}\t{}", s.replace(['\n', '\t', '\r'], " "));
            }
        }
    }
    fn add(&mut self, i: usize, r: &str) {
        let h = hash(r);
        if !self.seen[i].iter().any(|x| x.0 == h) && self.seen[i].len() < 4 {
            self.seen[i].insert((h, r.chars().take(600).collect()));
        }
    }
}

/// Entry point of the child: `which` is "all", "there", "back" (two orders) or the index of one call; prints nothing.
pub fn child(dir: &str, which: &str) -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 100, rlim_max: 110 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        libc::alarm(300);
    }
    let dir = Path::new(dir).to_path_buf();
    let which = which.to_string();
    std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            let bytes = std::fs::read(dir.join("tape")).expect("tape");
            let tape: Vec<u32> = bytes.chunks(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
            let file = dir.join("in.xml");
            let mut out = String::new();
            if which == "there" || which == "back" {
                let c = order(&mut Tape::new(&tape));
                let mut res = Results::new(c.pool.len());
                for i in if which == "there" { &c.first } else { &c.second } {
                    res.add(*i, &exec(&c.pool[*i], &file));
                }
                res.write(&mut out);
                std::fs::write(dir.join("result"), out).expect("result");
                return;
            }
            let (c, which) = match which.strip_prefix("many:") {
                Some(w) => (many(&mut Tape::new(&tape)), w.to_string()),
                None => (case(&mut Tape::new(&tape)), which),
            };
            let mut res = Results::new(c.pool.len());
            if which == "all" {
                let before = format!("{:?}", c.pool);
                for i in &c.calls {
                    res.add(*i, &exec(&c.pool[*i], &file));
                }
                if !c.threads.is_empty() {
                    let go = std::sync::Barrier::new(c.threads.len());
                    let lists: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
                        let hs: Vec<_> = c
                            .threads
                            .iter()
                            .enumerate()
                            .map(|(k, calls)| {
                                let (go, pool, dir) = (&go, &c.pool, &dir);
                                std::thread::Builder::new()
                                    .stack_size(1 << 26)
                                    .spawn_scoped(s, move || {
                                        let file = dir.join(format!("in{k}.xml"));
                                        go.wait();
                                        calls.iter().map(|i| (*i, exec(&pool[*i], &file))).collect()
                                    })
                                    .expect("thread")
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().expect("join")).collect()
                    });
                    for (i, r) in lists.iter().flatten() {
                        res.add(*i, r);
                    }
                }
                if format!("{:?}", c.pool) != before {
                    out.push_str("arguments changed\n");
                }
            } else {
                let i: usize = which.parse().unwrap();
                res.add(i, &exec(&c.pool[i], &file));
            }
            res.write(&mut out);
            std::fs::write(dir.join("result"), out).expect("result");
        })
        .unwrap()
        .join()
        .map(|_| 0)
        .unwrap_or(3)
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
thread_local! {
    static SCRATCH: Scratch = {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("jlx-hist.{}.{n}", std::process::id()));
        std::fs::create_dir_all(p.join("cwd")).expect("scratch directory");
        Scratch(p)
    };
}

enum Ended {
    Result(Vec<(usize, u64, String)>),
    Abnormally(String),
    Wrote(String),
    Arguments,
}
fn spawn(dir: &Path, which: &str, env: &[(&str, &str)]) -> Ended {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    for attempt in 0..3 {
        std::fs::remove_file(dir.join("result")).ok();
        let mut cmd = std::process::Command::new(&exe);
        cmd.env_clear().env("TMPDIR", dir.join("cwd")).current_dir(dir.join("cwd"));
        for (k, v) in env {
            cmd.env(k, v);
        }
        let out = match cmd.arg("--history").arg(dir).arg(which).stdin(std::process::Stdio::null()).output() {
            Ok(o) => o,
            Err(e) => {
                eprintln!("HARNESS ERROR: {e}");
                std::process::exit(2)
            }
        };
        // a wall-clock limit alone proves nothing on a busy machine: only three in a row count
        if out.status.signal() == Some(libc::SIGALRM) && attempt < 2 {
            continue;
        }
        let text = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
        if !out.status.success() {
            let err: String = String::from_utf8_lossy(&out.stderr).chars().take(400).collect();
            if err.contains("HARNESS ERROR") || out.status.signal() == Some(libc::SIGKILL) {
                eprintln!("HARNESS ERROR: child: {err} {}", out.status);
                std::process::exit(2)
            }
            return Ended::Abnormally(format!("{} {err}", out.status));
        }
        for (what, b) in [("standard output", &out.stdout), ("standard error", &out.stderr)] {
            if !b.is_empty() {
                return Ended::Wrote(format!("{what}: {:?}", String::from_utf8_lossy(b).chars().take(300).collect::<String>()));
            }
        }
        if let Ok(mut d) = std::fs::read_dir(dir.join("cwd")) {
            if let Some(Ok(f)) = d.next() {
                let s = format!("the file {:?} in the working or temporary directory", f.file_name());
                std::fs::remove_dir_all(dir.join("cwd")).ok();
                std::fs::create_dir_all(dir.join("cwd")).ok();
                return Ended::Wrote(s);
            }
        }
        if text.starts_with("arguments changed") {
            return Ended::Arguments;
        }
        let rows = text
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, '\t');
                Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next()?.to_string()))
            })
            .collect();
        return Ended::Result(rows);
    }
    unreachable!()
}

/// a long sequence written short
fn brief(calls: &[usize]) -> String {
    if calls.len() <= 600 {
        return format!("{calls:?}");
    }
    let mut runs: Vec<(usize, usize)> = vec![];
    for c in calls {
        match runs.last_mut() {
            Some((d, k)) if d == c => *k += 1,
            _ => runs.push((*c, 1)),
        }
    }
    let head: Vec<String> = runs.iter().take(40).map(|(c, k)| format!("{c}x{k}")).collect();
    format!("{} calls: {}{}", calls.len(), head.join(" "), if runs.len() > 40 { " … and so on in this manner" } else { "" })
}
fn c18(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    c18_history(t, rec, "")
}
fn c18_many(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    c18_history(t, rec, "many:")
}
fn c18_history(t: &mut Tape, rec: &mut Rec, prefix: &str) -> Result<(), String> {
    let mut tape = vec![];
    while !t.exhausted() {
        tape.push(t.raw());
    }
    let c = if prefix.is_empty() { case(&mut Tape::new(&tape)) } else { many(&mut Tape::new(&tape)) };
    for op in &c.pool {
        rec.label(op.name());
    }
    rec.label_if(!c.threads.is_empty(), "several threads");
    rec.label_if(c.calls.len() >= 40, "40 calls or more");
    rec.label_if(c.calls.len() >= 1000, "1000 calls or more");
    rec.label_if(c.calls.len() > 4096, "more than 4096 calls");
    rec.label_if(c.calls.len() > 65536, "more than 65536 calls");
    rec.key(&format!("{:?} {:?} {:?}", c.pool, c.calls, c.threads));
    rec.show(|| {
        let ops: Vec<String> = c.pool.iter().enumerate().map(|(i, o)| format!("call {i} = {}", o.describe())).collect();
        format!("{}\nsequence {:?}\nthreads {:?}\nenvironment {:?}", ops.join("\n"), brief(&c.calls), c.threads, c.env)
    });
    rec.sample(|| format!("{:?} sequence {:?} threads {:?}", c.pool.iter().map(|o| o.name()).collect::<Vec<_>>(), brief(&c.calls), c.threads));
    let dir = SCRATCH.with(|s| s.0.clone());
    let bytes: Vec<u8> = tape.iter().flat_map(|w| w.to_le_bytes()).collect();
    std::fs::write(dir.join("tape"), bytes).map_err(|e| format!("harness: {e}"))?;
    let mut alone: Vec<Option<(u64, String)>> = vec![];
    for (i, op) in c.pool.iter().enumerate() {
        rec.evals += 1;
        match spawn(&dir, &format!("{prefix}{i}"), &[]) {
            Ended::Result(rows) if rows.len() == 1 => alone.push(Some((rows[0].1, rows[0].2.clone()))),
            Ended::Result(_) => return Err("harness: no result".into()),
            // the other properties deal with calls that fail on their own
            Ended::Abnormally(_) => alone.push(None),
            Ended::Wrote(s) => return Err(format!("{} writes to {s}", op.name())),
            Ended::Arguments => return Err(format!("{} changes its arguments", op.name())),
        }
    }
    let distinct: BTreeSet<u64> = alone.iter().flatten().map(|x| x.0).collect();
    rec.nontrivial = distinct.len() >= 2;
    if alone.iter().any(|a| a.is_none()) {
        rec.label("a call ends the process on its own");
        rec.nontrivial = false;
        return Ok(());
    }
    rec.evals += (c.calls.len() + c.threads.iter().map(|v| v.len()).sum::<usize>()) as u64;
    match spawn(&dir, &format!("{prefix}all"), &c.env) {
        Ended::Result(rows) => {
            for (i, h, text) in rows {
                if let Some((h0, text0)) = &alone[i] {
                    if *h0 != h {
                        let cut = |s: &str| s.chars().take(300).collect::<String>();
                        let k = text0.chars().zip(text.chars()).take_while(|(a, b)| a == b).count().saturating_sub(60);
                        let tail = |s: &str| cut(&s.chars().skip(k).collect::<String>());
                        return Err(format!("{} alone gives …{}…, among other calls …{}…", c.pool[i].name(), tail(text0), tail(&text)));
                    }
                }
            }
            Ok(())
        }
        Ended::Abnormally(s) => Err(format!("calls that succeed alone end the process when made together: {s}")),
        Ended::Wrote(s) => Err(format!("something is written to {s}")),
        Ended::Arguments => Err("arguments changed".into()),
    }
}

fn c18_order(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut tape = vec![];
    while !t.exhausted() {
        tape.push(t.raw());
    }
    let c = order(&mut Tape::new(&tape));
    rec.label(["up to 10 calls", "up to 50 calls", "up to 150 calls"][if c.pool.len() <= 10 { 0 } else if c.pool.len() <= 50 { 1 } else { 2 }]);
    rec.key(&format!("{:?} {:?}", c.pool, c.second));
    rec.show(|| {
        let ops: Vec<String> = c.pool.iter().enumerate().map(|(i, o)| format!("call {i} = {}", o.describe())).collect();
        format!("{}\nfirst in this order, then in a new process in the order {:?}\nenvironment {:?}", ops.join("\n"), c.second, c.env)
    });
    rec.sample(|| format!("{:?} then {:?}", c.pool.iter().map(|o| o.name()).collect::<Vec<_>>(), c.second));
    let dir = SCRATCH.with(|s| s.0.clone());
    let bytes: Vec<u8> = tape.iter().flat_map(|w| w.to_le_bytes()).collect();
    std::fs::write(dir.join("tape"), bytes).map_err(|e| format!("harness: {e}"))?;
    rec.evals = 2 * c.pool.len() as u64;
    let first = spawn(&dir, "there", &[]);
    let second = spawn(&dir, "back", &c.env);
    match (first, second) {
        (Ended::Result(a), Ended::Result(b)) => {
            rec.nontrivial = a.iter().map(|x| x.1).collect::<BTreeSet<_>>().len() >= 2;
            if a.len() != c.pool.len() || b.len() != c.pool.len() {
                return Err("harness: results missing".into());
            }
            for ((i, h, s), (_, h2, s2)) in a.iter().zip(&b) {
                if h != h2 {
                    let k = s.chars().zip(s2.chars()).take_while(|(a, b)| a == b).count().saturating_sub(60);
                    let tail = |s: &str| s.chars().skip(k).take(300).collect::<String>();
                    return Err(format!("call {i}, {}, gives …{}… in one order and …{}… in another", c.pool[*i].describe(), tail(s), tail(s2)));
                }
            }
            Ok(())
        }
        // the other properties deal with calls that fail on their own
        (Ended::Abnormally(_), Ended::Abnormally(_)) => {
            rec.label("a call ends the process");
            Ok(())
        }
        (Ended::Abnormally(s), _) | (_, Ended::Abnormally(s)) => Err(format!("calls that succeed in one order end the process in another: {s}")),
        (Ended::Wrote(s), _) | (_, Ended::Wrote(s)) => Err(format!("something is written to {s}")),
        (Ended::Arguments, _) | (_, Ended::Arguments) => Err("arguments changed".into()),
    }
}

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "C18" => Check {
            id: "C18",
            rule: "a pool of 2 to 5 calls with closely related arguments; each is run alone in a fresh process, then all of them in one process in a generated order with repetitions and (one case in three) in several threads at once; then up to 150 calls of every kind in one order in one process and in another order in a second process, each call compared; non-trivial: at least two calls of the pool have different results",
            assumptions: &[
                "the order of attributes in written XML is free",
                "interleavings of threads are those the scheduler happens to give",
                "calls that end the process on their own are left to the other properties",
            ],
            phases: vec![
                Phase { name: "histories", gen: Gen::Random { quick: 6000, thorough: 200000, sizes: &[(20, 2), (50, 3), (100, 1)] }, case: c18, workers: WORKERS },
                Phase { name: "long histories", gen: Gen::Random { quick: 120, thorough: 8000, sizes: &[(20, 2), (50, 3), (100, 1)] }, case: c18_many, workers: WORKERS },
                Phase { name: "two orders", gen: Gen::Random { quick: 3000, thorough: 100000, sizes: &[(20, 1), (60, 2), (300, 2)] }, case: c18_order, workers: WORKERS },
            ],
        },
        _ => return None,
    })
}
