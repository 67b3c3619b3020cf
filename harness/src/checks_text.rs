//! C14 C15 C16 C19 C20: structuring plain text.
use crate::checks_xml;
use crate::driver::*;
use crate::ptext::{self, Class};
use crate::refw;
use crate::strs;
use crate::tape::Tape;
use crate::xnode::{self, Kid, XNode};
use japanese_law_xml_schema::{article_number::{split_number, ArticleNumber}, law::*, parse_text};

const SIZES: &[(usize, u32)] = &[(60, 2), (250, 4), (800, 3), (2000, 1)];

#[derive(Clone, Debug)]
pub struct Args {
    pub year: usize,
    pub month: Option<usize>,
    pub day: Option<usize>,
    pub law_type: LawType,
    pub lang: Lang,
    pub num: Option<ArticleNumber>,
    pub law_num: String,
}
pub fn args(t: &mut Tape) -> Args {
    Args {
        year: 1869 + t.below(180),
        month: [None, Some(1 + t.below(12))][t.below(2)],
        day: [None, Some(1 + t.below(28))][t.below(2)],
        law_type: [LawType::Act, LawType::Constitution, LawType::CabinetOrder, LawType::ImperialOrder, LawType::MinisterialOrdinance, LawType::Rule, LawType::Misc][t.below(7)].clone(),
        lang: [Lang::Ja, Lang::En][t.below(2)].clone(),
        num: if t.flip() { Some(ptext::number(t)) } else { None },
        law_num: if t.chance(1, 6) { String::new() } else { strs::text(t).trim().replace(['\n', '\t'], "") },
    }
}
type Parsed = Result<Law, japanese_law_xml_schema::result::Error>;
fn run(text: &str, title: &str, a: &Args) -> Result<Parsed, String> {
    lib("parse_text", || {
        parse_text(text, a.year, a.month, a.day, a.law_type.clone(), a.lang.clone(), a.num.clone(), a.law_num.clone(), title)
    })
}
fn as_given(law: &Law, a: &Args) -> Result<(), String> {
    if law.promulgate_month != a.month || law.promulgate_day != a.day || law.law_type != a.law_type || law.lang != a.lang || law.num != a.num || law.law_num != a.law_num {
        return Err(format!(
            "month {:?}, day {:?}, type {:?}, language {:?}, number {:?}, law number {:?} became {:?} {:?} {:?} {:?} {:?} {:?}",
            a.month, a.day, a.law_type, a.lang, a.num, a.law_num, law.promulgate_month, law.promulgate_day, law.law_type, law.lang, law.num, law.law_num
        ));
    }
    let (m, d) = (a.month.unwrap_or(1), a.day.unwrap_or(1));
    if let Some((era, year)) = own_era(a.year, m, d) {
        if law.era != era || law.year != year {
            return Err(format!("{}-{m}-{d} is {era:?} {year}, structured as {:?} {}", a.year, law.era, law.year));
        }
    }
    Ok(())
}
fn body(law: &Law) -> XNode {
    let tree = refw::law(law);
    tree.kids
        .into_iter()
        .find_map(|k| match k {
            Kid::E(e) if e.name == "LawBody" => Some(e),
            _ => None,
        })
        .unwrap()
}

fn c14(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(40);
    let a = args(&mut Tape::new(&words));
    c14_doc(ptext::wellformed(t), a, rec)
}
fn c14_long(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(40000);
    let t = &mut Tape::new(&words);
    let a = args(t);
    c14_doc(ptext::long_wellformed(t), a, rec)
}
fn c14_doc(d: ptext::Doc, a: Args, rec: &mut Rec) -> Result<(), String> {
    let s = &d.stats;
    let lines = d.text.lines().count();
    rec.label_if(lines > 100, "more than 100 lines");
    rec.label_if(lines > 255, "more than 255 lines");
    rec.label_if(lines > 500, "more than 500 lines");
    rec.key(&d.text);
    rec.nontrivial = s.heads + s.articles + s.items + s.suppl >= 3;
    rec.label_if(s.heads > 0, "headings");
    rec.label_if(s.articles > 0, "articles");
    rec.label_if(s.para_only, "paragraphs only");
    rec.label_if(s.suppl > 0, "supplementary provisions");
    rec.label(["no items", "items", "item depth 2", "item depth 3", "item depth 4", "item depth 5+"][s.item_depth.min(5)]);
    rec.label_if(s.item_depth >= 9, "item depth 9+");
    rec.label_if(s.multi_step_back, "step back by several levels");
    rec.label_if(s.captions > 0, "captions");
    rec.label_if(s.branches > 0, "branch numbers");
    rec.label_if(s.ranges > 0, "ranges");
    rec.label_if(s.continuation > 0, "continuation lines");
    rec.label_if(s.deleted > 0, "deleted");
    rec.label_if(s.alphabet_c, "letter c");
    rec.label_if(s.roman_after_h, "roman list after letter h");
    rec.show(|| format!("title {:?}\n{}", d.title, d.text));
    rec.sample(|| d.text.clone());
    let law = match run(&d.text, &d.title, &a)? {
        Ok(l) => l,
        Err(e) => return Err(format!("a regular text is not structured: {e}")),
    };
    as_given(&law, &a)?;
    let want = ptext::blank(&xnode::normalise(&d.body), false);
    let got = ptext::blank(&xnode::normalise(&body(&law)), false);
    match xnode::diff(&want, &got, "") {
        Some(d) => Err(format!("structure differs from the labels: {d}")),
        None => Ok(()),
    }
}

pub fn some_text(t: &mut Tape, odd: bool) -> String {
    match t.weighted(&[5, 3, 2, 1]) {
        0 => ptext::soup(t, odd),
        1 => ptext::item_walk(t),
        2 => {
            // a regular text with lines moved, repeated or left out
            let d = ptext::wellformed(t);
            let mut l: Vec<&str> = d.text.lines().collect();
            for _ in 0..1 + t.below(4) {
                if l.is_empty() {
                    break;
                }
                let i = t.below(l.len());
                match t.below(4) {
                    0 => {
                        l.remove(i);
                    }
                    1 => {
                        let j = t.below(l.len());
                        l.swap(i, j)
                    }
                    2 => l.insert(t.below(l.len() + 1), l[i]),
                    _ => l.truncate(i + 1),
                }
            }
            l.join("\n")
        }
        _ => ptext::wellformed(t).text,
    }
}
/// a text with a few lines many times over, or with one very long line
fn stretched(t: &mut Tape, odd: bool) -> String {
    let text = some_text(t, odd);
    let mut l: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    if l.is_empty() {
        return text;
    }
    let i = t.below(l.len());
    if t.chance(1, 4) {
        let n = [300usize, 1100, 5000, 40000][t.weighted(&[4, 4, 2, 1])];
        let cut = t.below(l[i].chars().count() + 1);
        let unit: String = l[i].chars().skip(cut).collect();
        let unit = if unit.is_empty() { "条".to_string() } else { unit };
        let k = n / unit.chars().count() + 1;
        let long = unit.repeat(k);
        l[i].push_str(&long);
    } else {
        let j = (i + 1 + t.below(4)).min(l.len());
        let n = [20usize, 70, 130, 270, 600][t.weighted(&[4, 4, 4, 3, 1])] / (j - i);
        let block: Vec<String> = l[i..j].to_vec();
        // all the same, or the same up to a character near the end
        let vary = t.flip();
        for k in 0..n {
            let copy = block.iter().map(|s| {
                let mut c: Vec<char> = s.chars().collect();
                if vary && c.len() > 6 {
                    let at = c.len() - 2;
                    c[at] = ['甲', '乙', '丙', '丁', '戊'][k % 5];
                }
                c.into_iter().collect::<String>()
            });
            l.splice(i..i, copy.collect::<Vec<_>>());
        }
    }
    l.join("\n")
}
pub fn any_args(t: &mut Tape) -> Args {
    let mut a = args(t);
    let n = |t: &mut Tape| match t.below(5) {
        0 => t.below(40),
        1 => t.below(4000),
        2 => t.raw() as usize,
        3 => usize::MAX - t.below(3),
        _ => [0, 1, 9, 12, 13, 28, 29, 30, 31, 32, 1867, 1868, 1869, 9999, 10000, 2147483647, 2147483648, 4294967295, 4294967296][t.below(19)],
    };
    if t.chance(1, 2) {
        a.year = n(t);
        a.month = if t.flip() { Some(n(t)) } else { None };
        a.day = if t.flip() { Some(n(t)) } else { None };
    }
    a
}
fn label_outcome(rec: &mut Rec, r: &Parsed) {
    rec.label(if r.is_ok() { "structured" } else { "error" });
}
fn c15(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(60);
    let a = any_args(&mut Tape::new(&words));
    let text = some_text(t, true);
    c15_text(t, a, text, rec)
}
fn c15_long(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(3000);
    let t = &mut Tape::new(&words);
    let a = any_args(t);
    let text = stretched(t, true);
    long_labels(&text, rec);
    c15_text(t, a, text, rec)
}
fn long_labels(text: &str, rec: &mut Rec) {
    let lines = text.lines().count();
    rec.label_if(lines > 100, "more than 100 lines");
    rec.label_if(lines > 255, "more than 255 lines");
    rec.label_if(text.lines().any(|l| l.len() > 4000), "line of more than 4000 bytes");
}
fn c15_text(t: &mut Tape, a: Args, text: String, rec: &mut Rec) -> Result<(), String> {
    let title = if t.flip() { strs::text(t) } else { String::new() };
    rec.key(&(&text, a.year, a.month, a.day));
    rec.nontrivial = text.lines().count() >= 2;
    rec.show(|| format!("date {} {:?} {:?} title {title:?}\n{text}", a.year, a.month, a.day));
    rec.sample(|| text.clone());
    let r = run(&text, &title, &a)?;
    label_outcome(rec, &r);
    Ok(())
}
/// every sequence of up to five line kinds
fn c15_enum(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    const LINES: [&str; 13] = [
        "第一編　編名", "第一章　章名", "第一節　節名", "第一款　款名", "第一目　目名", "第一条　条文", "２　項", "一　号", "イ　細分", "（１）　細分", "（見出し）", "附則", "文章。",
    ];
    let mut i = t.raw() as usize;
    let mut v = vec![];
    while i > 0 {
        i -= 1;
        v.push(LINES[i % 13]);
        i /= 13;
    }
    let text = v.join("\n");
    rec.key(&text);
    rec.nontrivial = v.len() >= 2;
    rec.show(|| text.clone());
    let a = Args { year: 2000, month: None, day: None, law_type: LawType::Act, lang: Lang::Ja, num: None, law_num: String::new() };
    let r = run(&text, "", &a)?;
    label_outcome(rec, &r);
    lossless(&text, "", &r, rec)
}

/// one piece of wording of the law, in document order
#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Suppl(Option<String>, bool),
    Caption(String),
    /// element, number, title
    Head(String, String, String),
    /// a labelled sentence: element and number
    Labelled(String, String, String),
    Plain(String),
}
fn all_text(n: &XNode) -> String {
    n.kids
        .iter()
        .map(|k| match k {
            Kid::T(s) => s.clone(),
            Kid::E(e) => all_text(e),
        })
        .collect()
}
fn tokens(n: &XNode, label: &mut Option<(String, String)>, out: &mut Vec<Tok>) {
    let num = n.get("Num").unwrap_or("").to_string();
    match n.name.as_str() {
        "LawTitle" | "ArticleTitle" | "ParagraphNum" | "ItemTitle" | "SupplProvisionLabel" => return,
        s if s.starts_with("Subitem") && s.ends_with("Title") => return,
        "ArticleCaption" | "ParagraphCaption" => {
            out.push(Tok::Caption(all_text(n)));
            return;
        }
        "SupplProvision" => out.push(Tok::Suppl(n.get("AmendLawNum").map(|s| s.to_string()), n.get("Extract") == Some("true"))),
        "Part" | "Chapter" | "Section" | "Subsection" | "Division" => {
            let title = n.kids.iter().find_map(|k| if let Kid::E(e) = k { Some(all_text(e)) } else { None }).unwrap_or_default();
            out.push(Tok::Head(n.name.clone(), num, title));
            for k in n.kids.iter().skip(1) {
                if let Kid::E(e) = k {
                    tokens(e, label, out)
                }
            }
            return;
        }
        "Article" => *label = Some(("Article".into(), num)),
        "Paragraph" => {
            // the first paragraph of an article carries the article's label
            if label.as_ref().map(|l| l.0 != "Article").unwrap_or(true) {
                *label = Some(("Paragraph".into(), num))
            }
        }
        "Item" => *label = Some(("Item".into(), num)),
        s if s.starts_with("Subitem") && !s.ends_with("Sentence") => *label = Some(("Item".into(), num)),
        "Preamble" => {
            for k in &n.kids {
                if let Kid::E(e) = k {
                    out.push(Tok::Plain(all_text(e)));
                }
            }
            return;
        }
        "Sentence" => {
            match label.take() {
                Some((k, n_)) => out.push(Tok::Labelled(k, n_, all_text(n))),
                None => out.push(Tok::Plain(all_text(n))),
            }
            return;
        }
        _ => (),
    }
    for k in &n.kids {
        if let Kid::E(e) = k {
            tokens(e, label, out)
        }
    }
}
fn lossless(text: &str, title: &str, r: &Parsed, rec: &mut Rec) -> Result<(), String> {
    let Ok(law) = r else { return Ok(()) };
    let tree = body(law);
    let mut got = vec![];
    tokens(&tree, &mut None, &mut got);
    let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let gtitle = law.law_body.law_title.as_ref().map(|t| t.text.to_string()).unwrap_or_default();
    if gtitle != title {
        return Err(format!("title {title:?} became {gtitle:?}"));
    }
    let mut after_suppl = false;
    for i in 0..lines.len().max(got.len()) {
        let (Some(l), Some(g)) = (lines.get(i), got.get(i)) else {
            return Err(format!("line {i} {:?} corresponds to {:?} of the law", lines.get(i), got.get(i)));
        };
        let word = match g {
            Tok::Labelled(_, _, s) | Tok::Plain(s) | Tok::Caption(s) | Tok::Head(_, _, s) => s.as_str(),
            Tok::Suppl(..) => "",
        };
        let ok = match ptext::classify(l) {
            Class::Free => {
                rec.label("line of unspecified kind");
                matches!(g, Tok::Suppl(..)) || word == *l || Some(word) == ptext::rest(l)
            }
            Class::Caption(s) => *g == Tok::Caption(s),
            Class::Suppl(n, e) => *g == Tok::Suppl(n, e),
            Class::Label(k @ ("Article" | "Paragraph"), n, s) => *g == Tok::Labelled(k.into(), crate::refnum::key(&n), s),
            Class::Label(k, n, s) => *g == Tok::Head(k.into(), crate::refnum::key(&n), s),
            Class::Item(Some((_, n)), s) => *g == Tok::Labelled("Item".into(), crate::refnum::key(&n), s),
            Class::Item(None, s) => matches!(g, Tok::Labelled(k, _, w) if k == "Item" && *w == s),
            Class::Text => *g == Tok::Plain(l.to_string()) || after_suppl && *g == Tok::Labelled("Paragraph".into(), "1".into(), l.to_string()),
        };
        if !ok {
            return Err(format!("line {i} {l:?} became {g:?}"));
        }
        after_suppl = match g {
            Tok::Suppl(..) => true,
            Tok::Caption(_) => after_suppl,
            _ => false,
        };
    }
    Ok(())
}
fn c16(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(40);
    let a = args(&mut Tape::new(&words));
    let odd = t.chance(1, 4);
    let text = some_text(t, odd);
    c16_text(t, a, text, rec)
}
fn c16_long(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(3000);
    let t = &mut Tape::new(&words);
    let a = args(t);
    let odd = t.chance(1, 4);
    let text = stretched(t, odd);
    long_labels(&text, rec);
    c16_text(t, a, text, rec)
}
fn c16_text(t: &mut Tape, a: Args, text: String, rec: &mut Rec) -> Result<(), String> {
    let title = strs::text(t);
    rec.key(&text);
    rec.show(|| format!("title {title:?}\n{text}"));
    // a line's label and its wording
    for l in text.lines().take(40).map(|l| l.trim()) {
        let got = lib("split_number", || split_number(l))?;
        let want = ptext::split(l).map(|(a, b)| (a.to_string(), b.to_string()));
        if got != want {
            return Err(format!("split_number divides {l:?} into {got:?}, expected {want:?}"));
        }
    }
    let r = run(&text, &title, &a)?;
    label_outcome(rec, &r);
    rec.nontrivial = r.is_ok() && text.lines().count() >= 3;
    rec.label_if(rec.nontrivial, "structured, three lines or more");
    if r.is_ok() {
        rec.sample(|| text.clone());
    }
    lossless(&text, &title, &r, rec)
}

fn xml_text(s: &str) -> String {
    // what XML can hold, without tabs and carriage returns, which attributes and text normalise
    s.chars().filter(|c| strs::xml_char(*c) && *c != '\t').collect()
}
fn c19(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(40);
    let a = args(&mut Tape::new(&words));
    let odd = t.chance(1, 4);
    let text = some_text(t, odd);
    c19_text(t, a, text, rec)
}
fn c19_long(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(3000);
    let t = &mut Tape::new(&words);
    let a = args(t);
    let odd = t.chance(1, 4);
    let text = stretched(t, odd);
    long_labels(&text, rec);
    c19_text(t, a, text, rec)
}
fn bare(law: &Law) -> String {
    format!("{law:?}").replace("Text(\"\")", "").replace("String(\"\")", "")
}
fn short_diff(a: &str, b: &str) -> String {
    let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(i.saturating_sub(80)).take(200).collect::<String>();
    format!("…{}… became …{}…", cut(a), cut(b))
}
fn c19_text(t: &mut Tape, a: Args, text: String, rec: &mut Rec) -> Result<(), String> {
    let text = xml_text(&text);
    // captions of white space only are not kept by XML
    let text: String = text
        .lines()
        .filter(|l| match ptext::classify(l.trim()) {
            Class::Caption(s) => !s.chars().all(|c| c.is_ascii_whitespace()),
            _ => true,
        })
        .map(|l| format!("{l}\n"))
        .collect();
    let title = xml_text(&strs::text(t)).trim().to_string();
    rec.key(&text);
    rec.show(|| format!("title {title:?}\n{text}"));
    let r = run(&text, &title, &a)?;
    label_outcome(rec, &r);
    let Ok(law) = r else { return Ok(()) };
    rec.nontrivial = text.lines().count() >= 3;
    rec.sample(|| text.clone());
    let xml = checks_xml::write(&law)?;
    let back = match lib("parse_xml", || japanese_law_xml_schema::parse_xml(xml.as_bytes()))? {
        Ok(l) => l,
        Err(e) => return Err(format!("the XML of a structured law is rejected: {e}\n{}", xml.chars().take(1500).collect::<String>())),
    };
    let x = xnode::normalise(&refw::law(&law));
    let y = xnode::normalise(&refw::law(&back));
    match xnode::diff(&x, &y, "") {
        Some(d) => Err(format!("structured law changed by writing and reading: {d}")),
        // what the schema's vocabulary does not tell apart; empty text runs are nothing in XML
        None if bare(&back) != bare(&law) => Err(format!("structured law changed by writing and reading: {}", short_diff(&bare(&law), &bare(&back)))),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- C20

fn leap(y: usize) -> bool {
    y % 4 == 0 && y % 100 != 0 || y % 400 == 0
}
fn month_len(y: usize, m: usize) -> usize {
    match m {
        2 => 28 + leap(y) as usize,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn own_era(y: usize, m: usize, d: usize) -> Option<(Era, usize)> {
    let date = (y, m, d);
    let (era, from) = if date >= (2019, 5, 1) {
        (Era::Reiwa, 2019)
    } else if date >= (1989, 1, 8) {
        (Era::Heisei, 1989)
    } else if date >= (1926, 12, 25) {
        (Era::Showa, 1926)
    } else if date >= (1912, 7, 30) {
        (Era::Taisho, 1912)
    } else if date >= (1868, 1, 25) {
        (Era::Meiji, 1868)
    } else {
        return None;
    };
    Some((era, y - from + 1))
}
fn date_case(y: usize, m: Option<usize>, d: Option<usize>, rec: &mut Rec) -> Result<(), String> {
    let a = Args { year: y, month: m, day: d, law_type: LawType::Act, lang: Lang::Ja, num: None, law_num: String::new() };
    date_in("", "", a, rec)
}
fn date_in(text: &str, title: &str, a: Args, rec: &mut Rec) -> Result<(), String> {
    let (y, m, d) = (a.year, a.month, a.day);
    rec.key(&(y, m, d));
    rec.show(|| format!("{a:?} title {title:?}\n{text}"));
    let r = run(text, title, &a)?;
    let (mm, dd) = (m.unwrap_or(1), d.unwrap_or(1));
    let exists = (1..=12).contains(&mm) && dd >= 1 && dd <= month_len(y, mm);
    let want = if exists { own_era(y, mm, dd) } else { None };
    rec.label(match &want {
        None => "no such date or before the eras",
        Some((Era::Meiji, _)) => "Meiji",
        Some((Era::Taisho, _)) => "Taisho",
        Some((Era::Showa, _)) => "Showa",
        Some((Era::Heisei, _)) => "Heisei",
        Some((Era::Reiwa, _)) => "Reiwa",
    });
    rec.nontrivial = true;
    match (r, want) {
        (Ok(l), Some((era, year))) => {
            if l.era != era || l.year != year {
                return Err(format!("{y}-{mm}-{dd} is {era:?} {year}, structured as {:?} {}", l.era, l.year));
            }
            as_given(&l, &a)
        }
        (Err(_), None) => Ok(()),
        (Ok(l), None) => Err(format!("the date {y} {m:?} {d:?} does not exist or precedes the eras, structured as {:?} {}", l.era, l.year)),
        (Err(e), Some((era, year))) => Err(format!("{y}-{mm}-{dd} ({era:?} {year}) is rejected: {e}")),
    }
}
/// every month and day (also impossible ones, and absent) of a span of years
fn c20_enum(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let i = t.raw() as usize;
    // 34 day choices, 15 month choices
    let day = match i % 34 {
        0 => None,
        d => Some(d - 1),
    };
    let month = match i / 34 % 15 {
        0 => None,
        m => Some(m - 1),
    };
    date_case(1864 + i / 34 / 15, month, day, rec)
}
fn c20_random(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let n = |t: &mut Tape, usual: usize| match t.weighted(&[10, 1, 1]) {
        0 => t.below(usual),
        1 => t.raw() as usize,
        _ => usize::MAX - t.below(4),
    };
    // years beyond 9999 may be handled either way
    let y = if t.chance(1, 12) { t.below(1868) } else { 1868 + t.below(9999 - 1868) };
    let m = if t.chance(1, 10) { None } else { Some(n(t, 14)) };
    let d = if t.chance(1, 10) { None } else { Some(n(t, 34)) };
    date_case(y, m, d, rec)
}
/// the date beside every other argument, and a text
fn c20_law(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut a = args(t);
    // near the turns of the eras as well
    if t.flip() {
        let (y, m, d) = [(1868, 1, 25), (1912, 7, 30), (1926, 12, 25), (1989, 1, 8), (2019, 5, 1)][t.below(5)];
        a.year = y;
        a.month = if t.chance(1, 8) { None } else { Some([m, 1 + t.below(12)][t.below(2)]) };
        a.day = if t.chance(1, 8) { None } else { Some(d + t.below(3) - 1) };
    } else {
        a.year = 1866 + t.below(200);
        a.month = if t.chance(1, 4) { None } else { Some(t.below(14)) };
        a.day = if t.chance(1, 4) { None } else { Some(t.below(33)) };
    }
    let title = strs::text(t);
    let d = ptext::wellformed(t);
    let text = if t.chance(1, 4) { String::new() } else { d.text.lines().take(1 + t.below(12)).collect::<Vec<_>>().join("\n") };
    // a text cut short may end in a heading or caption, which is an error of its own
    let probe = Args { year: 2000, month: None, day: None, ..a.clone() };
    if run(&text, &title, &probe)?.is_err() {
        rec.label("text not structured");
        return Ok(());
    }
    date_in(&text, &title, a, rec)
}

pub fn check(id: &str) -> Option<Check> {
    let ph = |name, quick, thorough, case| Phase { name, gen: Gen::Random { quick, thorough, sizes: SIZES }, case, workers: WORKERS };
    let en = |name, quick, thorough, case| Phase { name, gen: Gen::Enumerate { quick, thorough }, case, workers: WORKERS };
    let lg = |quick, thorough, case| Phase { name: "long texts", gen: Gen::Random { quick, thorough, sizes: &[(1, 1)] }, case, workers: WORKERS };
    Some(match id {
        "C14" => Check {
            id: "C14",
            rule: "a label tree is generated together with its text in usual layout, the text structured and compared with the tree; non-trivial: at least three headings, articles, items or supplementary provisions",
            assumptions: &["along one path of items the label styles differ, as the library's documentation says they must", "titles of articles and items and numbering inside the preamble are left open"],
            phases: vec![ph("regular texts", 24000, 700000, c14 as CaseFn), lg(600, 20000, c14_long as CaseFn)],
        },
        "C15" => Check {
            id: "C15",
            rule: "arbitrary sequences of label-like and other lines, item walks with jumps between levels, edited regular texts, all sequences of thirteen line kinds up to length 3 (thorough 4), with any dates and numbers; every call must return; non-trivial: at least two lines",
            assumptions: &["a call that uses 40 s of CPU time does not return (usual: milliseconds)"],
            phases: vec![en("all short sequences of line kinds", 1 + 13 + 169 + 2197, 1 + 13 + 169 + 2197 + 28561, c15_enum as CaseFn), ph("line sequences", 30000, 900000, c15 as CaseFn), lg(1000, 30000, c15_long as CaseFn)],
        },
        "C16" => Check {
            id: "C16",
            rule: "arbitrary sequences of lines and edited regular texts are structured; when this succeeds the law's wording is flattened in order and compared line by line with a reference classification; non-trivial: structured, with at least three lines",
            assumptions: &["lines whose label the conventions do not settle may be read as label and text or as text"],
            phases: vec![en("all short sequences of line kinds", 1 + 13 + 169 + 2197, 1 + 13 + 169 + 2197 + 28561, c15_enum as CaseFn), ph("line sequences", 28000, 1000000, c16 as CaseFn), lg(1000, 30000, c16_long as CaseFn)],
        },
        "C19" => Check {
            id: "C19",
            rule: "arbitrary and regular texts are structured; when this succeeds the law is written as XML, read back and compared; non-trivial: structured, with at least three lines",
            assumptions: &["characters are XML characters, without tabs and carriage returns inside attributes and captions of more than white space"],
            phases: vec![ph("texts", 26000, 1000000, c19 as CaseFn), lg(1000, 30000, c19_long as CaseFn)],
        },
        "C20" => Check {
            id: "C20",
            rule: "every year 1864 to 2120 with every month 0..13 and day 0..32 or absent, and random dates to 9999, compared with an own era table and calendar; non-trivial: every date",
            assumptions: &["an absent month or day counts as the first", "years beyond 9999 are left open"],
            phases: vec![en("every date 1864-2120", 34 * 15 * 257, 34 * 15 * 600, c20_enum as CaseFn), ph("dates to 9999", 400000, 8000000, c20_random as CaseFn), ph("dates of laws", 4000, 200000, c20_law as CaseFn)],
        },
        _ => return None,
    })
}
