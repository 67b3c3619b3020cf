//! C08 C09 C10: number notations.
use crate::driver::*;
use crate::gen::G;
use crate::refnum::{self, Answer, ItemAnswer};
use crate::tape::Tape;
use japanese_law_xml_schema::article_number::{parse_article_number, parse_item_number, ArticleNumber};
use std::str::FromStr;

const SMALL: &[(usize, u32)] = &[(12, 2), (30, 4), (90, 1)];

// ---------------------------------------------------------------- C08

fn c08_num(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let one = |t: &mut Tape| match t.weighted(&[8, 3, 2, 1]) {
        0 => t.below(30),
        1 => t.below(100000),
        2 => t.raw() as usize,
        _ => usize::MAX - t.below(1 << 20) * t.below(1 << 20),
    };
    let base_number = one(t);
    let many = |t: &mut Tape, n: usize| if n == 4 && t.chance(1, 3) { 5 + t.below(60) } else { n };
    let ne = t.weighted(&[4, 3, 3, 1, 1]);
    let ne = many(t, ne);
    let eda_numbers: Vec<usize> = (0..ne).map(|_| one(t)).collect();
    let nr = t.weighted(&[4, 3, 3, 1, 1]);
    let nr = many(t, nr);
    let range_end_numbers: Vec<usize> = (0..nr).map(|_| one(t)).collect();
    let n = ArticleNumber { base_number, eda_numbers, range_end_numbers };
    rec.key(&n);
    rec.nontrivial = ne + nr > 0;
    rec.label(["no branch", "1 branch", "2+ branches"][ne.min(2)]);
    rec.label(["no range end", "range end", "range end with branches"][nr.min(2)]);
    rec.show(|| format!("{n:?}"));
    rec.sample(|| refnum::key(&n));
    let key = lib("num_str", || n.num_str())?;
    if key != refnum::key(&n) {
        return Err(format!("num_str gives {key:?} for {n:?}, the notation is {:?}", refnum::key(&n)));
    }
    for (what, r) in [
        ("from_num_str", lib("from_num_str", || ArticleNumber::from_num_str(&key))?),
        ("FromStr", lib("from_str", || ArticleNumber::from_str(&key))?),
    ] {
        match r {
            Ok(m) if m == n => (),
            Ok(m) => return Err(format!("{what} reads the key {key:?} of {n:?} as {m:?}")),
            Err(e) => return Err(format!("{what} rejects the key {key:?} of {n:?}: {e}")),
        }
    }
    let z = lib("zero", ArticleNumber::zero)?;
    if refnum::key(&z) != "0" || !lib("is_zero", || z.is_zero())? {
        return Err(format!("zero() is {z:?}"));
    }
    if ne + nr == 0 && lib("is_zero", || n.is_zero())? != (key == "0") {
        return Err(format!("is_zero() of {n:?} is {}", n.is_zero()));
    }
    Ok(())
}

fn key_string(s: &str, rec: &mut Rec) -> Result<(), String> {
    let got = lib("from_num_str", || ArticleNumber::from_num_str(s))?.ok();
    let got2 = lib("from_str", || s.parse::<ArticleNumber>())?.ok();
    if got != got2 {
        return Err(format!("{s:?}: from_num_str gives {got:?}, FromStr {got2:?}"));
    }
    match refnum::parse_key(s) {
        Answer::Num(n) => {
            rec.label("key");
            if got.as_ref() != Some(&n) {
                return Err(format!("the key {s:?} means {n:?}, read as {got:?}"));
            }
            let back = lib("num_str", || n.num_str())?;
            if back != s {
                return Err(format!("{s:?} is read as {n:?} but written as {back:?}"));
            }
        }
        Answer::No => {
            rec.label("no key");
            if let Some(n) = got {
                return Err(format!("{s:?} is no number key but is read as {n:?}"));
            }
        }
        Answer::Free => rec.label("leading zeros"),
    }
    Ok(())
}
const KEY_CHARS: [&str; 14] = ["0", "1", "7", "_", ":", "+", "-", " ", ".", "a", "１", "一", "\n", "２"];
/// string number `i` in base-k counting over the alphabet (shortest first)
fn nth_string(alphabet: &[&str], i: usize) -> String {
    let k = alphabet.len();
    let mut i = i;
    let mut s = vec![];
    while i > 0 {
        i -= 1;
        s.push(alphabet[i % k]);
        i /= k;
    }
    s.concat()
}
fn c08_enum(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let s = nth_string(&KEY_CHARS, t.raw() as usize);
    rec.key(&s);
    rec.nontrivial = s.len() > 1;
    rec.show(|| format!("{s:?}"));
    key_string(&s, rec)
}
fn c08_str(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let n = 1 + t.below(16);
    let mut s = String::new();
    for _ in 0..n {
        match t.weighted(&[8, 4, 3, 2, 1, 1]) {
            0 => s.push((b'0' + t.below(10) as u8) as char),
            1 => s.push('_'),
            2 => s.push(':'),
            3 => s.push_str(["18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456"][t.below(4)]),
            4 => s.push_str(t.pick(&KEY_CHARS)),
            _ => s.push(crate::strs::any_char(t)),
        }
    }
    rec.key(&s);
    rec.nontrivial = true;
    rec.show(|| format!("{s:?}"));
    rec.sample(|| s.clone());
    key_string(&s, rec)
}

// ---------------------------------------------------------------- C09

const KINDS: [&str; 8] = ["編", "章", "節", "款", "目", "条", "項", "号"];

fn digits(style: usize, n: usize) -> String {
    match style {
        0 => refnum::kansuji(n),
        1 => refnum::zenkaku(n),
        _ => n.to_string(),
    }
}
fn own_heading(n: &ArticleNumber, kind: &str, w: &mut dyn FnMut(usize) -> (String, &'static str)) -> String {
    let mut s = format!("第{}{kind}", w(n.base_number).0);
    let tail = |s: &mut String, v: &[usize], w: &mut dyn FnMut(usize) -> (String, &'static str)| {
        for e in v {
            let (d, p) = w(*e);
            s.push_str(p);
            s.push_str(&d);
        }
    };
    tail(&mut s, &n.eda_numbers, w);
    if let Some((e, rest)) = n.range_end_numbers.split_first() {
        s += &format!("から第{}{kind}", w(*e).0);
        tail(&mut s, rest, w);
        s += "まで";
    }
    s
}
fn own_paragraph(n: &ArticleNumber, w: &mut dyn FnMut(usize) -> (String, &'static str)) -> String {
    let mut s = w(n.base_number).0;
    for e in &n.eda_numbers {
        let (d, p) = w(*e);
        s = s + p + &d;
    }
    if let Some((e, rest)) = n.range_end_numbers.split_first() {
        s = s + "から" + &w(*e).0;
        for e in rest {
            let (d, p) = w(*e);
            s = s + p + &d;
        }
        s += "まで";
    }
    s
}
fn printed(n: &ArticleNumber, kind: usize) -> Result<Option<String>, String> {
    Ok(Some(match kind {
        0 => lib("part_text", || n.part_text())?,
        1 => lib("chapter_text", || n.chapter_text())?,
        2 => lib("section_text", || n.section_text())?,
        3 => lib("subsection_text", || n.subsection_text())?,
        4 => lib("division_text", || n.division_text())?,
        5 => lib("article_text", || n.article_text())?,
        8 => lib("paragraph_text", || n.paragraph_text())?,
        _ => return Ok(None),
    }))
}
fn reads_as(s: &str, n: &ArticleNumber) -> Result<(), String> {
    match lib("parse_article_number", || parse_article_number(s))? {
        Some(m) if m == *n => Ok(()),
        got => Err(format!("the label {s:?} of {n:?} is read as {got:?}")),
    }
}
/// every base number, one kind and digit style per index
fn c09_enum(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let i = t.raw() as usize;
    let base = i / 9 % 9999 + 1;
    let kind = i % 9;
    let n = ArticleNumber { base_number: base, eda_numbers: vec![], range_end_numbers: vec![] };
    rec.key(&i);
    rec.nontrivial = true;
    rec.show(|| format!("{n:?} kind {kind}"));
    if kind < 8 {
        if let Some(p) = printed(&n, kind)? {
            let own = own_heading(&n, KINDS[kind], &mut |n| (refnum::kansuji(n), "の"));
            if p != own {
                return Err(format!("{n:?} is printed as {p:?}, conventionally {own:?}"));
            }
        }
        let style = i % 3;
        reads_as(&own_heading(&n, KINDS[kind], &mut |n| (digits(style, n), "の")), &n)?;
    } else {
        let p = printed(&n, 8)?.unwrap();
        let own = refnum::zenkaku(base);
        if p != own {
            return Err(format!("{n:?} is printed as {p:?}, conventionally {own:?}"));
        }
        reads_as(&own, &n)?;
        reads_as(&base.to_string(), &n)?;
    }
    Ok(())
}
fn small_number(t: &mut Tape) -> ArticleNumber {
    let one = |t: &mut Tape| match t.weighted(&[6, 2, 1]) {
        0 => 1 + t.below(30),
        1 => [10, 11, 19, 20, 99, 100, 101, 110, 111, 119, 120, 999, 1000, 1001, 1010, 1100, 1111, 2000, 9999][t.below(19)],
        _ => 1 + t.below(9999),
    };
    let base_number = one(t);
    let many = |t: &mut Tape, n: usize| if n == 3 && t.chance(1, 6) { 4 + t.below(20) } else { n };
    let ne = t.weighted(&[3, 3, 2, 1]);
    let ne = many(t, ne);
    let nr = t.weighted(&[3, 2, 2, 1]);
    let nr = many(t, nr);
    ArticleNumber { base_number, eda_numbers: (0..ne).map(|_| one(t)).collect(), range_end_numbers: (0..nr).map(|_| one(t)).collect() }
}
fn c09_random(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let kind = t.below(9);
    let n = small_number(t);
    rec.key(&(kind, &n));
    rec.nontrivial = !n.eda_numbers.is_empty() || !n.range_end_numbers.is_empty();
    rec.label(["編", "章", "節", "款", "目", "条", "項", "号", "paragraph"][kind]);
    rec.label_if(!n.eda_numbers.is_empty(), "branches");
    rec.label_if(!n.range_end_numbers.is_empty(), "range");
    rec.label_if(n.range_end_numbers.len() > 1, "range end with branches");
    rec.show(|| format!("{n:?} kind {kind}"));
    if let Some(p) = printed(&n, kind)? {
        let own = if kind == 8 {
            own_paragraph(&n, &mut |n| (refnum::zenkaku(n), "の"))
        } else {
            own_heading(&n, KINDS[kind], &mut |n| (refnum::kansuji(n), "の"))
        };
        if p != own {
            return Err(format!("{n:?} is printed as {p:?}, conventionally {own:?}"));
        }
        reads_as(&p, &n)?;
    }
    let mut w = |n: usize| {
        let st = if kind == 8 { 1 + t.below(2) } else { t.below(3) };
        (digits(st, n), if t.flip() { "ノ" } else { "の" })
    };
    let s = if kind == 8 { own_paragraph(&n, &mut w) } else { own_heading(&n, KINDS[kind], &mut w) };
    rec.show(|| format!("written {s:?}"));
    rec.sample(|| s.clone());
    reads_as(&s, &n)?;
    if kind < 8 {
        let s: String = s.chars().skip(1).collect();
        reads_as(&s, &n)?;
    }
    Ok(())
}
/// the label a heading or an article gives of itself
fn c09_elements(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let kind = t.below(6);
    let n = small_number(t);
    let mut g = G::new(t);
    g.light = true;
    g.fuel = 20;
    macro_rules! of {
        ($f:ident) => {{
            let mut v = g.$f();
            v.num = n.clone();
            rec.show(|| format!("{v:?}"));
            lib("number_text", || v.number_text())?
        }};
    }
    rec.key(&(kind, &n));
    rec.nontrivial = !n.eda_numbers.is_empty() || !n.range_end_numbers.is_empty();
    rec.label(KINDS[kind]);
    let got = match kind {
        0 => of!(part),
        1 => of!(chapter),
        2 => of!(section),
        3 => of!(subsection),
        4 => of!(division),
        _ => of!(article),
    };
    let own = own_heading(&n, KINDS[kind], &mut |n| (refnum::kansuji(n), "の"));
    rec.sample(|| own.clone());
    if got != own {
        return Err(format!("a heading ({}) numbered {n:?} calls itself {got:?}, conventionally {own:?}", KINDS[kind]));
    }
    reads_as(&got, &n)
}
fn label_string(s: &str, rec: &mut Rec) -> Result<(), String> {
    let got = lib("parse_article_number", || parse_article_number(s))?;
    match refnum::parse_label(s) {
        Answer::Num(n) => {
            rec.label("label");
            rec.nontrivial = true;
            if got.as_ref() != Some(&n) {
                return Err(format!("the label {s:?} means {n:?}, read as {got:?}"));
            }
        }
        Answer::No => {
            rec.label("no label");
            if let Some(n) = got {
                return Err(format!("{s:?} is no label but is read as {n:?}"));
            }
        }
        Answer::Free => rec.label("unspecified"),
    }
    Ok(())
}
const LABEL_TOKENS: [&str; 14] = ["第", "一", "十", "１", "2", "条", "の", "から", "まで", "章", "ノ", " ", "法", "項"];
fn c09_strings(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let s = nth_string(&LABEL_TOKENS, t.raw() as usize);
    rec.key(&s);
    rec.nontrivial = s.chars().count() > 2;
    rec.show(|| format!("{s:?}"));
    label_string(&s, rec)
}
/// a label with one edit, or a string of label pieces
fn c09_mutant(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut s: Vec<char>;
    if t.flip() {
        let kind = t.below(9);
        let n = small_number(t);
        let mut w = |n: usize| {
            let st = if kind == 8 { 1 + t.below(2) } else { t.below(3) };
            (digits(st, n), if t.flip() { "ノ" } else { "の" })
        };
        s = if kind == 8 { own_paragraph(&n, &mut w) } else { own_heading(&n, KINDS[kind], &mut w) }.chars().collect();
        for _ in 0..1 + t.below(2) {
            let i = t.below(s.len() + 1);
            match t.below(4) {
                0 => {
                    let w: Vec<char> = piece(t).chars().collect();
                    s.splice(i..i, w);
                }
                1 if i < s.len() => {
                    s.remove(i);
                }
                2 if i < s.len() => {
                    let w: Vec<char> = piece(t).chars().collect();
                    s.splice(i..i + 1, w);
                }
                3 if i + 1 < s.len() => s.swap(i, i + 1),
                _ => s.push('　'),
            }
        }
    } else if t.chance(1, 3) {
        s = crate::ptext::odd_label(t).chars().collect();
    } else {
        s = vec![];
        for _ in 0..1 + t.below(12) {
            s.extend(piece(t).chars());
        }
    }
    let s: String = s.into_iter().collect();
    rec.key(&s);
    rec.nontrivial = s.chars().count() > 2;
    rec.show(|| format!("{s:?}"));
    rec.sample(|| s.clone());
    label_string(&s, rec)
}
fn piece(t: &mut Tape) -> String {
    match t.weighted(&[5, 5, 1, 1]) {
        0 => LABEL_TOKENS[t.below(LABEL_TOKENS.len())].to_string(),
        1 => [
            "編", "章", "節", "款", "目", "条", "項", "号", "から第", "まで", "の", "ノ", "千", "百", "０", "〇", "万", "附則", "（", "）", "\n", "\u{3000}", "第", "ー",
            "99999999999999999999", "９９９９９９９９９９９９９９９９９９９９９９", "九千九百九十九", "十十", "千千千千", "一一",
        ][t.below(30)]
        .to_string(),
        2 => crate::strs::any_char(t).to_string(),
        _ => crate::strs::text(t),
    }
}

// ---------------------------------------------------------------- C10

fn item_round(style: usize, n: &ArticleNumber) -> Result<(), String> {
    let p = refnum::STYLES[style];
    let own = refnum::item_label(p, n);
    let s = lib("item_text", || n.item_text(p))?;
    if s != own {
        return Err(format!("{n:?} in style {p:?} is printed as {s:?}, conventionally {own:?}"));
    }
    let unique = !matches!(refnum::parse_item(&s), ItemAnswer::Free);
    match lib("parse_item_number", || parse_item_number(&s))? {
        Some(m) => {
            let a = lib("from_item_number", || ArticleNumber::from_item_number(&m))?;
            if m.pattern != p || (&a != n && unique) || m.base_number != a.base_number || m.eda_numbers != a.eda_numbers || m.range_end_numbers != a.range_end_numbers {
                return Err(format!("the label {s:?} of {n:?} in style {p:?} is read as {m:?}"));
            }
            if m.str != s {
                return Err(format!("the label {s:?} is kept as {:?}", m.str));
            }
            Ok(())
        }
        None => Err(format!("the label {s:?} of {n:?} in style {p:?} is not recognised")),
    }
}
fn c10_enum(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let i = t.raw() as usize;
    let (style, k) = (i % 16, i / 16 + 1);
    let (kind, _) = refnum::style_kind(refnum::STYLES[style]);
    rec.key(&i);
    if !refnum::style_ok(kind, k) {
        return Ok(());
    }
    rec.nontrivial = true;
    rec.show(|| format!("{k} in style {:?}", refnum::STYLES[style]));
    item_round(style, &ArticleNumber { base_number: k, eda_numbers: vec![], range_end_numbers: vec![] })?;
    let e = if refnum::style_ok(kind, 2) { 2 } else { 1 };
    // the number also as a branch and as a range end
    item_round(style, &ArticleNumber { base_number: e, eda_numbers: vec![k], range_end_numbers: vec![] })?;
    item_round(style, &ArticleNumber { base_number: e, eda_numbers: vec![], range_end_numbers: vec![k] })?;
    rec.evals = 3;
    Ok(())
}
fn style_number(t: &mut Tape, kind: usize) -> usize {
    let n = match kind {
        0 => [1 + t.below(30), 1 + t.below(9999)][t.below(2)],
        1 | 2 => 1 + t.below(47),
        3 => [t.below(30), t.below(100000), t.raw() as usize][t.below(3)],
        4 | 5 => 1 + t.below(399),
        _ => [1 + t.below(26), 1 + t.below(800), 1 + t.below(500000)][t.below(3)],
    };
    if refnum::style_ok(kind, n) {
        n
    } else {
        2
    }
}
fn style_num(t: &mut Tape, kind: usize) -> ArticleNumber {
    let many = |t: &mut Tape, n: usize| if n == 3 && t.chance(1, 6) { 4 + t.below(12) } else { n };
    let ne = t.weighted(&[3, 3, 2, 1]);
    let ne = many(t, ne);
    let nr = t.weighted(&[3, 2, 2, 1]);
    let nr = many(t, nr);
    ArticleNumber {
        base_number: style_number(t, kind),
        eda_numbers: (0..ne).map(|_| style_number(t, kind)).collect(),
        range_end_numbers: (0..nr).map(|_| style_number(t, kind)).collect(),
    }
}
fn c10_random(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let style = t.below(16);
    let (kind, _) = refnum::style_kind(refnum::STYLES[style]);
    let n = style_num(t, kind);
    rec.key(&(style, &n));
    rec.nontrivial = !n.eda_numbers.is_empty() || !n.range_end_numbers.is_empty();
    rec.label(
        [
            "NoParenKansuji", "NoParenIrohaKatakana", "NoParenIrohaHiragana", "NoParenZenkakuNum", "NoParenZenkakuRomanUpper", "NoParenZenkakuRomanLower",
            "NoParenZenkakuUpper", "NoParenZenkakuLower", "ParenKansuji", "ParenIrohaKatakana", "ParenIrohaHiragana", "ParenZenkakuNum",
            "ParenZenkakuRomanUpper", "ParenZenkakuRomanLower", "ParenZenkakuUpper", "ParenZenkakuLower",
        ][style],
    );
    rec.label_if(!n.eda_numbers.is_empty(), "branches");
    rec.label_if(!n.range_end_numbers.is_empty(), "range");
    rec.show(|| format!("{n:?} in style {:?}", refnum::STYLES[style]));
    rec.sample(|| refnum::item_label(refnum::STYLES[style], &n));
    item_round(style, &n)
}
fn item_string(s: &str, rec: &mut Rec) -> Result<(), String> {
    let got = lib("parse_item_number", || parse_item_number(s))?;
    match refnum::parse_item(s) {
        ItemAnswer::Label(p, n) => {
            rec.label("label");
            match &got {
                Some(m) if m.pattern == p && m.base_number == n.base_number && m.eda_numbers == n.eda_numbers && m.range_end_numbers == n.range_end_numbers => (),
                _ => return Err(format!("the label {s:?} means {n:?} in style {p:?}, read as {got:?}")),
            }
        }
        ItemAnswer::No => {
            rec.label("no label");
            if let Some(m) = got {
                return Err(format!("{s:?} is no item label but is read as {m:?}"));
            }
        }
        ItemAnswer::Free => rec.label("unspecified"),
    }
    Ok(())
}
const ITEM_TOKENS: [&str; 16] = ["一", "十", "イ", "い", "１", "（", "）", "の", "から", "まで", "ｉ", "ａ", "Ｖ", "Ｂ", " ", "ガ"];
fn c10_strings(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let s = nth_string(&ITEM_TOKENS, t.raw() as usize);
    rec.key(&s);
    rec.nontrivial = s.chars().count() > 1;
    rec.show(|| format!("{s:?}"));
    item_string(&s, rec)
}
fn item_piece(t: &mut Tape) -> String {
    match t.weighted(&[5, 5, 2, 1]) {
        0 => ITEM_TOKENS[t.below(ITEM_TOKENS.len())].to_string(),
        1 => {
            let p = refnum::STYLES[t.below(16)];
            let n = style_number(t, refnum::style_kind(p).0);
            refnum::label_in(p, n)
        }
        2 => [
            "ン", "ん", "を", "ッ", "ー", "ａＢ", "ｉｉｉｉ", "ｖｖ", "ＬＬ", "イロ", "いろは", "千千", "〇", "９９９９９９９９９９９９９９９９９９９９９９９９", "ｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚ", "\u{3000}", "\n", "a", "1",
            "(", "①",
        ][t.below(21)]
        .to_string(),
        _ => crate::strs::any_char(t).to_string(),
    }
}
fn c10_mutant(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut s: Vec<char>;
    if t.flip() {
        let p = refnum::STYLES[t.below(16)];
        let n = style_num(t, refnum::style_kind(p).0);
        s = refnum::item_label(p, &n).chars().collect();
        for _ in 0..1 + t.below(2) {
            let i = t.below(s.len() + 1);
            match t.below(4) {
                0 => {
                    let w: Vec<char> = item_piece(t).chars().collect();
                    s.splice(i..i, w);
                }
                1 if i < s.len() => {
                    s.remove(i);
                }
                2 if i < s.len() => {
                    let w: Vec<char> = item_piece(t).chars().collect();
                    s.splice(i..i + 1, w);
                }
                3 if i + 1 < s.len() => s.swap(i, i + 1),
                _ => s.push('　'),
            }
        }
    } else if t.chance(1, 3) {
        s = crate::ptext::odd_label(t).chars().collect();
    } else {
        s = vec![];
        for _ in 0..1 + t.below(8) {
            s.extend(item_piece(t).chars());
        }
    }
    let s: String = s.into_iter().collect();
    rec.key(&s);
    rec.nontrivial = s.chars().count() > 1;
    rec.show(|| format!("{s:?}"));
    rec.sample(|| s.clone());
    item_string(&s, rec)
}

pub fn check(id: &str) -> Option<Check> {
    let ph = |name, quick, thorough, case| Phase { name, gen: Gen::Random { quick, thorough, sizes: SMALL }, case, workers: WORKERS };
    let en = |name, quick, thorough, case| Phase { name, gen: Gen::Enumerate { quick, thorough }, case, workers: WORKERS };
    Some(match id {
        "C08" => Check {
            id: "C08",
            rule: "structured numbers are written as keys, compared with the reference notation and read back; strings over and near the key alphabet (all short ones, and random long ones) are read and compared with a strict recogniser; non-trivial: a number with branches or a range end, a string of at least two characters",
            assumptions: &["keys with leading zeros may be accepted or rejected"],
            phases: vec![
                ph("numbers", 2000000, 60000000, c08_num as CaseFn),
                en("all short strings", 600000, 8000000, c08_enum as CaseFn),
                ph("strings", 2000000, 60000000, c08_str as CaseFn),
            ],
        },
        "C09" => Check {
            id: "C09",
            rule: "every base number 1..=9999 in every kind and digit style, random numbers with branches and ranges in mixed digit styles and particles, all short strings over the label alphabet, and labels with edits, each compared with a reference recogniser; non-trivial: a number with a branch or a range, or a string of at least three characters",
            assumptions: &["kanji numerals that are not the conventional spelling of 1..9999, numbers beyond the machine word, ranges over two kinds, and a range end without 第 may be read or refused (but never panic)"],
            phases: vec![
                en("every base number, kind and digit style", 9999 * 9, 9999 * 9, c09_enum as CaseFn),
                ph("branches and ranges", 60000, 1500000, c09_random as CaseFn),
                ph("headings and articles", 30000, 800000, c09_elements as CaseFn),
                en("all short strings", 41371, 579195, c09_strings as CaseFn),
                ph("edited labels and pieces", 100000, 2500000, c09_mutant as CaseFn),
            ],
        },
        "C10" => Check {
            id: "C10",
            rule: "every number up to 9999 in each of the sixteen styles (as far as the style writes it unambiguously), also as branch and range end; random numbers with branches and ranges; all short strings over an item alphabet and edited labels, each compared with a reference recogniser; non-trivial: a number with a branch or range, or a string of at least two characters",
            assumptions: &["letters that are all Roman digits are Roman numerals", "labels with several readings or mixed styles, kanji or Roman numerals in unconventional spelling and numbers beyond the machine word may be read or refused (but never panic)"],
            phases: vec![
                en("every number in every style", 1000 * 16, 9999 * 16, c10_enum as CaseFn),
                ph("branches and ranges", 40000, 1000000, c10_random as CaseFn),
                en("all short strings", 16 + 256 + 4096 + 1, 70000, c10_strings as CaseFn),
                ph("edited labels and pieces", 60000, 1500000, c10_mutant as CaseFn),
            ],
        },
        _ => return None,
    })
}
