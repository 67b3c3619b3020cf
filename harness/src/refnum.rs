//! Reference notations for numbers, written from the drafting conventions of Japanese
//! statutes and independent of the crate under test.
use japanese_law_xml_schema::article_number::ArticleNumber;

pub const DIGITS: [char; 10] = ['〇', '一', '二', '三', '四', '五', '六', '七', '八', '九'];

/// 1..=9999
pub fn kansuji(n: usize) -> String {
    assert!((1..=9999).contains(&n));
    let mut s = String::new();
    for (unit, name) in [(1000, "千"), (100, "百"), (10, "十"), (1, "")] {
        let d = n / unit % 10;
        if d == 0 {
            continue;
        }
        if d > 1 || unit == 1 {
            s.push(DIGITS[d]);
        }
        s.push_str(name);
    }
    s
}
/// Some only for the canonical spelling of 1..=9999
pub fn parse_kansuji(s: &str) -> Option<usize> {
    let (mut total, mut digit) = (0usize, 0usize);
    for c in s.chars() {
        match c {
            '十' | '百' | '千' => {
                let u = match c {
                    '十' => 10,
                    '百' => 100,
                    _ => 1000,
                };
                total += digit.max(1) * u;
                digit = 0;
            }
            c => digit = DIGITS.iter().position(|d| *d == c).filter(|d| *d > 0)?,
        }
        if total > 100000 {
            return None;
        }
    }
    total += digit;
    if (1..=9999).contains(&total) && kansuji(total) == s {
        Some(total)
    } else {
        None
    }
}
pub fn zenkaku(n: usize) -> String {
    n.to_string().chars().map(|c| char::from_u32('０' as u32 + c as u32 - '0' as u32).unwrap()).collect()
}
const IROHA_K: &str = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス";
const IROHA_H: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";
pub fn iroha_k(n: usize) -> String {
    IROHA_K.chars().nth(n - 1).unwrap().to_string()
}
pub fn iroha_h(n: usize) -> String {
    IROHA_H.chars().nth(n - 1).unwrap().to_string()
}
/// 1..=399, letters starting at `one` of the full-width block ('Ａ' or 'ａ')
pub fn roman(n: usize, first: char) -> String {
    let mut n = n;
    let mut s = String::new();
    for (v, r) in [(100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while n >= v {
            s.push_str(r);
            n -= v;
        }
    }
    s.chars().map(|c| char::from_u32(first as u32 + c as u32 - 'a' as u32).unwrap()).collect()
}
/// a..z, aa, ab, …
pub fn alpha(n: usize, first: char) -> String {
    let mut n = n;
    let mut v = vec![];
    while n > 0 {
        v.push(char::from_u32(first as u32 + ((n - 1) % 26) as u32).unwrap());
        n = (n - 1) / 26;
    }
    v.iter().rev().collect()
}
/// letters all shared with Roman numerals: written the same as a Roman label
pub fn alpha_ambiguous(n: usize) -> bool {
    alpha(n, 'a').chars().all(|c| "ivxlc".contains(c))
}

pub fn key(n: &ArticleNumber) -> String {
    let join = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_");
    let mut start = vec![n.base_number];
    start.extend(&n.eda_numbers);
    let mut s = join(&start);
    if !n.range_end_numbers.is_empty() {
        s = s + ":" + &join(&n.range_end_numbers);
    }
    s
}

#[derive(Debug, PartialEq)]
pub enum Answer {
    /// must be read as this number
    Num(ArticleNumber),
    /// must be reported as no label
    No,
    /// the conventions do not say (odd kanji numerals, numbers too large, mixed kinds)
    Free,
}

/// strict recogniser of `digits(_digits)*(:digits(_digits)*)?`
pub fn parse_key(s: &str) -> Answer {
    let part = |p: &str| -> Option<Result<Vec<usize>, ()>> {
        let mut v = vec![];
        let mut free = false;
        for d in p.split('_') {
            if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                return None;
            }
            if d.len() > 1 && d.starts_with('0') {
                free = true;
            }
            match d.parse::<u128>() {
                Ok(n) if n <= usize::MAX as u128 => v.push(n as usize),
                // not representable: cannot be read as a number
                _ => return None,
            }
        }
        Some(if free { Err(()) } else { Ok(v) })
    };
    let mut it = s.splitn(2, ':');
    let a = part(it.next().unwrap());
    let b = match it.next() {
        None => Some(Ok(vec![])),
        Some(p) => part(p),
    };
    match (a, b) {
        (Some(Ok(a)), Some(Ok(b))) => Answer::Num(ArticleNumber { base_number: a[0], eda_numbers: a[1..].to_vec(), range_end_numbers: b }),
        (None, _) | (_, None) => Answer::No,
        _ => Answer::Free,
    }
}

struct Cur<'a> {
    s: &'a [char],
    i: usize,
}
/// a number as written: Ok(value) or Err(()) when the value is not for us to say
type Val = Result<usize, ()>;
impl Cur<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        let r = self.peek() == Some(c);
        self.i += r as usize;
        r
    }
    fn word(&mut self, w: &str) -> bool {
        let w: Vec<char> = w.chars().collect();
        let r = self.s[self.i..].starts_with(&w);
        if r {
            self.i += w.len();
        }
        r
    }
    fn take(&mut self, f: impl Fn(char) -> bool) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek().filter(|c| f(*c)) {
            s.push(c);
            self.i += 1;
        }
        s
    }
    fn number(&mut self, kanji: bool) -> Option<Val> {
        let c = self.peek()?;
        if c.is_ascii_digit() {
            Some(self.take(|c| c.is_ascii_digit()).parse().map_err(|_| ()))
        } else if ('０'..='９').contains(&c) {
            let s: String = self.take(|c| ('０'..='９').contains(&c)).chars().map(|c| (c as u32 - '０' as u32 + '0' as u32) as u8 as char).collect();
            Some(s.parse().map_err(|_| ()))
        } else if kanji && "一二三四五六七八九十百千".contains(c) {
            Some(parse_kansuji(&self.take(|c| "一二三四五六七八九十百千".contains(c))).ok_or(()))
        } else {
            None
        }
    }
    fn branches(&mut self, kanji: bool) -> Vec<Val> {
        let mut v = vec![];
        loop {
            let back = self.i;
            if !(self.eat('の') || self.eat('ノ')) {
                return v;
            }
            match self.number(kanji) {
                Some(n) => v.push(n),
                None => {
                    self.i = back;
                    return v;
                }
            }
        }
    }
}

/// the label grammar of headings, articles, paragraphs and items cited by number
pub fn parse_label(s: &str) -> Answer {
    let cs: Vec<char> = s.chars().collect();
    fn kind(c: &mut Cur) -> Option<char> {
        let k = c.peek().filter(|k| "編章節款目条項号".contains(*k))?;
        c.i += 1;
        Some(k)
    }
    fn heading(c: &mut Cur) -> Option<Vec<Result<usize, ()>>> {
        c.eat('第');
        let mut vals = vec![c.number(true)?];
        let k = kind(c)?;
        vals.extend(c.branches(true));
        let n = vals.len();
        if c.i < c.s.len() {
            if !c.word("から") {
                return None;
            }
            let dai = c.eat('第');
            vals.push(c.number(true)?);
            if !dai {
                vals.push(Err(()));
            }
            if kind(c)? != k {
                vals.push(Err(()));
            }
            vals.extend(c.branches(true));
            if !c.word("まで") || c.i < c.s.len() {
                return None;
            }
        }
        vals.insert(0, Ok(n));
        Some(vals)
    }
    fn para(c: &mut Cur) -> Option<Vec<Result<usize, ()>>> {
        let mut vals = vec![c.number(false)?];
        vals.extend(c.branches(false));
        let n = vals.len();
        if c.i < c.s.len() {
            if !c.word("から") {
                return None;
            }
            vals.push(c.number(false)?);
            vals.extend(c.branches(false));
            if !c.word("まで") || c.i < c.s.len() {
                return None;
            }
        }
        vals.insert(0, Ok(n));
        Some(vals)
    }
    let got = heading(&mut Cur { s: &cs, i: 0 }).or_else(|| para(&mut Cur { s: &cs, i: 0 }));
    match got {
        None => Answer::No,
        Some(v) => match v.into_iter().collect::<Result<Vec<usize>, ()>>() {
            Err(()) => Answer::Free,
            Ok(v) => {
                let n = v[0];
                Answer::Num(ArticleNumber { base_number: v[1], eda_numbers: v[2..1 + n].to_vec(), range_end_numbers: v[1 + n..].to_vec() })
            }
        },
    }
}

use japanese_law_xml_schema::article_number::ItemPattern;
pub const STYLES: [ItemPattern; 16] = {
    use ItemPattern::*;
    [
        NoParenKansuji, NoParenIrohaKatakana, NoParenIrohaHiragana, NoParenZenkakuNum, NoParenZenkakuRomanUpper, NoParenZenkakuRomanLower,
        NoParenZenkakuUpper, NoParenZenkakuLower, ParenKansuji, ParenIrohaKatakana, ParenIrohaHiragana, ParenZenkakuNum,
        ParenZenkakuRomanUpper, ParenZenkakuRomanLower, ParenZenkakuUpper, ParenZenkakuLower,
    ]
};
pub fn style_index(p: ItemPattern) -> usize {
    STYLES.iter().position(|q| *q == p).unwrap()
}
/// kind 0..8 of a style, and whether it is in parentheses
pub fn style_kind(p: ItemPattern) -> (usize, bool) {
    let i = style_index(p);
    (i % 8, i >= 8)
}
/// Can `n` be written in this style so that the writing means only that?
pub fn style_ok(kind: usize, n: usize) -> bool {
    match kind {
        0 => (1..=9999).contains(&n),
        1 | 2 => (1..=47).contains(&n),
        3 => true,
        4 | 5 => (1..=399).contains(&n),
        _ => n >= 1 && !alpha_ambiguous(n),
    }
}
/// a number in the bare letters of a style
pub fn bare(kind: usize, n: usize) -> String {
    match kind {
        0 => kansuji(n),
        1 => iroha_k(n),
        2 => iroha_h(n),
        3 => zenkaku(n),
        4 => roman(n, 'Ａ'),
        5 => roman(n, 'ａ'),
        6 => alpha(n, 'Ａ'),
        _ => alpha(n, 'ａ'),
    }
}
pub fn label_in(p: ItemPattern, n: usize) -> String {
    match style_kind(p) {
        (k, false) => bare(k, n),
        (k, true) => format!("（{}）", bare(k, n)),
    }
}
/// item label: branches bare, range end in the style itself
pub fn item_label(p: ItemPattern, n: &ArticleNumber) -> String {
    let (k, _) = style_kind(p);
    let mut s = label_in(p, n.base_number);
    for e in &n.eda_numbers {
        s += "の";
        s += &bare(k, *e);
    }
    if let Some((e, rest)) = n.range_end_numbers.split_first() {
        s += "から";
        s += &label_in(p, *e);
        for e in rest {
            s += "の";
            s += &bare(k, *e);
        }
        s += "まで";
    }
    s
}

#[derive(Debug, PartialEq)]
pub enum ItemAnswer {
    Label(ItemPattern, ArticleNumber),
    No,
    Free,
}
#[derive(Clone, PartialEq, Debug)]
struct Atom {
    kind: usize,
    paren: bool,
    val: Result<usize, ()>,
}
fn atoms(s: &[char], i: usize) -> Vec<(Atom, usize)> {
    let paren = s.get(i) == Some(&'（');
    let st = i + paren as usize;
    let close = |v: Vec<(usize, Result<usize, ()>, usize)>| -> Vec<(Atom, usize)> {
        v.into_iter()
            .filter_map(|(kind, val, e)| {
                if paren && s.get(e) != Some(&'）') {
                    None
                } else {
                    Some((Atom { kind, paren, val }, e + paren as usize))
                }
            })
            .collect()
    };
    let run = |f: &dyn Fn(char) -> bool| -> String { s[st.min(s.len())..].iter().take_while(|c| f(**c)).collect() };
    let Some(&c) = s.get(st) else { return vec![] };
    let one = |k: usize, table: &str| table.chars().position(|x| x == c).map(|p| (k, Ok(p + 1), st + 1));
    if let Some(x) = one(1, IROHA_K).or_else(|| one(2, IROHA_H)) {
        return close(vec![x]);
    }
    if "一二三四五六七八九十百千".contains(c) {
        let r = run(&|c| "一二三四五六七八九十百千".contains(c));
        return close(vec![(0, parse_kansuji(&r).ok_or(()), st + r.chars().count())]);
    }
    if ('０'..='９').contains(&c) {
        let r = run(&|c| ('０'..='９').contains(&c));
        let a: String = r.chars().map(|c| (c as u32 - '０' as u32 + '0' as u32) as u8 as char).collect();
        return close(vec![(3, a.parse().map_err(|_| ()), st + a.len())]);
    }
    for (lo, hi, kr, ka) in [('Ａ', 'Ｚ', 4, 6), ('ａ', 'ｚ', 5, 7)] {
        if (lo..=hi).contains(&c) {
            let r = run(&|c| (lo..=hi).contains(&c));
            let len = r.chars().count();
            let low: String = r.chars().map(|c| (c as u32 - lo as u32 + 'a' as u32) as u8 as char).collect();
            if low.chars().all(|c| "ivxlc".contains(c)) {
                let v = (1..=399).find(|n| roman(*n, 'a') == low);
                return close(vec![(kr, v.ok_or(()), st + len)]);
            }
            let v = low.chars().try_fold(0usize, |n, c| n.checked_mul(26)?.checked_add(c as usize - 'a' as usize + 1));
            return close(vec![(ka, v.ok_or(()), st + len)]);
        }
    }
    vec![]
}
fn chains(s: &[char], i: usize) -> Vec<(Vec<Atom>, usize)> {
    let mut out = vec![];
    let mut open: Vec<(Vec<Atom>, usize)> = atoms(s, i).into_iter().map(|(a, e)| (vec![a], e)).collect();
    while let Some((v, e)) = open.pop() {
        if s.get(e) == Some(&'の') {
            for (a, f) in atoms(s, e + 1) {
                let mut w = v.clone();
                w.push(a);
                open.push((w, f));
            }
        }
        out.push((v, e));
    }
    out
}
/// Recogniser of item labels; several readings or unconventional forms are Free.
pub fn parse_item(s: &str) -> ItemAnswer {
    let cs: Vec<char> = s.trim().chars().collect();
    let mut readings: Vec<(Vec<Atom>, Vec<Atom>)> = vec![];
    for (v, e) in chains(&cs, 0) {
        if e == cs.len() {
            readings.push((v, vec![]));
        } else if cs[e..].starts_with(&['か', 'ら']) {
            for (w, f) in chains(&cs, e + 2) {
                if cs[f..] == ['ま', 'で'] {
                    readings.push((v.clone(), w));
                }
            }
        }
    }
    match readings.len() {
        0 => ItemAnswer::No,
        1 => {
            let (v, w) = readings.pop().unwrap();
            let (kind, paren) = (v[0].kind, v[0].paren);
            let regular = v.iter().chain(&w).all(|a| a.kind == kind) && v[1..].iter().all(|a| !a.paren) && w.first().map(|a| a.paren == paren).unwrap_or(true)
                && w.iter().skip(1).all(|a| !a.paren);
            let vals = |v: &[Atom]| v.iter().map(|a| a.val).collect::<Result<Vec<_>, ()>>();
            match (regular, vals(&v), vals(&w)) {
                (true, Ok(v), Ok(w)) => ItemAnswer::Label(
                    STYLES[kind + 8 * paren as usize],
                    ArticleNumber { base_number: v[0], eda_numbers: v[1..].to_vec(), range_end_numbers: w },
                ),
                _ => ItemAnswer::Free,
            }
        }
        _ => ItemAnswer::Free,
    }
}
