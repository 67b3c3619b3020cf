//! Plain-text laws: generator of well-formed ones with the tree they state, generator of
//! arbitrary line sequences, and a reference classifier of lines.
use crate::refnum::{self, Answer, ItemAnswer};
use crate::strs;
use crate::tape::Tape;
use crate::xnode::{Kid, XNode};
use japanese_law_xml_schema::article_number::{ArticleNumber, ItemPattern};

pub const HEADS: [(&str, &str); 6] =
    [("Part", "編"), ("Chapter", "章"), ("Section", "節"), ("Subsection", "款"), ("Division", "目"), ("Article", "条")];

#[derive(Debug, Clone, PartialEq)]
pub enum Class {
    Caption(String),
    Suppl(Option<String>, bool),
    /// element name, number, rest of the line
    Label(&'static str, ArticleNumber, String),
    /// number unspecified when the letters are Roman digits
    Item(Option<(ItemPattern, ArticleNumber)>, String),
    Text,
    /// the conventions do not settle what this line is
    Free,
}

/// first white space splits label and text
pub fn split(line: &str) -> Option<(&str, &str)> {
    let i = line.find(|c: char| c.is_whitespace())?;
    let rest = line[i..].trim_start();
    if i == 0 || rest.is_empty() {
        None
    } else {
        Some((&line[..i], rest))
    }
}
pub fn rest(line: &str) -> Option<&str> {
    split(line).map(|x| x.1)
}

pub fn classify(line: &str) -> Class {
    let inner = line.strip_prefix('（').and_then(|s| s.strip_suffix('）'));
    if let Some(s) = inner {
        if !s.is_empty() && !s.contains('）') {
            return Class::Caption(s.to_string());
        }
    }
    if let Some(s) = line.strip_prefix('附').map(|s| s.trim_start()).and_then(|s| s.strip_prefix('則')).map(|s| s.trim()) {
        let (s, extract) = match s.strip_suffix('抄') {
            Some(r) => (r.trim(), true),
            None => (s, false),
        };
        if s.is_empty() {
            return Class::Suppl(None, extract);
        }
        if let Some(n) = s.strip_prefix('（').and_then(|s| s.strip_suffix('）')) {
            return if n.is_empty() {
                Class::Text
            } else if n.contains('）') {
                Class::Free
            } else {
                Class::Suppl(Some(n.to_string()), extract)
            };
        }
    }
    let Some((label, text)) = split(line) else { return Class::Text };
    match refnum::parse_label(label) {
        Answer::Free => return Class::Free,
        Answer::Num(n) => {
            if label.contains('項') || label.contains('号') {
                return Class::Free;
            }
            let name = HEADS.iter().find(|h| label.contains(h.1)).map(|h| h.0).unwrap_or("Paragraph");
            return Class::Label(name, n, text.to_string());
        }
        Answer::No => (),
    }
    match refnum::parse_item(label) {
        ItemAnswer::Free => Class::Free,
        ItemAnswer::No => Class::Text,
        ItemAnswer::Label(p, n) => {
            let (k, _) = refnum::style_kind(p);
            Class::Item(if k == 4 || k == 5 { None } else { Some((p, n)) }, text.to_string())
        }
    }
}

// ---------------------------------------------------------------- well-formed documents

#[derive(Default)]
pub struct Stats {
    pub item_depth: usize,
    pub items: usize,
    pub articles: usize,
    pub heads: usize,
    pub suppl: usize,
    pub multi_step_back: bool,
    pub captions: usize,
    pub ranges: usize,
    pub branches: usize,
    pub continuation: usize,
    pub deleted: usize,
    pub alphabet_c: bool,
    pub roman_after_h: bool,
    pub para_only: bool,
}
pub struct Doc {
    pub text: String,
    pub title: String,
    pub body: XNode,
    pub stats: Stats,
}

struct P<'t, 'd> {
    t: &'t mut Tape<'d>,
    out: String,
    budget: i64,
    st: Stats,
    plain_ws: bool,
    /// one list of this kind is to be this long
    long: Option<(Long, usize)>,
    /// items go down to the deepest level
    deep: bool,
    /// style of the next list
    force: Option<usize>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Long {
    Articles,
    Paragraphs,
    Items(usize),
    Heads(usize),
    Continuation,
    Suppl,
    Preamble,
}

fn one_line(s: &str) -> String {
    s.chars().filter(|c| *c != '\n').collect::<String>().trim().to_string()
}
const SEPS: [&str; 6] = ["　", " ", "　　", "\t", " 　 ", "\u{2003}"];
const INDENTS: [&str; 6] = ["", "", "　", "  ", "\t", "　　"];

impl P<'_, '_> {
    fn more(&mut self, max: usize) -> usize {
        if self.budget <= 0 || self.t.exhausted() {
            return 0;
        }
        self.t.below(max + 1)
    }
    fn more_of(&mut self, kind: Long, max: usize) -> usize {
        match self.long {
            Some((k, n)) if k == kind => {
                self.long = None;
                n
            }
            _ => self.more(max),
        }
    }
    fn wants(&self, f: impl Fn(Long) -> bool) -> bool {
        self.long.is_some_and(|(k, _)| f(k))
    }
    fn line(&mut self, s: &str) {
        self.budget -= 1;
        while self.t.chance(1, 12) {
            self.out.push_str(["\n", "  \n", "　\n", "\r\n"][self.t.below(4)]);
        }
        let ind = if self.plain_ws { "" } else { INDENTS[self.t.below(6)] };
        self.out.push_str(ind);
        self.out.push_str(s);
        if self.t.chance(1, 10) {
            self.out.push_str(["　", " ", "\t"][self.t.below(3)]);
        }
        self.out.push_str(if self.t.chance(1, 10) { "\r\n" } else { "\n" });
    }
    fn sep(&mut self) -> &'static str {
        if self.plain_ws {
            "　"
        } else {
            SEPS[self.t.below(6)]
        }
    }
    /// wording that follows a label: anything on one line
    fn wording(&mut self) -> String {
        if self.t.chance(1, 14) {
            self.st.deleted += 1;
            return ["削除", "（削除）"][self.t.below(2)].to_string();
        }
        let s = one_line(&strs::text(self.t));
        if self.t.chance(1, 12) {
            // long, and much like the others
            let k = ['甲', '乙', '丙', '丁', '二', '三'][self.t.below(6)];
            return format!("前項の規定により都道府県知事の権限に属する事務であって政令で定めるところにより行われるもの{}のうち{k}に係るもの", "並びにこれに附帯する事務".repeat(self.t.below(4)));
        }
        if s.is_empty() {
            "この法律は、公布の日から施行する。".into()
        } else {
            s
        }
    }
    /// a line of its own that is no label
    fn plain_line(&mut self) -> String {
        let s = one_line(&strs::text(self.t));
        let s = if self.t.flip() { format!("ただし、{s}") } else { s };
        if s.is_empty() || classify(&s) != Class::Text {
            format!("ただし、{s}。")
        } else {
            s
        }
    }
    fn caption(&mut self) -> Option<String> {
        if !self.t.chance(1, 4) {
            return None;
        }
        let s: String = strs::text(self.t).chars().filter(|c| *c != '）' && *c != '\n').collect();
        let s = s.trim().to_string();
        let s = if s.is_empty() { "目的".to_string() } else { s };
        self.line(&format!("（{s}）"));
        self.st.captions += 1;
        Some(s)
    }
    fn digits(&mut self, style: usize, n: usize) -> String {
        match style {
            0 => refnum::kansuji(n),
            1 => refnum::zenkaku(n),
            _ => n.to_string(),
        }
    }
    fn small(&mut self) -> usize {
        match self.t.weighted(&[8, 3, 1]) {
            0 => 1 + self.t.below(9),
            1 => 1 + self.t.below(40),
            _ => 1 + self.t.below(1200),
        }
    }
    /// next number of a list of siblings: mostly successive, with branches and ranges
    fn step(&mut self, at: &mut usize, special: bool) -> ArticleNumber {
        let mut n = ArticleNumber { base_number: *at, eda_numbers: vec![], range_end_numbers: vec![] };
        if special {
            match self.t.weighted(&[10, 2, 1]) {
                0 => *at += 1,
                1 => {
                    for _ in 0..1 + self.t.below(2) {
                        n.eda_numbers.push(1 + self.t.below(12));
                    }
                    self.st.branches += 1;
                    if self.t.chance(1, 4) {
                        n.range_end_numbers = vec![*at + 1, 1 + self.t.below(5)];
                        self.st.ranges += 1;
                        *at += 1;
                    }
                    *at += 1;
                }
                _ => {
                    let to = *at + 1 + self.t.below(3);
                    n.range_end_numbers = vec![to];
                    self.st.ranges += 1;
                    *at = to + 1;
                }
            }
        } else {
            *at += 1;
        }
        n
    }
    fn head_label(&mut self, n: &ArticleNumber, kind: &str) -> String {
        let st = [0, 0, 0, 1, 2][self.t.below(5)];
        let part = if self.t.chance(1, 6) { "ノ" } else { "の" };
        let mut s = format!("第{}{kind}", self.digits(st, n.base_number));
        for e in &n.eda_numbers {
            s += part;
            s += &self.digits(st, *e);
        }
        if let Some((e, r)) = n.range_end_numbers.split_first() {
            s += &format!("から第{}{kind}", self.digits(st, *e));
            for e in r {
                s += part;
                s += &self.digits(st, *e);
            }
            s += "まで";
        }
        s
    }
    fn sentence(n: usize, s: &str) -> XNode {
        let mut e = XNode::new("Sentence");
        e.attr("Num", n.to_string());
        e.text(s);
        e
    }
    /// sentences of one label: its wording and the continuation lines
    fn sentences(&mut self, name: &str, first: &str) -> XNode {
        let mut e = XNode::new(name);
        e.push(Self::sentence(1, first));
        if self.wants(|k| k == Long::Continuation) || self.t.chance(1, 6) {
            let max = [1, 1, 2, 6][self.t.below(4)];
            let n = 1 + self.more_of(Long::Continuation, max);
            for i in 0..n {
                let s = self.plain_line();
                self.line(&s);
                self.st.continuation += 1;
                e.push(Self::sentence(2 + i, &s));
            }
        }
        e
    }
    fn items(&mut self, e: &mut XNode, level: usize, used: &mut Vec<usize>) {
        if level > 10 || used.len() >= 15 {
            return;
        }
        let force = self.force.take().filter(|s| !used.contains(s));
        let n = if force.is_some() {
            2 + self.more(3)
        } else if self.wants(|k| k == Long::Items(level)) {
            self.more_of(Long::Items(level), 0)
        } else if self.wants(|k| matches!(k, Long::Items(l) if l > level)) {
            2
        } else if level == 0 {
            if self.t.chance(1, 2) {
                self.more(5)
            } else {
                0
            }
        } else if self.deep && self.budget > -20 && self.t.chance(7, 8) {
            1 + self.more(2)
        } else if self.t.chance(2, 5) {
            self.more(4)
        } else {
            0
        };
        if n == 0 {
            return;
        }
        // style number 3 (bare digits) is a paragraph label
        let natural: [usize; 11] = [0, 1, 11, 15, 13, 9, 2, 8, 14, 12, 10];
        let mut style = if self.t.chance(2, 3) { natural[level] } else { self.t.below(16) };
        if let Some(s) = force {
            style = s;
        }
        while style == 3 || used.contains(&style) {
            style = (style + 1) % 16;
        }
        if n > 30 {
            // few styles count that far
            style = *[0usize, 8, 11].iter().find(|s| !used.contains(s)).unwrap_or(&style);
        }
        let p = refnum::STYLES[style];
        let (kind, _) = refnum::style_kind(p);
        used.push(style);
        self.st.item_depth = self.st.item_depth.max(level + 1);
        let name = if level == 0 { "Item".to_string() } else { format!("Subitem{level}") };
        let max = if n > 30 && [0, 8, 11].contains(&style) { 9000 } else if kind >= 6 { 8 } else { 40 };
        let mut at = 1;
        // a full list of letters whose last item (ｈ) has a list that begins with the Roman ｉ
        let full = kind >= 6 && n <= 8 && level < 10 && !used.contains(&(style - 2)) && self.t.chance(1, 5);
        for _ in 0..if full { 8 } else { n } {
            let special = kind < 6 && at + 6 < max;
            let num = self.step(&mut at, special && !(kind == 2));
            if num.base_number > max {
                break;
            }
            self.st.alphabet_c |= kind >= 6 && num.base_number == 3;
            let text = self.wording();
            let sep = self.sep();
            self.line(&format!("{}{sep}{text}", refnum::item_label(p, &num)));
            self.st.items += 1;
            let mut i = XNode::new(&name);
            i.attr("Num", refnum::key(&num));
            if text == "削除" || text == "（削除）" {
                i.attr("Delete", "true");
            }
            let s = self.sentences(&format!("{name}Sentence"), &text);
            i.push(s);
            let deepest = self.st.item_depth;
            let before = self.st.items;
            if full && at > 8 {
                self.force = Some(style - 2);
                self.st.roman_after_h = true;
            }
            self.items(&mut i, level + 1, used);
            if self.st.items > before && self.st.item_depth > deepest.max(level + 2) {
                self.st.multi_step_back = true;
            }
            e.push(i);
        }
        used.pop();
    }
    /// label already written; `first`: wording on the label's line
    fn paragraph_rest(&mut self, num: &str, caption: Option<String>, first: &str) -> XNode {
        let mut e = XNode::new("Paragraph");
        e.attr("Num", num);
        if let Some(c) = caption {
            let mut x = XNode::new("ParagraphCaption");
            x.text(&c);
            e.push(x);
        }
        e.push(XNode::new("ParagraphNum"));
        let s = self.sentences("ParagraphSentence", first);
        e.push(s);
        self.items(&mut e, 0, &mut vec![]);
        e
    }
    fn paragraph(&mut self, at: &mut usize) -> XNode {
        let cap = self.caption();
        let n = if self.t.chance(1, 12) {
            self.step(at, true)
        } else {
            self.step(at, false)
        };
        let st = 1 + self.t.weighted(&[5, 1]);
        let mut label = self.digits(st, n.base_number);
        for e in &n.eda_numbers {
            label += if self.t.chance(1, 6) { "ノ" } else { "の" };
            label += &self.digits(st, *e);
        }
        if let Some((e, r)) = n.range_end_numbers.split_first() {
            label += "から";
            label += &self.digits(st, *e);
            for e in r {
                label += "の";
                label += &self.digits(st, *e);
            }
            label += "まで";
        }
        let text = self.wording();
        let sep = self.sep();
        self.line(&format!("{label}{sep}{text}"));
        self.paragraph_rest(&refnum::key(&n), cap, &text)
    }
    fn article(&mut self, at: &mut usize) -> XNode {
        let cap = self.caption();
        let n = self.step(at, true);
        let text = self.wording();
        let label = self.head_label(&n, "条");
        let sep = self.sep();
        self.line(&format!("{label}{sep}{text}"));
        self.st.articles += 1;
        let mut e = XNode::new("Article");
        e.attr("Num", refnum::key(&n));
        if text == "削除" || text == "（削除）" {
            e.attr("Delete", "true");
        }
        if let Some(c) = cap {
            let mut x = XNode::new("ArticleCaption");
            x.text(&c);
            e.push(x);
        }
        e.push(XNode::new("ArticleTitle"));
        let p = self.paragraph_rest("1", None, &text);
        e.push(p);
        let mut pn = 2;
        for _ in 0..self.more_of(Long::Paragraphs, 2) {
            let p = self.paragraph(&mut pn);
            e.push(p);
        }
        e
    }
    fn articles(&mut self, e: &mut XNode, at: &mut usize, max: usize) {
        for _ in 0..self.more_of(Long::Articles, max) {
            let a = self.article(at);
            e.push(a);
        }
    }
    /// a heading and what is below it
    fn heading(&mut self, level: usize, at: &mut usize, art: &mut usize) -> XNode {
        let (name, kind) = HEADS[level];
        let n = self.step(at, true);
        let title = self.wording();
        let label = self.head_label(&n, kind);
        let sep = self.sep();
        self.line(&format!("{label}{sep}{title}"));
        self.st.heads += 1;
        let mut e = XNode::new(name);
        e.attr("Num", refnum::key(&n));
        if title == "削除" || title == "（削除）" {
            e.attr("Delete", "true");
        }
        let mut x = XNode::new(&format!("{name}Title"));
        x.text(&title);
        e.push(x);
        let subs: &[usize] = match level {
            0 => &[1],
            1 => &[2],
            // divisions before subsections, which would take them in
            2 => &[4, 3],
            3 => &[4],
            _ => &[],
        };
        let with_subs = !subs.is_empty() && self.t.chance(1, 2);
        if !with_subs || self.t.chance(1, 4) {
            self.articles(&mut e, art, 3);
        }
        if with_subs {
            for s in subs {
                if subs.len() == 1 || self.t.flip() {
                    let mut sn = 1;
                    for _ in 0..self.more_of(Long::Heads(*s), 3) {
                        let h = self.heading(*s, &mut sn, art);
                        e.push(h);
                    }
                }
            }
        }
        e
    }
}

pub fn wellformed(t: &mut Tape) -> Doc {
    document(t, None)
}
/// a regular text with one very long list in it
pub fn long_wellformed(t: &mut Tape) -> Doc {
    let kind = match t.below(9) {
        0 => Long::Articles,
        1 => Long::Paragraphs,
        2 => Long::Items(0),
        3 => Long::Items(1 + t.below(3)),
        4 => Long::Items(t.below(11)),
        5 => Long::Heads(t.below(5)),
        6 => Long::Continuation,
        7 => Long::Suppl,
        _ => Long::Preamble,
    };
    let n = [25usize, 60, 110, 130, 260, 270, 520, 1050][t.weighted(&[6, 6, 6, 6, 6, 3, 2, 1])];
    document(t, Some((kind, n)))
}
fn document(t: &mut Tape, long: Option<(Long, usize)>) -> Doc {
    let budget = [12i64, 40, 120][t.below(3)];
    let plain_ws = t.flip();
    let deep = t.chance(1, 4);
    let mut p = P { t, out: String::new(), budget, st: Stats::default(), plain_ws, long, deep, force: None };
    let title = if p.t.chance(1, 8) { String::new() } else { one_line(&strs::text(p.t)) };
    let mut body = XNode::new("LawBody");
    let mut tn = XNode::new("LawTitle");
    if !title.is_empty() {
        tn.text(&title);
    }
    body.push(tn);
    let shape = p.t.weighted(&[4, 2, 6, 1]);
    if p.wants(|k| k == Long::Preamble) || p.t.chance(1, 5) {
        let mut pre = XNode::new("Preamble");
        for _ in 0..1 + p.more_of(Long::Preamble, 2) {
            let s = p.plain_line();
            p.line(&s);
            let mut e = XNode::new("Paragraph");
            e.push(XNode::new("ParagraphNum"));
            let mut x = XNode::new("ParagraphSentence");
            let mut se = XNode::new("Sentence");
            se.text(&s);
            x.push(se);
            e.push(x);
            pre.push(e);
        }
        body.push(pre);
    }
    let mut main = XNode::new("MainProvision");
    let mut art = 1;
    match shape {
        0 => p.articles(&mut main, &mut art, 5),
        1 => {
            p.st.para_only = true;
            let mut at = 1;
            for _ in 0..1 + p.more_of(Long::Paragraphs, 4) {
                let x = p.paragraph(&mut at);
                main.push(x);
            }
        }
        2 => {
            if p.t.chance(1, 4) {
                p.articles(&mut main, &mut art, 2);
            }
            // smaller headings first: a larger one would take them in
            for level in [2usize, 1, 0] {
                if p.t.chance(2, 5) {
                    let mut at = 1;
                    for _ in 0..p.more_of(Long::Heads(level), 4) {
                        let h = p.heading(level, &mut at, &mut art);
                        main.push(h);
                    }
                }
            }
        }
        _ => (),
    }
    body.push(main);
    let ns = if p.wants(|k| k == Long::Suppl) || p.t.chance(1, 3) { 1 + p.more_of(Long::Suppl, 2) } else { 0 };
    for _ in 0..ns {
        p.st.suppl += 1;
        let mut e = XNode::new("SupplProvision");
        let mut s = ["附則", "附　則", "附 則", "附　　　則"][p.t.below(4)].to_string();
        if p.t.flip() {
            let n = ["昭和三一年四月二日法律第六三号", "平成 元年法律第一号", "令和〇", "x"][p.t.below(4)];
            s += &format!("{}（{n}）", ["", "　", " "][p.t.below(3)]);
            e.attr("AmendLawNum", n);
        }
        if p.t.chance(1, 3) {
            s += ["　抄", "抄", " 抄"][p.t.below(3)];
            e.attr("Extract", "true");
        }
        p.line(&s);
        let mut l = XNode::new("SupplProvisionLabel");
        l.text("附則");
        e.push(l);
        let mut at = 1;
        match p.t.below(4) {
            0 => {
                // first paragraph without number
                let cap = p.caption();
                let s = p.plain_line();
                p.line(&s);
                let x = p.paragraph_rest("1", cap, &s);
                e.push(x);
                at = 2;
                for _ in 0..p.more(3) {
                    let x = p.paragraph(&mut at);
                    e.push(x);
                }
            }
            1 => {
                for _ in 0..p.more(3) {
                    let x = p.paragraph(&mut at);
                    e.push(x);
                }
            }
            2 => p.articles(&mut e, &mut at, 4),
            _ => {
                if p.t.chance(1, 4) {
                    p.articles(&mut e, &mut at, 2);
                }
                let mut n = 1;
                for _ in 0..p.more(3) {
                    let h = p.heading(1, &mut n, &mut at);
                    e.push(h);
                }
            }
        }
        body.push(e);
    }
    let small = p.small();
    let _ = small;
    Doc { text: p.out, title, body, stats: p.st }
}

/// What the property leaves open is emptied: titles of articles and items and paragraph
/// numbers as written, and the numbering inside the preamble.
pub fn blank(n: &XNode, in_preamble: bool) -> XNode {
    let mut m = XNode::new(&n.name);
    let pre = in_preamble || n.name == "Preamble";
    for (k, v) in &n.attrs {
        if !(pre && k == "Num") {
            m.attr(k, v.clone());
        }
    }
    if n.name == "ArticleTitle" || n.name == "ParagraphNum" {
        return m;
    }
    for k in &n.kids {
        match k {
            Kid::T(s) => m.text(s),
            Kid::E(e) if e.name == "ItemTitle" || e.name.starts_with("Subitem") && e.name.ends_with("Title") => (),
            Kid::E(e) => m.push(blank(e, pre)),
        }
    }
    m
}

// ---------------------------------------------------------------- arbitrary line sequences

pub fn number(t: &mut Tape) -> ArticleNumber {
    let one = |t: &mut Tape| if t.chance(1, 10) { 1 + t.below(3000) } else { 1 + t.below(12) };
    let base_number = one(t);
    let eda_numbers = if t.chance(1, 5) { vec![one(t)] } else { vec![] };
    let range_end_numbers = if t.chance(1, 8) { vec![one(t)] } else { vec![] };
    ArticleNumber { base_number, eda_numbers, range_end_numbers }
}
/// digits of some kind, often no number at all
fn odd_digits(t: &mut Tape) -> String {
    match t.below(9) {
        0 => refnum::kansuji(1 + t.below(40)),
        1 => refnum::zenkaku(1 + t.below(40)),
        2 => {
            const K: [&str; 20] = ["一", "二", "三", "四", "五", "六", "七", "八", "九", "十", "百", "千", "万", "億", "兆", "〇", "零", "壱", "廿", "京"];
            (0..1 + t.below(6)).map(|_| K[t.weighted(&[2, 2, 2, 2, 1, 1, 1, 1, 2, 6, 6, 6, 2, 1, 1, 2, 1, 1, 1, 1])]).collect()
        }
        3 => {
            let k = ["９", "9", "千", "九", "億", "兆", "京", "０", "0", "十"][t.below(10)];
            k.repeat([1, 2, 3, 5, 19, 20, 21, 25, 40, 300][t.below(10)])
        }
        4 => t.below(40).to_string(),
        5 => {
            let k = refnum::style_kind(refnum::STYLES[t.below(16)]).0;
            let n = [1 + t.below(40), 1 + t.below(300)][t.below(2)];
            refnum::bare(k, if refnum::style_ok(k, n) { n } else { 1 })
        }
        6 => ["٣", "²", "①", "Ⅷ", "１2", "一2", "-1", "+1", "1.5", " 1", "0x1", "１　", "ヰ", "ン", "ゑ", "ー", "ＩＩＩＩ", "ｉｖｘ", "ｍｍｍ", "Ｍ"][t.below(20)].to_string(),
        7 => String::new(),
        _ => {
            const C: [char; 24] =
                ['イ', 'ロ', 'ス', 'セ', 'ア', 'ヴ', 'い', 'ろ', 'す', 'ん', 'ぁ', 'ゔ', 'Ａ', 'Ｚ', 'ａ', 'ｚ', 'Ｉ', 'Ｖ', 'Ｘ', 'Ｌ', 'Ｃ', 'ｉ', 'ｖ', 'ｘ'];
            let c = C[t.below(24)];
            let n = [1, 2, 3, 4, 5, 8, 14, 15, 20, 100][t.below(10)];
            if t.flip() {
                (0..n).map(|_| C[t.below(24)]).collect()
            } else {
                std::iter::repeat(c).take(n).collect()
            }
        }
    }
}
/// something with the shape of a label, with any digits in any place
pub fn odd_label(t: &mut Tape) -> String {
    let mut s = String::new();
    let unit = ["条", "章", "編", "節", "款", "目", "項", "号", ""][t.weighted(&[6, 2, 2, 2, 2, 2, 1, 1, 3])];
    let item = t.chance(1, 3);
    let ordinal = if item { "" } else { ["第", "", "第第"][t.weighted(&[8, 3, 1])] };
    let paren = t.below(4);
    let piece = |t: &mut Tape, s: &mut String, first: bool| {
        if item {
            let d = odd_digits(t);
            *s += &match paren {
                0 => d,
                1 | 2 => format!("（{d}）"),
                _ => format!("({d})"),
            };
        } else {
            if first || t.chance(9, 10) {
                *s += ordinal;
            }
            *s += &odd_digits(t);
            if first || t.chance(9, 10) {
                *s += unit;
            }
        }
        while t.chance(1, 4) {
            *s += ["の", "ノ", "の第"][t.weighted(&[8, 2, 1])];
            *s += &odd_digits(t);
        }
    };
    piece(t, &mut s, true);
    while t.chance(1, 3) {
        s += ["から", "及び", "、", "から　"][t.weighted(&[9, 1, 1, 1])];
        piece(t, &mut s, false);
        if t.chance(9, 10) {
            s += "まで";
        }
    }
    s
}
/// one line in one of the usual forms, or something else
pub fn any_line(t: &mut Tape, odd: bool) -> String {
    let word = |t: &mut Tape| {
        let s = one_line(&strs::text(t));
        if s.is_empty() {
            "削除".to_string()
        } else {
            s
        }
    };
    let sep = |t: &mut Tape| if t.chance(1, 4) { SEPS[t.below(6)] } else { "　" };
    let head = |t: &mut Tape, k: &str| {
        let n = number(t);
        let st = t.below(3);
        let d = |n: usize| match st {
            0 => refnum::kansuji(n),
            1 => refnum::zenkaku(n),
            _ => n.to_string(),
        };
        let mut s = format!("第{}{k}", d(n.base_number));
        for e in &n.eda_numbers {
            s += "の";
            s += &d(*e);
        }
        for e in &n.range_end_numbers {
            s += &format!("から第{}{k}まで", d(*e));
        }
        s
    };
    match t.weighted(&[4, 4, 3, 3, 6, 4, 5, 12, 4, 5, 2, if odd { 4 } else { 0 }]) {
        0 => format!("{}{}{}", head(t, "編"), sep(t), word(t)),
        1 => format!("{}{}{}", head(t, "章"), sep(t), word(t)),
        2 => format!("{}{}{}", head(t, "節"), sep(t), word(t)),
        3 => {
            let k = ["款", "目"][t.below(2)];
            format!("{}{}{}", head(t, k), sep(t), word(t))
        }
        4 => format!("{}{}{}", head(t, "条"), sep(t), word(t)),
        5 => {
            let n = number(t);
            let mut s = refnum::zenkaku(n.base_number);
            for e in &n.eda_numbers {
                s += "の";
                s += &refnum::zenkaku(*e);
            }
            format!("{s}{}{}", sep(t), word(t))
        }
        6 => format!("（{}）", word(t).replace('）', "")),
        7 => {
            let i = t.below(16);
            let p = refnum::STYLES[i];
            let k = refnum::style_kind(p).0;
            let mut n = number(t);
            n.base_number = if refnum::style_ok(k, n.base_number) { n.base_number } else { 1 };
            n.eda_numbers.retain(|e| refnum::style_ok(k, *e));
            n.range_end_numbers.retain(|e| refnum::style_ok(k, *e));
            if k >= 6 && refnum::alpha_ambiguous(n.base_number) {
                n.base_number = 2;
            }
            format!("{}{}{}", refnum::item_label(p, &n), sep(t), word(t))
        }
        8 => {
            let mut s = ["附則", "附　則"][t.below(2)].to_string();
            if t.flip() {
                s += &format!("（{}）", word(t).replace('）', ""));
            }
            if t.chance(1, 3) {
                s += "　抄";
            }
            s
        }
        9 => word(t),
        10 => String::new(),
        11 if t.flip() => format!("{}{}{}", odd_label(t), sep(t), word(t)),
        _ => {
            // pieces of labels in any order
            let mut s = String::new();
            for _ in 0..1 + t.below(8) {
                match t.below(5) {
                    0 => s += ["第", "一", "十", "条", "章", "編", "節", "款", "目", "項", "号", "の", "ノ", "から", "まで", "附", "則", "抄", "（", "）"][t.below(20)],
                    1 => s += SEPS[t.below(6)],
                    2 => {
                        let i = t.below(16);
                        s += &refnum::bare(refnum::style_kind(refnum::STYLES[i]).0, 1 + t.below(40));
                    }
                    3 => s.push(strs::any_char(t)),
                    _ => s += ["９９９９９９９９９９９９９９９９９９９９９９９", "99999999999999999999999", "十十", "千千千", "ン", "ａＢ", "ｉｉｉｉｉ", "ｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚｚ", "\u{0}", "\r", "\u{feff}", "０"][t.below(12)],
                }
            }
            one_line(&s)
        }
    }
}
pub fn soup(t: &mut Tape, odd: bool) -> String {
    let m = [6, 14, 30][t.below(3)];
    let n = 1 + t.below(m);
    let mut s = String::new();
    // runs of nested item styles are frequent in real texts
    for _ in 0..n {
        if t.exhausted() {
            break;
        }
        s += INDENTS[t.below(6)];
        s += &any_line(t, odd);
        s += if t.chance(1, 12) { "\r\n" } else { "\n" };
    }
    s
}
/// Lines of one paragraph with labels of several styles at any step: deep nesting, steps back, style reuse.
pub fn item_walk(t: &mut Tape) -> String {
    let mut s = String::from("第一条　次に掲げるものをいう。\n");
    let n = 2 + t.below(30);
    let mut stack: Vec<(usize, usize)> = vec![];
    // styles not on the way down yet, so that a walk can go below the deepest level there is
    let fresh = |t: &mut Tape, stack: &[(usize, usize)]| {
        let mut s = t.below(16);
        while stack.len() < 15 && (s == 3 || stack.iter().any(|x| x.0 == s)) {
            s = (s + 1) % 16;
        }
        s
    };
    if t.chance(1, 3) {
        let d = [t.below(16), 9 + t.below(7)][t.below(2)];
        for _ in 0..d {
            let style = fresh(t, &stack);
            stack.push((style, 1));
            s += &format!("{}　号\n", refnum::label_in(refnum::STYLES[style], 1));
            if t.chance(1, 6) {
                for i in 0..1 + t.below(5) {
                    s += &format!("ただし{i}。\n");
                }
            }
        }
    }
    for _ in 0..n {
        if t.exhausted() {
            break;
        }
        match t.weighted(&[5, 4, 3, 1, 1]) {
            0 => {
                let style = if t.flip() { t.below(16) } else { fresh(t, &stack) };
                stack.push((style, if t.chance(1, 8) { 1 + t.below(30) } else { 1 }))
            }
            1 => {
                if let Some(x) = stack.last_mut() {
                    x.1 += 1
                } else {
                    stack.push((0, 1))
                }
            }
            2 => {
                let k = 1 + t.below(3);
                for _ in 0..k {
                    if stack.len() > 1 {
                        stack.pop();
                    }
                }
                if let Some(x) = stack.last_mut() {
                    x.1 += 1
                }
            }
            3 => {
                for _ in 0..[1, 1, 2, 1 + t.below(6)][t.below(4)] {
                    s += "ただし、この限りでない。\n";
                }
                continue;
            }
            _ => {
                s += ["２　第二項\n", "第二条　次の条\n", "（見出し）\n"][t.below(3)];
                stack.clear();
                continue;
            }
        }
        let Some(&(style, n)) = stack.last() else { continue };
        let p = refnum::STYLES[style];
        let k = refnum::style_kind(p).0;
        let n = if refnum::style_ok(k, n) { n } else { 1 };
        s += &format!("{}　号{n}\n", refnum::label_in(p, n));
    }
    s
}
