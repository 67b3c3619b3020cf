//! String generators.
use crate::tape::Tape;

const JP: [&str; 24] = [
    "この法律", "第一条", "に規定する", "者", "、", "。", "（以下「法」という。）", "イ", "附則", "昭和三十年", "場合", "ただし",
    "一", "二", "から", "まで", "の", "削除", "別表", "政令で定める", "第", "条", "１", "（",
];
const ODD: [&str; 54] = [
    "&", "<", ">", "\"", "'", "]]>", "&amp;", "<b>", "--", "<!--", "\u{3000}", " ", "\n", "\t", "𠮟", "𩸽", "é", "e\u{301}", "が", "ﾊﾟ",
    "A", "z", "0", "Σ", "Ω", "☃", "\u{200b}", "\u{a0}", "\u{85}", "\u{2028}", "&#10;", "{", "\\", "%",
    "&lt;", "&gt;", "&quot;", "&apos;", "&#x3042;", "&nbsp;", "<?x y?>", "<![CDATA[", "-->", "^{2}", "_{i}", "＆", "Ａ", "豈", "葛\u{e0100}",
    "\u{feff}", "true", "null", "</Sentence>", "  ",
];

fn ws(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\t' | '\r')
}

/// Nonempty text with at least one character that is not XML white space.
pub fn text(t: &mut Tape) -> String {
    let n = 1 + t.weighted(&[6, 4, 3, 1, 1]);
    let mut s = String::new();
    for _ in 0..n {
        match t.weighted(&[10, 3, 1]) {
            0 => s.push_str(t.pick(&JP)),
            1 => s.push_str(t.pick(&ODD)),
            _ => s.push(any_char(t)),
        }
    }
    if s.chars().all(ws) {
        s.push('条');
    }
    if t.chance(1, 2000) {
        // longer than the usual buffer sizes
        let k = *t.pick(&[300usize, 5000, 9000, 70000]);
        s = s.repeat(k / s.len() + 1);
    }
    s
}

/// Any character XML allows in content, except CR (XML normalises it) and '\u{0}'..controls.
pub fn any_char(t: &mut Tape) -> char {
    let c = match t.weighted(&[3, 3, 2, 1]) {
        0 => 0x20 + t.below(0x5f) as u32,
        1 => 0x3040 + t.below(0xc0) as u32,
        2 => 0x4e00 + t.below(0x5200) as u32,
        _ => 0xa0 + t.below(0x10fe00) as u32,
    };
    match char::from_u32(c) {
        Some(c) if xml_char(c) => c,
        _ => '字',
    }
}

pub fn xml_char(c: char) -> bool {
    let v = c as u32;
    c == '\n' || c == '\t' || (0x20..=0xd7ff).contains(&v) && v != 0x7f || (0xe000..=0xfffd).contains(&v) || v >= 0x10000
}

/// Attribute value: may be empty, no line ends or tabs (attribute-value normalisation).
pub fn attr(t: &mut Tape) -> String {
    if t.chance(1, 6) {
        return String::new();
    }
    text(t).chars().filter(|c| !matches!(c, '\n' | '\t')).collect()
}

/// Any string at all, often one that XML changes or cannot hold.
pub fn loose(t: &mut Tape) -> String {
    let n = t.below(5);
    let mut s = String::new();
    for _ in 0..n {
        match t.below(4) {
            0 => s.push_str(["", " ", "\n", "\r", "\r\n", "\t", "\u{0}", "\u{1}", "\u{7f}", "\u{fffe}", "\u{ffff}", "\\", "\"", "\u{2028}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", "/"][t.below(18)]),
            1 => s.push(char::from_u32(t.raw() % 0x110000).unwrap_or('\u{fffd}')),
            2 => s.push_str(&text(t)),
            _ => s.push('　'),
        }
    }
    s
}
