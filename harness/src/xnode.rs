//! A small XML tree of our own, with a serializer whose spelling can be varied.
use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kid {
    E(XNode),
    T(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct XNode {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Kid>,
}

impl XNode {
    pub fn new(name: &str) -> Self {
        XNode { name: name.to_string(), attrs: vec![], kids: vec![] }
    }
    pub fn attr(&mut self, k: &str, v: impl Into<String>) {
        self.attrs.push((k.to_string(), v.into()));
    }
    pub fn push(&mut self, n: XNode) {
        self.kids.push(Kid::E(n));
    }
    pub fn text(&mut self, s: &str) {
        self.kids.push(Kid::T(s.to_string()));
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| if let Kid::E(e) = k { e.count() } else { 0 }).sum::<usize>()
    }
    /// Is whitespace allowed to be added between the children without changing content?
    /// (xmltree drops whitespace-only text everywhere, and XML tools treat it as
    /// formatting in element-only content.)
    pub fn element_only(&self) -> bool {
        !self.kids.iter().any(|k| matches!(k, Kid::T(_)))
    }
}

fn esc_text(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '&' => out.push_str("&amp;"),
            '>' => out.push_str("&gt;"),
            c => out.push(c),
        }
    }
}
fn esc_attr(s: &str, q: char, out: &mut String) {
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '&' => out.push_str("&amp;"),
            '\n' => out.push_str("&#10;"),
            '\t' => out.push_str("&#9;"),
            c if c == q => out.push_str(if c == '"' { "&quot;" } else { "&apos;" }),
            c => out.push(c),
        }
    }
}

pub fn plain(n: &XNode) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    plain_into(n, &mut s);
    s
}

pub fn plain_into(n: &XNode, out: &mut String) {
    out.push('<');
    out.push_str(&n.name);
    for (k, v) in &n.attrs {
        out.push(' ');
        out.push_str(k);
        out.push_str("=\"");
        esc_attr(v, '"', out);
        out.push('"');
    }
    if n.kids.is_empty() {
        out.push_str("/>");
        return;
    }
    out.push('>');
    for k in &n.kids {
        match k {
            Kid::E(e) => plain_into(e, out),
            Kid::T(t) => esc_text(t, out),
        }
    }
    out.push_str("</");
    out.push_str(&n.name);
    out.push('>');
}

/// Which spelling changes were made in one document.
#[derive(Default, Clone, Debug)]
pub struct Spelling {
    pub comments: usize,
    pub pis: usize,
    pub cdata: usize,
    pub charrefs: usize,
    pub ws: usize,
    pub attr_perm: usize,
    pub quotes: usize,
    pub long_empty: usize,
    pub bom: bool,
    pub decl: usize,
    pub defaults: usize,
    pub bools: usize,
    pub xsi: bool,
    pub doctype: bool,
    /// the document type declares entities
    pub entities: bool,
    pub utf16: bool,
}
impl Spelling {
    pub fn total(&self) -> usize {
        self.comments + self.pis + self.cdata + self.charrefs + self.ws + self.attr_perm + self.quotes
            + self.long_empty + self.bom as usize + self.decl + self.defaults + self.bools + self.xsi as usize + self.doctype as usize + self.utf16 as usize
    }
}

/// `rate`: roughly one change per `rate` opportunities.
pub fn varied(n: &XNode, t: &mut Tape, rate: usize, sp: &mut Spelling) -> Vec<u8> {
    let mut s = String::new();
    sp.utf16 = t.chance(1, 8);
    if sp.utf16 || t.chance(1, 4) {
        s.push('\u{feff}');
        sp.bom = true;
    }
    let enc = if sp.utf16 { "UTF-16" } else { "UTF-8" };
    match t.below(5) {
        0 => s.push_str(&format!("<?xml version=\"1.0\" encoding=\"{enc}\"?>\n")),
        1 => sp.decl += 1,
        2 => {
            s.push_str(&format!("<?xml version='1.0' encoding='{}' standalone=\"yes\" ?>\n", enc.to_lowercase()));
            sp.decl += 1;
        }
        3 => {
            s.push_str("<?xml version=\"1.0\"?>");
            sp.decl += 1;
        }
        _ => {
            s.push_str(&format!("<?xml version=\"1.0\" encoding=\"{enc}\" standalone='no'?>\r\n\n"));
            sp.decl += 1;
        }
    }
    if t.chance(1, 4) {
        s.push_str("<!-- 法令データ <Law> -->");
        sp.comments += 1;
    }
    if t.chance(1, 6) {
        s.push_str("\n<?xml-stylesheet href=\"a.xsl\" type=\"text/xsl\"?>\n");
        sp.pis += 1;
    }
    if t.chance(1, 6) {
        sp.doctype = true;
        let d = t.below(4);
        s.push_str(
            [
                "<!DOCTYPE Law>",
                "\n<!DOCTYPE Law SYSTEM \"law.dtd\">\n",
                "<!DOCTYPE Law [<!ELEMENT Law ANY>\n]>",
                "<!DOCTYPE Law [<!ENTITY jo \"条\"><!ENTITY kou '項の定め'>]>\n",
            ][d],
        );
        sp.entities = d == 3;
    }
    let mut n = explicit_defaults(n, t, rate, sp);
    if t.chance(1, 4) {
        n.attr("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance".to_string());
        n.attr("xsi:noNamespaceSchemaLocation", "XMLSchemaForJapaneseLaw_v3.xsd".to_string());
        sp.xsi = true;
    }
    varied_into(&n, t, rate, sp, &mut s);
    if t.chance(1, 4) {
        s.push_str("\n<!-- end --> ");
        sp.comments += 1;
    }
    if sp.utf16 {
        let little = t.flip();
        s.encode_utf16().flat_map(|c| if little { c.to_le_bytes() } else { c.to_be_bytes() }).collect()
    } else {
        s.into_bytes()
    }
}

const COMMENTS: [&str; 6] = ["<!---->", "<!-- x -->", "<!--<Article Num=\"1\"/>-->", "<!--第一条-->", "<!-- & < > -->", "<!--\n-->"];
const PIS: [&str; 3] = ["<?p?>", "<?page 12?>", "<?x <Item/>?>"];
const WS: [&str; 6] = ["\n", "  ", "\t", "\r\n", "\n      ", " \n\n "];

fn noise(t: &mut Tape, rate: usize, sp: &mut Spelling, out: &mut String, ws_ok: bool) {
    if !t.chance(1, rate) {
        return;
    }
    let n = 1 + t.below(2);
    for _ in 0..n {
        match t.below(if ws_ok { 3 } else { 2 }) {
            0 => {
                out.push_str(t.pick(&COMMENTS));
                sp.comments += 1;
            }
            1 => {
                out.push_str(t.pick(&PIS));
                sp.pis += 1;
            }
            _ => {
                out.push_str(t.pick(&WS));
                sp.ws += 1;
            }
        }
    }
}

fn varied_text(s: &str, t: &mut Tape, rate: usize, sp: &mut Spelling, out: &mut String) {
    // split in up to three chunks, each plain / CDATA / character references, with noise between
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let left = cs.len() - i;
        let mut len = if t.chance(1, rate) { 1 + t.below(left) } else { left };
        // Only cut between two non-space characters: a whitespace-only fragment next to
        // CDATA or a comment is indistinguishable from formatting for this XML front end.
        let sp_ch = |c: char| matches!(c, ' ' | '\n' | '\t' | '\r');
        while len < left && (sp_ch(cs[i + len - 1]) || sp_ch(cs[i + len])) {
            len += 1;
        }
        let chunk: String = cs[i..i + len].iter().collect();
        let how = if t.chance(1, rate) { 1 + t.below(3) } else { 0 };
        match how {
            1 if !chunk.contains("]]>") => {
                out.push_str("<![CDATA[");
                out.push_str(&chunk);
                out.push_str("]]>");
                sp.cdata += 1;
            }
            2 => {
                for c in chunk.chars() {
                    out.push_str(&format!("&#{};", c as u32));
                }
                sp.charrefs += 1;
            }
            3 => {
                for c in chunk.chars() {
                    if t.flip() {
                        match c {
                            '<' => out.push_str("&lt;"),
                            '&' => out.push_str("&amp;"),
                            '>' => out.push_str("&gt;"),
                            '"' => out.push_str("&quot;"),
                            '\'' => out.push_str("&apos;"),
                            c => out.push_str(&format!("&#x{:X};", c as u32)),
                        }
                    } else {
                        out.push_str(&format!("&#x{:x};", c as u32));
                    }
                }
                sp.charrefs += 1;
            }
            _ if sp.entities && chunk.contains('条') => {
                for (k, part) in chunk.split('条').enumerate() {
                    if k > 0 {
                        out.push_str("&jo;");
                        sp.charrefs += 1;
                    }
                    esc_text(part, out);
                }
            }
            _ => esc_text(&chunk, out),
        }
        i += len;
        if i < cs.len() {
            noise(t, rate, sp, out, false);
        }
    }
}

/// Optional attributes whose schema default is what an absent attribute means: now and then
/// written out when absent, or left out when present with the default value.
fn explicit_defaults(n: &XNode, t: &mut Tape, rate: usize, sp: &mut Spelling) -> XNode {
    let name = n.name.as_str();
    let mut cands: Vec<(&str, &str)> = vec![];
    let delhide = matches!(name, "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" | "Item")
        || (name.starts_with("Subitem") && name[7..].parse::<u32>().is_ok());
    if delhide {
        cands.extend([("Delete", "false"), ("Hide", "false")]);
    }
    if matches!(name, "TOCPart" | "TOCChapter" | "TOCSection" | "TOCSubsection" | "TOCDivision" | "TOCArticle") {
        cands.push(("Delete", "false"));
    }
    match name {
        "Paragraph" => cands.extend([("OldStyle", "false"), ("OldNum", "false"), ("Hide", "false")]),
        "Column" | "RemarksLabel" => cands.push(("LineBreak", "false")),
        "Line" => cands.push(("Style", "solid")),
        "Sentence" | "Table" => cands.push(("WritingMode", "vertical")),
        "TableColumn" => {
            cands.extend([("BorderTop", "solid"), ("BorderBottom", "solid"), ("BorderLeft", "solid"), ("BorderRight", "solid")])
        }
        _ => (),
    }
    let mut m = XNode::new(name);
    m.attrs = n.attrs.clone();
    for (k, v) in cands {
        if t.chance(1, rate) {
            match m.attrs.iter().position(|(a, _)| a == k) {
                None => m.attr(k, v.to_string()),
                Some(i) if m.attrs[i].1 == v => {
                    m.attrs.remove(i);
                }
                Some(_) => continue,
            }
            sp.defaults += 1;
        }
    }
    // the other lexical forms of xs:boolean
    const BOOLS: [&str; 7] = ["Delete", "Hide", "OldStyle", "OldNum", "LineBreak", "CommonCaption", "Extract"];
    for (k, v) in &mut m.attrs {
        if BOOLS.contains(&k.as_str()) && t.chance(1, rate) {
            *v = if v == "true" { "1" } else { "0" }.to_string();
            sp.bools += 1;
        }
    }
    for k in &n.kids {
        match k {
            Kid::E(e) => m.push(explicit_defaults(e, t, rate, sp)),
            Kid::T(s) => m.text(s),
        }
    }
    m
}

fn varied_into(n: &XNode, t: &mut Tape, rate: usize, sp: &mut Spelling, out: &mut String) {
    out.push('<');
    out.push_str(&n.name);
    let mut order: Vec<usize> = (0..n.attrs.len()).collect();
    if order.len() > 1 && t.chance(1, 2) {
        let k = t.below(order.len());
        order.rotate_left(k);
        if t.flip() {
            order.reverse();
        }
        sp.attr_perm += 1;
    }
    for i in order {
        let (k, v) = &n.attrs[i];
        if t.chance(1, rate) {
            out.push_str(t.pick(&WS));
            sp.ws += 1;
        }
        out.push(' ');
        out.push_str(k);
        if t.chance(1, rate) {
            out.push_str(" = ");
            sp.ws += 1;
        } else {
            out.push('=');
        }
        let q = if t.chance(1, 3) {
            sp.quotes += 1;
            '\''
        } else {
            '"'
        };
        out.push(q);
        if t.chance(1, rate) {
            for c in v.chars() {
                out.push_str(&format!("&#x{:X};", c as u32));
            }
            sp.charrefs += 1;
        } else {
            esc_attr(v, q, out);
        }
        out.push(q);
    }
    if n.kids.is_empty() {
        match t.below(4) {
            0 | 1 => {
                out.push_str("/>");
                return;
            }
            2 => {
                out.push_str(" />");
                return;
            }
            _ => {
                sp.long_empty += 1;
                out.push('>');
                noise(t, 2, sp, out, true);
            }
        }
    } else {
        out.push('>');
        let ws_ok = n.element_only();
        noise(t, rate, sp, out, ws_ok);
        for k in &n.kids {
            match k {
                Kid::E(e) => varied_into(e, t, rate, sp, out),
                Kid::T(s) => varied_text(s, t, rate, sp, out),
            }
            noise(t, rate, sp, out, ws_ok);
        }
    }
    out.push_str("</");
    out.push_str(&n.name);
    if t.chance(1, rate) {
        out.push(' ');
        sp.ws += 1;
    }
    out.push('>');
}

/// Element of the trusted XML library -> our tree; comments and instructions are
/// dropped, adjacent text merged, whitespace-only text dropped.
pub fn from_xmltree(e: &xmltree::Element) -> XNode {
    let mut n = XNode::new(&e.name);
    for (k, v) in &e.attributes {
        n.attr(k, v.clone());
    }
    n.attrs.sort();
    for c in &e.children {
        match c {
            xmltree::XMLNode::Element(c) => n.push(from_xmltree(c)),
            xmltree::XMLNode::Text(s) | xmltree::XMLNode::CData(s) => {
                if let Some(Kid::T(prev)) = n.kids.last_mut() {
                    prev.push_str(s);
                } else {
                    n.text(s)
                }
            }
            _ => (),
        }
    }
    n.kids.retain(|k| match k {
        Kid::T(s) => !s.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r')),
        _ => true,
    });
    n
}

/// Sorted attributes, schema defaults removed, adjacent text merged, empty text removed.
pub fn normalise(n: &XNode) -> XNode {
    let mut m = XNode::new(&n.name);
    for (k, v) in &n.attrs {
        let default = match (n.name.as_str(), k.as_str(), v.as_str()) {
            (_, "Delete" | "Hide" | "OldStyle" | "OldNum" | "LineBreak", "false") => true,
            (_, "WritingMode", "vertical") => true,
            ("Line", "Style", "solid") => true,
            ("TableColumn", "BorderTop" | "BorderBottom" | "BorderLeft" | "BorderRight", "solid") => true,
            _ => false,
        };
        if !default {
            m.attr(k, v.clone());
        }
    }
    m.attrs.sort();
    for k in &n.kids {
        match k {
            // an empty label of a supplementary provision may be left out
            Kid::E(e) if e.name == "SupplProvisionLabel" && e.kids.is_empty() && e.attrs.is_empty() => (),
            Kid::E(e) => m.push(normalise(e)),
            Kid::T(s) if s.is_empty() => (),
            Kid::T(s) => {
                if let Some(Kid::T(prev)) = m.kids.last_mut() {
                    prev.push_str(s);
                } else {
                    m.text(s)
                }
            }
        }
    }
    m
}

/// First difference between two trees, as a path and message.
pub fn diff(want: &XNode, got: &XNode, path: &str) -> Option<String> {
    let path = format!("{path}/{}", want.name);
    if want.name != got.name {
        return Some(format!("{path}: expected element <{}>, got <{}>", want.name, got.name));
    }
    if want.attrs != got.attrs {
        return Some(format!("{path}: expected attributes {:?}, got {:?}", want.attrs, got.attrs));
    }
    for i in 0..want.kids.len().max(got.kids.len()) {
        match (want.kids.get(i), got.kids.get(i)) {
            (Some(Kid::E(a)), Some(Kid::E(b))) => {
                if let Some(d) = diff(a, b, &path) {
                    return Some(d);
                }
            }
            (Some(Kid::T(a)), Some(Kid::T(b))) if a == b => (),
            (a, b) => {
                let f = |k: Option<&Kid>| match k {
                    None => "nothing".to_string(),
                    Some(Kid::E(e)) => format!("<{}>", e.name),
                    Some(Kid::T(s)) => format!("text {s:?}"),
                };
                return Some(format!("{path}: child {i}: expected {}, got {}", f(a), f(b)));
            }
        }
    }
    None
}
