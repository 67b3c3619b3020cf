//! C05 C06: documents that are not valid.
use crate::driver::*;
use crate::gen::G;
use crate::refw;
use crate::strs;
use crate::tape::Tape;
use crate::wide;
use crate::xnode::{self, Kid, Spelling, XNode};
use japanese_law_xml_schema::{parse_xml, result::Error};

// ---------------------------------------------------------------- schema facts

const INLINE: &[&str] = &["Ruby", "Line", "Sup", "Sub"];
const SENTENCE: &[&str] = &["Line", "QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub"];
const SUBS: [&str; 11] = [
    "Item", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10",
];
fn level(name: &str) -> Option<usize> {
    SUBS.iter().position(|s| *s == name)
}
/// `Item` .. `Subitem10` prefix of a name with the given suffix
fn item_part(name: &str, suffix: &str) -> bool {
    name.strip_suffix(suffix).map(|p| level(p).is_some()).unwrap_or(false)
}
fn text_only(name: &str) -> bool {
    matches!(
        name,
        "LawTitle" | "EnactStatement" | "PartTitle" | "ChapterTitle" | "SectionTitle" | "SubsectionTitle" | "DivisionTitle" | "ArticleTitle"
            | "ArticleCaption" | "ParagraphCaption" | "ParagraphNum" | "SupplNote" | "ClassTitle" | "TOCLabel" | "TOCPreambleLabel"
            | "TOCAppdxTableLabel" | "ArticleRange" | "SupplProvisionLabel" | "RelatedArticleNum" | "ArithFormulaNum" | "NoteStructTitle"
            | "StyleStructTitle" | "FormatStructTitle" | "FigStructTitle" | "TableStructTitle" | "RemarksLabel" | "TableHeaderColumn"
            | "AppdxTableTitle" | "AppdxNoteTitle" | "AppdxStyleTitle" | "AppdxFormatTitle" | "AppdxFigTitle"
            | "SupplProvisionAppdxTableTitle" | "SupplProvisionAppdxStyleTitle" | "Ruby" | "Rt" | "Sup" | "Sub" | "LawNum"
    ) || item_part(name, "Title")
}
/// content taken as it comes (xs:any in the schema)
fn any_content(name: &str) -> bool {
    matches!(name, "QuoteStruct" | "ArithFormula" | "Note" | "Style" | "Format")
}
/// Children an element may have; None where the schema leaves it open or allows inline text only.
fn allowed(name: &str) -> Option<Vec<&'static str>> {
    let s: &[&str] = match name {
        "Law" => &["LawNum", "LawBody"],
        "LawBody" => &[
            "LawTitle", "EnactStatement", "TOC", "Preamble", "MainProvision", "SupplProvision", "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx",
            "AppdxFig", "AppdxFormat",
        ],
        "Preamble" => &["Paragraph"],
        "MainProvision" => &["Part", "Chapter", "Section", "Article", "Paragraph"],
        "Part" => &["PartTitle", "Article", "Chapter"],
        "Chapter" => &["ChapterTitle", "Article", "Section"],
        "Section" => &["SectionTitle", "Article", "Subsection", "Division"],
        "Subsection" => &["SubsectionTitle", "Article", "Division"],
        "Division" => &["DivisionTitle", "Article"],
        "Article" => &["ArticleCaption", "ArticleTitle", "Paragraph", "SupplNote"],
        "Paragraph" => &[
            "ParagraphCaption", "ParagraphNum", "ParagraphSentence", "AmendProvision", "Class", "TableStruct", "FigStruct", "StyleStruct", "List",
            "Item",
        ],
        "ParagraphSentence" | "AmendProvisionSentence" => &["Sentence"],
        "AmendProvision" => &["AmendProvisionSentence", "NewProvision"],
        "NewProvision" => &[
            "LawTitle", "Preamble", "TOC", "Part", "PartTitle", "Chapter", "ChapterTitle", "Section", "SectionTitle", "Subsection",
            "SubsectionTitle", "Division", "DivisionTitle", "Article", "SupplNote", "Paragraph", "Item", "Subitem1", "Subitem2", "Subitem3",
            "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10", "List", "Sentence", "AmendProvision",
            "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx", "AppdxFig", "AppdxFormat", "SupplProvisionAppdxStyle", "SupplProvisionAppdxTable",
            "SupplProvisionAppdx", "TableStruct", "TableRow", "TableColumn", "FigStruct", "NoteStruct", "StyleStruct", "FormatStruct", "Remarks",
            "LawBody",
        ],
        "Class" => &["ClassTitle", "ClassSentence", "Item"],
        "Column" => &["Sentence"],
        "List" => &["ListSentence", "Sublist1"],
        "Sublist1" => &["Sublist1Sentence", "Sublist2"],
        "Sublist2" => &["Sublist2Sentence", "Sublist3"],
        "Sublist3" => &["Sublist3Sentence"],
        "ListSentence" | "Sublist1Sentence" | "Sublist2Sentence" | "Sublist3Sentence" => &["Sentence", "Column"],
        "Sentence" | "Line" => SENTENCE,
        "Remarks" => &["RemarksLabel", "Item", "Sentence"],
        "NoteStruct" => &["NoteStructTitle", "Remarks", "Note"],
        "StyleStruct" => &["StyleStructTitle", "Remarks", "Style"],
        "FormatStruct" => &["FormatStructTitle", "Remarks", "Format"],
        "FigStruct" => &["FigStructTitle", "Remarks", "Fig"],
        "TableStruct" => &["TableStructTitle", "Remarks", "Table"],
        "Table" => &["TableHeaderRow", "TableRow"],
        "TableHeaderRow" => &["TableHeaderColumn"],
        "TableRow" => &["TableColumn"],
        "TableColumn" => &[
            "Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item", "Subitem1", "Subitem2", "Subitem3",
            "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10", "FigStruct", "Sentence", "Remarks", "Column",
        ],
        "TOC" => &["TOCLabel", "TOCPreambleLabel", "TOCPart", "TOCChapter", "TOCSection", "TOCArticle", "TOCSupplProvision", "TOCAppdxTableLabel"],
        "TOCPart" => &["PartTitle", "ArticleRange", "TOCChapter"],
        "TOCChapter" => &["ChapterTitle", "ArticleRange", "TOCSection"],
        "TOCSection" => &["SectionTitle", "ArticleRange", "TOCSubsection", "TOCDivision"],
        "TOCSubsection" => &["SubsectionTitle", "ArticleRange", "TOCDivision"],
        "TOCDivision" => &["DivisionTitle", "ArticleRange"],
        "TOCArticle" => &["ArticleTitle", "ArticleCaption"],
        "TOCSupplProvision" => &["SupplProvisionLabel", "ArticleRange", "TOCArticle", "TOCChapter"],
        "SupplProvision" => &[
            "SupplProvisionLabel", "Chapter", "Article", "Paragraph", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx",
        ],
        "AppdxTable" => &["AppdxTableTitle", "RelatedArticleNum", "TableStruct", "Item", "Remarks"],
        "AppdxNote" => &["AppdxNoteTitle", "RelatedArticleNum", "NoteStruct", "FigStruct", "TableStruct", "Remarks"],
        "AppdxStyle" => &["AppdxStyleTitle", "RelatedArticleNum", "StyleStruct", "Remarks"],
        "AppdxFormat" => &["AppdxFormatTitle", "RelatedArticleNum", "FormatStruct", "Remarks"],
        "Appdx" => &["ArithFormulaNum", "RelatedArticleNum", "ArithFormula", "Remarks"],
        "AppdxFig" => &["AppdxFigTitle", "RelatedArticleNum", "FigStruct", "TableStruct"],
        "SupplProvisionAppdxTable" => &["SupplProvisionAppdxTableTitle", "RelatedArticleNum", "TableStruct"],
        "SupplProvisionAppdxStyle" => &["SupplProvisionAppdxStyleTitle", "RelatedArticleNum", "StyleStruct"],
        "SupplProvisionAppdx" => &["ArithFormulaNum", "RelatedArticleNum", "ArithFormula"],
        _ => &[],
    };
    if !s.is_empty() {
        return Some(s.to_vec());
    }
    if item_part(name, "Sentence") || name == "ClassSentence" {
        return Some(vec!["Sentence", "Column", "Table"]);
    }
    let i = level(name)?;
    let mut v: Vec<&'static str> = vec!["TableStruct", "FigStruct", "StyleStruct", "List"];
    v.push(["ItemTitle", "Subitem1Title", "Subitem2Title", "Subitem3Title", "Subitem4Title", "Subitem5Title", "Subitem6Title", "Subitem7Title",
        "Subitem8Title", "Subitem9Title", "Subitem10Title"][i]);
    v.push(SENTENCE_OF[i]);
    if i < 10 {
        v.push(SUBS[i + 1]);
    }
    Some(v)
}
const SENTENCE_OF: [&str; 11] = [
    "ItemSentence", "Subitem1Sentence", "Subitem2Sentence", "Subitem3Sentence", "Subitem4Sentence", "Subitem5Sentence", "Subitem6Sentence",
    "Subitem7Sentence", "Subitem8Sentence", "Subitem9Sentence", "Subitem10Sentence",
];
fn required_children(name: &str) -> Vec<&'static str> {
    if let Some(i) = level(name) {
        return vec![SENTENCE_OF[i]];
    }
    match name {
        "Law" => vec!["LawNum", "LawBody"],
        "LawBody" => vec!["MainProvision"],
        "Part" | "TOCPart" => vec!["PartTitle"],
        "Chapter" | "TOCChapter" => vec!["ChapterTitle"],
        "Section" | "TOCSection" => vec!["SectionTitle"],
        "Subsection" | "TOCSubsection" => vec!["SubsectionTitle"],
        "Division" | "TOCDivision" => vec!["DivisionTitle"],
        "Article" => vec!["ArticleTitle"],
        "Paragraph" => vec!["ParagraphNum", "ParagraphSentence"],
        "AmendProvisionSentence" => vec!["Sentence"],
        "Class" => vec!["ClassSentence"],
        "List" => vec!["ListSentence"],
        "Sublist1" => vec!["Sublist1Sentence"],
        "Sublist2" => vec!["Sublist2Sentence"],
        "Sublist3" => vec!["Sublist3Sentence"],
        "Remarks" => vec!["RemarksLabel"],
        "NoteStruct" => vec!["Note"],
        "StyleStruct" => vec!["Style"],
        "FormatStruct" => vec!["Format"],
        "FigStruct" => vec!["Fig"],
        "TableStruct" => vec!["Table"],
        "TOCArticle" => vec!["ArticleTitle", "ArticleCaption"],
        // the label of a supplementary provision itself may be left out when empty
        "TOCSupplProvision" => vec!["SupplProvisionLabel"],
        "SupplProvisionAppdxTable" => vec!["SupplProvisionAppdxTableTitle"],
        "SupplProvisionAppdxStyle" => vec!["SupplProvisionAppdxStyleTitle"],
        _ => vec![],
    }
}
fn required_attrs(name: &str) -> &'static [&'static str] {
    match name {
        "Law" => &["Era", "Year", "Num", "LawType", "Lang"],
        "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" | "Paragraph" | "Class" | "TOCPart" | "TOCChapter" | "TOCSection"
        | "TOCSubsection" | "TOCDivision" | "TOCArticle" => &["Num"],
        "Fig" => &["src"],
        n if level(n).is_some() => &["Num"],
        _ => &[],
    }
}
/// (attribute, values outside its type); the attribute need not be present
fn bad_values(name: &str) -> Vec<(&'static str, &'static [&'static str])> {
    const BOOL: &[&str] = &["yes", "TRUE", "True", "2", "", "真", "false false"];
    const INT: &[&str] = &["x", "-1", "1.5", "一", "１", "1x", "0x1", "99999999999999999999999"];
    const KEY: &[&str] = &["第一条", "1-2", "_1", "1_", "a", "", "1__2", "1:", ":1", "一", "１", "1_x", "1:2:3", "1 2", "1_-2", "99999999999999999999999"];
    let mut v: Vec<(&'static str, &'static [&'static str])> = vec![];
    match name {
        "Law" => v.extend([
            ("Era", &["Shouwa", "showa", "", "昭和", "Keio"] as &[&str]),
            ("LawType", &["act", "", "Law", "ActX"]),
            ("Lang", &["jp", "", "JA", "ja-JP"]),
            ("Year", INT),
            ("Year", &[""]),
            ("PromulgateMonth", INT),
            ("PromulgateDay", INT),
            ("Num", &["第一条", "1-2", "_1", "1_", "a", "1__2", "1:", ":1", "一", "1_x", "1 2"]),
        ]),
        "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" => {
            v.extend([("Num", KEY), ("Delete", BOOL), ("Hide", BOOL)])
        }
        "TOCPart" | "TOCChapter" | "TOCSection" | "TOCSubsection" | "TOCDivision" | "TOCArticle" => v.extend([("Num", KEY), ("Delete", BOOL)]),
        "Paragraph" => v.extend([("Num", KEY), ("OldStyle", BOOL), ("OldNum", BOOL), ("Hide", BOOL)]),
        "Sentence" => v.extend([("Num", INT), ("Function", &["Main", "", "x"]), ("Indent", &["paragraph", "Subitem11", "Subitem", ""])]),
        "Column" => v.extend([("Num", INT), ("LineBreak", BOOL)]),
        "ArithFormula" => v.push(("Num", INT)),
        "Line" => v.push(("Style", &["Solid", "dashed", ""])),
        "RemarksLabel" => v.push(("LineBreak", BOOL)),
        "ArticleCaption" | "ParagraphCaption" => v.push(("CommonCaption", BOOL)),
        "MainProvision" => v.push(("Extract", BOOL)),
        "SupplProvision" => v.extend([("Extract", BOOL), ("Type", &["new", "Amended", ""])]),
        n if level(n).is_some() => v.extend([("Delete", BOOL), ("Hide", BOOL)]),
        _ => (),
    }
    v
}

/// the values of an attribute with a closed list of values
fn closed_list(name: &str, attr: &str) -> Option<&'static [&'static str]> {
    Some(match (name, attr) {
        ("Law", "Era") => &["Meiji", "Taisho", "Showa", "Heisei", "Reiwa"],
        ("Law", "LawType") => &["Constitution", "Act", "CabinetOrder", "ImperialOrder", "MinisterialOrdinance", "Rule", "Misc"],
        ("Law", "Lang") => &["ja", "en"],
        ("Sentence", "Function") => &["main", "proviso"],
        ("Sentence", "Indent") => &[
            "Paragraph", "Item", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10",
        ],
        ("Line", "Style") => &["dotted", "double", "none", "solid"],
        ("SupplProvision", "Type") => &["New", "Amend"],
        (_, "Delete" | "Hide" | "OldStyle" | "OldNum" | "LineBreak" | "CommonCaption" | "Extract") => &["true", "false", "1", "0"],
        _ => return None,
    })
}
/// A value one or two edits away from a good one, and not good itself. White space and signs are
/// not added: XML Schema collapses and allows them for some types.
fn near_miss(name: &str, attr: &str, t: &mut Tape) -> Option<String> {
    let list = closed_list(name, attr);
    let number = matches!(attr, "Year" | "PromulgateMonth" | "PromulgateDay") || matches!((name, attr), ("Sentence" | "Column" | "ArithFormula", "Num"));
    let good = match list {
        Some(l) => t.pick(l).to_string(),
        None if number => [t.below(10), t.below(3000), t.raw() as usize][t.below(3)].to_string(),
        None if attr == "Num" => refw::key(&crate::gen::number(t)),
        None => return None,
    };
    let mut s: Vec<char> = good.chars().collect();
    for _ in 0..1 + t.below(2) {
        let i = t.below(s.len() + 1);
        let c = match t.below(5) {
            0 => (b'a' + t.below(26) as u8) as char,
            1 => (b'A' + t.below(26) as u8) as char,
            2 => ['_', ':', '.', ',', ';', '/', '#', '（', '　', '一', '１', 'ａ', 'é', '\u{200b}', '😀', '0', '2', 'の', '*', '\u{a0}'][t.below(20)],
            3 => (b'0' + t.below(10) as u8) as char,
            _ => match strs::any_char(t) {
                '\n' | '\t' | ' ' | '+' | '-' => '条',
                c => c,
            },
        };
        match t.below(6) {
            0 | 1 => s.insert(i, c),
            2 if i < s.len() => s[i] = c,
            3 if i < s.len() => {
                s.remove(i);
            }
            4 if i < s.len() => s[i] = if s[i].is_ascii_lowercase() { s[i].to_ascii_uppercase() } else { s[i].to_ascii_lowercase() },
            5 => {
                let other = match list {
                    Some(l) => t.pick(l).to_string(),
                    None => good.clone(),
                };
                s.extend(other.chars())
            }
            _ => (),
        }
    }
    let s: String = s.into_iter().collect();
    let bad = match list {
        Some(l) => !l.contains(&s.as_str()),
        None if number => s.is_empty() || s.parse::<usize>().is_err(),
        None => matches!(crate::refnum::parse_key(&s), crate::refnum::Answer::No),
    };
    // some readers take an absent value for an empty one
    if bad && !s.is_empty() {
        Some(s)
    } else {
        None
    }
}

// ---------------------------------------------------------------- defects

#[derive(Clone, Debug)]
enum Defect {
    NoAttr(&'static str),
    BadAttr(&'static str, &'static [&'static str]),
    NoChild(&'static str),
    BadChild,
    Rename,
}
struct Site {
    path: Vec<usize>,
    defect: Defect,
    name: String,
    /// below an element whose content is text and inline mark-up
    in_text: bool,
}
fn sites(n: &XNode, path: &mut Vec<usize>, in_text: bool, out: &mut Vec<Site>) {
    let mut add = |d: Defect| out.push(Site { path: path.clone(), defect: d, name: n.name.clone(), in_text });
    for a in required_attrs(&n.name) {
        if n.get(a).is_some() {
            add(Defect::NoAttr(a))
        }
    }
    for (a, v) in bad_values(&n.name) {
        add(Defect::BadAttr(a, v))
    }
    for c in required_children(&n.name) {
        if n.kids.iter().any(|k| matches!(k, Kid::E(e) if e.name == c)) {
            add(Defect::NoChild(c))
        }
    }
    add(Defect::BadChild);
    if path.is_empty() {
        add(Defect::Rename);
    }
    // inline elements inside a sentence also hold text only
    let deeper = in_text || text_only(&n.name);
    for (i, k) in n.kids.iter().enumerate() {
        if let Kid::E(e) = k {
            path.push(i);
            sites(e, path, deeper, out);
            path.pop();
        }
    }
}
fn at<'a>(n: &'a mut XNode, path: &[usize]) -> &'a mut XNode {
    match path.split_first() {
        None => n,
        Some((i, rest)) => match &mut n.kids[*i] {
            Kid::E(e) => at(e, rest),
            _ => unreachable!(),
        },
    }
}
fn all_elements<'a>(n: &'a XNode, out: &mut Vec<&'a XNode>) {
    out.push(n);
    for k in &n.kids {
        if let Kid::E(e) = k {
            all_elements(e, out)
        }
    }
}
const STRANGE: [&str; 12] = ["Xyz", "p", "Articles", "article", "Subitem11", "Sublist4", "TOCItem", "Law", "Sublist3", "Rt", "TableHeaderColumn", "LawNum"];

fn misplaced(tree: &XNode, parent: &str, t: &mut Tape) -> XNode {
    let not_here: Vec<&'static str> = match allowed(parent) {
        Some(v) => v,
        None if parent == "Ruby" => vec!["Rt", "Ruby", "Line", "Sup", "Sub"],
        None => INLINE.to_vec(),
    };
    if !any_content(parent) && t.chance(1, 2) {
        let mut all = vec![];
        all_elements(tree, &mut all);
        all.retain(|e| !not_here.contains(&e.name.as_str()) && e.name != "Law" && e.count() < 60);
        if !all.is_empty() {
            return (*t.pick(&all)).clone();
        }
    }
    let mut e = XNode::new("Xyz");
    loop {
        let n = *t.pick(&STRANGE);
        if any_content(parent) && !["Xyz", "p", "Articles", "article", "Subitem11", "Sublist4", "TOCItem"].contains(&n) {
            break;
        }
        if !not_here.contains(&n) {
            e.name = n.to_string();
            break;
        }
    }
    if t.flip() {
        e.attr("Num", "1");
    }
    if t.flip() {
        e.text("余分な内容");
    }
    e
}

fn c06(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(200);
    let law = {
        let mut g = G::new(t);
        g.fuel = g.fuel.min(90);
        g.law()
    };
    c06_tree(&mut Tape::new(&words), &refw::law(&law), rec)
}
/// the defect among very many of the same kind
fn c06_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(200);
    let (_, tree, w) = wide::wide_tree(t, 3000);
    crate::checks_xml::wide_labels(&w, rec);
    c06_tree(&mut Tape::new(&words), &tree, rec)
}
fn c06_tree(t: &mut Tape, tree: &XNode, rec: &mut Rec) -> Result<(), String> {
    let mut list = vec![];
    sites(tree, &mut vec![], false, &mut list);
    // a kind of defect first, then the element it is done to, so that rare elements get their share
    let class = |s: &Site| -> (usize, String, &'static str) {
        match &s.defect {
            Defect::NoAttr(a) => (0, s.name.clone(), *a),
            Defect::BadAttr(a, _) => (1, s.name.clone(), *a),
            Defect::NoChild(c) => (2, s.name.clone(), *c),
            Defect::BadChild => (3, s.name.clone(), ""),
            Defect::Rename => (4, String::new(), ""),
        }
    };
    let k = t.weighted(&[3, 4, 4, 6, 1]);
    // most of the time at a place the reader validates
    let text_too = t.chance(1, 16);
    let outside = |s: &&Site| text_too || !(s.in_text || (matches!(s.defect, Defect::BadChild) && text_only(&s.name)));
    let mut kinds: Vec<_> = list.iter().filter(|s| class(s).0 == k).filter(outside).map(class).collect();
    kinds.sort();
    kinds.dedup();
    if kinds.is_empty() {
        return Ok(());
    }
    let kind = t.pick(&kinds).clone();
    let pick: Vec<&Site> = list.iter().filter(|s| class(s) == kind).filter(outside).collect();
    let s = *t.pick(&pick);
    let mut bad = tree.clone();
    let culprit;
    let what;
    match &s.defect {
        Defect::NoAttr(a) => {
            at(&mut bad, &s.path).attrs.retain(|(k, _)| k != a);
            what = format!("<{}> without its required attribute {a}", s.name);
            culprit = a.to_string();
            rec.label("missing attribute");
        }
        Defect::BadAttr(a, vs) => {
            let value = match if t.flip() { near_miss(&s.name, a, t) } else { None } {
                Some(v) => {
                    rec.label("nearly a good value");
                    v
                }
                None => t.pick(vs).to_string(),
            };
            let e = at(&mut bad, &s.path);
            e.attrs.retain(|(k, _)| k != a);
            e.attr(a, value.clone());
            what = format!("<{} {a}={value:?}>", s.name);
            culprit = a.to_string();
            rec.label("malformed attribute");
        }
        Defect::NoChild(c) => {
            at(&mut bad, &s.path).kids.retain(|k| !matches!(k, Kid::E(e) if e.name == *c));
            what = format!("<{}> without its required <{c}>", s.name);
            culprit = c.to_string();
            rec.label("missing element");
        }
        Defect::BadChild => {
            let m = misplaced(tree, &s.name, t);
            let e = at(&mut bad, &s.path);
            let i = t.below(e.kids.len() + 1);
            what = format!("<{}> inside <{}>", m.name, s.name);
            culprit = m.name.clone();
            // keep text runs apart from each other only where an element already separates them
            e.kids.insert(i, Kid::E(m));
            rec.label(if text_only(&s.name) { "misplaced element in text" } else { "misplaced element" });
        }
        Defect::Rename => {
            let n = ["law", "LawBody", "Laws", "Article", "html"][t.below(5)];
            bad.name = n.to_string();
            what = format!("root element <{n}>");
            culprit = n.to_string();
            rec.label("wrong root");
        }
    }
    let in_text = s.in_text || (matches!(s.defect, Defect::BadChild) && text_only(&s.name));
    rec.label_if(in_text, "inside text");
    let xml = xnode::plain(&bad);
    rec.key(&xml);
    rec.nontrivial = true;
    rec.show(|| format!("defect: {what}\n{xml}"));
    rec.sample(|| format!("defect: {what}\n{xml}"));
    match lib("parse_xml", || parse_xml(xml.as_bytes()))? {
        Ok(got) => {
            let msg = format!("accepted although the document has {what}");
            if in_text {
                // the listed finding: what is wrong inside text is left out, nothing else changes
                let seen = xnode::normalise(&refw::law(&got));
                if without_culprit(tree, &bad, s).iter().any(|w| xnode::normalise(w) == seen) {
                    return Err(finding("inline-text", msg));
                }
                return Err(format!("{msg}, and more is lost than the culprit: {}", xnode::diff(&xnode::normalise(tree), &seen, "").unwrap_or_default()));
            }
            Err(msg)
        }
        Err(e) => names(&e, s, &culprit).map_err(|m| format!("document with {what}: {m}")),
    }
}
/// What a reader that leaves out the culprit inside text reads.
fn without_culprit(tree: &XNode, bad: &XNode, s: &Site) -> Vec<XNode> {
    let mut v = vec![];
    let mut names = vec![tree.name.clone()];
    let mut n = tree;
    for p in &s.path {
        let Kid::E(e) = &n.kids[*p] else { return v };
        n = e;
        names.push(n.name.clone());
    }
    if matches!(s.defect, Defect::BadChild) && text_only(&s.name) {
        v.push(tree.clone());
        // of a superscript or subscript, only the text that comes first is kept
        if matches!(s.name.as_str(), "Sup" | "Sub") {
            let mut w = bad.clone();
            let e = at(&mut w, &s.path);
            e.kids = match e.kids.first().cloned() {
                Some(Kid::T(t)) => vec![Kid::T(t)],
                _ => vec![],
            };
            v.push(w);
        }
    }
    // a damaged line inside text goes as a whole
    for i in (1..names.len()).rev() {
        if names[i] == "Line" && text_only(&names[i - 1]) {
            let mut w = tree.clone();
            at(&mut w, &s.path[..i - 1]).kids.remove(s.path[i - 1]);
            v.push(w);
            break;
        }
    }
    v
}

fn names(e: &Error, s: &Site, culprit: &str) -> Result<(), String> {
    let text = e.to_string();
    let ok = match (&s.defect, e) {
        (Defect::NoAttr(_), Error::MissingRequiredAttribute { tag_name, attribute_name })
        | (Defect::NoAttr("Era" | "LawType" | "Lang"), Error::AttributeParseError { tag_name, attribute_name })
        | (Defect::BadAttr(..), Error::AttributeParseError { tag_name, attribute_name }) => *tag_name == s.name && attribute_name == culprit,
        (Defect::NoChild(_), Error::MissingRequiredTag { tag_name }) => {
            tag_name == culprit || (culprit.ends_with("Sentence") && tag_name.starts_with("Sentence or Column"))
                || (culprit == "Sentence" && tag_name == "AmendProvision")
        }
        // readers that expect a certain child first name what they found and what they expected
        (Defect::NoChild(_), Error::UnexpectedTag { tag, .. }) => tag == culprit,
        (Defect::NoChild(_), Error::WrongTagName { expected_name, .. }) => expected_name == culprit,
        (Defect::BadChild, Error::UnexpectedTag { wrong_name, .. } | Error::WrongTagName { wrong_name, .. }) => wrong_name == culprit,
        (Defect::BadChild, Error::MissingRequiredTag { tag_name }) => required_children(&s.name).contains(&tag_name.as_str()),
        (Defect::Rename, Error::WrongTagName { wrong_name, expected_name }) => wrong_name == culprit && expected_name == "Law",
        _ => false,
    };
    if ok && !matches!(e, Error::MissingRequiredTag { .. }) {
        // the message shows what the value says
        if !text.contains(culprit) {
            return Err(format!("the error message does not name {culprit}: {text}"));
        }
    }
    if ok {
        Ok(())
    } else {
        Err(format!("the error neither fits nor names {culprit}: {e:?}"))
    }
}

// ---------------------------------------------------------------- C05

fn total(bytes: &[u8], rec: &mut Rec) -> Result<(), String> {
    match lib("parse_xml", || parse_xml(bytes))? {
        Ok(_) => rec.label("read"),
        Err(Error::XMLParsing) => rec.label("not well-formed"),
        Err(_) => rec.label("rejected"),
    }
    Ok(())
}

const BITS: &[&str] = &[
    "<", ">", "</", "/>", "<Law", "<Law>", "</Law>", "<LawNum>", "</LawNum>", "<LawNum/>", "<LawBody>", "</LawBody>", "<MainProvision>",
    "</MainProvision>", "<MainProvision/>", "<Article", " Num=\"1\"", " Num=\"\"", " Num='1_2:3'", " Era=\"Showa\"", " Year=\"1\"", " Lang=\"ja\"",
    " LawType=\"Act\"", " ", "\n", "=", "\"", "'", "&", "&amp;", "&#x0;", "&#1114112;", "&bogus;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml ",
    "version=\"1.0\"", "encoding=\"Shift_JIS\"", "encoding=\"UTF-16\"", "?>", "<!DOCTYPE Law [", "<!ENTITY a \"b\">", "]>", "xmlns=\"u\"", "x:",
    "第一条", "\u{feff}", "\u{0}", "Sentence", "<Sentence>", "</Sentence>", "<Table>", "<List>", "</List>", "<Ruby>", "<Rt>", "<Sup/>",
];
fn c05_bytes(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut b: Vec<u8> = vec![];
    let n = 1 + t.below(60);
    for _ in 0..n {
        match t.weighted(&[8, 2, 2, 1]) {
            0 => b.extend(t.pick(BITS).as_bytes()),
            1 => b.push(t.below(256) as u8),
            2 => b.extend(strs::text(t).as_bytes()),
            _ => {
                let k = b"<Law Era=\"Showa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>";
                b.extend(k)
            }
        }
        if t.exhausted() {
            break;
        }
    }
    rec.key(&b);
    rec.nontrivial = b.len() >= 8;
    rec.show(|| format!("{b:?}\n{}", String::from_utf8_lossy(&b)));
    rec.sample(|| String::from_utf8_lossy(&b).to_string());
    total(&b, rec)
}

pub fn mutate_tree(n: &mut XNode, pool: &[XNode], t: &mut Tape) {
    let mut paths = vec![];
    fn walk(n: &XNode, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(p.clone());
        for (i, k) in n.kids.iter().enumerate() {
            if let Kid::E(e) = k {
                p.push(i);
                walk(e, p, out);
                p.pop();
            }
        }
    }
    walk(n, &mut vec![], &mut paths);
    let p = t.pick(&paths).clone();
    let e = at(n, &p);
    const VALUES: [&str; 22] = [
        "", "0", "1", "-1", "18446744073709551615", "18446744073709551616", "1_2", "1:2", "_", ":", "1_", "1:", "1_2:3_4", "a", "第一条", "true", "TRUE",
        "solid", "🈁", " 1 ", "１", "1:2:3",
    ];
    match t.below(13) {
        0 if !e.attrs.is_empty() => {
            let i = t.below(e.attrs.len());
            e.attrs.remove(i);
        }
        1 if !e.attrs.is_empty() => {
            let i = t.below(e.attrs.len());
            e.attrs[i].1 = t.pick(&VALUES).to_string();
        }
        2 if !e.attrs.is_empty() => {
            let i = t.below(e.attrs.len());
            e.attrs[i].1 = strs::attr(t);
        }
        3 => {
            let k = ["Num", "Delete", "Style", "Align", "Type", "Function", "Era", "Extra", "WritingMode", "rowspan"][t.below(10)];
            if e.get(k).is_none() {
                e.attr(k, t.pick(&VALUES).to_string());
            }
        }
        4 => e.kids.clear(),
        5 if !e.kids.is_empty() => {
            let i = t.below(e.kids.len());
            e.kids.remove(i);
        }
        6 if !e.kids.is_empty() => {
            let i = t.below(e.kids.len());
            let k = e.kids[i].clone();
            e.kids.insert(i, k);
        }
        7 if e.kids.len() > 1 => {
            let i = t.below(e.kids.len());
            let j = t.below(e.kids.len());
            e.kids.swap(i, j);
        }
        8 => {
            let i = t.below(e.kids.len() + 1);
            e.kids.insert(i, Kid::E(t.pick(pool).clone()));
        }
        9 => {
            let i = t.below(e.kids.len() + 1);
            e.kids.insert(i, Kid::T(strs::text(t)));
        }
        10 => e.name = t.pick(pool).name.clone(),
        11 => {
            // hoist: replace by its own children
            let kids = std::mem::take(&mut e.kids);
            if let Some(Kid::E(k)) = kids.into_iter().find(|k| matches!(k, Kid::E(_))) {
                *e = k
            }
        }
        _ => *e = t.pick(pool).clone(),
    }
}

fn c05_tree(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(3000);
    let law = {
        let mut g = G::new(t);
        g.fuel = g.fuel.min(60);
        g.law()
    };
    damaged(&mut Tape::new(&words), refw::law(&law), rec)
}
fn c05_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(3000);
    let (_, tree, w) = wide::wide_tree(t, 70000);
    crate::checks_xml::wide_labels(&w, rec);
    damaged(&mut Tape::new(&words), tree, rec)
}
fn damaged(t: &mut Tape, mut tree: XNode, rec: &mut Rec) -> Result<(), String> {
    let pool: Vec<XNode> = {
        let mut all = vec![];
        all_elements(&tree, &mut all);
        all.into_iter().filter(|e| e.count() < 40).cloned().collect()
    };
    if pool.is_empty() {
        return Ok(());
    }
    let n = t.weighted(&[1, 6, 5, 4, 3]);
    for _ in 0..n {
        mutate_tree(&mut tree, &pool, t);
    }
    let mut b = if t.flip() {
        xnode::plain(&tree).into_bytes()
    } else {
        xnode::varied(&tree, t, 8, &mut Spelling::default())
    };
    // byte level
    if t.chance(1, 3) && !b.is_empty() {
        for _ in 0..1 + t.below(3) {
            let i = t.below(b.len());
            match t.below(6) {
                0 => b.truncate(i),
                1 => b[i] = t.below(256) as u8,
                2 => {
                    b.remove(i);
                }
                3 => {
                    let s = t.pick(BITS).as_bytes().to_vec();
                    b.splice(i..i, s);
                }
                4 => {
                    let j = (i + t.below(200)).min(b.len());
                    b.drain(i..j);
                }
                _ => {
                    let j = (i + t.below(200)).min(b.len());
                    let s = b[i..j].to_vec();
                    b.splice(i..i, s);
                }
            }
            if b.is_empty() {
                break;
            }
        }
    }
    rec.key(&b);
    rec.nontrivial = n > 0;
    rec.show(|| String::from_utf8_lossy(&b).to_string());
    rec.sample(|| String::from_utf8_lossy(&b).to_string());
    total(&b, rec)
}

/// Every element with nothing in it, and every element directly below every other.
fn c05_pairs(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let n = NAMES.len();
    let i = t.raw() as usize;
    let variant = i % 4;
    let (a, b) = ((i / 4) % n, (i / 4 / n) % n);
    let attrs = if variant & 1 == 0 { "" } else { " Num=\"1\" src=\"a\" Style=\"solid\"" };
    let inner = format!("<{b}{attrs}>{}</{b}>", if variant & 2 == 0 { "" } else { "文" }, b = NAMES[b]);
    // put `a` where the reader gets to it
    let body = wrap(NAMES[a], &format!("<{a}{attrs}>{inner}</{a}>", a = NAMES[a]));
    let xml = format!("<Law Era=\"Showa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody>{body}</LawBody></Law>");
    rec.key(&xml);
    rec.nontrivial = true;
    rec.show(|| xml.clone());
    total(xml.as_bytes(), rec)
}
const DAMAGE: [&str; 54] = [
    "", " ", "　", "é", "条", "😀", "1é", "é1", "1条", "条1", "12条", "1:é", "1:", ":é", ":", "::", "1::2", "_", "__", "1_é", "é_1", "1_:2", "_:_", "1:2_", "1:_2", "0", "00", "007", "-",
    "-1", "+", "+1", "1.5", "1e9", "255", "256", "65535", "65536", "2147483648", "4294967295", "4294967296", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "１", "①", "Ⅳ", "true", "TRUE", "１２", "\u{0301}", "a\u{0301}",
    "99999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999",
];
const ATTRS: [&str; 34] = [
    "Num", "Delete", "Hide", "OldStyle", "OldNum", "Style", "Align", "Type", "Function", "Indent", "WritingMode", "LineBreak", "CommonCaption", "Extract",
    "AmendLawNum", "BorderTop", "BorderBottom", "BorderLeft", "BorderRight", "rowspan", "colspan", "Valign", "src", "Kana", "Abbrev", "AbbrevKana",
    "Year", "Era", "Lang", "LawType", "PromulgateMonth", "PromulgateDay", "Title", "Unknown",
];
/// the least an element of that name may hold
fn least(name: &str, attr: Option<(&str, &str)>, out: &mut String, depth: usize) {
    out.push('<');
    out.push_str(name);
    for a in required_attrs(name) {
        if attr.map(|x| x.0) != Some(a) {
            out.push_str(&format!(" {a}=\"1\""));
        }
    }
    if let Some((a, v)) = attr {
        out.push_str(&format!(" {a}=\"{v}\""));
    }
    out.push('>');
    if depth < 5 {
        for c in required_children(name) {
            least(c, None, out, depth + 1);
        }
    }
    out.push_str(&format!("</{name}>"));
}
/// Every attribute of every element with every kind of damaged value.
fn c05_attrs(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let i = t.raw() as usize;
    let (v, i) = (DAMAGE[i % DAMAGE.len()], i / DAMAGE.len());
    let (a, i) = (ATTRS[i % ATTRS.len()], i / ATTRS.len());
    let name = if i < NAMES.len() { NAMES[i] } else { "Law" };
    let head = [("Era", "Showa"), ("Year", "1"), ("Num", "1"), ("LawType", "Act"), ("Lang", "ja")];
    let mut law = "<Law".to_string();
    for (k, w) in head {
        law += &format!(" {k}=\"{}\"", if name == "Law" && k == a { v } else { w });
    }
    let mut body = String::new();
    if name == "Law" {
        if !head.iter().any(|h| h.0 == a) {
            law += &format!(" {a}=\"{v}\"");
        }
        body.push_str("<MainProvision/>");
    } else {
        least(name, Some((a, v)), &mut body, 0);
        body = wrap(name, &body);
    }
    let xml = format!("{law}><LawNum>x</LawNum><LawBody>{body}</LawBody></Law>");
    rec.key(&xml);
    rec.nontrivial = true;
    rec.show(|| xml.clone());
    rec.sample(|| xml.clone());
    total(xml.as_bytes(), rec)
}
const NAMES: &[&str] = &[
    "LawTitle", "EnactStatement", "TOC", "Preamble", "MainProvision", "SupplProvision", "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx", "AppdxFig",
    "AppdxFormat", "Part", "PartTitle", "Chapter", "ChapterTitle", "Section", "SectionTitle", "Subsection", "SubsectionTitle", "Division",
    "DivisionTitle", "Article", "ArticleCaption", "ArticleTitle", "SupplNote", "Paragraph", "ParagraphNum", "ParagraphSentence", "AmendProvision",
    "AmendProvisionSentence", "NewProvision", "Class", "ClassSentence", "Item", "ItemTitle", "ItemSentence", "Subitem1", "Subitem1Sentence", "Subitem2",
    "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10", "Subitem10Sentence", "Sentence", "Column", "Line",
    "Ruby", "Rt", "Sup", "Sub", "List", "ListSentence", "Sublist1", "Sublist1Sentence", "Sublist2", "Sublist2Sentence", "Sublist3",
    "Sublist3Sentence", "Table", "TableHeaderRow", "TableHeaderColumn", "TableRow", "TableColumn", "TableStruct", "TableStructTitle", "Fig",
    "FigStruct", "NoteStruct", "Note", "StyleStruct", "Style", "FormatStruct", "Format", "QuoteStruct", "ArithFormula", "Remarks", "RemarksLabel",
    "TOCPart", "TOCChapter", "TOCSection", "TOCSubsection", "TOCDivision", "TOCArticle", "TOCSupplProvision", "SupplProvisionLabel",
    "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx", "RelatedArticleNum", "ArithFormulaNum", "LawBody", "LawNum",
];
/// a path of elements from LawBody down to where `name` may stand
fn wrap(name: &str, inner: &str) -> String {
    let p = |s: &str| format!("<MainProvision><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence>{s}</ParagraphSentence></Paragraph></MainProvision>");
    let np = |s: &str| {
        format!("<MainProvision><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence/><AmendProvision><NewProvision>{s}</NewProvision></AmendProvision></Paragraph></MainProvision>")
    };
    match name {
        "LawTitle" | "EnactStatement" | "TOC" | "Preamble" | "SupplProvision" | "AppdxTable" | "AppdxNote" | "AppdxStyle" | "Appdx" | "AppdxFig"
        | "AppdxFormat" => format!("{inner}<MainProvision/>"),
        "MainProvision" => inner.to_string(),
        "Sentence" => p(inner),
        "Line" | "Ruby" | "Sup" | "Sub" | "QuoteStruct" | "ArithFormula" => p(&format!("<Sentence>{inner}</Sentence>")),
        "TOCPart" | "TOCChapter" | "TOCSection" | "TOCArticle" | "TOCSupplProvision" => format!("<TOC>{inner}</TOC><MainProvision/>"),
        "TOCSubsection" | "TOCDivision" => format!("<TOC><TOCSection Num=\"1\"><SectionTitle/>{inner}</TOCSection></TOC><MainProvision/>"),
        "Class" | "List" => format!("<MainProvision><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence/>{inner}</Paragraph></MainProvision>"),
        "Sublist1" => np(&format!("<List><ListSentence/>{inner}</List>")),
        "Sublist2" => np(&format!("<List><ListSentence/><Sublist1><Sublist1Sentence/>{inner}</Sublist1></List>")),
        "Table" | "Note" | "Style" | "Format" | "Fig" => np(&format!("<{name}Struct>{inner}</{name}Struct>")),
        "Column" => np(&format!("<TableColumn>{inner}</TableColumn>")),
        "AmendProvisionSentence" | "NewProvision" => np(&format!("<AmendProvision>{inner}</AmendProvision>")),
        "ClassSentence" => np(&format!("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence/><Class Num=\"1\">{inner}</Class></Paragraph>")),
        "ItemSentence" | "ItemTitle" => np(&format!("<Item Num=\"1\">{inner}</Item>")),
        "Subitem1Sentence" => np(&format!("<Subitem1 Num=\"1\">{inner}</Subitem1>")),
        "Subitem10Sentence" => np(&format!("<Subitem10 Num=\"1\">{inner}</Subitem10>")),
        "ListSentence" => np(&format!("<List>{inner}</List>")),
        "TableHeaderRow" => np(&format!("<TableStruct><Table>{inner}</Table></TableStruct>")),
        "ParagraphSentence" | "ParagraphNum" => np(&format!("<Paragraph Num=\"1\">{inner}</Paragraph>")),
        "SupplProvisionLabel" => format!("<MainProvision/><SupplProvision>{inner}</SupplProvision>"),
        "LawBody" => np(inner),
        _ => np(inner),
    }
}

pub fn check(id: &str) -> Option<Check> {
    let ph = |name, quick, thorough, sizes, case| Phase { name, gen: Gen::Random { quick, thorough, sizes }, case, workers: WORKERS };
    const S: &[(usize, u32)] = &[(40, 2), (200, 4), (800, 3)];
    let pairs = NAMES.len() * NAMES.len() * 4;
    Some(match id {
        "C05" => Check {
            id: "C05",
            rule: "any outcome of parse_xml but a panic, an abort or no return; non-trivial: at least 8 bytes, or at least one structural mutation of a valid document; every (element, child, attributes?, text?) combination is enumerated",
            assumptions: &["element nesting depth is bounded (the generated documents nest less than 100 deep)"],
            phases: vec![
                Phase { name: "every element below every other", gen: Gen::Enumerate { quick: pairs, thorough: pairs }, case: c05_pairs, workers: WORKERS },
                Phase {
                    name: "every attribute with every damaged value",
                    gen: Gen::Enumerate { quick: DAMAGE.len() * ATTRS.len() * (NAMES.len() + 1), thorough: DAMAGE.len() * ATTRS.len() * (NAMES.len() + 1) },
                    case: c05_attrs,
                    workers: WORKERS,
                },
                ph("mutated documents", 400000, 10000000, S, c05_tree as CaseFn),
                ph("damaged wide documents", 4000, 100000, S, c05_wide as CaseFn),
                ph("byte strings", 600000, 10000000, &[(10, 1), (80, 4), (300, 2)], c05_bytes as CaseFn),
            ],
        },
        "C06" => Check {
            id: "C06",
            rule: "a valid document with one defect (missing or malformed attribute, missing or misplaced element, wrong root) drawn per element name, then the error compared with the defect; non-trivial: every case with a defect",
            assumptions: &[
                "repeated or reordered elements, stray text, unreadable item numbers and out-of-range presentational attributes are not specified",
            ],
            phases: vec![ph("one defect", 400000, 10000000, S, c06 as CaseFn), ph("one defect among many", 4000, 100000, S, c06_wide as CaseFn)],
        },
        _ => return None,
    })
}
