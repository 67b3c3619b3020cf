//! Reference writer: the law standard XML schema vocabulary, written independently
//! of the code under test.
use crate::gen::FormatStructMirror;
use crate::xnode::{Kid, XNode};
use japanese_law_xml_schema::{
    appdx::*, article::*, article_number::ArticleNumber, class::*, contents::*, fig::*, law::*, line::*, list::*, paragraph::*,
    remarks::*, sentence::*, structs::*, suppl_provision::*, table::*, table_of_contents::*, text::*,
};

pub fn key(n: &ArticleNumber) -> String {
    let mut all = vec![n.base_number];
    all.extend(&n.eda_numbers);
    let j = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_");
    if n.range_end_numbers.is_empty() {
        j(&all)
    } else {
        format!("{}:{}", j(&all), j(&n.range_end_numbers))
    }
}
fn okey(n: &Option<ArticleNumber>) -> String {
    n.as_ref().map(key).unwrap_or_default()
}

/// In mutations of spelling a writer may group several new provisions into one element.
pub fn law(l: &Law) -> XNode {
    let mut e = XNode::new("Law");
    e.attr(
        "Era",
        match l.era {
            Era::Meiji => "Meiji",
            Era::Taisho => "Taisho",
            Era::Showa => "Showa",
            Era::Heisei => "Heisei",
            Era::Reiwa => "Reiwa",
        },
    );
    e.attr("Lang", if l.lang == Lang::Ja { "ja" } else { "en" });
    e.attr(
        "LawType",
        match l.law_type {
            LawType::Constitution => "Constitution",
            LawType::Act => "Act",
            LawType::CabinetOrder => "CabinetOrder",
            LawType::ImperialOrder => "ImperialOrder",
            LawType::MinisterialOrdinance => "MinisterialOrdinance",
            LawType::Rule => "Rule",
            LawType::Misc => "Misc",
        },
    );
    e.attr("Num", okey(&l.num));
    if let Some(m) = l.promulgate_month {
        e.attr("PromulgateMonth", m.to_string());
    }
    if let Some(m) = l.promulgate_day {
        e.attr("PromulgateDay", m.to_string());
    }
    e.attr("Year", l.year.to_string());
    let mut n = XNode::new("LawNum");
    n.text(&l.law_num);
    e.push(n);
    e.push(law_body(&l.law_body));
    e
}
fn each<T>(e: &mut XNode, v: &[T], f: fn(&T) -> XNode) {
    for x in v {
        e.push(f(x))
    }
}
fn maybe<T>(e: &mut XNode, v: &Option<T>, f: impl Fn(&T) -> XNode) {
    if let Some(x) = v {
        e.push(f(x))
    }
}
fn flag(e: &mut XNode, name: &str, b: bool) {
    if b {
        e.attr(name, "true")
    }
}
fn oflag(e: &mut XNode, name: &str, b: &Option<bool>) {
    if let Some(b) = b {
        e.attr(name, if *b { "true" } else { "false" })
    }
}
fn oattr(e: &mut XNode, name: &str, s: &Option<String>) {
    if let Some(s) = s {
        e.attr(name, s.clone())
    }
}
pub fn law_body(b: &LawBody) -> XNode {
    let mut e = XNode::new("LawBody");
    oattr(&mut e, "Subject", &b.subject);
    maybe(&mut e, &b.law_title, law_title);
    for t in &b.enact_statement {
        e.push(text("EnactStatement", t));
    }
    maybe(&mut e, &b.toc, toc);
    maybe(&mut e, &b.preamble, preamble);
    e.push(main_provision(&b.main_provision));
    each(&mut e, &b.suppl_provision, suppl);
    each(&mut e, &b.appdx_table, appdx_table);
    each(&mut e, &b.appdx_note, appdx_note);
    each(&mut e, &b.appdx_style, appdx_style);
    each(&mut e, &b.appdx, appdx);
    each(&mut e, &b.appdx_fig, appdx_fig);
    each(&mut e, &b.appdx_format, appdx_format);
    e
}
fn law_title(v: &LawTitle) -> XNode {
    let mut e = text("LawTitle", &v.text);
    oattr(&mut e, "Kana", &v.kana);
    oattr(&mut e, "Abbrev", &v.abbrev);
    oattr(&mut e, "AbbrevKana", &v.abbrev_kana);
    e
}
fn preamble(v: &Preamble) -> XNode {
    let mut e = XNode::new("Preamble");
    each(&mut e, &v.children, paragraph);
    e
}
pub fn main_provision(v: &MainProvision) -> XNode {
    let mut e = XNode::new("MainProvision");
    oflag(&mut e, "Extract", &v.extract);
    for c in &v.children {
        e.push(match c {
            MainProvisionContents::Part(v) => part(v),
            MainProvisionContents::Chapter(v) => chapter(v),
            MainProvisionContents::Section(v) => section(v),
            MainProvisionContents::Article(v) => article(v),
            MainProvisionContents::Paragraph(v) => paragraph(v),
        })
    }
    e
}
fn head(name: &str, title: &str, t: &Text, num: &ArticleNumber, delete: bool, hide: bool) -> XNode {
    let mut e = XNode::new(name);
    e.attr("Num", key(num));
    flag(&mut e, "Delete", delete);
    flag(&mut e, "Hide", hide);
    e.push(text(title, t));
    e
}
pub fn part(v: &Part) -> XNode {
    let mut e = head("Part", "PartTitle", &v.part_title, &v.num, v.delete, v.hide);
    for c in &v.children {
        e.push(match c {
            PartContents::Article(v) => article(v),
            PartContents::Chapter(v) => chapter(v),
        })
    }
    e
}
pub fn chapter(v: &Chapter) -> XNode {
    let mut e = head("Chapter", "ChapterTitle", &v.chapter_title, &v.num, v.delete, v.hide);
    for c in &v.children {
        e.push(match c {
            ChapterContents::Article(v) => article(v),
            ChapterContents::Section(v) => section(v),
        })
    }
    e
}
pub fn section(v: &Section) -> XNode {
    let mut e = head("Section", "SectionTitle", &v.section_title, &v.num, v.delete, v.hide);
    for c in &v.children {
        e.push(match c {
            SectionContents::Article(v) => article(v),
            SectionContents::Subsection(v) => subsection(v),
            SectionContents::Division(v) => division(v),
        })
    }
    e
}
fn subsection(v: &Subsection) -> XNode {
    let mut e = head("Subsection", "SubsectionTitle", &v.subsection_title, &v.num, v.delete, v.hide);
    for c in &v.children {
        e.push(match c {
            SubsectionContents::Article(v) => article(v),
            SubsectionContents::Division(v) => division(v),
        })
    }
    e
}
fn division(v: &Division) -> XNode {
    let mut e = head("Division", "DivisionTitle", &v.division_title, &v.num, v.delete, v.hide);
    each(&mut e, &v.children, article);
    e
}
pub fn caption(name: &str, c: &Caption) -> XNode {
    let mut e = text(name, &c.text);
    oflag(&mut e, "CommonCaption", &c.common_caption);
    e
}
pub fn article(v: &Article) -> XNode {
    let mut e = XNode::new("Article");
    e.attr("Num", key(&v.num));
    flag(&mut e, "Delete", v.delete);
    flag(&mut e, "Hide", v.hide);
    maybe(&mut e, &v.caption, |c| caption("ArticleCaption", c));
    e.push(text("ArticleTitle", &v.title));
    each(&mut e, &v.paragraph, paragraph);
    maybe(&mut e, &v.suppl_note, |t| text("SupplNote", t));
    e
}
pub fn paragraph(v: &Paragraph) -> XNode {
    let mut e = XNode::new("Paragraph");
    e.attr("Num", key(&v.num));
    flag(&mut e, "OldStyle", v.old_style);
    flag(&mut e, "OldNum", v.old_num);
    flag(&mut e, "Hide", v.hide);
    maybe(&mut e, &v.caption, |c| caption("ParagraphCaption", c));
    e.push(text("ParagraphNum", &v.paragraph_num));
    let mut s = XNode::new("ParagraphSentence");
    each(&mut s, &v.sentence, sentence);
    e.push(s);
    each(&mut e, &v.amend_provision, amend);
    each(&mut e, &v.class, class);
    each(&mut e, &v.struct_list, strukt);
    each(&mut e, &v.children, item);
    e
}
fn strukt(v: &Struct) -> XNode {
    match v {
        Struct::TableStruct(v) => table_struct(v),
        Struct::FigStruct(v) => fig_struct(v),
        Struct::StyleStruct(v) => style_struct(v),
        Struct::List(v) => list(v),
    }
}
fn class(v: &Class) -> XNode {
    let mut e = XNode::new("Class");
    e.attr("Num", v.num.clone());
    maybe(&mut e, &v.class_title, |t| text("ClassTitle", t));
    e.push(sct("ClassSentence", &v.class_sentence));
    each(&mut e, &v.children, item);
    e
}
fn sct(name: &str, v: &SentenceOrColumnOrTable) -> XNode {
    let mut e = XNode::new(name);
    match v {
        SentenceOrColumnOrTable::Sentence(v) => each(&mut e, v, sentence),
        SentenceOrColumnOrTable::Column(v) => each(&mut e, v, column),
        SentenceOrColumnOrTable::Table(v) => e.push(table(v)),
    }
    e
}
fn align(a: &Align) -> &'static str {
    match a {
        Align::Left => "left",
        Align::Center => "center",
        Align::Right => "right",
        Align::Justify => "justify",
    }
}
fn column(v: &Column) -> XNode {
    let mut e = XNode::new("Column");
    if let Some(n) = v.num {
        e.attr("Num", n.to_string());
    }
    flag(&mut e, "LineBreak", v.line_break);
    if let Some(a) = &v.align {
        e.attr("Align", align(a));
    }
    each(&mut e, &v.sentence, sentence);
    e
}
pub fn sentence(v: &Sentence) -> XNode {
    let mut e = XNode::new("Sentence");
    if let Some(n) = v.num {
        e.attr("Num", n.to_string());
    }
    match v.function {
        Some(SentenceFunction::Main) => e.attr("Function", "main"),
        Some(SentenceFunction::Proviso) => e.attr("Function", "proviso"),
        None => (),
    }
    if let Some(i) = &v.indent {
        use SentenceIndent::*;
        e.attr(
            "Indent",
            match i {
                Paragraph => "Paragraph",
                Item => "Item",
                Subitem1 => "Subitem1",
                Subitem2 => "Subitem2",
                Subitem3 => "Subitem3",
                Subitem4 => "Subitem4",
                Subitem5 => "Subitem5",
                Subitem6 => "Subitem6",
                Subitem7 => "Subitem7",
                Subitem8 => "Subitem8",
                Subitem9 => "Subitem9",
                Subitem10 => "Subitem10",
            },
        )
    }
    wm(&mut e, &v.writing_mode);
    for c in &v.contents {
        match c {
            SentenceElement::Line(v) => e.push(line(v)),
            SentenceElement::QuoteStruct(v) => e.push(quote(v)),
            SentenceElement::ArithFormula(v) => e.push(arith(v)),
            SentenceElement::Ruby(v) => e.push(ruby(v)),
            SentenceElement::Sup(v) => e.push(leaf("Sup", &v.text)),
            SentenceElement::Sub(v) => e.push(leaf("Sub", &v.text)),
            SentenceElement::String(s) => e.text(s),
        }
    }
    e
}
fn wm(e: &mut XNode, m: &WritingMode) {
    if *m == WritingMode::Horizontal {
        e.attr("WritingMode", "horizontal");
    }
}
pub fn text(name: &str, t: &Text) -> XNode {
    let mut e = XNode::new(name);
    e.kids = text_kids(&t.contents);
    e
}
fn text_kids(c: &[TextElement]) -> Vec<Kid> {
    c.iter()
        .map(|c| match c {
            TextElement::Ruby(v) => Kid::E(ruby(v)),
            TextElement::Line(v) => Kid::E(line(v)),
            TextElement::Sup(v) => Kid::E(leaf("Sup", &v.text)),
            TextElement::Sub(v) => Kid::E(leaf("Sub", &v.text)),
            TextElement::Text(s) => Kid::T(s.clone()),
        })
        .collect()
}
fn twm(name: &str, t: &TextWithWritingMode) -> XNode {
    let mut e = XNode::new(name);
    wm(&mut e, &t.writing_mode);
    e.kids = text_kids(&t.contents);
    e
}
fn leaf(name: &str, s: &str) -> XNode {
    let mut e = XNode::new(name);
    e.text(s);
    e
}
fn ruby(v: &Ruby) -> XNode {
    let mut e = text("Ruby", &v.text);
    e.push(leaf("Rt", &v.ruby));
    e
}
fn style_name(s: &LineStyle) -> &'static str {
    match s {
        LineStyle::Solid => "solid",
        LineStyle::Dotted => "dotted",
        LineStyle::Double => "double",
        LineStyle::None => "none",
    }
}
fn line(v: &Line) -> XNode {
    let mut e = XNode::new("Line");
    e.attr("Style", style_name(&v.style));
    for c in &v.contents {
        match c {
            LineContents::QuoteStruct(v) => e.push(quote(v)),
            LineContents::ArithFormula(v) => e.push(arith(v)),
            LineContents::Ruby(v) => e.push(ruby(v)),
            LineContents::Sup(v) => e.push(leaf("Sup", &v.text)),
            LineContents::Sub(v) => e.push(leaf("Sub", &v.text)),
            LineContents::String(s) => e.text(s),
        }
    }
    e
}
fn quote(v: &QuoteStruct) -> XNode {
    contents("QuoteStruct", &v.contentes)
}
fn arith(v: &ArithFormula) -> XNode {
    let mut e = contents("ArithFormula", &v.contentes);
    if let Some(n) = v.num {
        e.attr("Num", n.to_string());
    }
    e
}
fn contents(name: &str, v: &Contents) -> XNode {
    use ContentsElement as C;
    let mut e = XNode::new(name);
    for c in &v.contents {
        let k = match c {
            C::String(s) => {
                e.text(s);
                continue;
            }
            C::Table(v) => table(v),
            C::TableStruct(v) => table_struct(v),
            C::Fig(v) => fig(v),
            C::FigStruct(v) => fig_struct(v),
            C::QuoteStruct(v) => quote(v),
            C::NoteStruct(v) => note_struct(v),
            C::StyleStruct(v) => style_struct(v),
            C::AppdxTable(v) => appdx_table(v),
            C::Ruby(v) => ruby(v),
            C::Line(v) => line(v),
            C::Sup(v) => leaf("Sup", &v.text),
            C::Sub(v) => leaf("Sub", &v.text),
            C::Paragraph(v) => paragraph(v),
            C::Item(v) => item(v),
            C::Subitem1(v) => subitem1(v),
            C::Subitem2(v) => subitem2(v),
            C::Subitem3(v) => subitem3(v),
            C::Subitem4(v) => subitem4(v),
            C::Subitem5(v) => subitem5(v),
            C::Subitem6(v) => subitem6(v),
            C::Subitem7(v) => subitem7(v),
            C::Subitem8(v) => subitem8(v),
            C::Subitem9(v) => subitem9(v),
            C::Subitem10(v) => subitem10(v),
            C::List(v) => list(v),
            C::Sentence(v) => sentence(v),
            C::ArithFormula(v) => arith(v),
            C::Remarks(v) => remarks(v),
            C::TOC(v) => toc(v),
            C::TOCSection(v) => toc_section(v),
            C::TableRow(v) => table_row(v),
        };
        e.push(k);
    }
    e
}
fn remarks(v: &Remarks) -> XNode {
    let mut e = XNode::new("Remarks");
    let mut l = text("RemarksLabel", &v.label.text);
    flag(&mut l, "LineBreak", v.label.line_break);
    e.push(l);
    for c in &v.children {
        e.push(match c {
            RemarksContents::Item(v) => item(v),
            RemarksContents::Sentence(v) => sentence(v),
        })
    }
    e
}
fn framed(name: &str, title: Option<XNode>, tr: &[Remarks], body: XNode, br: &[Remarks]) -> XNode {
    let mut e = XNode::new(name);
    if let Some(t) = title {
        e.push(t)
    }
    each(&mut e, tr, remarks);
    e.push(body);
    each(&mut e, br, remarks);
    e
}
fn note_struct(v: &NoteStruct) -> XNode {
    framed("NoteStruct", v.title.as_ref().map(|t| text("NoteStructTitle", t)), &v.title_remarks, contents("Note", &v.note.contentes), &v.note_remarks)
}
fn style_struct(v: &StyleStruct) -> XNode {
    framed("StyleStruct", v.title.as_ref().map(|t| text("StyleStructTitle", t)), &v.title_remarks, contents("Style", &v.style.contentes), &v.style_remarks)
}
fn format_struct(v: &FormatStruct) -> XNode {
    let v = FormatStructMirror::of(v);
    framed(
        "FormatStruct",
        v.title.as_ref().map(|t| text("FormatStructTitle", t)),
        &v.title_remarks,
        contents("Format", &v.format.contentes),
        &v.format_remarks,
    )
}
fn fig(v: &Fig) -> XNode {
    let mut e = XNode::new("Fig");
    e.attr("src", v.src.clone());
    e
}
fn fig_struct(v: &FigStruct) -> XNode {
    framed("FigStruct", v.title.as_ref().map(|t| text("FigStructTitle", t)), &v.title_remarks, fig(&v.fig), &v.fig_remarks)
}
fn table_struct(v: &TableStruct) -> XNode {
    framed("TableStruct", v.title.as_ref().map(|t| twm("TableStructTitle", t)), &v.title_remarks, table(&v.table), &v.table_remarks)
}
pub fn table(v: &Table) -> XNode {
    let mut e = XNode::new("Table");
    wm(&mut e, &v.writing_mode);
    for r in &v.table_header_row {
        let mut h = XNode::new("TableHeaderRow");
        for c in &r.columns {
            h.push(text("TableHeaderColumn", c));
        }
        e.push(h);
    }
    each(&mut e, &v.table_row, table_row);
    e
}
fn table_row(v: &TableRow) -> XNode {
    let mut e = XNode::new("TableRow");
    each(&mut e, &v.columns, table_column);
    e
}
fn table_column(v: &TableColumn) -> XNode {
    use TableColumnContents as C;
    let mut e = XNode::new("TableColumn");
    e.attr("BorderTop", style_name(&v.border_top));
    e.attr("BorderBottom", style_name(&v.border_bottom));
    e.attr("BorderLeft", style_name(&v.border_left));
    e.attr("BorderRight", style_name(&v.border_right));
    oattr(&mut e, "rowspan", &v.rowspan);
    oattr(&mut e, "colspan", &v.colspan);
    if let Some(a) = &v.align {
        e.attr("Align", align(a));
    }
    if let Some(p) = &v.valign {
        e.attr(
            "Valign",
            match p {
                Position::Top => "top",
                Position::Middle => "middle",
                Position::Bottom => "bottom",
            },
        );
    }
    for c in &v.contents {
        let k = match c {
            C::String(s) => {
                e.text(s);
                continue;
            }
            C::Part(v) => part(v),
            C::Chapter(v) => chapter(v),
            C::Section(v) => section(v),
            C::Subsection(v) => subsection(v),
            C::Division(v) => division(v),
            C::Article(v) => article(v),
            C::Paragraph(v) => paragraph(v),
            C::Item(v) => item(v),
            C::Subitem1(v) => subitem1(v),
            C::Subitem2(v) => subitem2(v),
            C::Subitem3(v) => subitem3(v),
            C::Subitem4(v) => subitem4(v),
            C::Subitem5(v) => subitem5(v),
            C::Subitem6(v) => subitem6(v),
            C::Subitem7(v) => subitem7(v),
            C::Subitem8(v) => subitem8(v),
            C::Subitem9(v) => subitem9(v),
            C::Subitem10(v) => subitem10(v),
            C::FigStruct(v) => fig_struct(v),
            C::Sentence(v) => sentence(v),
            C::Remarks(v) => remarks(v),
            C::Column(v) => column(v),
        };
        e.push(k);
    }
    e
}
fn lsent(name: &str, v: &[ListSentence]) -> XNode {
    let mut e = XNode::new(name);
    for s in v {
        e.push(match s {
            ListSentence::Sentence(v) => sentence(v),
            ListSentence::Column(v) => column(v),
        })
    }
    e
}
fn list(v: &List) -> XNode {
    let mut e = XNode::new("List");
    e.push(lsent("ListSentence", &v.sentence));
    for a in &v.children {
        let mut x = XNode::new("Sublist1");
        x.push(lsent("Sublist1Sentence", &a.sentence));
        for b in &a.children {
            let mut y = XNode::new("Sublist2");
            y.push(lsent("Sublist2Sentence", &b.sentence));
            for c in &b.children {
                let mut z = XNode::new("Sublist3");
                z.push(lsent("Sublist3Sentence", &c.sentence));
                y.push(z);
            }
            x.push(y);
        }
        e.push(x);
    }
    e
}
fn new_provision(v: &NewProvision) -> XNode {
    use NewProvision as N;
    match v {
        N::LawTitle(v) => law_title(v),
        N::Preamble(v) => preamble(v),
        N::TOC(v) => toc(v),
        N::Part(v) => part(v),
        N::PartTitle(v) => text("PartTitle", v),
        N::Chapter(v) => chapter(v),
        N::ChapterTitle(v) => text("ChapterTitle", v),
        N::Section(v) => section(v),
        N::SectionTitle(v) => text("SectionTitle", v),
        N::Subsection(v) => subsection(v),
        N::SubsectionTitle(v) => text("SubsectionTitle", v),
        N::Division(v) => division(v),
        N::DivisionTitle(v) => text("DivisionTitle", v),
        N::Article(v) => article(v),
        N::SupplNote(v) => text("SupplNote", v),
        N::Paragraph(v) => paragraph(v),
        N::Item(v) => item(v),
        N::Subitem1(v) => subitem1(v),
        N::Subitem2(v) => subitem2(v),
        N::Subitem3(v) => subitem3(v),
        N::Subitem4(v) => subitem4(v),
        N::Subitem5(v) => subitem5(v),
        N::Subitem6(v) => subitem6(v),
        N::Subitem7(v) => subitem7(v),
        N::Subitem8(v) => subitem8(v),
        N::Subitem9(v) => subitem9(v),
        N::Subitem10(v) => subitem10(v),
        N::List(v) => list(v),
        N::Sentence(v) => sentence(v),
        N::AmendProvision(v) => amend(v),
        N::AppdxTable(v) => appdx_table(v),
        N::AppdxNote(v) => appdx_note(v),
        N::AppdxStyle(v) => appdx_style(v),
        N::Appdx(v) => appdx(v),
        N::AppdxFig(v) => appdx_fig(v),
        N::AppdxFormat(v) => appdx_format(v),
        N::SupplProvisionAppdxStyle(v) => sp_appdx_style(v),
        N::SupplProvisionAppdxTable(v) => sp_appdx_table(v),
        N::SupplProvisionAppdx(v) => sp_appdx(v),
        N::TableStruct(v) => table_struct(v),
        N::TableRow(v) => table_row(v),
        N::TableColumn(v) => table_column(v),
        N::FigStruct(v) => fig_struct(v),
        N::NoteStruct(v) => note_struct(v),
        N::StyleStruct(v) => style_struct(v),
        N::FormatStruct(v) => format_struct(v),
        N::Remarks(v) => remarks(v),
        N::LawBody(v) => law_body(v),
    }
}
fn amend(v: &AmendProvision) -> XNode {
    let mut e = XNode::new("AmendProvision");
    if let Some(s) = &v.sentence {
        let mut a = XNode::new("AmendProvisionSentence");
        a.push(sentence(s));
        e.push(a);
    }
    for n in &v.new_provision {
        let mut a = XNode::new("NewProvision");
        a.push(new_provision(n));
        e.push(a);
    }
    e
}
macro_rules! item_level {
    ($f:ident, $T:ident, $name:literal, $title:literal, $sent:literal, $($c:ident)?) => {
        fn $f(v: &$T) -> XNode {
            let mut e = XNode::new($name);
            e.attr("Num", okey(&v.num));
            flag(&mut e, "Delete", v.delete);
            flag(&mut e, "Hide", v.hide);
            maybe(&mut e, &v.title, |t| text($title, t));
            e.push(sct($sent, &v.sentence));
            $(each(&mut e, &v.children, $c);)?
            each(&mut e, &v.struct_list, strukt);
            e
        }
    };
}
item_level!(item, Item, "Item", "ItemTitle", "ItemSentence", subitem1);
item_level!(subitem1, Subitem1, "Subitem1", "Subitem1Title", "Subitem1Sentence", subitem2);
item_level!(subitem2, Subitem2, "Subitem2", "Subitem2Title", "Subitem2Sentence", subitem3);
item_level!(subitem3, Subitem3, "Subitem3", "Subitem3Title", "Subitem3Sentence", subitem4);
item_level!(subitem4, Subitem4, "Subitem4", "Subitem4Title", "Subitem4Sentence", subitem5);
item_level!(subitem5, Subitem5, "Subitem5", "Subitem5Title", "Subitem5Sentence", subitem6);
item_level!(subitem6, Subitem6, "Subitem6", "Subitem6Title", "Subitem6Sentence", subitem7);
item_level!(subitem7, Subitem7, "Subitem7", "Subitem7Title", "Subitem7Sentence", subitem8);
item_level!(subitem8, Subitem8, "Subitem8", "Subitem8Title", "Subitem8Sentence", subitem9);
item_level!(subitem9, Subitem9, "Subitem9", "Subitem9Title", "Subitem9Sentence", subitem10);
item_level!(subitem10, Subitem10, "Subitem10", "Subitem10Title", "Subitem10Sentence",);

fn toc(v: &TOC) -> XNode {
    let mut e = XNode::new("TOC");
    maybe(&mut e, &v.toc_label, |t| text("TOCLabel", t));
    maybe(&mut e, &v.toc_preamble_label, |t| text("TOCPreambleLabel", t));
    for c in &v.toc_main_contents {
        e.push(match c {
            TOCMainContents::TOCPart(v) => {
                let mut p = thead("TOCPart", "PartTitle", &v.part_title, &v.article_range, &v.num, v.delete);
                each(&mut p, &v.children, toc_chapter);
                p
            }
            TOCMainContents::TOCChapter(v) => toc_chapter(v),
            TOCMainContents::TOCSection(v) => toc_section(v),
            TOCMainContents::TOCArticle(v) => toc_article(v),
        })
    }
    maybe(&mut e, &v.toc_suppl_provision, |s| {
        let mut x = XNode::new("TOCSupplProvision");
        x.push(text("SupplProvisionLabel", &s.suppl_provision_label));
        maybe(&mut x, &s.article_range, |t| text("ArticleRange", t));
        for c in &s.children {
            x.push(match c {
                TOCSupplProvisionContents::TOCArticle(v) => toc_article(v),
                TOCSupplProvisionContents::TOCChapter(v) => toc_chapter(v),
            })
        }
        x
    });
    for t in &v.toc_appdx_table_label {
        e.push(text("TOCAppdxTableLabel", t));
    }
    e
}
fn thead(name: &str, title: &str, t: &Text, range: &Option<Text>, num: &ArticleNumber, delete: bool) -> XNode {
    let mut e = XNode::new(name);
    e.attr("Num", key(num));
    flag(&mut e, "Delete", delete);
    e.push(text(title, t));
    maybe(&mut e, range, |t| text("ArticleRange", t));
    e
}
fn toc_chapter(v: &TOCChapter) -> XNode {
    let mut e = thead("TOCChapter", "ChapterTitle", &v.chapter_title, &v.article_range, &v.num, v.delete);
    each(&mut e, &v.children, toc_section);
    e
}
fn toc_section(v: &TOCSection) -> XNode {
    let mut e = thead("TOCSection", "SectionTitle", &v.section_title, &v.article_range, &v.num, v.delete);
    for c in &v.children {
        e.push(match c {
            TOCSectionContents::TOCSubsection(v) => {
                let mut s = thead("TOCSubsection", "SubsectionTitle", &v.subsection_title, &v.article_range, &v.num, v.delete);
                each(&mut s, &v.children, toc_division);
                s
            }
            TOCSectionContents::TOCDivision(v) => toc_division(v),
        })
    }
    e
}
fn toc_division(v: &TOCDivision) -> XNode {
    thead("TOCDivision", "DivisionTitle", &v.division_title, &v.article_range, &v.num, v.delete)
}
fn toc_article(v: &TOCArticle) -> XNode {
    let mut e = XNode::new("TOCArticle");
    e.attr("Num", key(&v.num));
    flag(&mut e, "Delete", v.delete);
    e.push(text("ArticleTitle", &v.article_title));
    e.push(caption("ArticleCaption", &v.article_caption));
    e
}
fn appdx_head(name: &str, title: &Option<TextWithWritingMode>, rel: &Option<Text>, num: &Option<String>) -> XNode {
    let mut e = XNode::new(name);
    oattr(&mut e, "Num", num);
    maybe(&mut e, title, |t| twm(&format!("{name}Title"), t));
    maybe(&mut e, rel, |t| text("RelatedArticleNum", t));
    e
}
fn appdx_table(v: &AppdxTable) -> XNode {
    let mut e = appdx_head("AppdxTable", &v.title, &v.related_article_num, &v.num);
    for c in &v.children {
        e.push(match c {
            AppdxTableContents::TableStruct(v) => table_struct(v),
            AppdxTableContents::Item(v) => item(v),
        })
    }
    maybe(&mut e, &v.remarks, remarks);
    e
}
fn appdx_note(v: &AppdxNote) -> XNode {
    let mut e = appdx_head("AppdxNote", &v.title, &v.related_article_num, &v.num);
    for c in &v.children {
        e.push(match c {
            AppdxNoteContents::NoteStruct(v) => note_struct(v),
            AppdxNoteContents::FigStruct(v) => fig_struct(v),
            AppdxNoteContents::TableStruct(v) => table_struct(v),
        })
    }
    maybe(&mut e, &v.remarks, remarks);
    e
}
fn appdx_style(v: &AppdxStyle) -> XNode {
    let mut e = appdx_head("AppdxStyle", &v.title, &v.related_article_num, &v.num);
    each(&mut e, &v.children, style_struct);
    maybe(&mut e, &v.remarks, remarks);
    e
}
fn appdx_format(v: &AppdxFormat) -> XNode {
    let mut e = appdx_head("AppdxFormat", &v.title, &v.related_article_num, &v.num);
    each(&mut e, &v.children, format_struct);
    maybe(&mut e, &v.remarks, remarks);
    e
}
fn appdx(v: &Appdx) -> XNode {
    let mut e = XNode::new("Appdx");
    maybe(&mut e, &v.arith_formula_num, |t| text("ArithFormulaNum", t));
    maybe(&mut e, &v.related_article_num, |t| text("RelatedArticleNum", t));
    each(&mut e, &v.arith_formula, arith);
    maybe(&mut e, &v.remarks, remarks);
    e
}
fn appdx_fig(v: &AppdxFig) -> XNode {
    let mut e = appdx_head("AppdxFig", &v.title, &v.related_article_num, &v.num);
    for c in &v.children {
        e.push(match c {
            AppdxFigContents::FigStruct(v) => fig_struct(v),
            AppdxFigContents::TableStruct(v) => table_struct(v),
        })
    }
    e
}
pub fn suppl(v: &SupplProvision) -> XNode {
    let mut e = XNode::new("SupplProvision");
    match v.suppl_provision_type {
        Some(SupplProvisionType::New) => e.attr("Type", "New"),
        Some(SupplProvisionType::Amend) => e.attr("Type", "Amend"),
        None => (),
    }
    oattr(&mut e, "AmendLawNum", &v.amend_law_num);
    oflag(&mut e, "Extract", &v.extract);
    e.push(text("SupplProvisionLabel", &v.label));
    for c in &v.children {
        use SupplProvisionChildrenElement as C;
        e.push(match c {
            C::Chapter(v) => chapter(v),
            C::Article(v) => article(v),
            C::Paragraph(v) => paragraph(v),
            C::SupplProvisionAppdxTable(v) => sp_appdx_table(v),
            C::SupplProvisionAppdxStyle(v) => sp_appdx_style(v),
            C::SupplProvisionAppdx(v) => sp_appdx(v),
        })
    }
    e
}
fn sp_appdx_table(v: &SupplProvisionAppdxTable) -> XNode {
    let mut e = XNode::new("SupplProvisionAppdxTable");
    oattr(&mut e, "Num", &v.num);
    e.push(twm("SupplProvisionAppdxTableTitle", &v.title));
    maybe(&mut e, &v.related_article_num, |t| text("RelatedArticleNum", t));
    each(&mut e, &v.table_struct, table_struct);
    e
}
fn sp_appdx_style(v: &SupplProvisionAppdxStyle) -> XNode {
    let mut e = XNode::new("SupplProvisionAppdxStyle");
    oattr(&mut e, "Num", &v.num);
    e.push(twm("SupplProvisionAppdxStyleTitle", &v.title));
    maybe(&mut e, &v.related_article_num, |t| text("RelatedArticleNum", t));
    each(&mut e, &v.style_struct, style_struct);
    e
}
fn sp_appdx(v: &SupplProvisionAppdx) -> XNode {
    let mut e = XNode::new("SupplProvisionAppdx");
    oattr(&mut e, "Num", &v.num);
    maybe(&mut e, &v.arith_formula_num, |t| text("ArithFormulaNum", t));
    maybe(&mut e, &v.related_article_num, |t| text("RelatedArticleNum", t));
    each(&mut e, &v.arith_formula, arith);
    e
}
