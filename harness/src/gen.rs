//! Generator of law values (the whole public model) from a choice tape.
use crate::strs;
use crate::tape::Tape;
use japanese_law_xml_schema::{
    appdx::*, article::*, article_number::ArticleNumber, class::*, contents::*, fig::*, law::*, line::*, list::*, paragraph::*,
    remarks::*, sentence::*, structs::*, suppl_provision::*, table::*, table_of_contents::*, text::*,
};
use serde::{Deserialize, Serialize};

/// FormatStruct has private fields; it is built and read through its JSON form.
#[derive(Serialize, Deserialize)]
pub struct FormatStructMirror {
    pub title: Option<Text>,
    pub title_remarks: Vec<Remarks>,
    pub format: Format,
    pub format_remarks: Vec<Remarks>,
}
impl FormatStructMirror {
    pub fn build(self) -> FormatStruct {
        serde_json::from_value(serde_json::to_value(self).unwrap()).expect("harness: FormatStruct JSON form")
    }
    pub fn of(f: &FormatStruct) -> Self {
        serde_json::from_value(serde_json::to_value(f).unwrap()).expect("harness: FormatStruct JSON form")
    }
}

pub struct G<'t, 'd> {
    pub t: &'t mut Tape<'d>,
    pub fuel: i64,
    pub depth: u32,
    pub max_depth: u32,
    /// split text runs and add empty ones (not canonical; consumes no tape)
    pub split: bool,
    /// 1 in `inline` texts carries inline elements
    pub inline: usize,
    pub deep_items: bool,
    /// small articles and paragraphs, numbers from a small pool (heading structure matters)
    pub light: bool,
    /// only contents that text extraction renders: no blocks inside cells, formulas and quotes
    pub plain: bool,
    /// nearly every item has sub-items
    pub tower: bool,
    /// values that XML cannot hold as well: lists that must not be empty left empty, any string, any number
    pub loose: bool,
}

type V<T> = Vec<T>;

impl<'t, 'd> G<'t, 'd> {
    pub fn new(t: &'t mut Tape<'d>) -> Self {
        let max_depth = [3u32, 5, 8, 12][t.below(4)];
        let inline = [6usize, 3, 2, 12][t.below(4)];
        let deep_items = t.chance(1, 3);
        let fuel = [40i64, 120, 300][t.below(3)];
        G { t, fuel, depth: 0, max_depth, split: false, inline, deep_items, light: false, plain: false, tower: false, loose: false }
    }
    fn cost(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0 && !self.t.exhausted()
    }
    pub fn many<T>(&mut self, max: usize, f: fn(&mut Self) -> T) -> V<T> {
        let mut v = vec![];
        if self.fuel <= 0 {
            return v;
        }
        let n = self.t.below(max + 1);
        for _ in 0..n {
            if !self.cost() {
                break;
            }
            v.push(f(self));
        }
        v
    }
    pub fn some<T>(&mut self, max: usize, f: fn(&mut Self) -> T) -> V<T> {
        if self.loose && self.t.chance(1, 4) {
            return vec![];
        }
        let mut v = vec![f(self)];
        v.extend(self.many(max - 1, f));
        v
    }
    pub fn opt<T>(&mut self, f: fn(&mut Self) -> T) -> Option<T> {
        if self.fuel > 0 && self.t.flip() {
            self.fuel -= 1;
            Some(f(self))
        } else {
            None
        }
    }
    fn can_nest(&self) -> bool {
        self.depth < self.max_depth && self.fuel > 0
    }
    fn nest<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        r
    }
    pub fn b(&mut self) -> bool {
        self.t.chance(1, 3)
    }
    pub fn obool(&mut self) -> Option<bool> {
        [None, Some(true), Some(false)][self.t.below(3)]
    }
    pub fn onum(&mut self) -> Option<usize> {
        match self.t.below(4) {
            0 => None,
            1 | 2 => Some(self.t.below(12)),
            _ => Some(big(self.t, 1 << 32)),
        }
    }
    pub fn num(&mut self) -> ArticleNumber {
        if self.loose && self.t.chance(1, 4) {
            let v = |t: &mut Tape| -> usize { [t.below(3), t.raw() as usize, usize::MAX - t.below(2)][t.below(3)] };
            let (e, r) = (self.t.below(3), self.t.below(3));
            return ArticleNumber {
                base_number: v(self.t),
                eda_numbers: (0..e).map(|_| v(self.t)).collect(),
                range_end_numbers: (0..r).map(|_| v(self.t)).collect(),
            };
        }
        if self.light {
            let v = self.t.raw() as usize;
            let eda_numbers = if v % 5 == 4 { vec![1 + v / 5 % 3] } else { vec![] };
            let range_end_numbers = if v % 11 == 10 { vec![5] } else { vec![] };
            return ArticleNumber { base_number: 1 + v / 55 % 4, eda_numbers, range_end_numbers };
        }
        number(self.t)
    }
    pub fn onumber(&mut self) -> Option<ArticleNumber> {
        if self.t.chance(1, 8) {
            None
        } else {
            Some(self.num())
        }
    }
    pub fn s(&mut self) -> String {
        if self.loose && self.t.chance(1, 4) {
            return strs::loose(self.t);
        }
        strs::text(self.t)
    }
    pub fn a(&mut self) -> String {
        if self.loose && self.t.chance(1, 4) {
            return strs::loose(self.t);
        }
        strs::attr(self.t)
    }

    /// text run for mixed content, possibly split in several runs
    fn runs<T>(&mut self, mk: fn(String) -> T) -> V<T> {
        let s = self.s();
        if !self.split {
            return vec![mk(s)];
        }
        let cs: V<char> = s.chars().collect();
        let cut = cs.len() / 2;
        let ok = cut > 0 && !cs[cut - 1].is_ascii_whitespace() && !cs[cut].is_ascii_whitespace();
        match s.len() % 4 {
            0 | 1 if ok => vec![mk(cs[..cut].iter().collect()), mk(String::new()), mk(cs[cut..].iter().collect())],
            2 => vec![mk(String::new()), mk(s)],
            _ => vec![mk(s), mk(String::new())],
        }
    }
    /// mixed content: text runs never adjacent
    fn mixed<T>(&mut self, mk: fn(String) -> T, elem: fn(&mut Self) -> Option<T>) -> V<T> {
        let mut v = vec![];
        if self.t.chance(1, 24) {
            return v;
        }
        if !self.t.chance(1, self.inline) {
            return self.runs(mk);
        }
        let n = 1 + self.t.below(4);
        let mut last_text = false;
        for _ in 0..n {
            if !last_text && self.t.flip() {
                v.extend(self.runs(mk));
                last_text = true;
            } else if let Some(e) = elem(self) {
                self.fuel -= 1;
                v.push(e);
                last_text = false;
            }
        }
        v
    }

    // ---- text
    pub fn text(&mut self) -> Text {
        let c = self.mixed(TextElement::Text, |g| Some(g.text_elem()));
        Text { contents: c }
    }
    fn text_elem(&mut self) -> TextElement {
        match self.t.below(4) {
            0 => TextElement::Ruby(self.ruby()),
            1 => TextElement::Sup(self.sup()),
            2 => TextElement::Sub(self.sub()),
            _ => TextElement::Line(self.line()),
        }
    }
    pub fn twm(&mut self) -> TextWithWritingMode {
        TextWithWritingMode { contents: self.text().contents, writing_mode: self.wm() }
    }
    pub fn wm(&mut self) -> WritingMode {
        if self.t.chance(1, 3) {
            WritingMode::Horizontal
        } else {
            WritingMode::Vertical
        }
    }
    fn inner(&mut self) -> String {
        if self.t.chance(1, 12) {
            String::new()
        } else {
            self.s()
        }
    }
    pub fn ruby(&mut self) -> Ruby {
        let text = if self.t.chance(1, 12) { Text { contents: vec![] } } else { Text { contents: self.runs(TextElement::Text) } };
        Ruby { text, ruby: self.inner() }
    }
    pub fn sup(&mut self) -> Sup {
        Sup { text: self.inner() }
    }
    pub fn sub(&mut self) -> Sub {
        Sub { text: self.inner() }
    }
    pub fn line_style(&mut self) -> LineStyle {
        match self.t.below(4) {
            0 => LineStyle::Solid,
            1 => LineStyle::Dotted,
            2 => LineStyle::Double,
            _ => LineStyle::None,
        }
    }
    pub fn line(&mut self) -> Line {
        let style = self.line_style();
        let contents = self.mixed(LineContents::String, |g| {
            Some(match g.t.below(if g.can_nest() { 5 } else { 3 }) {
                0 => LineContents::Ruby(g.ruby()),
                1 => LineContents::Sup(g.sup()),
                2 => LineContents::Sub(g.sub()),
                3 => LineContents::ArithFormula(g.arith()),
                _ => LineContents::QuoteStruct(g.quote()),
            })
        });
        Line { contents, style }
    }
    pub fn quote(&mut self) -> QuoteStruct {
        QuoteStruct { contentes: self.contents() }
    }
    pub fn arith(&mut self) -> ArithFormula {
        ArithFormula { num: self.onum(), contentes: self.contents() }
    }
    pub fn contents(&mut self) -> Contents {
        self.nest(|g| Contents { contents: g.mixed(ContentsElement::String, |g| Some(g.contents_elem())) })
    }
    fn contents_elem(&mut self) -> ContentsElement {
        use ContentsElement as C;
        if self.plain {
            return match self.t.below(3) {
                0 => C::Ruby(self.ruby()),
                1 => C::Sup(self.sup()),
                _ => C::Sub(self.sub()),
            };
        }
        if !self.can_nest() {
            return match self.t.below(5) {
                0 => C::Ruby(self.ruby()),
                1 => C::Sup(self.sup()),
                2 => C::Sub(self.sub()),
                3 => C::Line(self.line()),
                _ => C::Fig(self.fig()),
            };
        }
        self.nest(|s| match s.t.below(31) {
            0 => C::Ruby(s.ruby()),
            1 => C::Sup(s.sup()),
            2 => C::Sub(s.sub()),
            3 => C::Line(s.line()),
            4 => C::Fig(s.fig()),
            5 => C::Table(s.table()),
            6 => C::TableStruct(s.table_struct()),
            7 => C::FigStruct(s.fig_struct()),
            8 => C::QuoteStruct(s.quote()),
            9 => C::NoteStruct(s.note_struct()),
            10 => C::StyleStruct(s.style_struct()),
            11 => C::AppdxTable(s.appdx_table()),
            12 => C::Paragraph(s.paragraph()),
            13 => C::Item(s.item()),
            14 => C::Subitem1(s.subitem1()),
            15 => C::Subitem2(s.subitem2()),
            16 => C::Subitem3(s.subitem3()),
            17 => C::Subitem4(s.subitem4()),
            18 => C::Subitem5(s.subitem5()),
            19 => C::Subitem6(s.subitem6()),
            20 => C::Subitem7(s.subitem7()),
            21 => C::Subitem8(s.subitem8()),
            22 => C::Subitem9(s.subitem9()),
            23 => C::Subitem10(s.subitem10()),
            24 => C::List(s.list()),
            25 => C::Sentence(s.sentence()),
            26 => C::ArithFormula(s.arith()),
            27 => C::Remarks(s.remarks()),
            28 => C::TOC(s.toc()),
            29 => C::TOCSection(s.toc_section()),
            _ => C::TableRow(s.table_row()),
        })
    }
    pub fn sentence(&mut self) -> Sentence {
        let num = self.onum();
        let function = [None, Some(SentenceFunction::Main), Some(SentenceFunction::Proviso)][self.t.below(3)].clone();
        use SentenceIndent::*;
        let indent = if self.t.chance(1, 4) {
            Some([Paragraph, Item, Subitem1, Subitem2, Subitem3, Subitem4, Subitem5, Subitem6, Subitem7, Subitem8, Subitem9, Subitem10][self.t.below(12)].clone())
        } else {
            None
        };
        let writing_mode = self.wm();
        let contents = self.mixed(SentenceElement::String, |g| {
            Some(match g.t.below(if g.can_nest() { 6 } else { 4 }) {
                0 => SentenceElement::Ruby(g.ruby()),
                1 => SentenceElement::Sup(g.sup()),
                2 => SentenceElement::Sub(g.sub()),
                3 => SentenceElement::Line(g.line()),
                4 => SentenceElement::ArithFormula(g.arith()),
                _ => SentenceElement::QuoteStruct(g.quote()),
            })
        });
        Sentence { contents, num, function, indent, writing_mode }
    }
    pub fn align(&mut self) -> Option<Align> {
        [None, Some(Align::Left), Some(Align::Center), Some(Align::Right), Some(Align::Justify)][self.t.below(5)].clone()
    }
    pub fn column(&mut self) -> Column {
        Column { sentence: self.many(2, Self::sentence), num: self.onum(), line_break: self.b(), align: self.align() }
    }
    pub fn sct(&mut self) -> SentenceOrColumnOrTable {
        match self.t.weighted(&[6, 3, if self.can_nest() { 1 } else { 0 }]) {
            0 => SentenceOrColumnOrTable::Sentence(self.some(3, Self::sentence)),
            1 => SentenceOrColumnOrTable::Column(self.some(3, Self::column)),
            _ => SentenceOrColumnOrTable::Table(self.table()),
        }
    }
    pub fn caption(&mut self) -> Caption {
        Caption { text: self.text(), common_caption: self.obool() }
    }
    pub fn class(&mut self) -> Class {
        self.nest(|s| Class {
            class_title: s.opt(Self::text),
            class_sentence: s.sct(),
            children: s.items(2),
            num: s.a(),
        })
    }
    fn items(&mut self, max: usize) -> V<Item> {
        if self.can_nest() {
            self.many(max, Self::item)
        } else {
            vec![]
        }
    }

    // ---- structs
    pub fn structs(&mut self) -> V<Struct> {
        if self.tower {
            return vec![];
        }
        if !self.can_nest() || !self.t.chance(1, 5) {
            return vec![];
        }
        self.nest(|s| {
            s.some(2, |g| match g.t.below(4) {
                0 => Struct::TableStruct(g.table_struct()),
                1 => Struct::FigStruct(g.fig_struct()),
                2 => Struct::StyleStruct(g.style_struct()),
                _ => Struct::List(g.list()),
            })
        })
    }
    pub fn rem(&mut self) -> V<Remarks> {
        if self.can_nest() && self.t.chance(1, 3) {
            self.some(2, Self::remarks)
        } else {
            vec![]
        }
    }
    pub fn orem(&mut self) -> Option<Remarks> {
        if self.can_nest() && self.t.chance(1, 2) {
            Some(self.remarks())
        } else {
            None
        }
    }
    pub fn remarks(&mut self) -> Remarks {
        self.nest(|s| Remarks {
            label: RemarksLabel { text: s.text(), line_break: s.b() },
            children: s.many(3, |g| {
                if g.can_nest() && g.t.flip() {
                    RemarksContents::Item(g.item())
                } else {
                    RemarksContents::Sentence(g.sentence())
                }
            }),
        })
    }
    pub fn note_struct(&mut self) -> NoteStruct {
        self.nest(|s| NoteStruct { title: s.opt(Self::text), title_remarks: s.rem(), note: Note { contentes: s.contents() }, note_remarks: s.rem() })
    }
    pub fn style_struct(&mut self) -> StyleStruct {
        self.nest(|s| StyleStruct { title: s.opt(Self::text), title_remarks: s.rem(), style: Style { contentes: s.contents() }, style_remarks: s.rem() })
    }
    pub fn format_struct(&mut self) -> FormatStruct {
        self.nest(|s| {
            FormatStructMirror { title: s.opt(Self::text), title_remarks: s.rem(), format: Format { contentes: s.contents() }, format_remarks: s.rem() }
                .build()
        })
    }
    pub fn fig(&mut self) -> Fig {
        Fig { src: self.a() }
    }
    pub fn fig_struct(&mut self) -> FigStruct {
        self.nest(|s| FigStruct { title: s.opt(Self::text), title_remarks: s.rem(), fig: s.fig(), fig_remarks: s.rem() })
    }
    pub fn table_struct(&mut self) -> TableStruct {
        self.nest(|s| TableStruct { title: s.opt(Self::twm), title_remarks: s.rem(), table: s.table(), table_remarks: s.rem() })
    }
    pub fn table(&mut self) -> Table {
        self.nest(|s| Table {
            table_header_row: s.many(2, |g| TableHeaderRow { columns: g.many(3, Self::text) }),
            table_row: s.many(3, Self::table_row),
            writing_mode: s.wm(),
        })
    }
    pub fn table_row(&mut self) -> TableRow {
        TableRow { columns: self.many(3, Self::table_column) }
    }
    pub fn table_column(&mut self) -> TableColumn {
        self.nest(|s| {
            let plain = s.t.flip();
            let contents = s.mixed(TableColumnContents::String, |g| Some(g.cell()));
            let mut c = TableColumn {
                contents,
                border_top: LineStyle::Solid,
                border_bottom: LineStyle::Solid,
                border_left: LineStyle::Solid,
                border_right: LineStyle::Solid,
                rowspan: None,
                colspan: None,
                align: None,
                valign: None,
            };
            if !plain {
                c.border_top = s.line_style();
                c.border_bottom = s.line_style();
                c.border_left = s.line_style();
                c.border_right = s.line_style();
                c.rowspan = s.opt(|g| g.t.below(9).to_string());
                c.colspan = s.opt(|g| g.t.below(9).to_string());
                c.align = s.align();
                c.valign = [None, Some(Position::Top), Some(Position::Middle), Some(Position::Bottom)][s.t.below(4)].clone();
            }
            c
        })
    }
    fn cell(&mut self) -> TableColumnContents {
        use TableColumnContents as C;
        if self.plain || !self.can_nest() {
            return match self.t.below(2) {
                0 => C::Sentence(self.sentence()),
                _ => C::Column(self.column()),
            };
        }
        self.nest(|s| match s.t.below(24) {
            0 | 1 => C::Sentence(s.sentence()),
            2 => C::Column(s.column()),
            3 => C::Part(s.part()),
            4 => C::Chapter(s.chapter()),
            5 => C::Section(s.section()),
            6 => C::Subsection(s.subsection()),
            7 => C::Division(s.division()),
            8 => C::Article(s.article()),
            9 => C::Paragraph(s.paragraph()),
            10 => C::Item(s.item()),
            11 => C::Subitem1(s.subitem1()),
            12 => C::Subitem2(s.subitem2()),
            13 => C::Subitem3(s.subitem3()),
            14 => C::Subitem4(s.subitem4()),
            15 => C::Subitem5(s.subitem5()),
            16 => C::Subitem6(s.subitem6()),
            17 => C::Subitem7(s.subitem7()),
            18 => C::Subitem8(s.subitem8()),
            19 => C::Subitem9(s.subitem9()),
            20 => C::Subitem10(s.subitem10()),
            21 => C::FigStruct(s.fig_struct()),
            22 => C::Remarks(s.remarks()),
            _ => C::Sentence(s.sentence()),
        })
    }
    // ---- lists
    fn lsent(&mut self) -> ListSentence {
        if self.t.flip() {
            ListSentence::Column(self.column())
        } else {
            ListSentence::Sentence(self.sentence())
        }
    }
    pub fn list(&mut self) -> List {
        self.nest(|s| List {
            sentence: s.many(2, Self::lsent),
            children: s.many(2, |g| Sublist1 {
                sentence: g.many(2, Self::lsent),
                children: g.many(2, |g| Sublist2 {
                    sentence: g.many(2, Self::lsent),
                    children: g.many(2, |g| Sublist3 { sentence: g.many(2, Self::lsent) }),
                }),
            }),
        })
    }

    // ---- main structure
    pub fn paragraph(&mut self) -> Paragraph {
        if self.light {
            return Paragraph {
                caption: None,
                paragraph_num: Text { contents: vec![] },
                amend_provision: vec![],
                class: vec![],
                sentence: vec![],
                struct_list: vec![],
                children: vec![],
                num: self.num(),
                old_style: self.b(),
                old_num: false,
                hide: false,
            };
        }
        self.nest(|s| Paragraph {
            caption: if s.t.chance(1, 5) { Some(s.caption()) } else { None },
            paragraph_num: s.text(),
            amend_provision: if s.t.chance(1, 8) && s.can_nest() { s.some(2, Self::amend) } else { vec![] },
            class: if s.t.chance(1, 8) && s.can_nest() { s.some(2, Self::class) } else { vec![] },
            sentence: s.many(3, Self::sentence),
            struct_list: s.structs(),
            children: if s.tower { s.some(3, Self::item) } else if s.fuel > 0 { s.many(3, Self::item) } else { vec![] },
            num: s.num(),
            old_style: s.b(),
            old_num: s.b(),
            hide: s.b(),
        })
    }
    fn can_nest_items(&mut self) -> bool {
        self.fuel > 0 && !self.t.exhausted() && self.t.below(8) != 0
    }
    /// number of children for nested item levels; long chains when deep_items
    fn sub_max(&mut self) -> usize {
        if self.deep_items {
            2
        } else if self.t.chance(1, 2) {
            2
        } else {
            0
        }
    }
    pub fn article(&mut self) -> Article {
        if self.light {
            return Article {
                caption: if self.t.chance(1, 4) { Some(self.caption()) } else { None },
                title: self.text(),
                paragraph: self.many(1, Self::paragraph),
                suppl_note: None,
                num: self.num(),
                delete: self.b(),
                hide: self.b(),
            };
        }
        self.nest(|s| Article {
            caption: if s.t.chance(1, 3) { Some(s.caption()) } else { None },
            title: s.text(),
            paragraph: s.many(3, Self::paragraph),
            suppl_note: if s.t.chance(1, 6) { Some(s.text()) } else { None },
            num: s.num(),
            delete: s.b(),
            hide: s.b(),
        })
    }
    pub fn part(&mut self) -> Part {
        self.nest(|s| Part {
            part_title: s.text(),
            children: s.many(4, |g| if g.t.flip() { PartContents::Article(g.article()) } else { PartContents::Chapter(g.chapter()) }),
            num: s.num(),
            delete: s.b(),
            hide: s.b(),
        })
    }
    pub fn chapter(&mut self) -> Chapter {
        self.nest(|s| Chapter {
            chapter_title: s.text(),
            children: s.many(4, |g| if g.t.flip() { ChapterContents::Article(g.article()) } else { ChapterContents::Section(g.section()) }),
            num: s.num(),
            delete: s.b(),
            hide: s.b(),
        })
    }
    pub fn section(&mut self) -> Section {
        self.nest(|s| Section {
            section_title: s.text(),
            children: s.many(4, |g| match g.t.below(3) {
                0 => SectionContents::Article(g.article()),
                1 => SectionContents::Subsection(g.subsection()),
                _ => SectionContents::Division(g.division()),
            }),
            num: s.num(),
            delete: s.b(),
            hide: s.b(),
        })
    }
    pub fn subsection(&mut self) -> Subsection {
        self.nest(|s| Subsection {
            subsection_title: s.text(),
            children: s.many(4, |g| if g.t.flip() { SubsectionContents::Article(g.article()) } else { SubsectionContents::Division(g.division()) }),
            num: s.num(),
            delete: s.b(),
            hide: s.b(),
        })
    }
    pub fn division(&mut self) -> Division {
        self.nest(|s| Division { division_title: s.text(), children: s.many(3, Self::article), num: s.num(), delete: s.b(), hide: s.b() })
    }
    pub fn main_provision(&mut self) -> MainProvision {
        let children = self.many(5, |g| match g.t.below(5) {
            0 => MainProvisionContents::Article(g.article()),
            1 => MainProvisionContents::Chapter(g.chapter()),
            2 => MainProvisionContents::Part(g.part()),
            3 => MainProvisionContents::Section(g.section()),
            _ => MainProvisionContents::Paragraph(g.paragraph()),
        });
        MainProvision { children, extract: self.obool() }
    }
    pub fn amend(&mut self) -> AmendProvision {
        self.nest(|s| AmendProvision { sentence: s.opt(Self::sentence), new_provision: s.many(3, Self::new_provision) })
    }
    pub fn new_provision(&mut self) -> NewProvision {
        use NewProvision as N;
        if !self.can_nest() {
            return match self.t.below(9) {
                0 => N::Sentence(self.sentence()),
                1 => N::PartTitle(self.text()),
                2 => N::ChapterTitle(self.text()),
                3 => N::SectionTitle(self.text()),
                4 => N::SubsectionTitle(self.text()),
                5 => N::DivisionTitle(self.text()),
                6 => N::SupplNote(self.text()),
                7 => N::TableRow(self.table_row()),
                _ => N::LawTitle(self.law_title()),
            };
        }
        self.nest(|s| match s.t.below(47) {
            0 => N::Sentence(s.sentence()),
            1 => N::PartTitle(s.text()),
            2 => N::ChapterTitle(s.text()),
            3 => N::SectionTitle(s.text()),
            4 => N::SubsectionTitle(s.text()),
            5 => N::DivisionTitle(s.text()),
            6 => N::SupplNote(s.text()),
            7 => N::LawTitle(s.law_title()),
            8 => N::Preamble(s.preamble()),
            9 => N::TOC(s.toc()),
            10 => N::Part(s.part()),
            11 => N::Chapter(s.chapter()),
            12 => N::Section(s.section()),
            13 => N::Subsection(s.subsection()),
            14 => N::Division(s.division()),
            15 => N::Article(s.article()),
            16 => N::Paragraph(s.paragraph()),
            17 => N::Item(s.item()),
            18 => N::Subitem1(s.subitem1()),
            19 => N::Subitem2(s.subitem2()),
            20 => N::Subitem3(s.subitem3()),
            21 => N::Subitem4(s.subitem4()),
            22 => N::Subitem5(s.subitem5()),
            23 => N::Subitem6(s.subitem6()),
            24 => N::Subitem7(s.subitem7()),
            25 => N::Subitem8(s.subitem8()),
            26 => N::Subitem9(s.subitem9()),
            27 => N::Subitem10(s.subitem10()),
            28 => N::List(s.list()),
            29 => N::AmendProvision(s.amend()),
            30 => N::AppdxTable(s.appdx_table()),
            31 => N::AppdxNote(s.appdx_note()),
            32 => N::AppdxStyle(s.appdx_style()),
            33 => N::Appdx(s.appdx()),
            34 => N::AppdxFig(s.appdx_fig()),
            35 => N::AppdxFormat(s.appdx_format()),
            36 => N::SupplProvisionAppdxStyle(s.sp_appdx_style()),
            37 => N::SupplProvisionAppdxTable(s.sp_appdx_table()),
            38 => N::SupplProvisionAppdx(s.sp_appdx()),
            39 => N::TableStruct(s.table_struct()),
            40 => N::TableRow(s.table_row()),
            41 => N::TableColumn(s.table_column()),
            42 => N::FigStruct(s.fig_struct()),
            43 => N::NoteStruct(s.note_struct()),
            44 => N::StyleStruct(s.style_struct()),
            45 => match s.t.below(2) {
                0 => N::FormatStruct(s.format_struct()),
                _ => N::Remarks(s.remarks()),
            },
            _ => N::LawBody(Box::new(s.law_body())),
        })
    }
    pub fn law_title(&mut self) -> LawTitle {
        LawTitle { kana: self.opt(Self::a), abbrev: self.opt(Self::a), abbrev_kana: self.opt(Self::a), text: self.text() }
    }
    pub fn preamble(&mut self) -> Preamble {
        Preamble { children: self.many(2, Self::paragraph) }
    }

    // ---- TOC
    pub fn toc(&mut self) -> TOC {
        self.nest(|s| TOC {
            toc_label: s.opt(Self::text),
            toc_preamble_label: s.opt(Self::text),
            toc_main_contents: s.many(4, |g| match g.t.below(4) {
                0 => TOCMainContents::TOCChapter(g.toc_chapter()),
                1 => TOCMainContents::TOCPart(TOCPart {
                    part_title: g.text(),
                    article_range: g.opt(Self::text),
                    num: g.num(),
                    delete: g.b(),
                    children: g.many(3, Self::toc_chapter),
                }),
                2 => TOCMainContents::TOCSection(g.toc_section()),
                _ => TOCMainContents::TOCArticle(g.toc_article()),
            }),
            toc_suppl_provision: s.opt(|g| TOCSupplProvision {
                suppl_provision_label: g.text(),
                article_range: g.opt(Self::text),
                children: g.many(2, |g| {
                    if g.t.flip() {
                        TOCSupplProvisionContents::TOCArticle(g.toc_article())
                    } else {
                        TOCSupplProvisionContents::TOCChapter(g.toc_chapter())
                    }
                }),
            }),
            toc_appdx_table_label: s.many(2, Self::text),
        })
    }
    pub fn toc_article(&mut self) -> TOCArticle {
        TOCArticle { article_title: self.text(), article_caption: self.caption(), num: self.num(), delete: self.b() }
    }
    pub fn toc_chapter(&mut self) -> TOCChapter {
        TOCChapter {
            chapter_title: self.text(),
            article_range: self.opt(Self::text),
            num: self.num(),
            delete: self.b(),
            children: self.many(3, Self::toc_section),
        }
    }
    pub fn toc_section(&mut self) -> TOCSection {
        TOCSection {
            section_title: self.text(),
            article_range: self.opt(Self::text),
            num: self.num(),
            delete: self.b(),
            children: self.many(2, |g| {
                if g.t.flip() {
                    TOCSectionContents::TOCSubsection(TOCSubsection {
                        subsection_title: g.text(),
                        article_range: g.opt(Self::text),
                        num: g.num(),
                        delete: g.b(),
                        children: g.many(2, Self::toc_division),
                    })
                } else {
                    TOCSectionContents::TOCDivision(g.toc_division())
                }
            }),
        }
    }
    pub fn toc_division(&mut self) -> TOCDivision {
        TOCDivision { division_title: self.text(), article_range: self.opt(Self::text), num: self.num(), delete: self.b() }
    }

    // ---- appendices
    pub fn appdx_table(&mut self) -> AppdxTable {
        self.nest(|s| AppdxTable {
            title: s.opt(Self::twm),
            related_article_num: s.opt(Self::text),
            children: s.many(2, |g| if g.t.flip() { AppdxTableContents::Item(g.item()) } else { AppdxTableContents::TableStruct(g.table_struct()) }),
            remarks: s.orem(),
            num: s.opt(Self::a),
        })
    }
    pub fn appdx_note(&mut self) -> AppdxNote {
        self.nest(|s| AppdxNote {
            title: s.opt(Self::twm),
            related_article_num: s.opt(Self::text),
            children: s.many(2, |g| match g.t.below(3) {
                0 => AppdxNoteContents::NoteStruct(g.note_struct()),
                1 => AppdxNoteContents::FigStruct(g.fig_struct()),
                _ => AppdxNoteContents::TableStruct(g.table_struct()),
            }),
            remarks: s.orem(),
            num: s.opt(Self::a),
        })
    }
    pub fn appdx_style(&mut self) -> AppdxStyle {
        self.nest(|s| AppdxStyle {
            title: s.opt(Self::twm),
            related_article_num: s.opt(Self::text),
            children: s.many(2, Self::style_struct),
            remarks: s.orem(),
            num: s.opt(Self::a),
        })
    }
    pub fn appdx_format(&mut self) -> AppdxFormat {
        self.nest(|s| AppdxFormat {
            title: s.opt(Self::twm),
            related_article_num: s.opt(Self::text),
            children: s.many(2, Self::format_struct),
            remarks: s.orem(),
            num: s.opt(Self::a),
        })
    }
    pub fn appdx(&mut self) -> Appdx {
        self.nest(|s| Appdx {
            arith_formula_num: s.opt(Self::text),
            related_article_num: s.opt(Self::text),
            arith_formula: s.many(2, Self::arith),
            remarks: s.orem(),
        })
    }
    pub fn appdx_fig(&mut self) -> AppdxFig {
        self.nest(|s| AppdxFig {
            title: s.opt(Self::twm),
            related_article_num: s.opt(Self::text),
            children: s.many(2, |g| if g.t.flip() { AppdxFigContents::TableStruct(g.table_struct()) } else { AppdxFigContents::FigStruct(g.fig_struct()) }),
            num: s.opt(Self::a),
        })
    }
    // ---- supplementary provisions
    pub fn suppl(&mut self) -> SupplProvision {
        self.nest(|s| SupplProvision {
            label: s.text(),
            children: s.many(4, |g| match g.t.below(6) {
                0 => SupplProvisionChildrenElement::Paragraph(g.paragraph()),
                1 => SupplProvisionChildrenElement::Article(g.article()),
                2 => SupplProvisionChildrenElement::Chapter(g.chapter()),
                3 => SupplProvisionChildrenElement::SupplProvisionAppdxTable(g.sp_appdx_table()),
                4 => SupplProvisionChildrenElement::SupplProvisionAppdxStyle(g.sp_appdx_style()),
                _ => SupplProvisionChildrenElement::SupplProvisionAppdx(g.sp_appdx()),
            }),
            suppl_provision_type: [None, Some(SupplProvisionType::New), Some(SupplProvisionType::Amend)][s.t.below(3)].clone(),
            amend_law_num: s.opt(Self::a),
            extract: s.obool(),
        })
    }
    pub fn sp_appdx_table(&mut self) -> SupplProvisionAppdxTable {
        SupplProvisionAppdxTable {
            title: self.twm(),
            related_article_num: self.opt(Self::text),
            table_struct: self.many(2, Self::table_struct),
            num: self.opt(Self::a),
        }
    }
    pub fn sp_appdx_style(&mut self) -> SupplProvisionAppdxStyle {
        SupplProvisionAppdxStyle {
            title: self.twm(),
            related_article_num: self.opt(Self::text),
            style_struct: self.many(2, Self::style_struct),
            num: self.opt(Self::a),
        }
    }
    pub fn sp_appdx(&mut self) -> SupplProvisionAppdx {
        SupplProvisionAppdx {
            arith_formula_num: self.opt(Self::text),
            related_article_num: self.opt(Self::text),
            arith_formula: self.many(2, Self::arith),
            num: self.opt(Self::a),
        }
    }
    /// Every part is present only sometimes, so that each gets its share of the fuel.
    pub fn law_body(&mut self) -> LawBody {
        self.nest(|s| {
            let focus = s.t.below(14);
            let all = focus == 13;
            let on = |s: &mut Self, k: usize| all || focus == k || s.t.chance(1, 10);
            LawBody {
                law_title: s.opt(Self::law_title),
                enact_statement: if on(s, 1) { s.many(2, Self::text) } else { vec![] },
                subject: if on(s, 1) { Some(s.a()) } else { None },
                toc: if on(s, 2) || focus == 3 { Some(s.toc()) } else { None },
                preamble: if on(s, 4) { Some(s.preamble()) } else { None },
                main_provision: if focus <= 5 || all { s.main_provision() } else { MainProvision { children: vec![], extract: s.obool() } },
                suppl_provision: if on(s, 6) || focus == 0 { s.many(3, Self::suppl) } else { vec![] },
                appdx_table: if on(s, 7) { s.many(2, Self::appdx_table) } else { vec![] },
                appdx_note: if on(s, 8) { s.many(2, Self::appdx_note) } else { vec![] },
                appdx_style: if on(s, 9) { s.many(2, Self::appdx_style) } else { vec![] },
                appdx: if on(s, 10) { s.many(2, Self::appdx) } else { vec![] },
                appdx_fig: if on(s, 11) { s.many(2, Self::appdx_fig) } else { vec![] },
                appdx_format: if on(s, 12) { s.many(2, Self::appdx_format) } else { vec![] },
            }
        })
    }
    pub fn law(&mut self) -> Law {
        let law_body = self.law_body();
        Law {
            era: [Era::Meiji, Era::Taisho, Era::Showa, Era::Heisei, Era::Reiwa][self.t.below(5)].clone(),
            year: big(self.t, 70),
            num: self.onumber(),
            promulgate_month: if self.t.flip() { Some(big(self.t, 13)) } else { None },
            promulgate_day: if self.t.flip() { Some(big(self.t, 32)) } else { None },
            law_type: [
                LawType::Act,
                LawType::Constitution,
                LawType::CabinetOrder,
                LawType::ImperialOrder,
                LawType::MinisterialOrdinance,
                LawType::Rule,
                LawType::Misc,
            ][self.t.below(7)]
            .clone(),
            lang: [Lang::Ja, Lang::En][self.t.below(2)].clone(),
            law_num: self.inner(),
            law_body,
        }
    }
}

/// usually below `usual`, now and then as large as the machine word allows
fn big(t: &mut Tape, usual: usize) -> usize {
    if !t.chance(1, 24) {
        return t.below(usual);
    }
    match t.below(4) {
        0 => [255, 256, 999, 1000, 9999, 10000, 65535, 65536][t.below(8)],
        1 => [i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, u32::MAX as usize + 1, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX - 1, usize::MAX][t.below(8)],
        2 => (t.raw() as usize) << 32 | t.raw() as usize,
        _ => t.raw() as usize,
    }
}
pub fn number(t: &mut Tape) -> ArticleNumber {
    let one = |t: &mut Tape| match t.weighted(&[12, 3, 1]) {
        0 => 1 + t.below(20),
        1 => t.below(10000),
        _ => big(t, 1 << 32),
    };
    let base_number = one(t);
    let ne = t.weighted(&[5, 3, 2, 1]);
    let eda_numbers = (0..ne).map(|_| one(t)).collect();
    let nr = if t.chance(1, 4) { 1 + t.weighted(&[4, 3, 1]) } else { 0 };
    let range_end_numbers = (0..nr).map(|_| one(t)).collect();
    ArticleNumber { base_number, eda_numbers, range_end_numbers }
}

macro_rules! item_level {
    ($f:ident, $T:ident, $c:ident) => {
        impl<'t, 'd> G<'t, 'd> {
            pub fn $f(&mut self) -> $T {
                let sm = self.sub_max();
                $T {
                    title: self.opt(Self::text),
                    sentence: self.sct(),
                    children: if self.tower && self.can_nest_items() { self.some(2, Self::$c) } else { self.many(sm, Self::$c) },
                    struct_list: self.structs(),
                    num: self.onumber(),
                    delete: self.b(),
                    hide: self.b(),
                }
            }
        }
    };
}
item_level!(item, Item, subitem1);
item_level!(subitem1, Subitem1, subitem2);
item_level!(subitem2, Subitem2, subitem3);
item_level!(subitem3, Subitem3, subitem4);
item_level!(subitem4, Subitem4, subitem5);
item_level!(subitem5, Subitem5, subitem6);
item_level!(subitem6, Subitem6, subitem7);
item_level!(subitem7, Subitem7, subitem8);
item_level!(subitem8, Subitem8, subitem9);
item_level!(subitem9, Subitem9, subitem10);
impl<'t, 'd> G<'t, 'd> {
    pub fn subitem10(&mut self) -> Subitem10 {
        Subitem10 {
            title: self.opt(Self::text),
            sentence: self.sct(),
            struct_list: self.structs(),
            num: self.onumber(),
            delete: self.b(),
            hide: self.b(),
        }
    }
}
