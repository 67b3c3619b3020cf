//! C11 C12 C13: article lists, derived tables of contents, text extraction.
use crate::driver::*;
use crate::gen::G;
use crate::refnum::{self, Answer};
use crate::refw;
use crate::tape::Tape;
use crate::wide;
use crate::xnode::{self, Kid, XNode};
use japanese_law_xml_schema::{
    article::Article, article_number::ArticleNumber, law::{MainProvision, MainProvisionContents}, paragraph::Paragraph, suppl_provision::SupplProvision, text::*, utils::*,
};

const SIZES: &[(usize, u32)] = &[(30, 2), (120, 4), (500, 3), (1500, 1)];

fn kids(n: &XNode) -> impl Iterator<Item = &XNode> {
    n.kids.iter().filter_map(|k| if let Kid::E(e) = k { Some(e) } else { None })
}
fn num_of(n: &XNode) -> Option<ArticleNumber> {
    match refnum::parse_key(n.get("Num").unwrap_or("")) {
        Answer::Num(n) => Some(n),
        _ => None,
    }
}
const LEVELS: [&str; 5] = ["Part", "Chapter", "Section", "Subsection", "Division"];

/// One article or heading with the numbers of the headings around it, from the reference tree.
struct Entry<'a> {
    node: &'a XNode,
    path: [Option<ArticleNumber>; 5],
    article: bool,
}
fn entries<'a>(n: &'a XNode, path: &[Option<ArticleNumber>; 5], out: &mut Vec<Entry<'a>>) {
    for e in kids(n) {
        if e.name == "Article" {
            out.push(Entry { node: e, path: path.clone(), article: true });
        } else if let Some(l) = LEVELS.iter().position(|x| *x == e.name) {
            let mut p = path.clone();
            p[l] = num_of(e);
            out.push(Entry { node: e, path: p.clone(), article: false });
            entries(e, &p, out);
        }
    }
}
/// runs of bare paragraphs, broken by articles and headings
fn groups(n: &XNode) -> Vec<Vec<XNode>> {
    let mut v = vec![vec![]];
    for e in kids(n) {
        match e.name.as_str() {
            "Paragraph" => v.last_mut().unwrap().push(e.clone()),
            // appendices to a supplementary provision come after its text
            n if n.starts_with("SupplProvision") => (),
            _ => v.push(vec![]),
        }
    }
    v.retain(|g| !g.is_empty());
    v
}

enum Prov {
    Main(MainProvision),
    Suppl(SupplProvision),
}
fn provision(t: &mut Tape, rec: &mut Rec) -> (Prov, XNode) {
    let suppl = t.chance(1, 3);
    let mode = t.below(3);
    let mut g = G::new(t);
    if mode > 0 {
        g.light = true;
        g.fuel = [60, 200][mode - 1];
        g.max_depth = 12;
    } else {
        g.fuel = 60;
    }
    let (p, tree) = if suppl {
        let mut s = g.suppl();
        if mode > 0 {
            use japanese_law_xml_schema::suppl_provision::SupplProvisionChildrenElement as E;
            s.children.extend(g.many(6, |g| if g.t.flip() { E::Chapter(g.chapter()) } else { E::Article(g.article()) }));
        }
        let n = refw::suppl(&s);
        (Prov::Suppl(s), n)
    } else {
        let mut m = g.main_provision();
        if mode == 2 {
            m.children.extend(g.main_provision().children);
        }
        let n = refw::main_provision(&m);
        (Prov::Main(m), n)
    };
    describe(&tree, suppl, rec);
    (p, tree)
}
/// A provision in which one thing stands very many times, taken from a law that was read.
fn wide_provision(t: &mut Tape, rec: &mut Rec) -> Result<Option<(Prov, XNode)>, String> {
    let words = t.derived(12);
    let suppl = t.chance(1, 3);
    let mut law = {
        let mut g = G::new(t);
        g.light = true;
        g.max_depth = 12;
        g.fuel = 60;
        g.law()
    };
    let mut g = G::new(t);
    g.light = true;
    g.fuel = 60;
    g.max_depth = 12;
    if suppl {
        law.law_body.suppl_provision = vec![g.suppl()];
    } else {
        law.law_body.main_provision = g.main_provision();
    }
    let mut root = refw::law(&law);
    let name = if suppl { "SupplProvision" } else { "MainProvision" };
    let Some(body) = root.kids.iter_mut().find_map(|k| match k {
        Kid::E(e) if e.name == "LawBody" => Some(e),
        _ => None,
    }) else {
        return Ok(None);
    };
    let Some(node) = body.kids.iter_mut().find_map(|k| match k {
        Kid::E(e) if e.name == name => Some(e),
        _ => None,
    }) else {
        return Ok(None);
    };
    let mut w = wide::Wide::default();
    wide::repeat(node, &mut Tape::new(&words), 6000, &mut w);
    let law = crate::checks_xml::parse(xnode::plain(&root).as_bytes())?;
    let (p, tree) = if suppl {
        let Some(s) = law.law_body.suppl_provision.into_iter().next() else { return Ok(None) };
        let n = refw::suppl(&s);
        (Prov::Suppl(s), n)
    } else {
        let n = refw::main_provision(&law.law_body.main_provision);
        (Prov::Main(law.law_body.main_provision), n)
    };
    describe(&tree, suppl, rec);
    crate::checks_xml::wide_labels(&w, rec);
    Ok(Some((p, tree)))
}
fn describe(tree: &XNode, suppl: bool, rec: &mut Rec) {
    let mut e = vec![];
    entries(tree, &Default::default(), &mut e);
    let arts = e.iter().filter(|e| e.article).count();
    rec.key(tree);
    rec.nontrivial = arts >= 2 && e.len() > arts;
    rec.label(if suppl { "supplementary provision" } else { "main provision" });
    for (i, l) in LEVELS.iter().enumerate() {
        rec.label_if(e.iter().any(|e| e.article && e.path[i].is_some()), ["article in Part", "article in Chapter", "article in Section", "article in Subsection", "article in Division"][i]);
        let _ = l;
    }
    rec.label_if(e.iter().any(|e| e.article && e.path[2].is_some() && e.path[3].is_none() && e.path[4].is_some()), "Division directly in Section");
    rec.label_if(e.iter().any(|e| e.article && e.path.iter().all(|x| x.is_none())) && e.len() > arts, "article outside headings beside headings");
    rec.label_if(e.windows(2).any(|w| w[0].article && !w[1].article), "heading after an article");
    rec.label_if(!groups(tree).is_empty(), "bare paragraphs");
    rec.label_if(groups(tree).len() > 1, "several runs of bare paragraphs");
    rec.show(|| xnode::plain(tree));
    rec.sample(|| xnode::plain(tree));
}

fn paras_ok(what: &str, got: &[Vec<Paragraph>], tree: &XNode) -> Result<(), String> {
    let got: Vec<Vec<XNode>> = got.iter().filter(|g| !g.is_empty()).map(|g| g.iter().map(refw::paragraph).collect()).collect();
    let want = groups(tree);
    if got != want {
        let f = |v: &[Vec<XNode>]| format!("{:?}", v.iter().map(|g| g.iter().map(|n| n.get("Num").unwrap_or("").to_string()).collect::<Vec<_>>()).collect::<Vec<_>>());
        return Err(format!("{what}: bare paragraphs: expected runs {} got {}", f(&want), f(&got)));
    }
    Ok(())
}
fn c11(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let (p, tree) = provision(t, rec);
    c11_for(&p, &tree)
}
fn c11_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    match wide_provision(t, rec)? {
        Some((p, tree)) => c11_for(&p, &tree),
        None => Ok(()),
    }
}
fn c11_for(p: &Prov, tree: &XNode) -> Result<(), String> {
    let mut all = vec![];
    entries(tree, &Default::default(), &mut all);
    let want: Vec<&Entry> = all.iter().filter(|e| e.article).collect();
    let ((wn, wp), (an, ap)): ((Vec<WithNumberArticle>, _), (Vec<Article>, _)) = match p {
        Prov::Main(m) => (
            lib("with_number_article_list_from_main_provision", || with_number_article_list_from_main_provision(m))?,
            lib("article_list_from_main_provision", || article_list_from_main_provision(m))?,
        ),
        Prov::Suppl(s) => (
            lib("with_number_article_list_from_suppl_provision", || with_number_article_list_from_suppl_provision(s))?,
            lib("article_list_from_suppl_provision", || article_list_from_suppl_provision(s))?,
        ),
    };
    if wn.len() != want.len() || an.len() != want.len() {
        return Err(format!("{} articles, numbered listing has {}, plain listing {}", want.len(), wn.len(), an.len()));
    }
    for (i, w) in want.iter().enumerate() {
        if refw::article(&an[i]) != *w.node {
            return Err(format!("plain listing: entry {i} is article {:?}, expected {:?}", an[i].num, w.node.get("Num")));
        }
        if refw::article(&wn[i].get_article()) != *w.node {
            return Err(format!("numbered listing: entry {i} is article {:?}, expected {:?}", wn[i].get_article().num, w.node.get("Num")));
        }
        let got = [wn[i].get_part(), wn[i].get_chapter(), wn[i].get_section(), wn[i].get_subsection(), wn[i].get_division()];
        if got != w.path {
            let f = |p: &[Option<ArticleNumber>; 5]| format!("{:?}", p.iter().map(|n| n.as_ref().map(refnum::key)).collect::<Vec<_>>());
            return Err(format!("article {i} ({:?}): [part, chapter, section, subsection, division] is {}, expected {}", w.node.get("Num"), f(&got), f(&w.path)));
        }
    }
    paras_ok("numbered listing", &wp, tree)?;
    paras_ok("plain listing", &ap, tree)
}

/// Text of a title or cell heading: ruby bases, superscripts and subscripts as they are, lines left out.
fn title_str(n: &XNode) -> String {
    let mut s = String::new();
    for k in &n.kids {
        match k {
            Kid::T(t) => s += t,
            Kid::E(e) if e.name == "Ruby" => s += &runs(e),
            Kid::E(e) if e.name == "Sup" || e.name == "Sub" => s += &runs(e),
            _ => (),
        }
    }
    s
}
fn runs(n: &XNode) -> String {
    n.kids.iter().filter_map(|k| if let Kid::T(t) = k { Some(t.as_str()) } else { None }).collect()
}

fn c12(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let (p, tree) = provision(t, rec);
    c12_for(&p, &tree)
}
fn c12_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    match wide_provision(t, rec)? {
        Some((p, tree)) => c12_for(&p, &tree),
        None => Ok(()),
    }
}
fn c12_for(p: &Prov, tree: &XNode) -> Result<(), String> {
    let mut want = vec![];
    entries(tree, &Default::default(), &mut want);
    let got = match p {
        Prov::Main(m) => lib("toc_list_from_main_provision", || toc_list_from_main_provision(m))?,
        Prov::Suppl(s) => lib("toc_list_from_suppl_provision", || toc_list_from_suppl_provision(s))?,
    };
    let show = |path: &[Option<ArticleNumber>; 5], art: &Option<ArticleNumber>, title: &Option<String>| {
        format!("{:?} article {:?} title {title:?}", path.iter().map(|n| n.as_ref().map(refnum::key)).collect::<Vec<_>>(), art.as_ref().map(refnum::key))
    };
    for i in 0..want.len().max(got.len()) {
        let g = got.get(i).map(|g| {
            (
                [g.get_part(), g.get_chapter(), g.get_section(), g.get_subsection(), g.get_division()],
                g.get_article(),
                g.get_title(),
            )
        });
        let w = want.get(i).map(|w| {
            let title = kids(w.node).find(|k| k.name.ends_with("Title")).map(title_str);
            (w.path.clone(), if w.article { num_of(w.node) } else { None }, title)
        });
        if g != w {
            return Err(format!(
                "entry {i}: expected {}, got {}",
                w.map(|w| show(&w.0, &w.1, &w.2)).unwrap_or("nothing".into()),
                g.map(|g| show(&g.0, &g.1, &g.2)).unwrap_or("nothing".into())
            ));
        }
    }
    Ok(())
}

/// What titles are made of: their plain wording, and the ways of putting them together.
fn c12_titles(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut g = G::new(t);
    let text = g.text();
    let mode = g.wm();
    let more = g.text();
    let tree = refw::text("T", &text);
    rec.key(&(&text, &more));
    rec.nontrivial = text.contents.len() >= 2;
    rec.label_if(text.contents.len() >= 3, "3+ pieces");
    rec.show(|| format!("{text:?}"));
    rec.sample(|| xnode::plain(&tree));
    let want = title_str(&tree);
    let got = lib("Text::to_string", || text.to_string())?;
    if got != want {
        return Err(format!("the wording of {} is {want:?}, to_string gives {got:?}", xnode::plain(&tree)));
    }
    let w = lib("with_writing_mode", || text.with_writing_mode(mode.clone()))?;
    if w != (TextWithWritingMode { contents: text.contents.clone(), writing_mode: mode }) {
        return Err(format!("with_writing_mode makes {w:?} of {text:?}"));
    }
    let got = lib("TextWithWritingMode::to_string", || w.to_string())?;
    if got != want {
        return Err(format!("the wording of {} is {want:?}, to_string with a writing mode gives {got:?}", xnode::plain(&tree)));
    }
    // from single pieces
    let mut built = match text.contents.first() {
        Some(TextElement::Text(s)) => lib("from_value", || Text::from_value(s))?,
        Some(e) => Text { contents: vec![e.clone()] },
        None => Text { contents: vec![] },
    };
    for e in text.contents.iter().skip(1) {
        lib("add", || match e.clone() {
            TextElement::Text(s) => built.add_string(&s),
            TextElement::Ruby(v) => built.add_ruby(v),
            TextElement::Line(v) => built.add_line(v),
            TextElement::Sup(v) => built.add_sup(v),
            TextElement::Sub(v) => built.add_sub(v),
        })?;
    }
    if built != text {
        return Err(format!("put together piece by piece, {text:?} becomes {built:?}"));
    }
    lib("add_text", || built.add_text(more.clone()))?;
    let want: Vec<_> = text.contents.iter().chain(&more.contents).cloned().collect();
    if built.contents != want {
        return Err(format!("{text:?} followed by {more:?} becomes {built:?}"));
    }
    Ok(())
}
/// Entries hold what was put in: any sequence of settings, each place on its own.
fn c12_entry(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let n = 1 + t.below(20);
    let mut toc = Toc::default();
    let mut model: ([Option<ArticleNumber>; 6], Option<String>) = Default::default();
    let mut steps = vec![];
    let mut g = G::new(t);
    g.light = true;
    g.fuel = 30;
    let article = g.article();
    let other = g.article();
    let mut with = lib("WithNumberArticle::new", || WithNumberArticle::new(article.clone()))?;
    let mut model_w: ([Option<ArticleNumber>; 5], Article) = (Default::default(), article);
    for _ in 0..n {
        let place = g.t.below(14);
        let v = if g.t.chance(1, 4) { None } else { Some(g.num()) };
        steps.push((place, v.clone()));
        lib("set", || match place {
            0 => toc.set_part(v.clone()),
            1 => toc.set_chapter(v.clone()),
            2 => toc.set_section(v.clone()),
            3 => toc.set_subsection(v.clone()),
            4 => toc.set_division(v.clone()),
            5 => toc.set_article(v.clone()),
            6 => toc.set_title(v.as_ref().map(refnum::key)),
            7 | 8 => with.set_part(v.clone()),
            9 => with.set_chapter(v.clone()),
            10 => with.set_section(v.clone()),
            11 => with.set_subsection(v.clone()),
            12 => with.set_division(v.clone()),
            _ => with.set_articl(other.clone()),
        })?;
        match place {
            0..=5 => model.0[place] = v,
            6 => model.1 = v.as_ref().map(refnum::key),
            7 | 8 => model_w.0[0] = v,
            9..=12 => model_w.0[place - 8] = v,
            _ => model_w.1 = other.clone(),
        }
        let got = ([toc.get_part(), toc.get_chapter(), toc.get_section(), toc.get_subsection(), toc.get_division(), toc.get_article()], toc.get_title());
        if got != model {
            return Err(format!("after {steps:?} the entry holds {got:?}, expected {model:?}"));
        }
        let got = ([with.get_part(), with.get_chapter(), with.get_section(), with.get_subsection(), with.get_division()], with.get_article());
        if got != model_w {
            return Err(format!("after {steps:?} the numbered article holds {got:?}, expected {model_w:?}"));
        }
    }
    rec.key(&steps);
    rec.nontrivial = n >= 3;
    rec.show(|| format!("{steps:?}"));
    rec.sample(|| format!("{steps:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C13

/// base text of ruby, marked superscripts and subscripts, formulas and quotes inline, lines left out
fn inline(n: &XNode) -> String {
    let mut s = String::new();
    for k in &n.kids {
        match k {
            Kid::T(t) => s += t,
            Kid::E(e) => match e.name.as_str() {
                "Ruby" => s += &runs(e),
                "Sup" => s += &format!("^{{{}}}", runs(e)),
                "Sub" => s += &format!("_{{{}}}", runs(e)),
                "ArithFormula" | "QuoteStruct" => s += &inline(e),
                _ => (),
            },
        }
    }
    s
}
fn sentences(n: &XNode) -> Vec<String> {
    kids(n).filter(|k| k.name == "Sentence").map(inline).collect()
}
fn table(n: &XNode) -> String {
    let head: Vec<String> = kids(n).filter(|r| r.name == "TableHeaderRow").map(|r| kids(r).map(title_str).collect()).collect();
    let rows: Vec<String> = kids(n)
        .filter(|r| r.name == "TableRow")
        .map(|r| {
            let cells: Vec<String> = kids(r)
                .map(|c| {
                    c.kids
                        .iter()
                        .map(|k| match k {
                            Kid::T(t) => t.clone(),
                            Kid::E(e) if e.name == "Sentence" => inline(e),
                            Kid::E(e) => sentences(e).concat(),
                        })
                        .collect()
                })
                .collect();
            cells.join(" ")
        })
        .collect();
    format!("{}\n{}", head.join(" "), rows.join("\n"))
}
fn block(n: &XNode) -> String {
    match kids(n).next().map(|k| k.name.as_str()) {
        Some("Column") => kids(n).flat_map(sentences).collect::<Vec<_>>().join(" "),
        Some("Table") => table(kids(n).next().unwrap()),
        _ => sentences(n).concat(),
    }
}
type Line = (ArticleNumber, Vec<Option<ArticleNumber>>, String);
fn item_lines(n: &XNode, para: &ArticleNumber, path: &[Option<ArticleNumber>], out: &mut Vec<Line>) {
    let next = match n.name.as_str() {
        "Paragraph" => "Item".to_string(),
        "Item" => "Subitem1".to_string(),
        s => format!("Subitem{}", s["Subitem".len()..].parse::<u32>().unwrap() + 1),
    };
    let body = format!("{}Sentence", n.name);
    let text = kids(n).find(|k| k.name == body).map(block).unwrap_or_default();
    out.push((para.clone(), path.to_vec(), text));
    for k in kids(n).filter(|k| k.name == next) {
        let mut p = path.to_vec();
        p.push(num_of(k));
        item_lines(k, para, &p, out);
    }
}
fn c13(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    c13_article(t, rec, false)
}
fn c13_items(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    c13_article(t, rec, true)
}
fn c13_article(t: &mut Tape, rec: &mut Rec, tower: bool) -> Result<(), String> {
    let mut g = G::new(t);
    g.plain = true;
    g.tower = tower;
    if tower {
        g.fuel = 300;
    }
    g.max_depth = 16;
    let article = g.article();
    c13_for(&article, rec)
}
/// an article in which one thing stands very many times, taken from a law that was read
fn c13_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(12);
    let mut g = G::new(t);
    g.plain = true;
    g.max_depth = 10;
    let mut tree = refw::article(&g.article());
    let w = wide::widen(&mut tree, &mut Tape::new(&words), 6000);
    let mut inner = String::new();
    xnode::plain_into(&tree, &mut inner);
    let xml = format!(
        "<Law Era=\"Showa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>番号</LawNum><LawBody><MainProvision>{inner}</MainProvision></LawBody></Law>"
    );
    let law = crate::checks_xml::parse(xml.as_bytes())?;
    match law.law_body.main_provision.children.first() {
        Some(MainProvisionContents::Article(a)) => c13_for(a, rec)?,
        _ => return Err("a document with one article is read as something else".to_string()),
    }
    crate::checks_xml::wide_labels(&w, rec);
    Ok(())
}
fn c13_for(article: &Article, rec: &mut Rec) -> Result<(), String> {
    let tree = refw::article(article);
    let mut want: Vec<Line> = vec![];
    for p in kids(&tree).filter(|k| k.name == "Paragraph") {
        item_lines(p, &num_of(p).unwrap(), &[], &mut want);
    }
    let deepest = want.iter().map(|w| w.1.len()).max().unwrap_or(0);
    rec.key(&tree);
    rec.nontrivial = want.len() >= 3 || deepest > 0;
    rec.label(["no items", "items", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10"][deepest.min(11)]);
    rec.label_if(want.iter().any(|w| w.1.len() > 1 && w.2.contains('\n')), "table or line break in a sub-item");
    rec.label_if(want.iter().any(|w| w.2.contains("^{")), "superscript");
    rec.label_if(want.iter().any(|w| w.2.contains("_{")), "subscript");
    rec.show(|| xnode::plain(&tree));
    rec.sample(|| xnode::plain(&tree));
    let got = lib("text_info_list_from_paragraph", || text_info_list_from_paragraph(&article.paragraph))?;
    for i in 0..want.len().max(got.len()) {
        let g = got.get(i).map(|(x, s)| (x.paragraph.clone(), x.items.clone(), s.clone()));
        if g.as_ref() != want.get(i) {
            return Err(format!("entry {i}: expected {:?}, got {:?}", want.get(i), g));
        }
    }
    let joined = want.iter().map(|w| w.2.as_str()).collect::<Vec<_>>().join("\n");
    for (what, s) in [
        ("text_from_article", lib("text_from_article", || text_from_article(article))?),
        ("text_from_paragraph_list", lib("text_from_paragraph_list", || text_from_paragraph_list(&article.paragraph))?),
    ] {
        if s != joined {
            return Err(format!("{what} gives {s:?}, expected {joined:?}"));
        }
    }
    // parts on their own
    for p in &article.paragraph {
        for s in &p.sentence {
            let want = inline(&refw::sentence(s));
            let got = lib("sentence_element_to_str", || sentence_element_to_str(&s.contents))?;
            if got != want {
                return Err(format!("sentence_element_to_str gives {got:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}
fn c13_table(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let mut g = G::new(t);
    g.plain = true;
    let tb = g.table();
    let tree = refw::table(&tb);
    rec.key(&tree);
    rec.nontrivial = tree.count() > 4;
    rec.show(|| xnode::plain(&tree));
    let want = table(&tree);
    let got = lib("table_to_str", || table_to_str(&tb))?;
    if got != want {
        return Err(format!("table_to_str gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn check(id: &str) -> Option<Check> {
    let ph = |name, quick, thorough, case| Phase { name, gen: Gen::Random { quick, thorough, sizes: SIZES }, case, workers: WORKERS };
    Some(match id {
        "C11" => Check {
            id: "C11",
            rule: "a generated main or supplementary provision is listed plainly and with numbers and compared with a walk over the reference tree; non-trivial: at least two articles and a heading",
            assumptions: &["empty runs of paragraphs in the result carry no information"],
            phases: vec![ph("provisions", 1000000, 30000000, c11 as CaseFn), ph("wide provisions", 8000, 200000, c11_wide as CaseFn)],
        },
        "C12" => Check {
            id: "C12",
            rule: "the table of contents derived from a generated provision is compared entry by entry with a walk over the reference tree; non-trivial: at least two articles and a heading",
            assumptions: &["titles are compared as plain text: ruby base, superscripts and subscripts inline, lines left out as Text::to_string does"],
            phases: vec![ph("provisions", 1000000, 30000000, c12 as CaseFn), ph("wide provisions", 8000, 200000, c12_wide as CaseFn), ph("titles", 60000, 1500000, c12_titles as CaseFn), ph("entries", 30000, 600000, c12_entry as CaseFn)],
        },
        "C13" => Check {
            id: "C13",
            rule: "a generated article's text is extracted and compared, with its index, with a walk over the reference tree; non-trivial: at least three lines of text or an item",
            assumptions: &["lines (Line elements) are left out, as documented", "cells hold text, sentences or columns; formulas and quotes hold inline content"],
            phases: vec![ph("articles", 1500000, 30000000, c13 as CaseFn), ph("nested items", 400000, 10000000, c13_items as CaseFn), ph("wide articles", 8000, 200000, c13_wide as CaseFn), ph("tables", 300000, 6000000, c13_table as CaseFn)],
        },
        _ => return None,
    })
}
