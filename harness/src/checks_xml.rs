//! C01 C02 C03 C04: reading and writing XML.
use crate::driver::*;
use crate::gen::G;
use crate::refw;
use crate::tape::Tape;
use crate::wide::{self, Wide};
use crate::xnode::{self, Spelling, XNode};
use japanese_law_xml_schema::{class::Align, law::Law, line::LineStyle, parse_xml, table::Position, text::Text, to_xml};

pub const SIZES: &[(usize, u32)] = &[(40, 2), (200, 4), (800, 4), (2500, 2)];

pub fn gen_law(t: &mut Tape) -> Law {
    G::new(t).law()
}
/// the same law twice from one tape: canonical, and with text runs split / empty runs added
fn gen_split(data_pos: &mut Tape, split: bool) -> Law {
    let mut g = G::new(data_pos);
    g.split = split;
    g.law()
}
fn short(s: &str) -> String {
    s.chars().take(6000).collect()
}
fn describe(law: &Law, tree: &XNode, rec: &mut Rec) {
    rec.key(law);
    let n = tree.count();
    rec.nontrivial = n >= 12;
    rec.label(match n {
        0..=11 => "elements<12",
        12..=39 => "elements12-39",
        40..=149 => "elements40-149",
        _ => "elements150+",
    });
    vocab(tree, rec);
}
/// count documents that contain each interesting element
fn vocab(tree: &XNode, rec: &mut Rec) {
    const NAMES: [&str; 40] = [
        "Part", "Chapter", "Section", "Subsection", "Division", "Article", "Item", "Subitem1", "Subitem5", "Subitem10", "Class", "AmendProvision",
        "NewProvision", "TOC", "TOCPart", "TOCSubsection", "TOCSupplProvision", "Table", "TableColumn", "TableHeaderRow", "TableStruct", "FigStruct",
        "NoteStruct", "StyleStruct", "FormatStruct", "List", "Sublist3", "Remarks", "QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub", "Line",
        "SupplProvision", "SupplProvisionAppdxTable", "SupplProvisionAppdx", "Appdx", "AppdxFormat", "Preamble",
    ];
    let mut seen = std::collections::HashSet::new();
    fn walk<'a>(n: &'a XNode, seen: &mut std::collections::HashSet<&'a str>) {
        seen.insert(n.name.as_str());
        for k in &n.kids {
            if let xnode::Kid::E(e) = k {
                walk(e, seen)
            }
        }
    }
    walk(tree, &mut seen);
    for n in NAMES {
        if seen.contains(n) {
            rec.label(n)
        }
    }
}

pub fn first_diff(want: &Law, got: &Law) -> String {
    // both are described through the reference vocabulary, which shows where they differ
    let a = xnode::normalise(&refw::law(want));
    let b = xnode::normalise(&refw::law(got));
    xnode::diff(&a, &b, "").unwrap_or_else(|| {
        let a = format!("{want:?}");
        let b = format!("{got:?}");
        let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
        let cut = |s: &str| s.chars().skip(i.saturating_sub(80)).take(200).collect::<String>();
        format!("values differ: expected …{}… got …{}…", cut(&a), cut(&b))
    })
}

/// Equal by the library's own comparison and, independently of it, in everything the schema can express.
pub fn same(want: &Law, got: &Law) -> bool {
    want == got && refw::law(want) == refw::law(got)
}
pub fn parse(xml: &[u8]) -> Result<Law, String> {
    match lib("parse_xml", || parse_xml(xml))? {
        Ok(l) => Ok(l),
        Err(e) => Err(format!("parse_xml rejects a schema-valid document: {e}")),
    }
}
pub fn write(law: &Law) -> Result<String, String> {
    match lib("to_xml", || to_xml(law))? {
        Ok(s) => Ok(s),
        Err(e) => Err(format!("to_xml fails on a law: {e}")),
    }
}

fn c01(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let law = gen_law(t);
    let tree = refw::law(&law);
    let xml = xnode::plain(&tree);
    describe(&law, &tree, rec);
    rec.show(|| short(&xml));
    rec.sample(|| xml.clone());
    let got = parse(xml.as_bytes())?;
    if got != law || refw::law(&got) != tree {
        return Err(format!("the law read differs from the document: {}", first_diff(&law, &got)));
    }
    Ok(())
}

fn c02(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    c02_law(&gen_law(t), rec)
}
fn c02_law(law: &Law, rec: &mut Rec) -> Result<(), String> {
    let tree = refw::law(law);
    describe(law, &tree, rec);
    rec.show(|| format!("{}", short(&xnode::plain(&tree))));
    rec.sample(|| xnode::plain(&tree));
    let xml = write(law)?;
    let back = match lib("parse_xml", || parse_xml(xml.as_bytes()))? {
        Ok(l) => l,
        Err(e) => return Err(format!("XML written by to_xml is rejected by parse_xml: {e}")),
    };
    if &back != law || refw::law(&back) != tree {
        return Err(format!("law changed by writing and reading: {}", first_diff(law, &back)));
    }
    let xml2 = write(&back)?;
    let a = reparse(&xml)?;
    let b = reparse(&xml2)?;
    if a != b {
        return Err(format!("second writing differs: {}", xnode::diff(&a, &b, "").unwrap_or_default()));
    }
    Ok(())
}
pub fn reparse(xml: &str) -> Result<XNode, String> {
    match xmltree::Element::parse(xml.as_bytes()) {
        Ok(e) => Ok(xnode::from_xmltree(&e)),
        Err(e) => Err(format!("to_xml wrote XML that is not well-formed: {e}")),
    }
}

fn c02_split(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words: Vec<u32> = (0..4000).map_while(|_| if t.exhausted() { None } else { Some(t.raw()) }).collect();
    let canon = gen_split(&mut Tape::new(&words), false);
    let split = gen_split(&mut Tape::new(&words), true);
    let tree = refw::law(&canon);
    describe(&canon, &tree, rec);
    rec.nontrivial &= canon != split;
    rec.show(|| format!("{split:?}"));
    let xml = write(&split)?;
    let back = match lib("parse_xml", || parse_xml(xml.as_bytes()))? {
        Ok(l) => l,
        Err(e) => return Err(format!("XML written by to_xml is rejected by parse_xml: {e}")),
    };
    if back != canon || refw::law(&back) != tree {
        return Err(format!("law with split text runs changed by writing and reading: {}", first_diff(&canon, &back)));
    }
    Ok(())
}

fn c03(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let law = gen_law(t);
    let tree = refw::law(&law);
    describe(&law, &tree, rec);
    rec.show(|| short(&xnode::plain(&tree)));
    rec.sample(|| xnode::plain(&tree));
    let xml = write(&law)?;
    let got = xnode::normalise(&reparse(&xml)?);
    let want = xnode::normalise(&tree);
    if let Some(d) = xnode::diff(&want, &got, "") {
        return Err(format!("written XML departs from the schema vocabulary: {d}"));
    }
    Ok(())
}

fn c04(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let rate = [30usize, 12, 6, 3, 2][t.below(5)];
    let words = t.derived(20000);
    let law = {
        let mut g = G::new(t);
        g.fuel = g.fuel.min(80);
        g.law()
    };
    let t = &mut Tape::new(&words);
    let tree = refw::law(&law);
    let mut sp = Spelling::default();
    let xml = xnode::varied(&tree, t, rate, &mut sp);
    rec.key(&xml);
    rec.nontrivial = sp.total() >= 2;
    rec.label_if(sp.comments > 0, "comments");
    rec.label_if(sp.pis > 0, "processing instructions");
    rec.label_if(sp.cdata > 0, "CDATA");
    rec.label_if(sp.charrefs > 0, "character references");
    rec.label_if(sp.ws > 0, "white space");
    rec.label_if(sp.attr_perm > 0, "attribute order");
    rec.label_if(sp.quotes > 0, "single quotes");
    rec.label_if(sp.long_empty > 0, "long empty element");
    rec.label_if(sp.defaults > 0, "explicit/omitted defaults");
    rec.label_if(sp.bools > 0, "booleans as 1 or 0");
    rec.label_if(sp.xsi, "schema location attribute");
    rec.label_if(sp.bom, "byte-order mark");
    rec.label_if(sp.doctype, "document type");
    rec.label_if(sp.entities, "declared entities");
    rec.label_if(sp.utf16, "UTF-16");
    rec.label_if(sp.decl > 0, "XML declaration form");
    vocab(&tree, rec);
    rec.show(|| short(&String::from_utf8_lossy(&xml)));
    rec.sample(|| String::from_utf8_lossy(&xml).to_string());
    let got = parse(&xml)?;
    if !same(&law, &got) {
        return Err(format!("spelling changed the law read: {}", first_diff(&law, &got)));
    }
    Ok(())
}

/// The public conversions between texts, attribute values and XML nodes.
fn c02_nodes(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words: Vec<u32> = (0..400).map_while(|_| if t.exhausted() { None } else { Some(t.raw()) }).collect();
    let make = |split: bool| {
        let mut tape = Tape::new(&words);
        let mut g = G::new(&mut tape);
        g.split = split;
        g.text()
    };
    let (canon, split) = (make(false), make(true));
    let tree = refw::text("T", &canon);
    rec.key(&split);
    rec.nontrivial = canon.contents.len() >= 2;
    rec.show(|| format!("{split:?}"));
    rec.sample(|| xnode::plain(&tree));
    for v in [&canon, &split] {
        let mut e = xmltree::Element::new("T");
        e.children = lib("to_children", || v.to_children())?;
        same_tree("to_children departs from the schema vocabulary", &refw::text("T", v), &xnode::from_xmltree(&e))?;
        let back = lib("from_children", || Text::from_children(&e.children))?;
        if &back != v {
            return Err(format!("{v:?} becomes {back:?} by way of XML nodes"));
        }
        // through a document as well
        let mut out = vec![];
        e.write(&mut out).map_err(|e| format!("to_children gives nodes that cannot be written: {e}"))?;
        let read = xmltree::Element::parse(&out[..]).map_err(|e| format!("to_children gives nodes that cannot be read back: {e}"))?;
        let back = lib("from_children", || Text::from_children(&read.children))?;
        if back != canon {
            return Err(format!("{v:?} becomes {back:?} by way of XML"));
        }
    }
    macro_rules! attrs {
        ($T:ident, $($v:ident = $s:literal),*) => {{
            $(
                let (s, v) = lib("to_attribute", || ($T::$v.to_attribute(), $T::from_attribute(Some(&$s.to_string()))))?;
                if s != $s || v != Some($T::$v) {
                    return Err(format!("{:?} is written as {s:?}; {:?} is read as {v:?}", $T::$v, $s));
                }
            )*
            if let Some(v) = lib("from_attribute", || $T::from_attribute(None))? {
                return Err(format!("an absent attribute is read as {v:?}"));
            }
        }};
    }
    attrs!(Align, Left = "left", Center = "center", Right = "right", Justify = "justify");
    attrs!(LineStyle, Dotted = "dotted", Double = "double", Solid = "solid", None = "none");
    attrs!(Position, Top = "top", Middle = "middle", Bottom = "bottom");
    Ok(())
}

// ---------------------------------------------------------------- wide documents

/// A schema-valid document with one element repeated very often, or one text very long: the
/// law it is read as (the reader is the only way there), and its tree.
pub fn wide_law(t: &mut Tape, rec: &mut Rec, limit: usize) -> Result<(Law, XNode), String> {
    let (_, tree, w) = wide::wide_tree(t, limit);
    let xml = xnode::plain(&tree);
    wide_labels(&w, rec);
    rec.key(&xml);
    rec.show(|| short(&xml));
    rec.sample(|| short(&xml));
    let law = parse(xml.as_bytes())?;
    Ok((law, tree))
}
pub fn wide_labels(w: &Wide, rec: &mut Rec) {
    rec.nontrivial = w.copies >= 20 || w.longest >= 300;
    rec.label_if(w.copies > 20, "20+ copies");
    rec.label_if(w.copies > 255, "256+ copies");
    rec.label_if(w.copies > 1000, "1000+ copies");
    rec.label_if(w.copies > 65535, "65536+ copies");
    rec.label_if(w.longest > 8191, "text of 8 kB");
    rec.label_if(w.longest > 65535, "text of 64 kB");
}
fn same_tree(what: &str, want: &XNode, got: &XNode) -> Result<(), String> {
    match xnode::diff(&xnode::normalise(want), &xnode::normalise(got), "") {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {}", short(&d))),
    }
}
const LIMIT: usize = 70000;
fn c01_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let (law, tree) = wide_law(t, rec, LIMIT)?;
    same_tree("the law read differs from the document", &tree, &refw::law(&law))
}
fn c02_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let (law, _) = wide_law(t, rec, LIMIT)?;
    let xml = write(&law)?;
    let back = match lib("parse_xml", || parse_xml(xml.as_bytes()))? {
        Ok(l) => l,
        Err(e) => return Err(format!("XML written by to_xml is rejected by parse_xml: {e}")),
    };
    if !same(&law, &back) {
        return Err(format!("law changed by writing and reading: {}", short(&first_diff(&law, &back))));
    }
    Ok(())
}
fn c03_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let (law, _) = wide_law(t, rec, LIMIT)?;
    let xml = write(&law)?;
    same_tree("written XML departs from the schema vocabulary", &refw::law(&law), &reparse(&xml)?)
}
fn c04_wide(t: &mut Tape, rec: &mut Rec) -> Result<(), String> {
    let words = t.derived(20000);
    let (law, tree) = wide_law(t, rec, 6000)?;
    let t = &mut Tape::new(&words);
    let rate = [30usize, 12, 4, 2][t.below(4)];
    let xml = xnode::varied(&tree, t, rate, &mut Spelling::default());
    let got = parse(&xml)?;
    if !same(&law, &got) {
        return Err(format!("spelling changed the law read: {}", short(&first_diff(&law, &got))));
    }
    Ok(())
}

pub fn check(id: &str) -> Option<Check> {
    const WIDE: &[(usize, u32)] = &[(60, 1), (200, 3), (600, 3)];
    let wd = |quick, thorough, case| Phase { name: "wide documents", gen: Gen::Random { quick, thorough, sizes: WIDE }, case, workers: WORKERS };
    let ph = |name, quick, thorough, case| Phase { name, gen: Gen::Random { quick, thorough, sizes: SIZES }, case, workers: WORKERS };
    Some(match id {
        "C01" => Check {
            id: "C01",
            rule: "a law generated over the whole model, written by the independent reference writer, read back and compared; non-trivial: the document has at least 12 elements",
            assumptions: &["the reference vocabulary (refw.rs) states the law standard XML schema"],
            phases: vec![ph("reference document", 300000, 8000000, c01 as CaseFn), wd(3000, 100000, c01_wide as CaseFn)],
        },
        "C02" => Check {
            id: "C02",
            rule: "a generated law is written and read back and compared with itself, then written again; non-trivial: at least 12 elements (and, with split runs, a law that differs from its canonical form)",
            assumptions: &["strings contain no carriage return, no control characters and are not only white space"],
            phases: vec![ph("canonical", 150000, 4000000, c02 as CaseFn), ph("split text runs", 80000, 2000000, c02_split as CaseFn), ph("text nodes", 40000, 1000000, c02_nodes as CaseFn), wd(3000, 100000, c02_wide as CaseFn)],
        },
        "C03" => Check {
            id: "C03",
            rule: "a generated law is written, the output parsed by the XML library and compared node by node with the reference vocabulary; non-trivial: at least 12 elements",
            assumptions: &["the reference vocabulary (refw.rs) states the law standard XML schema", "attributes with the schema's default value may be omitted"],
            phases: vec![ph("vocabulary", 300000, 8000000, c03 as CaseFn), wd(3000, 100000, c03_wide as CaseFn)],
        },
        "C04" => Check {
            id: "C04",
            rule: "a generated law is spelled with random comments, processing instructions, CDATA, references, white space, attribute order and quoting, then read and compared; non-trivial: at least two spelling changes",
            assumptions: &["no change leaves a text fragment of white space only between two pieces of mark-up"],
            phases: vec![ph("spelling", 200000, 5000000, c04 as CaseFn), wd(3000, 100000, c04_wide as CaseFn)],
        },
        _ => return None,
    })
}
