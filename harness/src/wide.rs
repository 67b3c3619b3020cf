//! Documents with one thing in them very many times, or very long.
use crate::gen::G;
use crate::refw;
use crate::tape::Tape;
use crate::xnode::{Kid, XNode};
use japanese_law_xml_schema::law::Law;

/// how a document was widened
#[derive(Default)]
pub struct Wide {
    pub copies: usize,
    pub name: String,
    pub longest: usize,
}

/// Elements that stand next to one of their own kind: what shows that they may repeat.
fn repeatable(n: &XNode, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String, usize)>) {
    let name = |i: usize| match n.kids.get(i) {
        Some(Kid::E(e)) => Some(e.name.as_str()),
        _ => None,
    };
    for (i, k) in n.kids.iter().enumerate() {
        if let Kid::E(e) = k {
            path.push(i);
            if name(i + 1) == Some(e.name.as_str()) {
                out.push((path.clone(), e.name.clone(), e.count()));
            }
            repeatable(e, path, out);
            path.pop();
        }
    }
}
fn texts(n: &XNode, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String)>) {
    for (i, k) in n.kids.iter().enumerate() {
        path.push(i);
        match k {
            Kid::E(e) => texts(e, path, out),
            Kid::T(s) if !s.is_empty() => out.push((path.clone(), n.name.clone())),
            _ => (),
        }
        path.pop();
    }
}
pub fn parent<'a>(n: &'a mut XNode, path: &[usize]) -> &'a mut XNode {
    if path.len() <= 1 {
        return n;
    }
    match &mut n.kids[path[0]] {
        Kid::E(e) => parent(e, &path[1..]),
        _ => unreachable!(),
    }
}
const COPIES: [usize; 9] = [4, 20, 70, 130, 260, 300, 1100, 5000, 66000];

/// Repeat one element many times over (numbered through when it has a number), at most `limit` elements in all.
pub fn repeat(tree: &mut XNode, t: &mut Tape, limit: usize, w: &mut Wide) {
    let mut list = vec![];
    repeatable(tree, &mut vec![], &mut list);
    // element names first, so that rare ones get their share
    let mut names: Vec<&str> = list.iter().map(|x| x.1.as_str()).collect();
    names.sort();
    names.dedup();
    if names.is_empty() {
        return;
    }
    let name = t.pick(&names).to_string();
    let of: Vec<_> = list.iter().filter(|x| x.1 == name).collect();
    let (path, _, size) = *t.pick(&of);
    let n = COPIES[t.weighted(&[6, 6, 6, 6, 6, 6, 4, 2, 1])].min(limit / size);
    let p = parent(tree, path);
    let i = *path.last().unwrap();
    let Kid::E(model) = p.kids[i].clone() else { return };
    // number the copies where all the numbers are plain
    let plain = model.get("Num").is_some_and(|v| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()));
    let copies: Vec<Kid> = (0..n)
        .map(|k| {
            let mut c = model.clone();
            if plain {
                for (a, v) in &mut c.attrs {
                    if a == "Num" {
                        *v = (k + 1).to_string()
                    }
                }
            }
            Kid::E(c)
        })
        .collect();
    p.kids.splice(i..i, copies);
    w.copies = w.copies.max(n);
    w.name = name;
}

/// Make one run of text long.
pub fn lengthen(tree: &mut XNode, t: &mut Tape, w: &mut Wide) {
    let mut list = vec![];
    texts(tree, &mut vec![], &mut list);
    let mut names: Vec<&str> = list.iter().map(|x| x.1.as_str()).collect();
    names.sort();
    names.dedup();
    if names.is_empty() {
        return;
    }
    let name = t.pick(&names).to_string();
    let of: Vec<_> = list.iter().filter(|x| x.1 == name).collect();
    let path = &t.pick(&of).0;
    let len = [300usize, 1100, 4100, 8200, 17000, 66000, 270000][t.weighted(&[6, 6, 6, 6, 4, 3, 1])];
    let p = parent(tree, path);
    if let Kid::T(s) = &mut p.kids[*path.last().unwrap()] {
        let unit = s.clone();
        while s.len() < len {
            s.push_str(&unit)
        }
        w.longest = w.longest.max(s.len());
    }
}

pub fn widen(tree: &mut XNode, t: &mut Tape, limit: usize) -> Wide {
    let mut w = Wide::default();
    let what = t.below(4);
    if what != 3 {
        repeat(tree, t, limit, &mut w)
    }
    if what == 3 || t.chance(1, 6) {
        lengthen(tree, t, &mut w)
    }
    // several lists in a row
    if what == 1 {
        let n = tree.count();
        repeat(tree, t, limit.saturating_sub(n), &mut w)
    }
    w
}

/// a small law, and the tree of it widened
pub fn wide_tree(t: &mut Tape, limit: usize) -> (Law, XNode, Wide) {
    let words = t.derived(12);
    let law = {
        let mut g = G::new(t);
        g.fuel = g.fuel.min(120);
        g.law()
    };
    let mut tree = refw::law(&law);
    let w = widen(&mut tree, &mut Tape::new(&words), limit);
    (law, tree, w)
}
