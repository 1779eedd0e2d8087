//! C17-C20: node trees, paths, links, unparsing
use crate::nd;
use std::sync::Arc;
use crate::tree::{check, image, value, T};
use wz_reader::property::{get_image, WzString, WzSubProperty, WzValue};
use wz_reader::util::node_util::*;
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

/// kinds of nodes: d directory, f file, B file named Base, i image, p property, v value
pub struct Tree {
    pub parent: Vec<usize>,
    pub name: Vec<Vec<u8>>,
    pub kind: Vec<u8>,
    pub node: Vec<WzNodeArc>,
}
const NONE: usize = usize::MAX;
const SHAPES: &[(&[usize], &[u8])] = &[
    (&[NONE, 0, 0, 1, 1, 2], b"fdipiv"),
    (&[NONE, 0, 1, 2, 3], b"Bdipv"),
    (&[NONE, 0, 0, 0], b"ippv"),
    (&[NONE, 0, 1, 1, 2, 3, 4], b"BBddiii"),
    (&[NONE], b"v"),
    (&[NONE, 0, 1, 2, 2], b"diipp"),
];
fn object(kind: u8) -> WzObjectType {
    match kind {
        b'f' | b'B' => WzFile::default().into(),
        b'd' => WzDirectory::default().into(),
        b'i' => {
            let mut i = WzImage::default();
            i.is_parsed = true;
            i.into()
        }
        b'p' => WzObjectType::Property(WzSubProperty::Property),
        _ => 1.into(),
    }
}
pub fn text(n: usize) -> Vec<u8> {
    let v = nd::vec(n);
    for c in &v {
        nd::assume(*c < 0x80 && *c != b'/');
    }
    v
}
fn st(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap()
}
impl Tree {
    /// lengths: how long names are, one digit per node, repeating
    pub fn new(shape: u64, lengths: u64) -> Tree {
        let (parent, kind) = SHAPES[shape as usize];
        let mut t = Tree { parent: parent.to_vec(), name: vec![], kind: kind.to_vec(), node: vec![] };
        let mut l = lengths;
        for i in 0..parent.len() {
            let name = match (kind[i], l % 10) {
                (b'B', _) => b"Base".to_vec(),
                (_, 7) => [text(1), b".img".to_vec()].concat(),
                (_, 8) => [b".img".to_vec(), text(1)].concat(),
                (_, 9) => [text(1), b".img".to_vec(), text(1)].concat(),
                (_, k) => text(k as usize),
            };
            l = if l < 10 { lengths } else { l / 10 };
            for j in 0..i {
                nd::assume(parent[j] != parent[i] || !nd::same(&t.name[j], &name));
            }
            let p = if parent[i] == NONE { None } else { Some(&t.node[parent[i]]) };
            let n = WzNode::from_str(st(&name), object(kind[i]), p).into_lock();
            if let Some(p) = p {
                p.write().unwrap().add(&n);
            }
            t.name.push(name);
            t.node.push(n);
        }
        t
    }
    fn child(&self, i: usize, name: &[u8]) -> Option<usize> {
        (0..self.parent.len()).find(|j| self.parent[*j] == i && nd::same(&self.name[*j], name))
    }
    pub fn walk(&self, from: usize, path: &[u8], relative: bool) -> Option<usize> {
        let mut cur = from;
        let mut at = 0;
        loop {
            let mut e = at;
            while e < path.len() && path[e] != b'/' {
                e += 1
            }
            let c = &path[at..e];
            if relative && nd::same(c, b"..") {
                if self.parent[cur] == NONE {
                    return None;
                }
                cur = self.parent[cur];
            } else {
                cur = self.child(cur, c)?;
            }
            if e == path.len() {
                return Some(cur);
            }
            at = e + 1;
        }
    }
    fn is(&self, got: Option<WzNodeArc>, want: Option<usize>, what: &str) {
        match (got, want) {
            (None, None) => nd::cover(2),
            (Some(g), Some(w)) => {
                assert!(Arc::ptr_eq(&g, &self.node[w]), "{what}: another node");
                nd::cover(1);
            }
            (g, _) => panic!("{what}: {}", if g.is_some() { "found" } else { "not found" }),
        }
    }
    /// ancestors, nearest first
    fn up(&self, i: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = self.parent[i];
        while c != NONE {
            v.push(c);
            c = self.parent[c];
        }
        v
    }
    fn joined(&self, ids: &[usize]) -> Vec<u8> {
        let mut v = vec![];
        for (k, i) in ids.iter().enumerate() {
            if k > 0 {
                v.push(b'/')
            }
            v.extend_from_slice(&self.name[*i]);
        }
        v
    }
}

harnesses! {
/// lookups by any path from any node. params: shape, name lengths, path length
fn h_c17_lookup() {
    let t = Tree::new(nd::param(0), nd::param(1));
    let path = nd::vec(nd::param(2) as usize);
    for c in &path {
        nd::assume(*c < 0x80);
    }
    let s = st(&path);
    let from = nd::below(t.node.len() as u64) as usize;
    let n = t.node[from].read().unwrap();
    t.is(n.at(s), t.child(from, &path), "at");
    t.is(n.at_relative(s), if nd::same(&path, b"..") { if t.parent[from] == NONE { None } else { Some(t.parent[from]) } } else { t.child(from, &path) }, "at_relative");
    t.is(n.at_path(s), t.walk(from, &path, false), "at_path");
    t.is(n.at_path_relative(s), t.walk(from, &path, true), "at_path_relative");
}
/// the paths of every node, and the way back. params: shape, name lengths
fn h_c17_paths() {
    let t = Tree::new(nd::param(0), nd::param(1));
    for i in 0..t.node.len() {
        let n = t.node[i].read().unwrap();
        let mut ids = t.up(i);
        ids.reverse();
        ids.push(i);
        assert!(nd::same(n.get_full_path().as_bytes(), &t.joined(&ids)), "full path");
        let from_root = n.get_path_from_root();
        assert!(nd::same(from_root.as_bytes(), &t.joined(&ids[1..])), "path from root");
        let up = t.up(i);
        let img = up.iter().position(|j| t.kind[*j] == b'i');
        match img {
            Some(k) => {
                let p = n.get_path_from_image();
                assert!(nd::same(p.as_bytes(), &t.joined(&ids[ids.len() - 1 - k..])), "path from image");
                t.is(n.get_parent_wz_image(), Some(up[k]), "image");
                t.is(t.node[up[k]].read().unwrap().at_path(&p), Some(i), "back from image");
                t.is(resolve_inlink(&p, &t.node[i]), Some(i), "inlink");
            }
            None => {
                assert!(n.get_path_from_image().is_empty(), "no image above");
                assert!(n.get_parent_wz_image().is_none(), "no image above");
                assert!(resolve_inlink("x", &t.node[i]).is_none(), "no image above");
            }
        }
        let base = up.iter().find(|j| t.kind[**j] == b'B').copied();
        t.is(n.get_base_wz_file(), base, "base");
        if let Some(b) = base {
            // any node below the same base
            for j in 0..t.node.len() {
                if let Some(k) = t.up(j).iter().position(|x| *x == b) {
                    let mut ids = t.up(j)[..k].to_vec();
                    ids.reverse();
                    ids.push(j);
                    let p = t.joined(&ids);
                    t.is(resolve_outlink(st(&p), &t.node[i], false), t.walk(b, &p, false), "outlink");
                }
            }
        }
        if i > 0 {
            t.is(t.node[0].read().unwrap().at_path(&from_root), t.walk(0, from_root.as_bytes(), false), "back from root");
            assert!(Arc::ptr_eq(&t.node[0].read().unwrap().at_path(&from_root).unwrap(), &t.node[i]), "back from root");
        } else {
            assert!(from_root.is_empty(), "root");
        }
        t.is(n.filter_parent(|p| p.try_as_directory().is_some()), up.iter().find(|j| t.kind[**j] == b'd').copied(), "filter");
    }
}
/// finding the image on the way to a node. params: shape, name lengths, length of the path (any text), or 0 and
/// the number of components (names of nodes)
fn h_c18_image() {
    let t = Tree::new(nd::param(0), nd::param(1));
    let path = if nd::param(2) > 0 {
        let p = nd::vec(nd::param(2) as usize);
        for c in &p {
            nd::assume(*c < 0x80);
        }
        p
    } else {
        let ids: Vec<usize> = (0..nd::param(3)).map(|_| nd::below(t.node.len() as u64) as usize).collect();
        t.joined(&ids)
    };
    let s = st(&path);
    let got = get_image_node_from_path(&t.node[0], s);
    let (mut cur, mut at) = (0, 0);
    let want = loop {
        let e = (at..path.len()).find(|i| path[*i] == b'/').unwrap_or(path.len());
        match t.child(cur, &path[at..e]) {
            None => break None,
            Some(n) => cur = n,
        }
        if e == path.len() {
            break None;
        }
        at = e + 1;
        if t.kind[cur] == b'i' {
            break Some((cur, &path[at..]));
        }
    };
    match (got, want) {
        (None, None) => nd::cover(2),
        (Some((g, r)), Some((w, q))) => {
            assert!(Arc::ptr_eq(&g, &t.node[w]), "another image");
            assert!(nd::same(r.as_bytes(), q), "rest of the path");
            t.is(get_node_without_parse(&t.node[0], s), t.walk(w, q, false), "node");
            nd::cover(3);
        }
        (g, _) => panic!("image on the way {}", if g.is_some() { "invented" } else { "not found" }),
    }
}
/// a node of an image that has not been parsed, and after it has been. params: value kind, name of the image
fn h_c18_node() {
    let b = nd::below(crate::tree::KINDS);
    let a = nd::param(0);
    let l = vec![("p", value(a)), ("s", T::Sub(vec![("b.img", value(b)), ("t", T::Sub(vec![("c", value(a))]))]))];
    let mut im = image(&l, 3, 0);
    let name = ["i.img", "i", "x.img.y"][nd::param(1) as usize];
    im.name = name.into();
    let base = WzNode::from_str("Base", WzFile::default(), None).into_lock();
    let dir = WzNode::from_str("d.img", WzDirectory::default(), Some(&base)).into_lock();
    let node = WzNode::from_str(name, im, Some(&dir)).into_lock();
    base.write().unwrap().add(&dir);
    dir.write().unwrap().add(&node);
    let at = |p: &str| get_node_without_parse(&base, &format!("d.img/{name}/{p}"));
    check(&at("p").expect("node"), "p", &l[0].1, None);
    check(&at("s").expect("node"), "s", &l[1].1, None);
    if let T::Sub(k) = &l[1].1 {
        check(&at("s/b.img").expect("node"), "b.img", &k[0].1, None);
    }
    for p in ["zz", "s/zz", "s/b.img/zz", "", "p/", "s/t/c/zz"] {
        assert!(at(p).is_none(), "no such node");
    }
    {
        let r = node.read().unwrap();
        assert!(!r.try_as_image().unwrap().is_parsed && r.children.is_empty(), "image left unparsed");
    }
    node.write().unwrap().parse(&node).unwrap();
    for p in ["p", "s", "s/b.img", "s/t", "s/t/c"] {
        let want = node.read().unwrap().at_path(p).expect("node");
        assert!(Arc::ptr_eq(&at(p).expect("node"), &want), "the parsed node");
    }
    for p in ["zz", "s/zz", "s/b.img/zz", "", "p/"] {
        assert!(at(p).is_none(), "no such node");
    }
    nd::cover(1);
}
/// UOLs while an image is parsed: one UOL with any text at one of three places. params: text length, place
fn h_c19_uol() {
    let path = nd::vec(nd::param(0) as usize);
    for c in &path {
        nd::assume(*c < 0x80);
    }
    let place = nd::param(1);
    let u = |at: u64| if at == place { T::Uol(st(&path).to_string()) } else { T::Null };
    let l = vec![("a", T::Sub(vec![("b", value(3)), ("u", u(0)), ("c", T::Sub(vec![("d", value(1)), ("u", u(1))]))])), ("u", u(2)), ("e", T::Canvas(Some(vec![("b", value(3)), ("u", u(3))]), 1, 1, Some([1, 2, 3, 4])))];
    let base = WzNode::from_str("Base", WzFile::default(), None).into_lock();
    let node = WzNode::from_str("i.img", image(&l, 3, 0), Some(&base)).into_lock();
    base.write().unwrap().add(&node);
    node.write().unwrap().parse(&node).unwrap();
    // name, parent
    let t: &[(&str, usize)] = &[("i.img", NONE), ("a", 0), ("u", 0), ("e", 0), ("b", 1), ("u", 1), ("c", 1), ("d", 6), ("u", 6), ("b", 3), ("u", 3)];
    let mut n = vec![Arc::clone(&node)];
    let slot = [5, 8, 2, 10][place as usize];
    for i in 1..t.len() {
        let c = n[t[i].1].read().unwrap().at(t[i].0).expect("node");
        n.push(c);
    }
    let mut cur = Some(t[slot].1);
    for c in path.split(|c| *c == b'/') {
        cur = match cur {
            None => None,
            Some(i) if nd::same(c, b"..") => if t[i].1 == NONE { None } else { Some(t[i].1) },
            Some(i) => (0..t.len()).find(|j| t[*j].1 == i && nd::same(t[*j].0.as_bytes(), c)),
        };
    }
    match cur {
        Some(w) if w != slot => {
            assert!(Arc::ptr_eq(&n[slot], &n[w]), "linked node");
            nd::cover(1);
        }
        _ => {
            let r = n[slot].read().unwrap();
            assert!(nd::same(r.try_as_uol().expect("still a link").get_string().unwrap().as_bytes(), &path), "link text");
            assert!(r.name.as_str() == "u" && r.children.is_empty(), "link node");
            nd::cover(2);
        }
    }
    for i in 1..t.len() {
        if i != slot {
            let r = n[i].read().unwrap();
            assert!(r.name.as_str() == t[i].0 && Arc::ptr_eq(&r.parent.upgrade().unwrap(), &n[t[i].1]), "other nodes");
            assert!(r.children.len() == (0..t.len()).filter(|j| t[*j].1 == i).count(), "other nodes");
        }
    }
    assert!(node.read().unwrap().children.len() == 3, "top");
}
/// a UOL anywhere in any tree, resolved on its own. params: shape, name lengths, text length
fn h_c19_tree() {
    let t = Tree::new(nd::param(0), nd::param(1));
    let path = nd::vec(nd::param(2) as usize);
    for c in &path {
        nd::assume(*c < 0x80);
    }
    let at = nd::below(t.node.len() as u64) as usize;
    let u = WzNode::from_str("_uol", WzObjectType::Value(WzValue::UOL(WzString::from_str(st(&path), [0; 4]))), Some(&t.node[at])).into_lock();
    t.node[at].write().unwrap().add(&u);
    resolve_uol(&u, None);
    let got = t.node[at].read().unwrap().at("_uol").expect("still there");
    match t.walk(at, &path, true) {
        Some(w) => {
            assert!(Arc::ptr_eq(&got, &t.node[w]), "linked node");
            nd::cover(1);
        }
        None => {
            assert!(Arc::ptr_eq(&got, &u), "link kept");
            nd::cover(2);
        }
    }
    // the same by text
    let resolved = get_resolved_uol_path(&u.read().unwrap().get_path_from_root(), st(&path));
    let mut up = t.up(at);
    up.reverse();
    up.push(at);
    let mut v: Vec<&[u8]> = up[1..].iter().map(|i| &t.name[*i][..]).collect();
    for c in path.split(|c| *c == b'/') {
        if nd::same(c, b"..") && !v.is_empty() {
            v.pop();
        } else if !nd::same(c, b".") {
            v.push(c);
        }
    }
    let mut w = vec![];
    for (i, c) in v.iter().enumerate() {
        if i > 0 {
            w.push(b'/')
        }
        w.extend_from_slice(c);
    }
    assert!(nd::same(resolved.as_bytes(), &w), "resolved text");
}
/// pictures through _inlink and _outlink, in circles and to nowhere. params: text lengths of the in- and the outlink
fn h_c19_image() {
    let text = |n| {
        let v = nd::vec(n);
        for c in &v {
            nd::assume(*c < 0x80);
        }
        v
    };
    let (a, b) = (text(nd::param(0) as usize), text(nd::param(1) as usize));
    let (a, b) = (&a[..], &b[..]);
    let px: Vec<[u8; 4]> = (0..4).map(|_| nd::bytes::<4>()).collect();
    let s = |t: &[u8]| T::Str(st(t).to_string());
    let canvas = |i: usize, l: Vec<(&'static str, T)>| T::Canvas(if l.is_empty() { None } else { Some(l) }, 1, 1, Some(px[i]));
    let l = vec![
        ("x", canvas(0, vec![("_inlink", s(a))])),
        ("y", canvas(1, vec![("_outlink", s(b))])),
        ("z", canvas(2, vec![])),
        ("w", canvas(3, vec![("_outlink", s(b)), ("_inlink", s(a))])),
        ("n", T::Null),
    ];
    let base = WzNode::from_str("Base", WzFile { is_parsed: true, ..Default::default() }, None).into_lock();
    let node = WzNode::from_str("i", image(&l, 3, 0), Some(&base)).into_lock();
    let other = WzNode::from_str("j", image(&l[2..3], 3, 0), Some(&base)).into_lock();
    base.write().unwrap().add(&node);
    base.write().unwrap().add(&other);
    node.write().unwrap().parse(&node).unwrap();
    // 0-3 the canvases, 4 a node that is not one, 5 canvas z of the other image
    let inside = |p: &[u8]| {
        for (i, n) in ["x", "y", "z", "w", "n", "x/_inlink", "y/_outlink", "w/_inlink", "w/_outlink"].iter().enumerate() {
            if nd::same(p, n.as_bytes()) {
                return Some(i.min(4));
            }
        }
        None
    };
    let outside = |p: &[u8]| {
        if nd::same(p, b"i") || nd::same(p, b"j") {
            Some(4)
        } else if nd::same(p, b"j/z") {
            Some(5)
        } else if p.len() > 2 && nd::same(&p[..2], b"i/") {
            inside(&p[2..])
        } else {
            None
        }
    };
    let start = nd::below(5) as usize;
    let mut cur = start;
    let mut steps = 0;
    let want = loop {
        let next = match cur {
            0 => inside(a),
            1 => outside(b),
            3 => inside(a).or_else(|| outside(b)),
            4 => break None,
            _ => None,
        };
        match next {
            None => break Some(cur),
            Some(n) => cur = n,
        }
        steps += 1;
        if steps > 6 {
            nd::cover(3);
            break None;
        }
    };
    let from = node.read().unwrap().at(["x", "y", "z", "w", "n"][start]).unwrap();
    match (get_image(&from), want) {
        (Ok(i), Some(w)) => {
            let b = px[if w == 5 { 2 } else { w }];
            assert!(i.width() == 1 && i.height() == 1 && nd::same(i.as_bytes(), &[b[2], b[1], b[0], b[3]]), "the linked picture");
            nd::cover(1);
        }
        (Err(_), None) => nd::cover(2),
        _ => panic!("link outcome"),
    }
}
/// merging the children of one node into another. params: shapes of both, name lengths of both
fn h_c17_merge() {
    let mut t = Tree::new(nd::param(0), nd::param(2));
    let u = Tree::new(nd::param(1), nd::param(3));
    let (from, to) = (0, t.node.len());
    for i in 0..u.node.len() {
        t.parent.push(if u.parent[i] == NONE { NONE } else { to + u.parent[i] });
        t.name.push(u.name[i].clone());
        t.kind.push(u.kind[i]);
        t.node.push(Arc::clone(&u.node[i]));
    }
    t.node[from].write().unwrap().transfer_childs(&t.node[to]);
    let all: Vec<usize> = (0..t.node.len()).collect();
    merge(&mut t, from, to);
    for i in &all {
        let n = t.node[*i].read().unwrap();
        let kids: Vec<usize> = all.iter().copied().filter(|j| t.parent[*j] == *i).collect();
        assert!(n.children.len() == kids.len(), "number of children");
        for k in kids {
            assert!(Arc::ptr_eq(&n.at(st(&t.name[k])).expect("child"), &t.node[k]), "child");
            assert!(Arc::ptr_eq(&t.node[k].read().unwrap().parent.upgrade().expect("parent link"), &t.node[*i]), "parent link");
        }
        assert!(n.name.as_str() == st(&t.name[*i]), "name");
    }
    nd::cover(1);
}
}
const GONE: usize = usize::MAX - 1;
fn merge(t: &mut Tree, from: usize, to: usize) {
    for i in 0..t.parent.len() {
        if t.parent[i] == from {
            let name = t.name[i].clone();
            match t.child(to, &name) {
                Some(old) => {
                    merge(t, i, old);
                    t.parent[i] = GONE;
                    nd::cover(2);
                }
                None => t.parent[i] = to,
            }
        }
    }
}
