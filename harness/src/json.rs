//! C22: JSON, C23: casts and conversions
use crate::nd;
use crate::tree::{image, value, T, KINDS};
use serde_json::{Map, Number, Value};
use std::sync::Arc;
use wz_reader::file::WzFileMeta;
use wz_reader::property::{WzPng, WzSound, WzSoundType, WzString, WzSubProperty, WzValue};
use wz_reader::util::node_util::resolve_childs_parent;
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

type L = Vec<(&'static str, T)>;
fn float(v: f64) -> Value {
    if v.is_finite() { Value::Number(Number::from_f64(v).unwrap()) } else { Value::Null }
}
fn object(l: &L, m: Option<Map<String, Value>>) -> Value {
    if l.is_empty() && m.is_none() {
        return Value::Null;
    }
    let mut m = m.unwrap_or_default();
    for (n, t) in l {
        m.insert(n.to_string(), model(t));
    }
    Value::Object(m)
}
fn fields(l: &[(&str, Value)]) -> Map<String, Value> {
    l.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}
const IDX: [&str; 4] = ["0", "1", "2", "3"];
fn model(t: &T) -> Value {
    let none = vec![];
    match t {
        T::Null | T::Unknown | T::Video(_) => Value::Null,
        T::Short(_, v) => Value::Number((*v as i64).into()),
        T::Int(_, v) => Value::Number((*v as i64).into()),
        T::Long(v) => Value::Number((*v).into()),
        T::Float(v) => float(f32::from_bits(*v) as f64),
        T::Float0 => float(0.0),
        T::Double(v) => float(f64::from_bits(*v)),
        T::Str(s) | T::Uol(s) => Value::String(s.clone()),
        T::Vec2(x, y) => Value::Object(fields(&[("x", (*x as i64).into()), ("y", (*y as i64).into())])),
        T::Sub(l) => object(l, None),
        T::Raw(_, l, _) => object(l.as_ref().unwrap_or(&none), None),
        T::Canvas(l, w, h, _) => object(l.as_ref().unwrap_or(&none), Some(fields(&[("width", (*w as u64).into()), ("height", (*h as u64).into())]))),
        T::Convex(l) => {
            if l.is_empty() {
                Value::Null
            } else {
                Value::Object(l.iter().enumerate().map(|(i, t)| (IDX[i].to_string(), model(t))).collect())
            }
        }
        T::Sound(d, hl, _) => Value::Object(fields(&[("duration", (*d as u64).into()), ("sound_type", if *hl == 0x46 { "Wav" } else { "Mp3" }.into())])),
    }
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::String(a), Value::String(b)) => nd::same(a.as_bytes(), b.as_bytes()),
        (Value::Number(a), Value::Number(b)) => {
            if a.is_f64() || b.is_f64() {
                a.is_f64() && b.is_f64() && a.as_f64().unwrap().to_bits() == b.as_f64().unwrap().to_bits()
            } else {
                a.as_i64() == b.as_i64() && a.as_u64() == b.as_u64()
            }
        }
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| same(v, w))),
        _ => false,
    }
}
/// an image node with these children (links left as they are)
fn parsed(l: &L) -> WzNodeArc {
    let im = image(l, 3, 0);
    let n = WzNode::from_str("t.img", im, None).into_lock();
    let (v, _) = n.read().unwrap().try_as_image().unwrap().resolve_children(Some(&n)).unwrap();
    let mut w = n.write().unwrap();
    for (k, c) in v {
        w.children.insert(k, c);
    }
    drop(w);
    n
}
fn finite(t: &T) -> bool {
    match t {
        T::Float(v) => f32::from_bits(*v).is_finite(),
        T::Double(v) => f64::from_bits(*v).is_finite(),
        _ => true,
    }
}
/// what a node becomes on the way through full JSON and back
fn check_back(n: &WzNodeArc, name: &str, t: &T, parent: &WzNodeArc) {
    let r = n.read().unwrap();
    assert!(r.name.as_str() == name, "name");
    assert!(Arc::ptr_eq(&r.parent.upgrade().expect("parent link"), parent), "parent link");
    let none = vec![];
    let kids = match t {
        T::Sub(l) | T::Canvas(Some(l), ..) => l,
        _ => &none,
    };
    if let T::Convex(l) = t {
        assert!(r.is_convex() && r.children.len() == l.len(), "convex");
        for (i, t) in l.iter().enumerate() {
            check_back(&r.at(IDX[i]).expect("child"), IDX[i], t, n);
        }
        return;
    }
    assert!(r.children.len() == kids.len(), "children");
    for (nm, t) in kids {
        check_back(&r.at(nm).expect("child"), nm, t, n);
    }
    match (t, &r.object_type) {
        (T::Null | T::Unknown, WzObjectType::Value(WzValue::Null)) => {}
        (T::Short(_, v), WzObjectType::Value(WzValue::Short(x))) => assert!(v == x, "short"),
        (T::Int(_, v), WzObjectType::Value(WzValue::Int(x))) => assert!(v == x, "int"),
        (T::Long(v), WzObjectType::Value(WzValue::Long(x))) => assert!(v == x, "long"),
        (T::Float(v), WzObjectType::Value(WzValue::Float(x))) => assert!(*v == x.to_bits(), "float"),
        (T::Float0, WzObjectType::Value(WzValue::Float(x))) => assert!(x.to_bits() == 0, "zero float"),
        (T::Double(v), WzObjectType::Value(WzValue::Double(x))) => assert!(*v == x.to_bits(), "double"),
        (T::Str(v), WzObjectType::Value(WzValue::String(x))) => assert!(nd::same(v.as_bytes(), x.get_string().unwrap().as_bytes()), "string"),
        (T::Uol(v), WzObjectType::Value(WzValue::UOL(x))) => assert!(nd::same(v.as_bytes(), x.get_string().unwrap().as_bytes()), "uol"),
        (T::Vec2(a, b), WzObjectType::Value(WzValue::Vector(x))) => assert!(*a == x.0 && *b == x.1, "vector"),
        (T::Sub(_), WzObjectType::Property(WzSubProperty::Property)) => {}
        (T::Canvas(_, w, h, _), WzObjectType::Property(WzSubProperty::PNG(p))) => assert!(p.width == *w && p.height == *h, "canvas size"),
        (T::Sound(d, hl, _), WzObjectType::Property(WzSubProperty::Sound(s))) => {
            assert!(s.duration == *d && s.sound_type == if *hl == 0x46 { WzSoundType::Wav } else { WzSoundType::Mp3 }, "sound")
        }
        _ => panic!("kind"),
    }
}

harnesses! {
/// simple JSON of an image. params: value kind
fn h_c22_simple() {
    let a = nd::param(0);
    let b = nd::below(KINDS);
    let l = vec![("x", value(a)), ("s", T::Sub(vec![("a", value(b)), ("c", T::Canvas(Some(vec![("z", value(if a == 15 { 1 } else { a })), ("height", T::Null)]), nd::u32(), nd::u32(), None)), ("e", T::Sub(vec![]))]))];
    let n = parsed(&l);
    let j = n.read().unwrap().to_simple_json().unwrap();
    assert!(same(&j, &object(&l, None)), "json");
    for (k, t) in &l {
        let c = n.read().unwrap().at(k).unwrap();
        let j = c.read().unwrap().to_simple_json().unwrap();
        assert!(same(&j, &model(t)), "json of a child");
    }
    nd::cover(1);
}
/// full JSON of an image and back. params: value kind, place
fn h_c22_full() {
    let x = value(nd::param(0));
    nd::assume(finite(&x));
    let k = T::Str("k".into());
    let l = match nd::param(1) {
        0 => vec![("x", x), ("s", T::Sub(vec![("a", T::Null), ("e", T::Sub(vec![])), ("t", T::Canvas(Some(vec![("c", k)]), nd::u32(), nd::u32(), None))]))],
        1 => vec![("s", T::Sub(vec![("x", x), ("a", k)])), ("x", T::Int(3, nd::i32()))],
        _ => vec![("t", T::Canvas(Some(vec![("x", x), ("a", k)]), 2, 1, None))],
    };
    let n = parsed(&l);
    let j = n.read().unwrap().to_json().unwrap();
    let back: WzNode = serde_json::from_value(j).unwrap();
    let m = back.into_lock();
    resolve_childs_parent(&m);
    let r = m.read().unwrap();
    assert!(r.name.as_str() == "t.img" && r.try_as_image().is_some(), "image");
    assert!(r.children.len() == l.len(), "children");
    for (k, t) in &l {
        check_back(&r.at(k).expect("child"), k, t, &m);
    }
    nd::cover(1);
}
/// files and directories there and back
fn h_c22_file() {
    let meta = WzFileMeta {
        path: crate::tree::some_text(&crate::tree::Src(true), 3),
        patch_version: nd::i32(),
        wz_version_header: nd::i32(),
        wz_with_encrypt_version_header: nd::bool(),
        hash: nd::u64() as usize,
        string_decryptor_verified: false,
    };
    let root = WzNode::from_str("Base", WzFile { wz_file_meta: meta.clone(), ..Default::default() }, None).into_lock();
    let d = WzNode::from_str("dir", WzDirectory::default(), Some(&root)).into_lock();
    let i = WzNode::from_str("a.img", WzImage::default(), Some(&d)).into_lock();
    root.write().unwrap().add(&d);
    d.write().unwrap().add(&i);
    let j = root.read().unwrap().to_json().unwrap();
    let back: WzNode = serde_json::from_value(j).unwrap();
    let f = back.try_as_file().expect("file");
    let g = &f.wz_file_meta;
    assert!(nd::same(g.path.as_bytes(), meta.path.as_bytes()) && g.patch_version == meta.patch_version && g.wz_version_header == meta.wz_version_header, "file data");
    assert!(g.wz_with_encrypt_version_header == meta.wz_with_encrypt_version_header && g.hash == meta.hash, "file data");
    let d = back.at("dir").expect("directory");
    assert!(back.children.len() == 1 && d.read().unwrap().try_as_directory().is_some(), "directory");
    let i = back.at_path("dir/a.img").expect("image");
    assert!(d.read().unwrap().children.len() == 1 && i.read().unwrap().try_as_image().is_some(), "image");
    nd::cover(1);
}
}
