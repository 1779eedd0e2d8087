//! C21: sounds, lua texts, raw data and videos as they are read out
use crate::nd;
use crate::util::*;
use std::sync::Arc;
use wz_reader::property::{get_sound_type_from_header, WzLua, WzRawData, WzSound, WzSoundType, WzVideo};
use wz_reader::util::string_decryptor::ecb_decryptor::EcbDecryptor;
use wz_reader::util::string_decryptor::Decryptor;
use wz_reader::{WzImage, WzNode, WzNodeCast};

fn key_of(iv: [u8; 4], n: usize) -> Vec<u8> {
    let mut k = EcbDecryptor::from_iv(iv);
    k.ensure_key_size(n).unwrap();
    let mut v = vec![0; n];
    k.decrypt_slice(&mut v);
    v
}
const IVS: [[u8; 4]; 3] = [[0xB9, 0x7D, 0x63, 0xE9], [0x4D, 0x23, 0xC7, 0x2B], [0, 0, 0, 0]];
/// 0 invalid, 1 valid, 2 valid but for an unfinished last character
pub fn utf8(b: &[u8]) -> u8 {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
            continue;
        }
        let (n, lo, hi) = match c {
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xE1..=0xEF => (2, 0x80, 0xBF),
            0xF0 => (3, 0x90, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            _ => return 0,
        };
        for k in 1..=n {
            match b.get(i + k) {
                None => return 2,
                Some(x) if k == 1 && (*x < lo || *x > hi) => return 0,
                Some(x) if *x & 0xC0 != 0x80 => return 0,
                _ => {}
            }
        }
        i += n + 1;
    }
    1
}

harnesses! {
/// the kind of a sound from its header. params: header length
fn h_c21_kind() {
    let n = nd::param(0) as usize;
    let h = nd::vec(n);
    let (size, dur) = (nd::u32(), nd::u32());
    let got = get_sound_type_from_header(&h, size, dur);
    let want = if n != 0x46 {
        WzSoundType::Mp3
    } else if size == u32::from_le_bytes([h[0x38], h[0x39], h[0x3A], h[0x3B]]) && dur == 1000 {
        WzSoundType::Binary
    } else {
        WzSoundType::Wav
    };
    assert!(got == want, "kind of sound");
    nd::cover(1);
}
/// sound data. params: kind (0 mp3, 1 wav, 2 binary), length, start
fn h_c21_sound() {
    let (n, at) = (nd::param(1) as usize, nd::param(2) as usize);
    let mut b = nd::vec(at + 0x46 + n);
    b.extend([0xEE; 3]);
    let r = arc_reader(&b);
    let ty = [WzSoundType::Mp3, WzSoundType::Wav, WzSoundType::Binary][nd::param(0) as usize].clone();
    let dur = nd::u32();
    let s = WzSound::new(&r, at + 0x46, n as u32, at, 0x46, dur, ty.clone());
    assert!(s.duration == dur && s.sound_type == ty, "kept");
    let data = &b[at + 0x46..at + 0x46 + n];
    let mut want = vec![];
    if nd::param(0) == 1 {
        want.extend_from_slice(b"RIFF");
        want.extend_from_slice(&(n as u32 + 36).to_le_bytes());
        want.extend_from_slice(b"WAVEfmt ");
        want.extend_from_slice(&16u32.to_le_bytes());
        want.extend_from_slice(&b[at + 0x34..at + 0x44]);
        want.extend_from_slice(b"data");
        want.extend_from_slice(&(n as u32).to_le_bytes());
        assert!(nd::same(&s.get_wav_header(), &want), "wav header");
    }
    want.extend_from_slice(data);
    assert!(nd::same(&s.get_buffer(), &want), "sound data");
    let mut out = std::io::Cursor::new(vec![]);
    s.write_to(&mut out).unwrap();
    assert!(nd::same(&out.into_inner(), &want), "written sound");
    nd::cover(1);
}
/// raw data and videos. params: length, start
fn h_c21_raw() {
    let (n, at) = (nd::param(0) as usize, nd::param(1) as usize);
    let b = nd::vec(at + n + 2);
    let r = arc_reader(&b);
    assert!(nd::same(WzRawData::new(&r, at, n).get_buffer(), &b[at..at + n]), "raw data");
    assert!(nd::same(WzVideo::new(&r, at, n).get_buffer(), &b[at..at + n]), "video");
    nd::cover(1);
}
/// images that hold a text. params: 0 plain .txt, 1 packed text, 2 lua with a one-byte length, 3 with a long one; length, start
fn h_c21_image() {
    let (kind, n, at) = (nd::param(0), nd::param(1) as usize, nd::param(2) as usize);
    let keys = if kind < 2 { vec![] } else { all_keys(n) };
    let data = nd::vec(n);
    let mut b = vec![0x11; at];
    match kind {
        1 => b.extend(b"#Property"),
        2 => b.extend([1, n as u8]),
        3 => {
            b.extend([1, 0x80]);
            b.extend((n as i32).to_le_bytes());
        }
        _ => {}
    }
    b.extend(&data);
    let size = b.len() - at;
    b.extend([0xEE; 2]);
    let name = ["a.txt", "a.img", "b.lua", ".lua"][kind as usize];
    let node = WzNode::from_str(name, WzImage::new(&name.into(), at, size, &arc_reader(&b)), None).into_lock();
    node.write().unwrap().parse(&node).unwrap();
    let r = node.read().unwrap();
    assert!(r.children.len() == 1, "one node");
    let c = r.at(if kind < 2 { "text.txt" } else { "Script" }).expect("text node");
    let c = c.read().unwrap();
    assert!(Arc::ptr_eq(&c.parent.upgrade().unwrap(), &node), "parent");
    if kind < 2 {
        assert!(nd::same(c.try_as_raw_data().expect("raw data").get_buffer(), &data), "text");
        nd::cover(1);
    } else {
        lua_check(c.try_as_lua().expect("lua").extract_lua().ok(), &data, &keys);
    }
}
/// lua text: any bytes behind a fixed beginning. params: length of the beginning, bytes behind it, key of the text, start
fn h_c21_lua() {
    let (fixed, n, at) = (nd::param(0) as usize, nd::param(1) as usize, nd::param(3) as usize);
    let keys = all_keys(fixed + n);
    let mut text = vec![b'x'; fixed];
    text.extend(nd::vec(n));
    let k = &keys[nd::param(2) as usize];
    let mut b = vec![0x11; at];
    b.extend(text.iter().zip(k.iter()).map(|(a, b)| a ^ b));
    b.push(0xEE);
    let got = WzLua::new(&arc_reader(&b), at, text.len()).extract_lua().ok();
    lua_check(got, &b[at..at + text.len()], &keys);
}
}
/// the key streams first, there is only one of each
fn all_keys(n: usize) -> Vec<Vec<u8>> {
    let keys: Vec<Vec<u8>> = IVS.iter().map(|iv| key_of(*iv, n)).collect();
    for iv in IVS {
        wz_reader::GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv).write().unwrap().ensure_key_size(n).unwrap();
    }
    keys
}
/// the first key under which the beginning can be a text decides
fn lua_check(got: Option<String>, raw: &[u8], keys: &[Vec<u8>]) {
    let mut want = None;
    for k in keys {
        let d: Vec<u8> = raw.iter().zip(k.iter()).map(|(a, b)| a ^ b).collect();
        let ok = if d.len() > 64 { utf8(&d[..64]) != 0 } else { utf8(&d) == 1 };
        if ok {
            want = if utf8(&d) == 1 { Some(d) } else { None };
            break;
        }
    }
    match (got, want) {
        (Some(t), Some(w)) => {
            assert!(nd::same(t.as_bytes(), &w), "lua text");
            nd::cover(1);
        }
        (None, None) => nd::cover(2),
        _ => panic!("lua outcome"),
    }
}
