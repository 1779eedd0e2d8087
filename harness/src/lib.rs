#![allow(clippy::all)]
#[macro_use]
pub mod nd;
pub mod util;
pub mod vfs;
pub mod cast;
pub mod dir;
pub mod files;
pub mod img;
pub mod ints;
pub mod json;
pub mod keys;
pub mod media;
pub mod ms;
pub mod guess;
pub mod node;
pub mod pkg;
pub mod strings;
pub mod tree;

#[cfg(not(wzsym))]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    for t in [files::TABLE, cast::TABLE, guess::TABLE, dir::TABLE, img::TABLE, ints::TABLE, json::TABLE, keys::TABLE, media::TABLE, ms::TABLE, node::TABLE, pkg::TABLE, strings::TABLE, tree::TABLE] {
        v.extend_from_slice(t);
    }
    v
}
