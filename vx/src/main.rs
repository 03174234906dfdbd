//! vx: extracts the functions under contract from the crate's current source.
//!
//! usage: vx --src REPO/src --expanded EXPANDED.rs --bindings BINDINGS.rs --spec DIR --out OUT.rs --report OUT.json
//!           [--external KEY]...
//!
//! The output is one Verus crate with the module tree of the original. Every function body is the text of
//! the source file with span edits applied (see the RULES list in DESIGN.md); nothing is re-typed by hand.
//! Contracts come from the overlay files (*.vo) in the spec directory.

mod consts;
mod edit;
mod overlay;
mod walk;

use std::collections::BTreeSet;
use std::fs;

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut src, mut expanded, mut bindings, mut spec, mut out, mut report) =
        (None, None, None, None, None, None);
    let mut external = BTreeSet::new();
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("missing value");
        match &*a {
            "--src" => src = Some(v()),
            "--expanded" => expanded = Some(v()),
            "--bindings" => bindings = Some(v()),
            "--spec" => spec = Some(v()),
            "--out" => out = Some(v()),
            "--report" => report = Some(v()),
            "--external" => {
                external.insert(v());
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let src = src.unwrap();
    let spec = spec.unwrap();
    let mut ov = overlay::Overlay::load(&spec);
    for k in &external {
        ov.fns.entry(k.clone()).or_default().mode = overlay::Mode::External;
    }
    let consts = consts::Consts::load(&fs::read_to_string(bindings.unwrap()).expect("bindings"));
    let expanded = fs::read_to_string(expanded.unwrap()).expect("expanded");
    let mut w = walk::Walker::new(ov, consts, &expanded);
    let mut body = w.module_file(&format!("{src}/lib.rs"), &[]);
    // types that have a stand-in in the prelude
    for (from, to) in [("std::ffi::OsStr", "crate::vp::OsStr"), ("std::path::Path", "crate::vp::Path"), ("std::fmt", "crate::stand::fmt"), ("core::fmt", "crate::stand::fmt"), ("std::error::Error", "crate::stand::error::Error"), ("dyn Error + 'static", "crate::error::BoxedError")] {
        let mut t = String::new();
        let mut rest = &body[..];
        while let Some(i) = rest.find(from) {
            let (a, b) = rest.split_at(i + from.len());
            let longer = b.starts_with(|c: char| c.is_alphanumeric() || c == '_');
            t.push_str(&a[..i]);
            t.push_str(if longer { from } else { to });
            rest = b;
        }
        t.push_str(rest);
        body = t;
    }
    let mut text = String::new();
    text.push_str("// @generated by vx from the crate's source; do not edit\n");
    text.push_str(&fs::read_to_string(format!("{spec}/header.rs")).expect("header.rs"));
    text.push_str(&body);
    text.push_str(&w.bindings_module());
    text.push_str(&fs::read_to_string(format!("{spec}/prelude.rs")).expect("prelude.rs"));
    text.push_str("\nfn main() {}\n");
    fs::write(out.unwrap(), &text).unwrap();
    fs::write(report.unwrap(), w.report(&text)).unwrap();
}
