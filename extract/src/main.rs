//! Mechanical extractor: reads the Rust sources of /repo and produces a single Verus file in which
//! the real functions appear after a fixed list of syntactic rewritings (see DESIGN.md, "Extraction
//! rules"), with the contracts of /verif/verus/contracts spliced in.
mod ann;
mod load;
mod print;
mod xform;

use std::{collections::BTreeSet, fs, path::PathBuf};

fn main() {
    let mut args = std::env::args().skip(1);
    let src = PathBuf::from(args.next().expect("src dir"));
    let verus_dir = PathBuf::from(args.next().expect("verus dir"));
    let out = PathBuf::from(args.next().expect("out file"));
    let mut external = BTreeSet::new();
    let mut only_list = false;
    for a in args {
        if let Some(f) = a.strip_prefix("--external=") {
            external.extend(f.split(";;").map(str::to_string));
        } else if a == "--vacuity" {
            std::env::set_var("EXTRACT_VACUITY", "1");
        } else if a == "--list" {
            only_list = true;
        }
    }
    let items = match load::load_crate(&src) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("extract: cannot load the sources: {e}");
            std::process::exit(3);
        }
    };
    let anns = match ann::load(&verus_dir.join("contracts")) {
        Ok(a) => a,
        Err(e) => {
            eprintln!("extract: bad annotation file: {e}");
            std::process::exit(4);
        }
    };
    let lits = floats(&items);
    let mut x = xform::Xform::new(anns, external);
    let gen = x.run(items);
    if only_list {
        for f in &x.report {
            println!("{}\tloops={} closures={} chains={} ann={}", f.id, f.loops, f.closures, f.chains, f.annotated);
        }
        return;
    }
    // Assemble.
    let mut text = String::new();
    text.push_str("// GENERATED from /repo/src by /verif/extract - do not edit.\n#![allow(unused, non_snake_case, non_upper_case_globals, non_camel_case_types)]\n#![feature(rustc_attrs)]\nuse vstd::prelude::*;\nuse std::ops::{Deref, DerefMut};\nverus! {\n");
    text = text.replace("#![feature(rustc_attrs)]\n", "");
    let mut map: Vec<(String, usize, usize)> = Vec::new();
    for (name, pre) in [("prelude", true), ("gen", false), ("lemmas", true)] {
        if pre {
            let mut fs_: Vec<_> = fs::read_dir(&verus_dir)
                .unwrap()
                .filter_map(|e| e.ok().map(|e| e.path()))
                .filter(|p| {
                    p.file_name()
                        .and_then(|n| n.to_str())
                        .map_or(false, |n| n.starts_with(name) && n.ends_with(".rs"))
                })
                .collect();
            fs_.sort();
            for p in fs_ {
                let start = text.lines().count() + 1;
                text.push_str(&fs::read_to_string(&p).unwrap());
                text.push('\n');
                let end = text.lines().count();
                map.push((format!("@{}", p.file_name().unwrap().to_str().unwrap()), start, end));
            }
        } else {
            text.push_str(&format!("pub broadcast group all_axioms {{ ext_axioms, table_axioms, crypto_axioms, log_axioms, {} }}\n", x.gen_axioms.join(", ")));
            text.push_str(&format!("/// The floating point literals of the sources (twice their value, rounded down).\n#[verifier::external_body]\npub proof fn ax_float_literals()\n    ensures true{}\n{{}}\n",
                lits.iter().map(|(l, h)| format!(", ge({l}, {h})")).collect::<String>()));
            for (id, t) in &gen {
                let start = text.lines().count() + 1;
                text.push_str(t);
                text.push('\n');
                let end = text.lines().count();
                if !id.is_empty() {
                    map.push((id.clone(), start, end));
                }
            }
        }
    }
    text.push_str("} // verus!\nfn main() {}\n");
    fs::write(&out, &text).unwrap();
    // Function line ranges (in the generated file).
    let mut js = String::from("{\n \"ranges\": [\n");
    let fnl = x.fn_lines(&text);
    let all: Vec<(String, usize, usize)> = map.into_iter().filter(|m| m.0.starts_with('@')).chain(fnl).collect();
    for (i, (id, s, e)) in all.iter().enumerate() {
        js.push_str(&format!(
            "  [{:?}, {}, {}]{}\n",
            id, s, e, if i + 1 < all.len() { "," } else { "" }
        ));
    }
    js.push_str(" ],\n \"functions\": [\n");
    for (i, f) in x.report.iter().enumerate() {
        js.push_str(&format!(
            "  {{\"id\": {:?}, \"file\": {:?}, \"line\": {}, \"annotated\": {}, \"external\": {}, \"lost\": {:?}, \"tags\": {:?}, \"calls\": {:?}, \"hash\": \"{:016x}\", \"loops\": {}, \"closures\": {}, \"chains\": {}}}{}\n",
            f.id, f.file, f.line, f.annotated, f.external, f.lost, f.tags, f.calls, f.hash, f.loops, f.closures, f.chains,
            if i + 1 < x.report.len() { "," } else { "" }
        ));
    }
    js.push_str(" ],\n \"unused_annotations\": [");
    let un = x.unused();
    for (i, u) in un.iter().enumerate() {
        js.push_str(&format!("{:?}{}", u, if i + 1 < un.len() { "," } else { "" }));
    }
    js.push_str("],\n \"dropped\": [");
    for (i, u) in x.dropped.iter().enumerate() {
        js.push_str(&format!("{:?}{}", u, if i + 1 < x.dropped.len() { "," } else { "" }));
    }
    js.push_str("]\n}\n");
    fs::write(out.with_extension("json"), js).unwrap();
}

/// The float literals that occur in the sources, with the floor of twice their value.
fn floats(items: &[load::Loaded]) -> Vec<(String, i128)> {
    struct V(std::collections::BTreeMap<String, i128>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_lit_float(&mut self, l: &'a syn::LitFloat) {
            if let Ok(x) = l.base10_digits().parse::<f64>() {
                if x < 1e15 {
                    self.0.insert(format!("{}{}", l.base10_digits(), if l.base10_digits().contains('.') && !l.base10_digits().ends_with('.') { "f64" } else { "_f64" }), (2.0 * x).floor() as i128);
                }
            }
        }
    }
    let mut v = V(Default::default());
    for i in items {
        syn::visit::Visit::visit_item(&mut v, &i.item);
    }
    v.0.into_iter().collect()
}
