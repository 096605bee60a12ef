//! Loads the crate from lib.rs, following `mod` declarations, and flattens it.
use std::{fs, path::{Path, PathBuf}};
use syn::{Attribute, Item};

pub struct Loaded {
    pub item: Item,
    pub file: String,
}

fn cfg_off(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let t = quote::quote!(#a).to_string().replace(' ', "");
            if t.contains("not(") && t.contains("in_memory") {
                return true;
            }
            if t.contains("test") && !t.contains("any(") {
                return true;
            }
        }
        if a.path().is_ident("test") {
            return true;
        }
    }
    false
}

pub fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

pub fn load_crate(src: &Path) -> Result<Vec<Loaded>, String> {
    let mut out = Vec::new();
    load_file(src, &src.join("lib.rs"), src, &mut out)?;
    Ok(out)
}

fn load_file(root: &Path, file: &Path, moddir: &Path, out: &mut Vec<Loaded>) -> Result<(), String> {
    let t = fs::read_to_string(file).map_err(|e| format!("{}: {e}", file.display()))?;
    let f = syn::parse_file(&t).map_err(|e| format!("{}: {e}", file.display()))?;
    let rel = file.strip_prefix(root).unwrap_or(file).display().to_string();
    load_items(root, f.items, &rel, moddir, out)
}

fn load_items(root: &Path, items: Vec<Item>, rel: &str, moddir: &Path, out: &mut Vec<Loaded>) -> Result<(), String> {
    for it in items {
        if cfg_off(item_attrs(&it)) {
            continue;
        }
        match it {
            Item::Mod(m) => {
                let name = m.ident.to_string();
                if let Some((_, items)) = m.content {
                    load_items(root, items, rel, &moddir.join(&name), out)?;
                } else {
                    let a: PathBuf = moddir.join(format!("{name}.rs"));
                    let b: PathBuf = moddir.join(&name).join("mod.rs");
                    if a.exists() {
                        load_file(root, &a, &moddir.join(&name), out)?;
                    } else {
                        load_file(root, &b, &moddir.join(&name), out)?;
                    }
                }
            }
            Item::Use(_) | Item::ExternCrate(_) => {}
            other => out.push(Loaded { item: other, file: rel.to_string() }),
        }
    }
    Ok(())
}
