//! Item-level and expression-level rewriting rules.
use crate::{ann::{Ann, Anns}, load::Loaded, print::Printer};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{parse_quote, punctuated::Punctuated, visit_mut::{self, VisitMut}, *};

#[derive(Default)]
pub struct FnReport {
    pub id: String,
    pub file: String,
    pub line: usize,
    pub annotated: bool,
    pub external: bool,
    pub lost: Vec<String>,
    pub tags: Vec<String>,
    pub calls: Vec<String>,
    pub hash: u64,
    pub loops: usize,
    pub closures: usize,
    pub chains: usize,
}

pub struct Xform {
    anns: Anns,
    external: BTreeSet<String>,
    pub report: Vec<FnReport>,
    pub dropped: Vec<String>,
    pub gen_axioms: Vec<String>,
    raws: Vec<String>,
    assoc: HashMap<(String, String), Type>,
    kmac: Option<TokenStream>,
    byte_vector: Option<TokenStream>,
    bytes_consts: BTreeMap<String, Vec<u8>>,
    used: BTreeSet<String>,
    ids: BTreeSet<String>,
    interior: BTreeSet<String>,
}

/// Traits whose single implementation is turned into inherent methods.
const FLAT: &[&str] = &["MmEnc", "GxEnc", "Index", "Serializable"];
/// Implementations dropped (formatting, zeroization, markers).
const DROP_IMPL: &[&str] = &["Display", "Debug", "Drop", "Zeroize", "ZeroizeOnDrop", "Hash"];
const DROP_BOUND: &[&str] = &["Debug", "Display", "Hash", "PartialEq", "ZeroizeOnDrop", "Zeroize", "Sized", "Send", "Sync"];

pub fn norm(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace([' ', '\n'], "")
}
fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn type_ident(t: &Type) -> String {
    match t {
        Type::Path(p) if p.qself.is_none() => last(&p.path),
        Type::Reference(r) => type_ident(&r.elem),
        _ => norm(t),
    }
}
fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn is_prim(s: &str) -> bool {
    matches!(s, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool" | "str" | "f64" | "f32" | "char")
}

impl Xform {
    pub fn new(anns: Anns, external: BTreeSet<String>) -> Self {
        Xform {
            anns, external, report: vec![], dropped: vec![], gen_axioms: vec![], raws: vec![], assoc: HashMap::new(), kmac: None,
            byte_vector: None, bytes_consts: BTreeMap::new(), used: BTreeSet::new(), ids: BTreeSet::new(), interior: BTreeSet::new(),
        }
    }
    pub fn unused(&self) -> Vec<String> {
        self.anns.keys().filter(|k| !self.used.contains(*k)).cloned().collect()
    }
    fn raw(&mut self, s: impl Into<String>) -> usize {
        self.raws.push(s.into());
        self.raws.len() - 1
    }
    fn raw_stmt(&mut self, s: impl Into<String>) -> Stmt {
        let k = self.raw(s);
        Stmt::Expr(Expr::Verbatim(quote!(__raw!(#k))), Some(Default::default()))
    }
    fn ann(&mut self, id: &str) -> Option<Ann> {
        let a = self.anns.get(id).cloned();
        if a.is_some() {
            self.used.insert(id.to_string());
        }
        a
    }

    /// Lines of the functions in the final text, from the `//@FN` markers.
    pub fn fn_lines(&self, text: &str) -> Vec<(String, usize, usize)> {
        let mut v = vec![];
        let mut cur: Option<(String, usize)> = None;
        for (i, l) in text.lines().enumerate() {
            let t = l.trim();
            if let Some(id) = t.strip_prefix("//@FN ") {
                cur = Some((id.to_string(), i + 1));
            } else if t.starts_with("//@END") {
                if let Some((id, s)) = cur.take() {
                    v.push((id, s, i + 1));
                }
            }
        }
        v
    }

    pub fn run(&mut self, items: Vec<Loaded>) -> Vec<(String, String)> {
        // Pass 1: macros, associated types, byte-string constants.
        let mut all = Vec::new();
        for l in items {
            if let Item::Macro(m) = &l.item {
                if m.ident.as_ref().map_or(false, |i| i == "kmac") {
                    self.kmac = Some(m.mac.tokens.clone());
                    continue;
                }
                if m.ident.as_ref().map_or(false, |i| i == "impl_byte_vector") {
                    self.byte_vector = Some(m.mac.tokens.clone());
                    continue;
                }
            }
            all.push(l);
        }
        let mut flat = Vec::new();
        for l in all {
            if let Item::Macro(m) = &l.item {
                if m.mac.path.is_ident("impl_byte_vector") {
                    if let Some(items) = self.expand_byte_vector(&m.mac.tokens) {
                        for it in items {
                            flat.push(Loaded { item: it, file: l.file.clone() });
                        }
                        continue;
                    }
                }
            }
            flat.push(l);
        }
        for l in &flat {
            if let Item::Struct(st) = &l.item {
                if st.fields.iter().any(|f| norm(&f.ty).starts_with("Arc<Mutex<")) && matches!(st.fields, Fields::Unnamed(_)) {
                    self.interior.insert(st.ident.to_string());
                }
            }
            if let Item::Impl(i) = &l.item {
                if i.trait_.is_some() {
                    let ty = type_ident(&i.self_ty);
                    for it in &i.items {
                        if let ImplItem::Type(t) = it {
                            if norm(&t.ty).starts_with("<Selfas") {
                                continue;
                            }
                            self.assoc.insert((ty.clone(), t.ident.to_string()), t.ty.clone());
                        }
                    }
                }
            }
            if let Item::Const(c) = &l.item {
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &*c.expr {
                    self.bytes_consts.insert(c.ident.to_string(), b.value());
                }
            }
        }
        // Pass 2: emit.
        let mut out = Vec::new();
        for l in flat {
            let r = self.item(l.item, &l.file);
            for (id, ts) in r {
                let mut p = Printer::new(&self.raws);
                p.print(ts);
                out.push((id, p.out));
            }
        }
        out
    }

    fn expand_byte_vector(&self, arg: &TokenStream) -> Option<Vec<Item>> {
        let body = self.byte_vector.clone()?;
        let tts: Vec<TokenTree> = body.into_iter().collect();
        // ( pattern ) => { body } ;
        let g = tts.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).nth(1)?;
        let ts = subst_dollar(g.stream(), &|name| if name == "type_name" { Some(arg.clone()) } else { None });
        let f: File = parse2(ts).ok()?;
        Some(f.items)
    }

    // ---------------------------------------------------------------- items

    fn item(&mut self, item: Item, file: &str) -> Vec<(String, TokenStream)> {
        match item {
            Item::Const(c) => {
                let name = c.ident.to_string();
                if let Some(b) = self.bytes_consts.get(&name).cloned() {
                    let n = b.len();
                    let seq = b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
                    let s = format!(
                        "pub open spec fn {name}_spec() -> Seq<u8> {{ seq![{seq}] }}\npub exec const {name}: [u8; {n}] ensures {name}@ == {name}_spec() {{ let x: [u8; {n}] = [{seq}]; assert(x@ =~= {name}_spec()); x }}"
                    );
                    let k = self.raw(s);
                    return vec![("".into(), quote!(__raw!(#k)))];
                }
                let mut c = c;
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                let mut v = ExprX::new(self, "", None);
                v.visit_type_mut(&mut c.ty);
                v.visit_expr_mut(&mut c.expr);
                vec![("".into(), c.to_token_stream())]
            }
            Item::Struct(mut s) => {
                let derives = derives(&s.attrs);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                self.generics(&mut s.generics, &mut HashMap::new());
                let mut v = ExprX::new(self, &s.ident.to_string(), None);
                for f in s.fields.iter_mut() {
                    v.visit_type_mut(&mut f.ty);
                }
                let attrs = reject(&s.generics);
                let mut out = if derives.contains("Copy") { quote!(#[derive(Clone, Copy)]) } else { quote!() };
                out.extend(quote!(#(#attrs)* #s));
                out.extend(self.derive_impls(&s.ident, &s.generics, &derives, Some(&s.fields)));
                vec![("".into(), out)]
            }
            Item::Enum(mut s) => {
                let derives = derives(&s.attrs);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                self.generics(&mut s.generics, &mut HashMap::new());
                let mut v = ExprX::new(self, &s.ident.to_string(), None);
                for var in s.variants.iter_mut() {
                    var.attrs.clear();
                    for f in var.fields.iter_mut() {
                        v.visit_type_mut(&mut f.ty);
                    }
                }
                let attrs = reject(&s.generics);
                let mut out = if derives.contains("Copy") { quote!(#[derive(Clone, Copy)]) } else { quote!() };
                out.extend(quote!(#(#attrs)* #s));
                out.extend(self.derive_impls(&s.ident, &s.generics, &derives, None));
                vec![("".into(), out)]
            }
            Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                let mut v = ExprX::new(self, "", None);
                v.visit_type_mut(&mut t.ty);
                vec![("".into(), t.to_token_stream())]
            }
            Item::Trait(t) => self.trait_(t, file),
            Item::Impl(i) => self.impl_(i, file),
            Item::Fn(f) => {
                let id = self.fresh_id(f.sig.ident.to_string());
                let (sig, block, pre, post, attrs) = self.func(&id, "", f.sig, Some(f.block.as_ref().clone()), file, "");
                let b = block.unwrap();
                vec![(id, quote!(#pre #(#attrs)* pub #sig #b #post))]
            }
            Item::Macro(_) | Item::Use(_) => vec![],
            other => {
                self.dropped.push(format!("item {}", norm(&other).chars().take(60).collect::<String>()));
                vec![]
            }
        }
    }

    fn fresh_id(&mut self, id: String) -> String {
        let mut n = id.clone();
        let mut k = 2;
        while self.ids.contains(&n) {
            n = format!("{id}#{k}");
            k += 1;
        }
        self.ids.insert(n.clone());
        n
    }

    fn derive_impls(&mut self, ident: &Ident, g: &Generics, d: &BTreeSet<String>, fields: Option<&Fields>) -> TokenStream {
        let (ig, tg, _) = g.split_for_impl();
        let mut out = TokenStream::new();
        // Bounds as a derive would add.
        let mut gb = g.clone();
        let mk = |gb: &Generics, b: &str| {
            let mut gb = gb.clone();
            let b: TypeParamBound = parse_str(b).unwrap();
            for p in gb.type_params_mut() {
                p.bounds.push(b.clone());
            }
            gb
        };
        let _ = &mut gb;
        if d.contains("Clone") {
            let k = self.raw("{ unimplemented!() }");
            let _ = k;
            let g2 = mk(g, "VClone");
            let (ig2, _, _) = g2.split_for_impl();
            out.extend(quote!(impl #ig2 VClone for #ident #tg { #[verifier::external_body] fn vclone(&self) -> Self { unimplemented!() } }));
        }
        if d.contains("PartialEq") {
            let g2 = mk(g, "VEq");
            let (ig2, _, _) = g2.split_for_impl();
            out.extend(quote!(impl #ig2 VEq for #ident #tg { #[verifier::external_body] fn veq(&self, o: &Self) -> bool { unimplemented!() } }));
        }
        if d.contains("Default") {
            if let Some(Fields::Unnamed(f)) = fields {
                let n: Vec<_> = (0..f.unnamed.len()).map(syn::Index::from).collect();
                let e: Vec<_> = f.unnamed.iter().map(|_| quote!(VDefault::vdefault())).collect();
                out.extend(quote!(impl #ig VDefault for #ident #tg {
                    open spec fn is_default(self) -> bool { #(VDefault::is_default(self.#n))&&* }
                    fn vdefault() -> Self { Self(#(#e),*) }
                }));
            }
        }
        out
    }

    fn trait_(&mut self, mut t: ItemTrait, file: &str) -> Vec<(String, TokenStream)> {
        let name = t.ident.to_string();
        if FLAT.contains(&name.as_str()) {
            return vec![];
        }
        t.attrs.clear();
        t.vis = parse_quote!(pub);
        self.generics(&mut t.generics, &mut HashMap::new());
        self.bounds(&mut t.supertraits, &HashMap::new());
        t.colon_token = Some(Default::default());
        if !t.supertraits.iter().any(|b| matches!(b, TypeParamBound::Trait(tb) if last(&tb.path) == "Sized")) {
            t.supertraits.push(parse_quote!(Sized));
        }
        let mut items = TokenStream::new();
        if let Some(a) = self.ann(&format!("trait {name}")) {
            if let Some(x) = a.items {
                let k = self.raw(x);
                items.extend(quote!(__raw!(#k)));
            }
        }
        for it in t.items {
            match it {
                TraitItem::Type(mut ty) => {
                    ty.attrs.clear();
                    self.bounds(&mut ty.bounds, &HashMap::new());
                    if ty.ident == "EncryptedValue" {
                        ty.bounds.push(parse_quote!(HasEncV));
                    }
                    if ty.bounds.is_empty() {
                        ty.colon_token = None;
                    } else {
                        ty.colon_token = Some(Default::default());
                    }
                    items.extend(ty.to_token_stream());
                }
                TraitItem::Fn(f) => {
                    let id = self.fresh_id(format!("trait {name}::{}", f.sig.ident));
                    let (sig, _b, pre, post, attrs) = self.func(&id, "", f.sig, None, file, "");
                    let spec = self.anns.get(&id).and_then(|a| a.spec.clone());
                    let sp = if let Some(s) = spec {
                        let k = self.raw(s);
                        quote!(__raw!(#k))
                    } else {
                        quote!()
                    };
                    // `__raw!` swallows one `;`, so print two.
                    let semi = if sp.is_empty() { quote!(;) } else { quote!(; ;) };
                    items.extend(quote!(#pre #(#attrs)* #sig #sp #semi #post));
                }
                other => items.extend(other.to_token_stream()),
            }
        }
        let (_, _, _) = t.generics.split_for_impl();
        let g = &t.generics;
        let id = &t.ident;
        let st = &t.supertraits;
        let c = &t.colon_token;
        vec![(format!("trait {name}"), quote!(pub trait #id #g #c #st { #items }))]
    }

    fn impl_(&mut self, mut i: ItemImpl, file: &str) -> Vec<(String, TokenStream)> {
        i.attrs.clear();
        let self_ident = type_ident(&i.self_ty);
        let mut tname = String::new();
        let mut targs = String::new();
        if let Some((_, p, _)) = &i.trait_ {
            tname = last(p);
            if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                targs = norm(a);
            }
            let full = norm(p);
            if DROP_IMPL.contains(&tname.as_str()) || full.starts_with("std::error::Error") {
                self.dropped.push(format!("impl {full} for {self_ident}"));
                return vec![];
            }
            if (tname == "From" || tname == "FromIterator") && targs.contains("str>") {
                self.dropped.push(format!("impl {full} for {self_ident}"));
                return vec![];
            }
        }
        let key = if tname.is_empty() { format!("impl {self_ident}") } else { format!("impl {tname}{targs} for {}", if matches!(&*i.self_ty, Type::Path(_)) { self_ident.clone() } else { norm(&i.self_ty) }) };
        let mut fut = HashMap::new();
        self.generics(&mut i.generics, &mut fut);
        let flat = FLAT.contains(&tname.as_str()) || tname == "DbInterface" && self.interior.contains(&self_ident);
        let mut extra = TokenStream::new();
        let has_ann = self.ann(&key);
        if let Some(a) = &has_ann {
            if let Some(x) = &a.items {
                let k = self.raw(x.clone());
                extra.extend(quote!(__raw!(#k)));
            }
        } else if tname == "From" || tname == "TryFrom" {
            let (arg, fname) = (targs.trim_start_matches('<').trim_end_matches('>').to_string(), if tname == "From" { "vfrom_spec" } else { "vtry_from_spec" });
            let _ = arg;
            // No contract: nothing is promised.
            let t: Type = match &i.trait_ {
                Some((_, p, _)) => match &p.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => match a.args.first() {
                        Some(GenericArgument::Type(t)) => t.clone(),
                        _ => parse_quote!(()),
                    },
                    _ => parse_quote!(()),
                },
                None => parse_quote!(()),
            };
            let mut t = t;
            ExprX::new(self, &self_ident, None).visit_type_mut(&mut t);
            let f = format_ident!("{}", fname);
            if tname == "From" {
                extra.extend(quote!(open spec fn #f(x: #t, r: Self) -> bool { true }));
            } else {
                extra.extend(quote!(open spec fn #f(x: #t, r: Result<Self, Self::Error>) -> bool { true }));
            }
        } else if tname == "Default" {
            extra.extend(quote!(open spec fn is_default(self) -> bool { true }));
        } else if tname == "AsRef" {
            extra.extend(quote!(uninterp spec fn v_bytes(&self) -> Seq<u8>;));
        } else if tname == "IntoIterator" {
            extra.extend(quote!(open spec fn into_spec(self, s: Seq<Self::VItem>) -> bool { true }));
        } else if tname == "FromIterator" {
            if let Some((_, p, _)) = &i.trait_ {
                if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        let mut t = t.clone();
                        ExprX::new(self, &self_ident, None).visit_type_mut(&mut t);
                        extra.extend(quote!(open spec fn from_spec(s: Seq<#t>, r: Self) -> bool { true }));
                    }
                }
            }
        }
        let mut items = TokenStream::new();
        let mut after = TokenStream::new();
        for it in i.items {
            match it {
                ImplItem::Type(mut t) => {
                    if tname == "IntoIterator" && t.ident == "Item" && !matches!(&t.ty, Type::Path(p) if p.qself.is_some()) {
                        t.ident = format_ident!("VItem");
                    } else if flat || tname == "IntoIterator" {
                        continue;
                    }
                    ExprX::new(self, &self_ident, None).visit_type_mut(&mut t.ty);
                    items.extend(t.to_token_stream());
                }
                ImplItem::Const(mut c) => {
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    let mut v = ExprX::new(self, &self_ident, None);
                    v.visit_type_mut(&mut c.ty);
                    v.visit_expr_mut(&mut c.expr);
                    let generic = i.generics.const_params().any(|g| {
                        let n = g.ident.to_string();
                        c.expr.to_token_stream().into_iter().any(|t| t.to_string() == n)
                    });
                    if generic {
                        // The overflow check of a constant is made by rustc for each instance: the
                        // value is given by an axiom generated from the expression itself.
                        let ax = format_ident!("ax_const_{}_{}", self_ident, c.ident);
                        let (g, ty, nm, ex) = (&i.generics, &i.self_ty, &c.ident, &c.expr);
                        let st: Type = { let mut t = (**ty).clone(); ExprX::new(self, &self_ident, None).visit_type_mut(&mut t); t };
                        let k = self.raw(format!("pub broadcast axiom fn {ax} {} () ensures #[trigger] <{}>::{nm} == ({});", g.to_token_stream(), st.to_token_stream(), ex.to_token_stream()));
                        after.extend(quote!(__raw!(#k)));
                        self.gen_axioms.push(ax.to_string());
                        items.extend(quote!(#[verifier::external_body]));
                    }
                    items.extend(c.to_token_stream());
                }
                ImplItem::Fn(f) => {
                    let base = f.sig.ident.to_string();
                    let idn = if tname == "From" || tname == "TryFrom" || tname == "FromIterator" {
                        let s = if matches!(&*i.self_ty, Type::Path(_)) { self_ident.clone() } else { norm(&i.self_ty) };
                        format!("{s}::{base}{targs}")
                    } else {
                        format!("{self_ident}::{base}")
                    };
                    let id = self.fresh_id(idn);
                    let (sig, block, pre, post, attrs) = self.func(&id, &self_ident, f.sig, Some(f.block), file, &tname);
                    let vis = if tname.is_empty() || flat { quote!(pub) } else { quote!() };
                    let b = block.unwrap();
                    items.extend(quote!(#pre #(#attrs)* #vis #sig #b #post));
                }
                other => items.extend(other.to_token_stream()),
            }
        }
        let mut self_ty = (*i.self_ty).clone();
        ExprX::new(self, &self_ident, None).visit_type_mut(&mut self_ty);
        let g = &i.generics;
        let head = if tname.is_empty() || flat {
            quote!(impl #g #self_ty)
        } else {
            let (_, mut p, _) = i.trait_.clone().unwrap();
            if tname == "FromIterator" || tname == "IntoIterator" || tname == "From" || tname == "TryFrom" || tname == "AsRef" || tname == "AsMut" || tname == "Default" {
                rename_trait(&mut p);
            }
            ExprX::new(self, &self_ident, None).visit_path_mut(&mut p);
            quote!(impl #g #p for #self_ty)
        };
        vec![(key, quote!(#head { #extra #items } #after))]
    }

    fn generics(&mut self, g: &mut Generics, fut: &mut HashMap<String, Type>) {
        // `F: Future<Output = T>` parameters disappear, F is replaced by T.
        for p in g.params.iter() {
            if let GenericParam::Type(t) = p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        if last(&tb.path) == "Future" {
                            if let PathArguments::AngleBracketed(a) = &tb.path.segments.last().unwrap().arguments {
                                for x in &a.args {
                                    if let GenericArgument::AssocType(at) = x {
                                        fut.insert(t.ident.to_string(), at.ty.clone());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let ps: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if fut.contains_key(&t.ident.to_string())))
            .cloned()
            .collect();
        g.params = ps.into_iter().collect();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.attrs.clear();
                self.bounds(&mut t.bounds, fut);
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let keep: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter(|p| !matches!(p, WherePredicate::Type(t) if matches!(t.bounded_ty, Type::Array(_))))
                .cloned()
                .collect();
            w.predicates = keep.into_iter().collect();
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    let mut b = t.bounds.clone();
                    self.bounds(&mut b, fut);
                    t.bounds = b;
                }
            }
        }
        if g.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) {
            g.where_clause = None;
        }
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
    }

    fn bounds(&mut self, b: &mut Punctuated<TypeParamBound, Token![+]>, fut: &HashMap<String, Type>) {
        let mut out: Vec<TypeParamBound> = vec![];
        for x in b.iter() {
            match x {
                TypeParamBound::Trait(tb) => {
                    let l = last(&tb.path);
                    let full = norm(&tb.path);
                    if DROP_BOUND.contains(&l.as_str()) || full == "std::error::Error" || full == "error::Error" {
                        continue;
                    }
                    let mut tb = tb.clone();
                    rename_trait(&mut tb.path);
                    let mut v = ExprX::new(self, "", None);
                    v.fut = fut.clone();
                    v.visit_path_mut(&mut tb.path);
                    out.push(TypeParamBound::Trait(tb));
                }
                TypeParamBound::Lifetime(_) => {}
                o => out.push(o.clone()),
            }
        }
        *b = out.into_iter().collect();
    }

    // ---------------------------------------------------------------- functions

    #[allow(clippy::type_complexity)]
    fn func(
        &mut self, id: &str, self_ident: &str, mut sig: Signature, block: Option<Block>, file: &str, tname: &str,
    ) -> (Signature, Option<TokenStream>, TokenStream, TokenStream, Vec<TokenStream>) {
        let a = self.ann(id);
        let mut rep = FnReport { id: id.to_string(), file: file.to_string(), line: sig.ident.span().start().line, ..Default::default() };
        rep.hash = fnv(&format!("{}{}", norm(&sig), block.as_ref().map(norm).unwrap_or_default()));
        let is_async = sig.asyncness.is_some();
        let world = is_async && !self.interior.contains(self_ident);
        sig.asyncness = None;
        let mut fut = HashMap::new();
        // function-level generics
        let mut g = sig.generics.clone();
        let mut iter_params: HashMap<String, Type> = HashMap::new();
        if tname == "FromIterator" {
            // fn from_iter<T: IntoIterator<Item = X>>(iter: T) -> Self   =>   fn v_from_iter(iter: It<X>) -> Self
            for p in g.type_params() {
                for b in &p.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        if last(&tb.path) == "IntoIterator" {
                            if let PathArguments::AngleBracketed(aa) = &tb.path.segments.last().unwrap().arguments {
                                for x in &aa.args {
                                    if let GenericArgument::AssocType(at) = x {
                                        let t = &at.ty;
                                        iter_params.insert(p.ident.to_string(), parse_quote!(It<#t>));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let ps: Vec<GenericParam> = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if iter_params.contains_key(&t.ident.to_string()))).cloned().collect();
            g.params = ps.into_iter().collect();
        }
        self.generics(&mut g, &mut fut);
        sig.generics = g;
        let mut subst = fut.clone();
        subst.extend(iter_params.clone());
        let mut body = block;
        let mut lost = Vec::new();
        let mut inter_mut = false;
        // inputs
        for inp in sig.inputs.iter_mut() {
            match inp {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if is_async && !world && r.reference.is_some() && r.mutability.is_none() {
                        *inp = parse_quote!(&mut self);
                    }
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    let tn = norm(&t.ty);
                    if tn.starts_with("Arc<Mutex<") {
                        if let Pat::Ident(p) = &mut *t.pat {
                            p.mutability = Some(Default::default());
                            inter_mut = true;
                        }
                    }
                    if let Pat::Wild(_) = &*t.pat {
                        *t.pat = parse_quote!(_unused);
                    }
                    // impl trait bounds
                    let mut v = ExprX::new(self, self_ident, None);
                    v.fut = subst.clone();
                    v.visit_type_mut(&mut t.ty);
                    if let (Some(a), Pat::Ident(p)) = (&a, &*t.pat) {
                        if let Some(nt) = a.params.get(&p.ident.to_string()) {
                            if let Ok(nt) = parse_str::<Type>(nt) {
                                *t.ty = nt;
                            }
                        }
                    }
                }
            }
        }
        let _ = inter_mut;
        if world {
            sig.inputs.push(parse_quote!(Tracked(wd__): Tracked<&mut World>));
        }
        // parameters shadowed by the body
        let mut renamed: Vec<Stmt> = vec![];
        if let Some(a) = &a {
            for inp in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = inp {
                    if let Pat::Ident(p) = &mut *t.pat {
                        if a.rename.contains(&p.ident.to_string()) {
                            let old = p.ident.clone();
                            let m = p.mutability.take();
                            p.ident = format_ident!("{}_arg", old);
                            let new = &p.ident;
                            renamed.push(parse_quote!(let #m #old = #new;));
                        }
                    }
                }
            }
        }
        // output
        let ret = a.as_ref().and_then(|a| a.ret.clone()).unwrap_or_else(|| "r".into());
        if let ReturnType::Type(_, t) = &mut sig.output {
            let mut v = ExprX::new(self, self_ident, None);
            v.fut = subst.clone();
            v.visit_type_mut(t);
            let is_unit = norm(t) == "()";
            if !is_unit {
                let rid = format_ident!("{}", ret);
                let tt = t.to_token_stream();
                **t = Type::Verbatim(quote!((#rid: #tt)));
            }
        }
        // renamings of trait methods
        if let Some(n) = match (tname, sig.ident.to_string().as_str()) {
            ("From", "from") => Some("vfrom"),
            ("TryFrom", "try_from") => Some("vtry_from"),
            ("AsRef", "as_ref") => Some("v_as_ref"),
            ("AsMut", "as_mut") => Some("v_as_mut"),
            ("Default", "default") => Some("vdefault"),
            ("FromIterator", "from_iter") => Some("v_from_iter"),
            ("IntoIterator", "into_iter") => Some("v_into_iter"),
            _ => None,
        } {
            sig.ident = Ident::new(n, Span::call_site());
        }
        if tname == "IntoIterator" {
            sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(quote!((r: It<Self::VItem>)))));
        }
        // body
        let mut external = self.external.contains(id);
        let mut attrs: Vec<TokenStream> = vec![];
        if let Some(b) = body.as_mut() {
            let mut pre = Pre { loops: 0, closures: 0, chains: 0, async_: world, alloc: a.as_ref().map_or(false, |a| a.alloc) };
            pre.visit_block_mut(b);
            rep.loops = pre.loops;
            rep.closures = pre.closures;
            rep.chains = pre.chains;
            if let Some(a) = &a {
                if let Some(e) = a.expect {
                    if e != (pre.loops, pre.closures, pre.chains) {
                        lost.push(format!("structure changed: expected loops/closures/chains {:?}, found {:?}", e, (pre.loops, pre.closures, pre.chains)));
                    }
                }
            }
            let mut ex = ExprX::new(self, self_ident, a.clone());
            ex.fut = subst.clone();
            ex.is_async = is_async;
            ex.floats = norm(b).contains("asf64");
            ex.visit_block_mut(b);
            rep.calls = ex.calls.iter().cloned().collect();
            let l2 = ex.lost.clone();
            lost.extend(l2);
            // anchored proof blocks
            if let Some(a) = &a {
                for (pos, text) in &a.at {
                    if !self.place(b, pos, text) {
                        lost.push(format!("anchor not found: {pos}"));
                    }
                }
            }
            if std::env::var("EXTRACT_VACUITY").is_ok() {
                let vac = self.raw_stmt(format!("proof {{ assert(false); /*VAC {id}*/ }}"));
                match b.stmts.pop() {
                    Some(Stmt::Expr(e, None)) => {
                        b.stmts.push(mk_let(&format_ident!("vac__"), false, e));
                        b.stmts.push(vac);
                        b.stmts.push(Stmt::Expr(parse_quote!(vac__), None));
                    }
                    Some(s) => {
                        b.stmts.push(s);
                        b.stmts.push(vac);
                    }
                    None => b.stmts.push(vac),
                }
            }
            for st in renamed {
                b.stmts.insert(0, st);
            }
            let st = self.raw_stmt("broadcast use all_axioms;");
            b.stmts.insert(0, st);
            if let Some(a) = &a {
                if let Some(s) = &a.spec {
                    if !external && lost.is_empty() {
                        let k = self.raw(s.clone());
                        b.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(__spec!(#k))), Some(Default::default())));
                    }
                }
            }
        }
        if !lost.is_empty() {
            external = true;
        }
        if external && body.is_some() {
            let mut nb: Block = parse_quote!({ unimplemented!() });
            if let Some(s) = a.as_ref().and_then(|a| a.spec.clone()) {
                let k = self.raw(s);
                nb.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(__spec!(#k))), Some(Default::default())));
            }
            body = Some(nb);
            attrs.push(quote!(#[verifier::external_body]));
        } else if let Some(a) = &a {
            for at in &a.attrs {
                if let Ok(t) = at.parse::<TokenStream>() {
                    attrs.push(t);
                }
            }
        }
        rep.annotated = a.is_some();
        rep.external = external;
        rep.lost = lost;
        rep.tags = a.as_ref().map(|a| a.tags.clone()).unwrap_or_default();
        self.report.push(rep);
        let k1 = self.raw(format!("//@FN {id}"));
        let k2 = self.raw("//@END");
        let body = body.map(|b| {
            let st = &b.stmts;
            let inner = quote!(#(#st)*);
            TokenTree::Group(Group::new(Delimiter::Brace, inner)).into()
        });
        (sig, body, quote!(__raw!(#k1)), quote!(__raw!(#k2)), attrs)
    }

    fn place(&mut self, b: &mut Block, pos: &str, text: &str) -> bool {
        let st = self.raw_stmt(text.to_string());
        if pos == "start" {
            b.stmts.insert(0, st);
            return true;
        }
        if pos == "end" {
            b.stmts.push(st);
            return true;
        }
        if pos == "tail" {
            if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                b.stmts.push(mk_let(&format_ident!("res__"), false, e));
                b.stmts.push(st);
                b.stmts.push(Stmt::Expr(parse_quote!(res__), None));
                return true;
            }
            return false;
        }
        let mut pl = Place { pos: pos.to_string(), st, done: false };
        pl.block(b);
        pl.done
    }
}

fn rename_trait(p: &mut Path) {
    let s = p.segments.last_mut().unwrap();
    let n = match s.ident.to_string().as_str() {
        "AsRef" => {
            s.arguments = PathArguments::None;
            "VAsRef"
        }
        "AsMut" => {
            s.arguments = PathArguments::None;
            "VAsMut"
        }
        "From" => "VFrom",
        "TryFrom" => "VTryFrom",
        "Default" => "VDefault",
        "Clone" => "VClone",
        "Eq" => "VEq",
        "FromIterator" => "VFromIter",
        "IntoIterator" => "VIntoIter",
        _ => return,
    };
    s.ident = Ident::new(n, s.ident.span());
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                r.insert(last(&m.path));
                Ok(())
            });
        }
    }
    r
}

fn reject(g: &Generics) -> Vec<TokenStream> {
    g.type_params().map(|p| { let i = &p.ident; quote!(#[verifier::reject_recursive_types(#i)]) }).collect()
}

/// Substitutes `$name` and drops `$crate ::`.
fn subst_dollar(ts: TokenStream, f: &dyn Fn(&str) -> Option<TokenStream>) -> TokenStream {
    let tts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < tts.len() {
        if let TokenTree::Punct(p) = &tts[i] {
            if p.as_char() == '$' {
                match tts.get(i + 1) {
                    Some(TokenTree::Ident(id)) if id == "crate" => {
                        out.extend(quote!(crate));
                        i += 2;
                        continue;
                    }
                    Some(TokenTree::Ident(id)) => {
                        if let Some(r) = f(&id.to_string()) {
                            out.extend(r);
                            i += 2;
                            continue;
                        }
                    }
                    _ => {}
                }
            }
        }
        if let TokenTree::Group(g) = &tts[i] {
            let inner = subst_dollar(g.stream(), f);
            out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), inner))));
        } else {
            out.extend(std::iter::once(tts[i].clone()));
        }
        i += 1;
    }
    out
}

/// Expands a `kmac!` invocation with the macro body found in the sources.
fn expand_kmac(body: &TokenStream, args: TokenStream) -> Option<Expr> {
    let args: Punctuated<Expr, Token![,]> = syn::parse::Parser::parse2(Punctuated::parse_terminated, args).ok()?;
    if args.len() < 3 {
        return None;
    }
    let tts: Vec<TokenTree> = body.clone().into_iter().collect();
    let g: Vec<&Group> = tts.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
    if g.len() != 2 || g[0].stream().to_string().replace(' ', "") != "$length:ident,$key:expr,$($bytes:expr),+" {
        return None;
    }
    // expand $( ... )*
    let rest: Vec<TokenStream> = args.iter().skip(2).map(|e| e.to_token_stream()).collect();
    fn rep(ts: TokenStream, rest: &[TokenStream]) -> TokenStream {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < tts.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&tts[i], tts.get(i + 1)) {
                if p.as_char() == '$' && g.delimiter() == Delimiter::Parenthesis {
                    for r in rest {
                        out.extend(subst_dollar(g.stream(), &|n| if n == "bytes" { Some(quote!((#r))) } else { None }));
                    }
                    i += 3;
                    continue;
                }
            }
            if let TokenTree::Group(g) = &tts[i] {
                out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), rep(g.stream(), rest)))));
            } else {
                out.extend(std::iter::once(tts[i].clone()));
            }
            i += 1;
        }
        out
    }
    let ts = rep(g[1].stream(), &rest);
    let (len, key) = (args[0].to_token_stream(), args[1].to_token_stream());
    let ts = subst_dollar(ts, &|n| match n {
        "length" => Some(len.clone()),
        "key" => Some(quote!((#key))),
        _ => None,
    });
    let blk: Block = parse2(quote!({ #ts })).ok()?;
    Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }))
}

// -------------------------------------------------------------------- pre-pass

const SOURCES: &[&str] = &["iter", "into_iter", "keys", "values"];
const ADAPT: &[&str] = &["iter", "into_iter", "keys", "values", "map", "filter", "filter_map", "flat_map", "flatten", "collect", "try_fold", "zip", "copied", "cloned", "any", "all", "sum", "rev", "enumerate", "fold", "count"];

/// Pre-pass: drops `.await`, capacity hints and logging, unfolds combinators on `Result`/`Option`
/// that take a closure, and numbers loops, closures and iterator chains.
struct Pre {
    loops: usize,
    closures: usize,
    chains: usize,
    async_: bool,
    /// memory requests are obligations
    alloc: bool,
}

fn mk_let(name: &Ident, mutable: bool, e: Expr) -> Stmt {
    let mut st: Stmt = if mutable { parse_quote!(let mut #name = x__;) } else { parse_quote!(let #name = x__;) };
    if let Stmt::Local(l) = &mut st {
        l.init.as_mut().unwrap().expr = Box::new(e);
    }
    st
}

fn tag(n: &str, k: usize) -> Attribute {
    let i = Ident::new(n, Span::call_site());
    let l = Index::from(k);
    parse_quote!(#[#i(#l)])
}
fn get_tag(attrs: &mut Vec<Attribute>, n: &str) -> Option<usize> {
    let p = attrs.iter().position(|a| a.path().is_ident(n))?;
    let a = attrs.remove(p);
    if let Meta::List(l) = a.meta {
        l.tokens.to_string().parse().ok()
    } else {
        None
    }
}

fn is_trace_macro(p: &Path) -> bool {
    matches!(last(p).as_str(), "trace" | "debug" | "info" | "warn" | "error" | "event" | "println" | "eprintln")
}

impl Pre {
    fn apply(f: &Expr, arg: &Ident) -> Expr {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = &c.inputs[0];
                let b = &c.body;
                parse_quote!({ let #p = #arg; #b })
            }
            _ => parse_quote!(#f(#arg)),
        }
    }
    fn is_chain(e: &Expr) -> bool {
        // an iterator source somewhere along the receiver spine
        let mut cur = e;
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    if SOURCES.contains(&m.method.to_string().as_str()) && m.args.is_empty() {
                        return true;
                    }
                    cur = &m.receiver;
                }
                Expr::Try(t) => cur = &t.expr,
                Expr::Await(t) => cur = &t.base,
                Expr::Paren(t) => cur = &t.expr,
                _ => return false,
            }
        }
    }
}

impl VisitMut for Pre {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !is_trace_macro(&m.mac.path),
            Stmt::Expr(Expr::Macro(m), _) => !is_trace_macro(&m.mac.path),
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // structural simplifications first
        loop {
            match e {
                Expr::Await(a) => {
                    let mut x = (*a.base).clone();
                    while let Expr::Paren(p) = x {
                        x = *p.expr;
                    }
                    if self.async_ {
                        // ghost argument: the log of storage requests
                        match &mut x {
                            Expr::MethodCall(m) => m.args.push(parse_quote!(Tracked(&mut *wd__))),
                            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() > 1 || p.qself.is_some()) => c.args.push(parse_quote!(Tracked(&mut *wd__))),
                            _ => {}
                        }
                    }
                    *e = x;
                    continue;
                }
                Expr::Paren(p) if matches!(&*p.expr, Expr::MethodCall(_) | Expr::Path(_)) => {
                    let x = (*p.expr).clone();
                    *e = x;
                    continue;
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let l = last(&p.path);
                        if (l == "min" || l == "max") && p.path.segments.len() > 1 && c.args.len() == 2 {
                            let (f, a, b) = (format_ident!("v_{}", l), &c.args[0], &c.args[1]);
                            *e = parse_quote!(#f(#a, #b));
                            continue;
                        }
                        if l == "with_capacity" {
                            let mut p = p.clone();
                            p.path.segments.last_mut().unwrap().ident = Ident::new("new", Span::call_site());
                            let n = c.args.first().cloned();
                            *e = if self.alloc { parse_quote!({ v_alloc(#n, Ghost(alloc__)); #p() }) } else { parse_quote!(#p()) };
                            continue;
                        }
                    }
                }
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    let r = &m.receiver;
                    let (ev, vv) = (format_ident!("e__"), format_ident!("v__"));
                    if (n == "min" || n == "max") && m.args.len() == 1 {
                        let (f, a) = (format_ident!("v_{}", n), &m.args[0]);
                        *e = parse_quote!(#f(#r, #a));
                        continue;
                    }
                    if n == "map_err" && m.args.len() == 1 {
                        let body = Self::apply(&m.args[0], &ev);
                        *e = parse_quote!(match #r { Ok(#vv) => Ok(#vv), Err(#ev) => Err(#body) });
                        continue;
                    }
                    if n == "ok_or_else" && m.args.len() == 1 {
                        if let Expr::Closure(c) = &m.args[0] {
                            let b = &c.body;
                            *e = parse_quote!(match #r { Some(#vv) => Ok(#vv), None => Err(#b) });
                            continue;
                        }
                    }
                    if n == "ok_or" && m.args.len() == 1 {
                        let b = &m.args[0];
                        *e = parse_quote!(match #r { Some(#vv) => Ok(#vv), None => Err(#b) });
                        continue;
                    }
                    if n == "unwrap_or_else" && m.args.len() == 1 {
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.is_empty() {
                                let b = &c.body;
                                *e = parse_quote!(match #r { Some(#vv) => #vv, None => #b });
                                continue;
                            }
                        }
                    }
                    if n == "map_or" && m.args.len() == 2 {
                        let b = Self::apply(&m.args[1], &vv);
                        let d = &m.args[0];
                        *e = parse_quote!(match #r { None => #d, Some(#vv) => #b });
                        continue;
                    }
                }
                _ => {}
            }
            break;
        }
        match e {
            Expr::Closure(c) => {
                c.attrs.retain(|a| !a.path().is_ident("allow"));
                c.attrs.push(tag("clo", self.closures));
                self.closures += 1;
                c.asyncness = None;
            }
            Expr::ForLoop(l) => {
                l.attrs.push(tag("lp", self.loops));
                self.loops += 1;
            }
            Expr::While(l) => {
                l.attrs.push(tag("lp", self.loops));
                self.loops += 1;
            }
            Expr::Loop(l) => {
                l.attrs.push(tag("lp", self.loops));
                self.loops += 1;
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ADAPT.contains(&n.as_str()) && !m.attrs.iter().any(|a| a.path().is_ident("inner")) && Self::is_chain(&Expr::MethodCall(m.clone())) && !(SOURCES.contains(&n.as_str()) && !Self::is_chain(&m.receiver)) {
                    m.attrs.push(tag("chain", self.chains));
                    self.chains += 1;
                }
                // mark the spine so that inner adapters are not roots
                mark_inner(&mut m.receiver);
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn mark_inner(e: &mut Expr) {
    match e {
        Expr::MethodCall(m) => {
            if !m.attrs.iter().any(|a| a.path().is_ident("inner")) {
                m.attrs.push(parse_quote!(#[inner]));
            }
        }
        Expr::Try(t) => mark_inner(&mut t.expr),
        Expr::Await(t) => mark_inner(&mut t.base),
        Expr::Paren(t) => mark_inner(&mut t.expr),
        _ => {}
    }
}

// -------------------------------------------------------------------- main expression rewriting

struct ExprX<'a> {
    x: &'a mut Xform,
    self_ident: String,
    ann: Option<Ann>,
    fut: HashMap<String, Type>,
    calls: BTreeSet<String>,
    lost: Vec<String>,
    is_async: bool,
    floats: bool,
}

impl<'a> ExprX<'a> {
    fn new(x: &'a mut Xform, self_ident: &str, ann: Option<Ann>) -> Self {
        ExprX { x, self_ident: self_ident.to_string(), ann, fut: HashMap::new(), calls: BTreeSet::new(), lost: vec![], is_async: false, floats: false }
    }

    fn resolve_assoc(&self, ty: &str, name: &str) -> Option<Type> {
        self.x.assoc.get(&(ty.to_string(), name.to_string())).cloned()
    }

    /// Resolves `Self::X::rest` and `<T as Trait>::X::rest` for the flattened traits and for
    /// implementations in which the associated type is known.
    fn resolve(&self, q: Option<&QSelf>, p: &Path) -> Option<(Type, Vec<PathSegment>)> {
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if let Some(q) = q {
            if q.position == 0 {
                return None;
            }
            let tr = segs.get(q.position - 1)?.ident.to_string();
            if !FLAT.contains(&tr.as_str()) {
                return None;
            }
            let mut tn = type_ident(&q.ty);
            if tn == "Self" {
                tn = self.self_ident.clone();
            }
            let name = segs.get(q.position)?.ident.to_string();
            let t = self.resolve_assoc(&tn, &name)?;
            return Some((self.fix(t, &tn), segs[q.position + 1..].to_vec()));
        }
        if segs.len() >= 2 && segs[0].ident == "Self" && !self.self_ident.is_empty() {
            let name = segs[1].ident.to_string();
            let t = self.resolve_assoc(&self.self_ident, &name)?;
            return Some((self.fix(t, &self.self_ident.clone()), segs[2..].to_vec()));
        }
        None
    }
    fn fix(&self, t: Type, ctx: &str) -> Type {
        if let Type::Path(p) = &t {
            let me = ExprXRef { depth: 0, assoc: &self.x.assoc, self_ident: ctx.to_string() };
            if let Some((t2, rest)) = me.resolve(p.qself.as_ref(), &p.path) {
                if rest.is_empty() {
                    return t2;
                }
            }
        }
        t
    }

    fn closure(&mut self, c: &mut ExprClosure) -> Expr {
        let k = get_tag(&mut c.attrs, "clo");
        let sig = k.and_then(|k| self.ann.as_ref().and_then(|a| a.closures.get(&k).cloned()));
        let mut names: Vec<String> = vec![];
        if let Some((s, _)) = &sig {
            names = param_names(s);
            if names.len() != c.inputs.len() {
                self.lost.push(format!("closure {k:?}: arity"));
            }
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut inputs: Vec<TokenStream> = vec![];
        for (j, p) in c.inputs.iter().enumerate() {
            let (pat, ty) = match p {
                Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                o => (o.clone(), None),
            };
            let simple = matches!(&pat, Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none());
            let name = names.get(j).cloned().unwrap_or_else(|| if simple { norm(&pat) } else { format!("p{}_{j}", k.unwrap_or(99)) });
            let id = format_ident!("{}", name);
            if !(simple && norm(&pat) == name) && !matches!(&pat, Pat::Wild(_)) {
                lets.push(parse_quote!(let #pat = #id;));
            }
            inputs.push(match ty {
                Some(t) => quote!(#id: #t),
                None => quote!(#id),
            });
        }
        let body = (*c.body).clone();
        let inner: Block = match body {
            Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => {
                let mut blk = b.block;
                for l in lets.iter().rev() {
                    blk.stmts.insert(0, l.clone());
                }
                blk
            }
            e => {
                let mut st = lets.clone();
                st.push(Stmt::Expr(e, None));
                Block { brace_token: Default::default(), stmts: st }
            }
        };
        let mv = &c.capture;
        if let Some((s, b)) = sig {
            let kk = self.x.raw(format!("{s}\n{b}"));
            Expr::Verbatim(quote!(#mv __raw!(#kk) #inner))
        } else {
            // Automatic contract for trivially pure bodies.
            let pure_ = match inner.stmts.last() {
                Some(Stmt::Expr(e, None)) if inner.stmts.len() == lets.len() + 1 && is_pure(e) => Some(e.clone()),
                _ => None,
            };
            if let Some(e) = pure_ {
                let k2 = self.x.raw("ensures");
                Expr::Verbatim(quote!(#mv |#(#inputs),*| -> (r__: _) __raw!(#k2) same(r__, { #(#lets)* #e }) #inner))
            } else {
                Expr::Verbatim(quote!(#mv |#(#inputs),*| #inner))
            }
        }
    }
}

struct ExprXRef<'a> {
    depth: usize,
    assoc: &'a HashMap<(String, String), Type>,
    self_ident: String,
}
impl<'a> ExprXRef<'a> {
    fn resolve(&self, q: Option<&QSelf>, p: &Path) -> Option<(Type, Vec<PathSegment>)> {
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if let Some(q) = q {
            if q.position == 0 {
                return None;
            }
            let mut tn = type_ident(&q.ty);
            if tn == "Self" {
                tn = self.self_ident.clone();
            }
            let name = segs.get(q.position)?.ident.to_string();
            let t = self.assoc.get(&(tn.clone(), name))?.clone();
            if self.depth > 8 { return None; }
            let me = ExprXRef { depth: self.depth + 1, assoc: self.assoc, self_ident: tn };
            if let Type::Path(pp) = &t {
                if let Some((t2, r)) = me.resolve(pp.qself.as_ref(), &pp.path) {
                    if r.is_empty() {
                        return Some((t2, segs[q.position + 1..].to_vec()));
                    }
                }
            }
            return Some((t, segs[q.position + 1..].to_vec()));
        }
        if segs.len() >= 2 && segs[0].ident == "Self" {
            let t = self.assoc.get(&(self.self_ident.clone(), segs[1].ident.to_string()))?.clone();
            return Some((t, segs[2..].to_vec()));
        }
        None
    }
}

fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(is_pure),
        Expr::Field(f) => is_pure(&f.base),
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_pure(&u.expr),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                last(&p.path).chars().next().map_or(false, |ch| ch.is_uppercase()) && c.args.iter().all(is_pure)
            } else {
                false
            }
        }
        _ => false,
    }
}

fn param_names(sig: &str) -> Vec<String> {
    let s = sig.trim();
    let s = s.strip_prefix('|').unwrap_or(s);
    let mut depth = 0i32;
    let mut end = s.len();
    for (i, ch) in s.char_indices() {
        match ch {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            '|' if depth == 0 => {
                end = i;
                break;
            }
            _ => {}
        }
    }
    let inner = &s[..end];
    let mut names = vec![];
    let mut depth = 0i32;
    let mut cur = String::new();
    for ch in inner.chars() {
        match ch {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            _ => {}
        }
        if ch == ',' && depth == 0 {
            names.push(std::mem::take(&mut cur));
        } else {
            cur.push(ch);
        }
    }
    if !cur.trim().is_empty() {
        names.push(cur);
    }
    names.iter().map(|n| n.split(':').next().unwrap().trim().to_string()).collect()
}

fn strip_q(q: &mut Option<QSelf>, p: &mut Path) {
    if let Some(q) = q {
        let n0 = p.segments.len();
        strip_prefix(p);
        q.position = q.position.saturating_sub(n0 - p.segments.len());
    }
}

fn strip_prefix(p: &mut Path) {
    // crate::a::b::Type::f -> Type::f ; std::collections::HashMap -> HashMap ; a::b::func -> func
    let n = p.segments.len();
    if n < 2 {
        return;
    }
    p.leading_colon = None;
    let first = p.segments[0].ident.to_string();
    if first == "Self" || first == "self" && n == 1 || is_prim(&first) {
        return;
    }
    let mut k = 0;
    for (i, s) in p.segments.iter().enumerate() {
        let id = s.ident.to_string();
        if id.chars().next().map_or(false, |c| c.is_uppercase()) || is_prim(&id) || i == n - 1 {
            k = i;
            break;
        }
    }
    if k > 0 {
        p.segments = p.segments.iter().skip(k).cloned().collect();
    }
}

impl<'a> VisitMut for ExprX<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}

    fn visit_type_mut(&mut self, t: &mut Type) {
        // future parameters
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(id) = p.path.get_ident() {
                    if let Some(r) = self.fut.get(&id.to_string()).cloned() {
                        *t = r;
                        self.visit_type_mut(t);
                        return;
                    }
                }
            }
            if let Some((r, rest)) = self.resolve(p.qself.as_ref(), &p.path) {
                if rest.is_empty() {
                    if norm(&r) == norm(t) {
                        return;
                    }
                    *t = r;
                    self.visit_type_mut(t);
                    return;
                }
            }
            // Arc<Mutex<X>> -> Shared<X>
            if last(&p.path) == "Arc" {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    if let Some(GenericArgument::Type(Type::Path(m))) = a.args.first() {
                        if last(&m.path) == "Mutex" {
                            if let PathArguments::AngleBracketed(b) = &m.path.segments.last().unwrap().arguments {
                                let inner = b.args.first().cloned().unwrap();
                                *t = parse_quote!(Shared<#inner>);
                                visit_mut::visit_type_mut(self, t);
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Type::ImplTrait(it) = t {
            let mut b = it.bounds.clone();
            self.x.bounds(&mut b, &HashMap::new());
            it.bounds = b;
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        strip_q(&mut e.qself, &mut e.path);
        visit_mut::visit_expr_path_mut(self, e);
    }

    fn visit_type_path_mut(&mut self, e: &mut TypePath) {
        strip_q(&mut e.qself, &mut e.path);
        visit_mut::visit_type_path_mut(self, e);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_prefix(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_return_type_mut(&mut self, r: &mut ReturnType) {
        if let ReturnType::Type(_, t) = r {
            if !matches!(**t, Type::Verbatim(_)) {
                self.visit_type_mut(t);
            }
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::TupleStruct(ts) = p {
            self.fix_enum_path(&mut ts.path);
        }
        if let Pat::Struct(ts) = p {
            self.fix_enum_path(&mut ts.path);
        }
        if let Pat::Path(ts) = p {
            self.fix_enum_path(&mut ts.path);
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                if matches!(&l.pat, Pat::Ident(p) if p.mutability.is_some()) {
                    if let Some(i) = &mut l.init {
                        if let Some(rc) = lock_recv(&i.expr) {
                            if !norm(&rc).ends_with("rng") {
                                i.expr = parse_quote!(#rc.v_lock_mut());
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
        // statement-level loops produce several statements
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Expr(Expr::Block(bl), semi) if bl.attrs.iter().any(|a| a.path().is_ident("splice")) => {
                    let _ = semi;
                    out.extend(bl.block.stmts);
                }
                Stmt::Macro(m) => {
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, if m.semi_token.is_some() { Some(Default::default()) } else { None }));
                }
                o => out.push(o),
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order special cases
        match e {
            Expr::Macro(m) => {
                let n = last(&m.mac.path);
                match n.as_str() {
                    "kmac" => {
                        if let Some(body) = self.x.kmac.clone() {
                            if let Some(x) = expand_kmac(&body, m.mac.tokens.clone()) {
                                *e = x;
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                        self.lost.push("kmac! macro not understood".into());
                    }
                    "kdf256" => {
                        if let Ok(args) = syn::parse::Parser::parse2(Punctuated::<Expr, Token![,]>::parse_terminated, m.mac.tokens.clone()) {
                            let mut a: Vec<Expr> = args.into_iter().collect();
                            for x in a.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            let f = format_ident!("kdf256_{}", a.len() - 1);
                            *e = parse_quote!(#f(#(#a),*));
                            return;
                        }
                    }
                    "format" => {
                        *e = parse_quote!(vfmt());
                        return;
                    }
                    "vec" | "matches" => {
                        return;
                    }
                    _ => return,
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v = b.value();
                if v.is_empty() {
                    *e = parse_quote!(&empty_bytes());
                } else {
                    *e = parse_quote!(&[#(#v),*]);
                }
                return;
            }
            Expr::Path(p) if p.qself.is_none() && p.path.get_ident().map_or(false, |i| self.x.bytes_consts.contains_key(&i.to_string())) => {
                let pp = p.clone();
                *e = parse_quote!((&#pp));
                return;
            }
            Expr::Assign(a) => {
                // *X.lock().expect(..) = v
                if let Expr::Unary(u) = &*a.left {
                    if matches!(u.op, UnOp::Deref(_)) {
                        if let Some(r) = lock_recv(&u.expr) {
                            a.left = Box::new(parse_quote!(*#r.v_lock_mut()));
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                // &mut *X.lock().expect(..)  or &mut X.lock().expect(..)
                let inner = match &*r.expr {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => lock_recv(&u.expr),
                    o => lock_recv(o),
                };
                if let Some(rc) = inner {
                    
                    let is_rng = norm(&rc).ends_with("rng");
                    *e = if is_rng && self.is_async { parse_quote!(#rc.v_lock_w(Tracked(&mut *wd__))) } else if is_rng { parse_quote!(#rc.v_lock_any()) } else { parse_quote!(#rc.v_lock_mut()) };
                    return;
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                // &*X.lock().expect(..)
                if let Expr::Unary(u) = &*r.expr {
                    if matches!(u.op, UnOp::Deref(_)) {
                        if let Some(rc) = lock_recv(&u.expr) {
                            
                            *e = parse_quote!(#rc.v_lock());
                            return;
                        }
                    }
                }
            }
            Expr::MethodCall(_) => {
                if let Some(rc) = lock_recv(e) {
                    
                    let is_rng = norm(&rc).ends_with("rng");
                    *e = if is_rng && self.is_async { parse_quote!(#rc.v_lock_w(Tracked(&mut *wd__))) } else if is_rng { parse_quote!(#rc.v_lock_any()) } else { parse_quote!(#rc.v_lock()) };
                    return;
                }
            }
            _ => {}
        }
        // ---- iterator chains: name every intermediate iterator
        if let Expr::MethodCall(m) = e {
            if let Some(k) = get_tag(&mut m.attrs, "chain") {
                let new = self.chain(e.clone(), k);
                *e = new;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
}

fn lock_recv(e: &Expr) -> Option<Expr> {
    let r = lock_recv_(e)?;
    // `self.lock()` goes through the `Deref` of a one-field tuple struct: `self.0.lock()`.
    Some(if norm(r) == "self" { parse_quote!(self.0) } else { r.clone() })
}

fn lock_recv_(e: &Expr) -> Option<&Expr> {
    // X.lock().expect(..) | X.lock().unwrap()
    if let Expr::MethodCall(m) = e {
        if m.method == "expect" || m.method == "unwrap" {
            if let Expr::MethodCall(l) = &*m.receiver {
                if l.method == "lock" {
                    return Some(&l.receiver);
                }
            }
        }
    }
    None
}

impl<'a> ExprX<'a> {
    fn fix_enum_path(&mut self, p: &mut Path) {
        if let Some((Type::Path(t), rest)) = self.resolve(None, p) {
            let mut np = t.path.clone();
            strip_prefix(&mut np);
            for s in np.segments.iter_mut() {
                s.arguments = PathArguments::None;
            }
            for r in rest {
                np.segments.push(r);
            }
            *p = np;
        }
    }

    fn chain(&mut self, e: Expr, k: usize) -> Expr {
        // Collect the spine.
        enum Op {
            M(ExprMethodCall),
            Try,
        }
        let mut ops = vec![];
        let mut cur = e;
        loop {
            match cur {
                Expr::MethodCall(mut m) => {
                    m.attrs.clear();
                    let r = (*m.receiver).clone();
                    ops.push(Op::M(m));
                    cur = r;
                }
                Expr::Try(t) => {
                    ops.push(Op::Try);
                    cur = *t.expr;
                }
                Expr::Await(t) => cur = *t.base,
                Expr::Paren(t) if matches!(&*t.expr, Expr::MethodCall(_) | Expr::Try(_)) => cur = *t.expr,
                o => {
                    cur = o;
                    break;
                }
            }
        }
        ops.reverse();
        // base expression: everything before the first iterator source
        let mut base = cur;
        let mut i = 0;
        while i < ops.len() {
            match &ops[i] {
                Op::M(m) => {
                    if SOURCES.contains(&m.method.to_string().as_str()) && m.args.is_empty() {
                        break;
                    }
                    let mut m = m.clone();
                    m.receiver = Box::new(base);
                    base = Expr::MethodCall(m);
                }
                Op::Try => {
                    base = Expr::Try(ExprTry { attrs: vec![], expr: Box::new(base), question_token: Default::default() });
                }
            }
            i += 1;
        }
        let mut stmts: Vec<Stmt> = vec![];
        // first source applied to the base directly (keeps temporaries alive in one statement)
        let Op::M(m0) = &ops[i] else { unreachable!() };
        let mut first = m0.clone();
        first.receiver = Box::new(base);
        let mut fe = Expr::MethodCall(first);
        self.visit_expr_mut(&mut fe);
        let mut name = format_ident!("c{}_0", k);
        stmts.push(mk_let(&name, false, fe));
        let mut j = 1usize;
        for op in &ops[i + 1..] {
            let mut ne = match op {
                Op::M(m) => {
                    let mut m = m.clone();
                    m.receiver = Box::new(parse_quote!(#name));
                    Expr::MethodCall(m)
                }
                Op::Try => Expr::Try(ExprTry { attrs: vec![], expr: Box::new(parse_quote!(#name)), question_token: Default::default() }),
            };
            self.visit_expr_mut(&mut ne);
            let nn = format_ident!("c{}_{}", k, j);
            stmts.push(mk_let(&nn, false, ne));
            name = nn;
            j += 1;
        }
        // annotated proof
        if let Some(a) = self.ann.clone() {
            for (pos, text) in &a.at {
                if *pos == format!("chain {k}") {
                    let st = self.x.raw_stmt(text.clone());
                    stmts.push(st);
                }
            }
        }
        stmts.push(Stmt::Expr(parse_quote!(#name), None));
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
    }

    fn loop_spec(&mut self, k: Option<usize>, b: &mut Block) {
        let bu = self.x.raw_stmt("broadcast use all_axioms;");
        b.stmts.insert(0, bu);
        let Some(k) = k else { return };
        let Some(a) = self.ann.clone() else { return };
        for (pos, text) in &a.at {
            if *pos == format!("loop {k} end") {
                let st = self.x.raw_stmt(text.clone());
                b.stmts.push(st);
            }
            if *pos == format!("loop {k} start") {
                let st = self.x.raw_stmt(text.clone());
                b.stmts.insert(1, st);
            }
        }
    }

    fn post(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(c) => {
                let mut c2 = c.clone();
                *e = self.closure(&mut c2);
            }
            Expr::Try(t) => {
                let x = t.expr.clone();
                let mut m: ExprMatch = parse_quote!(match x__ { Ok(v__) => v__, Err(e__) => { return Err(VFrom::vfrom(e__)); } });
                m.expr = x;
                *e = Expr::Match(m);
            }
            Expr::Paren(_) => {}
            Expr::Cast(c) => {
                if norm(&c.ty) == "f64" {
                    let x = &c.expr;
                    *e = parse_quote!(v_to_f64(#x));
                } else if self.floats {
                    let x = &c.expr;
                    *e = parse_quote!(v_from_f64(#x));
                }
            }
            Expr::Binary(b) => {
                if self.floats {
                    let (l, r) = (&b.left, &b.right);
                    let q: Option<Expr> = match b.op {
                        BinOp::Add(_) => Some(parse_quote!((#l).v_add(#r))),
                        BinOp::Mul(_) => Some(parse_quote!((#l).v_mul(#r))),
                        BinOp::Sub(_) => Some(parse_quote!((#l).v_sub(#r))),
                        BinOp::Div(_) => Some(parse_quote!((#l).v_div(#r))),
                        _ => None,
                    };
                    if let Some(q) = q {
                        *e = q;
                        return;
                    }
                }
                let neg = match b.op {
                    BinOp::Eq(_) => false,
                    BinOp::Ne(_) => true,
                    _ => return,
                };
                if is_int(&b.left) || is_int(&b.right) {
                    return;
                }
                let (l, r) = (&b.left, &b.right);
                *e = Expr::Verbatim(if neg { quote!(!veq(&(#l), &(#r))) } else { quote!(veq(&(#l), &(#r))) });
            }
            Expr::MethodCall(m) => {
                m.attrs.retain(|a| !a.path().is_ident("inner"));
                let n = m.method.to_string();
                self.calls.insert(n.clone());
                let r = m.receiver.clone();
                // entry API
                if n == "or_default" || n == "or_insert_with" || n == "or_insert" {
                    if let Expr::MethodCall(en) = &*r {
                        if en.method == "entry" {
                            let (rr, k) = (&en.receiver, &en.args[0]);
                            let args = &m.args;
                            *e = match n.as_str() {
                                "or_default" => Expr::Verbatim(quote!(#rr.v_entry_or_default(#k))),
                                "or_insert_with" => Expr::Verbatim(quote!(#rr.v_entry_or_insert_with(#k, #args))),
                                _ => Expr::Verbatim(quote!(#rr.v_entry_or_insert(#k, #args))),
                            };
                            return;
                        }
                    }
                }
                let nn = match (n.as_str(), m.args.len()) {
                    ("iter", 0) => "v_iter",
                    ("into_iter", 0) => "v_into_iter",
                    ("clone", 0) => "vclone",
                    ("as_ref", 0) => "v_as_ref",
                    ("as_mut", 0) => "v_as_mut",
                    ("extend", 1) => "v_extend",
                    ("to_vec", 0) => "v_to_vec",
                    ("to_string", 0) => "v_to_string",
                    ("copied", 0) => "v_copied",
                    ("cloned", 0) => "v_cloned",
                    ("unwrap_or_default", 0) => "v_unwrap_or_default",
                    ("last", 0) => "v_last",
                    ("is_empty", 0) => "v_is_empty",
                    ("map", 1) => "v_map",
                    ("mul_add", 2) => "v_mul_add",
                    ("log2", 0) => "v_log2",
                    ("into", 0) => {
                        let mut c: ExprCall = parse_quote!(VFrom::vfrom());
                        c.args.push(*r);
                        *e = Expr::Call(c);
                        return;
                    }
                    ("expect", 1) => "v_expect",
                    ("unwrap", 0) => "v_unwrap",
                    _ => "",
                };
                if !nn.is_empty() {
                    m.method = Ident::new(nn, Span::call_site());
                    if nn == "v_expect" {
                        m.args.clear();
                    }
                }
                // function values passed to adapters become closures
                if matches!(n.as_str(), "map" | "filter_map" | "filter" | "flat_map" | "and_then") && m.args.len() == 1 {
                    if let Expr::Path(p) = &m.args[0] {
                        let p = p.clone();
                        let l = last(&p.path);
                        let up = l.chars().next().map_or(false, |c| c.is_uppercase());
                        let f: Expr = if l == "vfrom" { parse_quote!(VFrom::vfrom) } else { parse_quote!(#p) };
                        if n == "map" && l == "vfrom" && p.qself.is_none() && p.path.segments[0].ident == "VFrom" {
                            m.method = Ident::new("v_map_into", Span::call_site());
                            m.args.clear();
                        } else if up {
                            let k2 = self.x.raw("ensures");
                            m.args[0] = Expr::Verbatim(quote!(|x__| -> (r__: _) __raw!(#k2) same(r__, #f(x__)) { #f(x__) }));
                        } else if l == "vfrom" {
                            m.args[0] = Expr::Verbatim(quote!(|x__| -> (r__: _) ensures VFrom::vfrom_spec(x__, r__) { #f(x__) }));
                        } else {
                            m.args[0] = Expr::Verbatim(quote!(#p));
                        }
                    }
                }
            }
            Expr::Call(c) => {
                // Arc::new(Mutex::new(x)) -> Shared::new(x)
                if norm(&c.func) == "Arc::new" && c.args.len() == 1 {
                    if let Some(Expr::Call(i)) = c.args.first() {
                        if norm(&i.func) == "Mutex::new" && i.args.len() == 1 {
                            let a = i.args[0].clone();
                            let mut n: ExprCall = parse_quote!(Shared::new());
                            n.args.push(a);
                            *e = Expr::Call(n);
                            return;
                        }
                    }
                }
                if let Expr::Path(p) = &mut *c.func {
                    let l = last(&p.path);
                    self.calls.insert(l);
                }
            }
            Expr::Path(p) => {
                // associated types of flattened traits
                if let Some((t, rest)) = self.resolve(p.qself.as_ref(), &p.path) {
                    let mut t = t;
                    self.visit_type_mut(&mut t);
                    if rest.is_empty() {
                        if let Type::Path(tp) = &t {
                            let mut np = tp.path.clone();
                            for s in np.segments.iter_mut() {
                                s.arguments = PathArguments::None;
                            }
                            p.qself = None;
                            p.path = np;
                        }
                    } else {
                        let up = rest.last().unwrap().ident.to_string().chars().next().unwrap().is_uppercase();
                        let tid = type_ident(&t);
                        if up || tid == "Error" || tid == "CoreError" {
                            if let Type::Path(tp) = &t {
                                let mut np = tp.path.clone();
                                for s in np.segments.iter_mut() {
                                    if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                                        a.colon2_token = Some(Default::default());
                                    }
                                }
                                for r in rest {
                                    np.segments.push(r);
                                }
                                p.qself = None;
                                p.path = np;
                            }
                        } else {
                            let np: Path = Path { leading_colon: None, segments: rest.into_iter().collect() };
                            *e = Expr::Path(ExprPath {
                                attrs: vec![],
                                qself: Some(QSelf { lt_token: Default::default(), ty: Box::new(t), position: 0, as_token: None, gt_token: Default::default() }),
                                path: Path { leading_colon: Some(Default::default()), segments: np.segments },
                            });
                        }
                    }
                }
                if let Expr::Path(p) = e {
                    let multi = p.path.segments.len() >= 2 || p.qself.is_some();
                    if multi {
                        let s = p.path.segments.last_mut().unwrap();
                        let nn = match s.ident.to_string().as_str() {
                            "from" => "vfrom",
                            "into" => "vfrom",
                            "try_from" => "vtry_from",
                            "default" => "vdefault",
                            "from_iter" => "v_from_iter",
                            _ => "",
                        };
                        if !nn.is_empty() {
                            s.ident = Ident::new(nn, Span::call_site());
                            if p.qself.is_none() && p.path.segments.len() == 2 && matches!(p.path.segments[0].ident.to_string().as_str(), "Into" | "From" | "Default") {
                                let t = if nn == "vdefault" { "VDefault" } else { "VFrom" };
                                p.path.segments[0].ident = Ident::new(t, Span::call_site());
                            }
                        }
                    }
                }
            }
            Expr::Struct(s) => {
                if let Some((mut t, rest)) = self.resolve(s.qself.as_ref(), &s.path) {
                    if rest.is_empty() {
                        self.visit_type_mut(&mut t);
                        if let Type::Path(tp) = t {
                            let mut np = tp.path.clone();
                            for sg in np.segments.iter_mut() {
                                if let PathArguments::AngleBracketed(a) = &mut sg.arguments {
                                    a.colon2_token = Some(Default::default());
                                }
                            }
                            s.qself = None;
                            s.path = np;
                        }
                    }
                }
            }
            Expr::ForLoop(l) => {
                let k = get_tag(&mut l.attrs, "lp");
                let spec = k.and_then(|k| self.ann.as_ref().and_then(|a| a.loops.get(&k).cloned()));
                let mut body = l.body.clone();
                let has_break = {
                    // a break out of this very loop (or a labelled one, whatever it leaves)
                    struct B(bool, usize);
                    impl<'ast> syn::visit::Visit<'ast> for B {
                        fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
                            self.0 |= self.1 == 0 || b.label.is_some();
                        }
                        fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
                            self.1 += 1;
                            syn::visit::visit_expr_loop(self, l);
                            self.1 -= 1;
                        }
                        fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
                            self.1 += 1;
                            syn::visit::visit_expr_while(self, l);
                            self.1 -= 1;
                        }
                        fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
                            self.1 += 1;
                            syn::visit::visit_expr_for_loop(self, l);
                            self.1 -= 1;
                        }
                    }
                    let mut b = B(false, 0);
                    syn::visit::Visit::visit_block(&mut b, &l.body);
                    b.0
                };
                self.loop_spec(k, &mut body);
                let kk = k.unwrap_or(99);
                if matches!(&*l.expr, Expr::Range(_)) || matches!(&*l.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_))) {
                    if let Pat::Wild(_) = &*l.pat {
                        let id = format_ident!("i{}", kk);
                        l.pat = Box::new(parse_quote!(#id));
                    }
                    if let Some(s) = spec {
                        let r = self.x.raw(s);
                        body.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(__spec!(#r))), Some(Default::default())));
                    }
                    l.body = body;
                    // before / after
                    let (bf, af) = self.around(k);
                    if bf.is_some() || af.is_some() {
                        let l2 = Expr::ForLoop(l.clone());
                        let mut st: Vec<Stmt> = vec![];
                        st.extend(bf);
                        st.push(Stmt::Expr(l2, None));
                        st.extend(af);
                        *e = Expr::Block(ExprBlock { attrs: vec![parse_quote!(#[splice])], label: None, block: Block { brace_token: Default::default(), stmts: st } });
                    }
                    return;
                }
                let itn = format_ident!("lp{}", kk);
                let xn = format_ident!("x{}", kk);
                let mut lp: ExprLoop = parse_quote!(loop {
                    match #itn.v_next() {
                        None => { break; }
                        Some(#xn) => { let p__ = #xn; }
                    }
                });
                if let Some(Stmt::Expr(Expr::Match(m), _)) = lp.body.stmts.first_mut() {
                    if let Expr::Block(bb) = &mut *m.arms[1].body {
                        if let Stmt::Local(lo) = &mut bb.block.stmts[0] {
                            lo.pat = (*l.pat).clone();
                        }
                        bb.block.stmts.extend(body.stmts.clone());
                    }
                }
                lp.label = l.label.clone();
                {
                    let s = spec.unwrap_or_default();
                    let s = s.trim_start();
                    let s = s.strip_prefix("invariant\n").or_else(|| s.strip_prefix("invariant ")).unwrap_or(s);
                    let mut full = format!("        invariant lp{kk}.all() == all{kk}, 0 <= lp{kk}.pos() <= all{kk}.len(),\n{s}");
                    if !has_break && !s.contains("ensures") {
                        if !full.trim_end().ends_with(',') {
                            full.push_str(",\n");
                        }
                        full.push_str(&format!("        ensures lp{kk}.pos() == all{kk}.len(),\n"));
                    }
                    if !s.contains("decreases") {
                        full.push_str(&format!("        decreases all{kk}.len() - lp{kk}.pos()\n"));
                    }
                    let r = self.x.raw(full);
                    lp.body.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(__spec!(#r))), Some(Default::default())));
                }
                let (bf, af) = self.around(k);
                let mut it: ExprMethodCall = parse_quote!((x__).v_into_iter());
                it.receiver = Box::new(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: l.expr.clone() }));
                let gh = self.x.raw(format!("    let ghost all{kk} = lp{kk}.all();\n"));
                let mut st: Vec<Stmt> = vec![mk_let(&itn, true, Expr::MethodCall(it)), Stmt::Expr(Expr::Verbatim(quote!(__raw!(#gh))), Some(Default::default()))];
                st.extend(bf);
                st.push(Stmt::Expr(Expr::Loop(lp), None));
                st.extend(af);
                *e = Expr::Block(ExprBlock { attrs: vec![parse_quote!(#[splice])], label: None, block: Block { brace_token: Default::default(), stmts: st } });
            }
            Expr::While(l) => {
                let k = get_tag(&mut l.attrs, "lp");
                let spec = k.and_then(|k| self.ann.as_ref().and_then(|a| a.loops.get(&k).cloned()));
                self.loop_spec(k, &mut l.body);
                if let Some(s) = spec {
                    let r = self.x.raw(s);
                    l.body.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(__spec!(#r))), Some(Default::default())));
                }
                let (bf, af) = self.around(k);
                if bf.is_some() || af.is_some() {
                    let l2 = Expr::While(l.clone());
                    let mut st: Vec<Stmt> = vec![];
                    st.extend(bf);
                    st.push(Stmt::Expr(l2, None));
                    st.extend(af);
                    *e = Expr::Block(ExprBlock { attrs: vec![parse_quote!(#[splice])], label: None, block: Block { brace_token: Default::default(), stmts: st } });
                }
            }
            Expr::Loop(l) => {
                let k = get_tag(&mut l.attrs, "lp");
                let spec = k.and_then(|k| self.ann.as_ref().and_then(|a| a.loops.get(&k).cloned()));
                self.loop_spec(k, &mut l.body);
                if let Some(s) = spec {
                    let r = self.x.raw(s);
                    l.body.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(__spec!(#r))), Some(Default::default())));
                }
            }
            _ => {}
        }
    }

    fn around(&mut self, k: Option<usize>) -> (Option<Stmt>, Option<Stmt>) {
        let (mut b, mut a_) = (None, None);
        if let (Some(k), Some(a)) = (k, self.ann.clone()) {
            for (pos, text) in &a.at {
                if *pos == format!("loop {k} before") {
                    b = Some(self.x.raw_stmt(text.clone()));
                }
                if *pos == format!("loop {k} after") {
                    a_ = Some(self.x.raw_stmt(text.clone()));
                }
            }
        }
        (b, a_)
    }
}

fn is_int(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Bool(_) | Lit::Byte(_)),
        Expr::MethodCall(m) => m.method == "len",
        Expr::Path(p) => {
            let l = last(&p.path);
            l.len() > 1 && l.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
        }
        Expr::Paren(p) => is_int(&p.expr),
        Expr::Binary(b) => is_int(&b.left) || is_int(&b.right),
        Expr::Cast(_) => true,
        _ => false,
    }
}

// -------------------------------------------------------------------- anchored placement

struct Place {
    pos: String,
    st: Stmt,
    done: bool,
}
impl Place {
    fn block(&mut self, b: &mut Block) {
        // already handled positions
        if self.pos.starts_with("loop ") || self.pos.starts_with("chain ") {
            self.done = true;
            return;
        }
        let (before, pat) = if let Some(r) = self.pos.strip_prefix("before ") {
            (true, r)
        } else if let Some(r) = self.pos.strip_prefix("after ") {
            (false, r)
        } else {
            return;
        };
        let (pat, nth) = match pat.rsplit_once(" #") {
            Some((p, n)) if n.trim().parse::<usize>().is_ok() => (p, n.trim().parse::<usize>().unwrap()),
            _ => (pat, 1),
        };
        let pat: String = pat.trim().trim_matches('`').replace(' ', "");
        let mut v = PlaceV { before, pat, nth, st: self.st.clone(), done: false };
        v.visit_block_mut(b);
        self.done = v.done;
    }
}
struct PlaceV {
    before: bool,
    pat: String,
    nth: usize,
    st: Stmt,
    done: bool,
}
impl VisitMut for PlaceV {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.done {
            return;
        }
        let mut i = 0;
        while i < b.stmts.len() {
            if norm(&b.stmts[i]).contains(&self.pat) {
                let before = self.nth;
                visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                if self.done {
                    return;
                }
                if before == self.nth && !inner_contains(&b.stmts[i], &self.pat) {
                    // innermost
                    self.nth -= 1;
                    if self.nth == 0 {
                        let at = if self.before { i } else { i + 1 };
                        b.stmts.insert(at, self.st.clone());
                        self.done = true;
                        return;
                    }
                }
            }
            i += 1;
        }
    }
}
fn inner_contains(s: &Stmt, pat: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            for s in &b.stmts {
                if norm(s).contains(self.0) {
                    self.1 = true;
                }
            }
        }
    }
    let mut v = V(pat, false);
    let mut s = s.clone();
    visit_mut::visit_stmt_mut(&mut v, &mut s);
    v.1
}
