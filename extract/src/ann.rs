//! Annotation files: contracts, loop invariants and proof blocks, keyed by function.
use std::{collections::BTreeMap, fs, path::Path};

#[derive(Default, Clone, Debug)]
pub struct Ann {
    pub tags: Vec<String>,
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub spec: Option<String>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub loops: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub items: Option<String>,
    pub expect: Option<(usize, usize, usize)>,
    pub params: BTreeMap<String, String>,
    /// Parameters called `<name>_arg` in the contract (the body shadows their name).
    pub rename: Vec<String>,
    /// Bound on the number of elements the function may ask memory for at once.
    pub alloc: bool,

}

pub type Anns = BTreeMap<String, Ann>;

pub fn load(dir: &Path) -> Result<Anns, String> {
    let mut anns = Anns::new();
    let mut files: Vec<_> = fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|p| p.extension().map_or(false, |e| e == "ann"))
        .collect();
    files.sort();
    for f in files {
        let t = fs::read_to_string(&f).map_err(|e| e.to_string())?;
        parse(&t, &f.display().to_string(), &mut anns)?;
    }
    Ok(anns)
}

fn parse(t: &str, file: &str, anns: &mut Anns) -> Result<(), String> {
    let lines: Vec<&str> = t.lines().collect();
    let mut i = 0;
    let mut cur: Option<String> = None;
    while i < lines.len() {
        let l = lines[i];
        if l.trim().is_empty() || l.starts_with('#') {
            i += 1;
            continue;
        }
        if let Some(id) = l.strip_prefix("== ") {
            let id = id.trim().to_string();
            if anns.contains_key(&id) {
                return Err(format!("{file}:{}: duplicate {id}", i + 1));
            }
            anns.insert(id.clone(), Ann::default());
            cur = Some(id);
            i += 1;
            continue;
        }
        let Some(id) = &cur else {
            return Err(format!("{file}:{}: no function", i + 1));
        };
        let a = anns.get_mut(id).unwrap();
        // one-line directives
        if let Some(r) = l.strip_prefix("tags:") {
            a.tags = r.split_whitespace().map(str::to_string).collect();
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("attr:") {
            a.attrs.push(r.trim().to_string());
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("ret:") {
            a.ret = Some(r.trim().to_string());
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("alloc:") {
            a.alloc = true;
            a.at.push(("start".into(), format!("    let ghost alloc__: int = {};\n", r.trim())));
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("rename:") {
            a.rename = r.split_whitespace().map(str::to_string).collect();
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("param ") {
            let (n, ty) = r.split_once(':').ok_or("param")?;
            a.params.insert(n.trim().to_string(), ty.trim().to_string());
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("expect:") {
            let v: Vec<usize> = r.split_whitespace().map(|x| x.parse().unwrap_or(999)).collect();
            if v.len() != 3 {
                return Err(format!("{file}:{}: expect: loops closures chains", i + 1));
            }
            a.expect = Some((v[0], v[1], v[2]));
            i += 1;
            continue;
        }
        // block directives
        let head = l.to_string();
        i += 1;
        let mut body = String::new();
        while i < lines.len() && (lines[i].starts_with(' ') || lines[i].starts_with('\t') || lines[i].trim().is_empty()) {
            body.push_str(lines[i]);
            body.push('\n');
            i += 1;
        }
        let body = body.trim_end().to_string() + "\n";
        if head.trim() == "spec:" {
            a.spec = Some(body);
        } else if head.trim() == "items:" {
            a.items = Some(body);
        } else if let Some(r) = head.strip_prefix("closure ") {
            let (n, sig) = r.split_once(':').ok_or_else(|| format!("{file}:{i}: closure"))?;
            a.closures.insert(n.trim().parse().map_err(|_| format!("{file}:{i}"))?, (sig.trim().to_string(), body));
        } else if let Some(r) = head.strip_prefix("loop ") {
            let n = r.trim().trim_end_matches(':');
            a.loops.insert(n.parse().map_err(|_| format!("{file}:{i}: loop"))?, body);
        } else if let Some(r) = head.strip_prefix("at ") {
            let r = r.trim().trim_end_matches(':').to_string();
            a.at.push((r, body));
        } else {
            return Err(format!("{file}:{}: unknown directive {head}", i));
        }
    }
    Ok(())
}
