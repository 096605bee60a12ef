//! Compaction and credentials: C05-C08, C18.
use crate::{gen::*, model::*, props1::*, world::*};
use cosmian_findex::*;
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
};

/// Set when the code under test is the copy with a tiny compaction batch size.
pub fn small_batch() -> bool {
    std::env::var("SMALL_BATCH").is_ok()
}

fn salt_keep(salt: u64, percent: u64) -> impl Fn(&Data) -> bool {
    move |d: &Data| {
        let mut h = salt;
        for b in d.iter() {
            h = h.wrapping_mul(0x100000001b3) ^ *b as u64;
        }
        Rng(h).next() % 100 < percent
    }
}

/// Reads all chains; unknown entries or lines in the stores are reported when `strict`.
fn all_chains(s: &Sys, cr: &Creds, kws: &[Keyword], strict: bool) -> Result<HashMap<Keyword, Chain>, String> {
    let mut out = HashMap::new();
    for k in kws {
        if let Some(c) = decode(&s.w, cr, k)? {
            out.insert(k.clone(), c);
        }
    }
    if strict {
        let w = s.w.borrow();
        ensure!(w.e.len() == out.len(), "{} entries stored for {} keywords", w.e.len(), out.len());
        let lines: HashSet<Token> = out.values().flat_map(|c| c.tokens.iter().copied()).collect();
        let orphans = w.c.keys().filter(|t| !lines.contains(t)).count();
        ensure!(orphans == 0, "{orphans} stored lines belong to no chain");
        let missing: usize = out.values().map(|c| c.missing).sum();
        ensure!(missing == 0, "{missing} lines of the chains are missing");
    }
    Ok(out)
}

// ---- C05 ------------------------------------------------------------------------------------
pub fn c05(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(30);
    let mut sp = Space::random(r, wild);
    if small_batch() || r.chance(20) {
        let n = 1 + r.below(14);
        sp.kws = keywords(r, n, wild);
    }
    let n = 1 + r.below(5);
    let mut desc = String::new();
    for _ in 0..n {
        for _ in 0..r.below(5) {
            let o = sp.op(r);
            s.apply(&o)?;
        }
        let new = s.next_creds(r);
        let rate = *r.pick(&[0.0, 0.1, 0.5, 0.5, 1.0, 1.0, 3.0]);
        let percent = if r.chance(50) { 100 } else { *r.pick(&[0, 50, 80]) };
        let keep = salt_keep(r.next(), percent);
        note(format!("compaction with rate {rate}, filter keeping {percent}%"));
        s.w.borrow_mut().cut();
        let seeds: HashMap<Keyword, Vec<u8>> =
            all_chains(&s, &s.cr, &sp.kws, true)?.into_iter().map(|(k, c)| (k, c.rec.seed.to_vec())).collect();
        s.compact(&new, rate, &keep).map_err(|e| format!("compaction failed: {e:?}"))?;
        let old = std::mem::replace(&mut s.cr, new);
        // The chains which were compacted have a new seed (or disappeared).
        let after = all_chains(&s, &s.cr, &sp.kws, true)?;
        let filtered = s.model.filter(&keep);
        for k in &sp.kws {
            let compacted = match (seeds.get(k), after.get(k)) {
                (Some(a), Some(c)) => *a != c.rec.seed.to_vec(),
                (Some(_), None) => true,
                (None, None) => false,
                (None, Some(_)) => return Err(format!("the compaction created an entry for {}", show(k))),
            };
            ensure!(compacted || rate < 1.0 || !seeds.contains_key(k), "the chain of {} was not compacted by a full compaction", show(k));
            if compacted {
                s.model.0.insert(k.clone(), filtered.own(k));
            }
        }
        let kws = sp.kws.clone();
        s.check_search(&kws)?;
        let none = Model::default();
        s.check_search_as(&old, &none, &kws).map_err(|e| format!("under the old key and label: {e}"))?;
        desc += &format!("rate {rate} filter {percent}%; ");
        if r.chance(50) {
            let o = sp.op(r);
            s.apply(&o)?;
            s.check_search(&kws)?;
        }
    }
    Ok(format!("{} keywords, {desc}", sp.kws.len()))
}

// ---- C06 ------------------------------------------------------------------------------------
pub fn c06(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(50);
    let mut sp = Space::random(r, wild);
    if small_batch() || r.chance(20) {
        let n = 1 + r.below(14);
        sp.kws = keywords(r, n, wild);
    }
    let rounds = 1 + r.below(3);
    let mut n_lines = 0;
    for _ in 0..rounds {
        for _ in 0..1 + r.below(8) {
            let o = sp.op(r);
            s.apply(&o)?;
        }
        let new = s.next_creds(r);
        if r.chance(25) {
            note("partial compaction".into());
            s.compact(&new, 0.4, |_| true).map_err(|e| format!("compaction failed: {e:?}"))?;
            s.cr = new;
            continue;
        }
        let percent = if r.chance(60) { 100 } else { *r.pick(&[0, 50, 80]) };
        let keep = salt_keep(r.next(), percent);
        let rate = *r.pick(&[1.0, 1.0, 1.5, 5.0]);
        note(format!("full compaction, rate {rate}, filter keeping {percent}%"));
        s.compact(&new, rate, &keep).map_err(|e| format!("compaction failed: {e:?}"))?;
        s.cr = new;
        s.model = s.model.filter(&keep);
        let chains = all_chains(&s, &s.cr, &sp.kws, true)?;
        for k in &sp.kws {
            let live = ser_set(&s.model.own(k));
            match chains.get(k) {
                None => ensure!(live.is_empty(), "{} has values but no entry after the compaction", show(k)),
                Some(c) => {
                    ensure!(!live.is_empty(), "{} has no value but still has an entry", show(k));
                    ensure!(c.mods.iter().all(|(a, _)| *a), "a deletion is left in the compacted chain of {}", show(k));
                    let v: HashSet<_> = c.mods.iter().map(|x| x.1.clone()).collect();
                    ensure!(v.len() == c.mods.len(), "a value is duplicated in the compacted chain of {}", show(k));
                    ensure!(v == live, "the compacted chain of {} holds {} values, {} are live", show(k), v.len(), live.len());
                    let need = lines_for(live.iter());
                    ensure!(c.tokens.len() == need, "the compacted chain of {} has {} lines, {need} are enough", show(k), c.tokens.len());
                    n_lines += need;
                }
            }
        }
    }
    let kws = sp.kws.clone();
    s.check_search(&kws)?;
    Ok(format!("{} keywords, {n_lines} lines after {rounds} rounds", sp.kws.len()))
}

// ---- C07 ------------------------------------------------------------------------------------
pub fn c07(r: &mut Rng, _t: bool) -> Res {
    let seed = r.next();
    let n = c07_once(seed, &[], None)?;
    let mut cases = 0;
    for i in 0..n {
        TRACE.with(|t| t.borrow_mut().clear());
        c07_once(seed, &[i], None).map_err(|e| format!("failure of request {i}: {e}"))?;
        TRACE.with(|t| t.borrow_mut().clear());
        c07_once(seed, &[i, i + 1], None).map_err(|e| format!("failure of requests {i} and {}: {e}", i + 1))?;
        TRACE.with(|t| t.borrow_mut().clear());
        c07_once(seed, &[], Some(i)).map_err(|e| format!("stop before request {i}: {e}"))?;
        // stop in the middle of the recovery
        TRACE.with(|t| t.borrow_mut().clear());
        c07_once(seed, &[i], Some(i + 1)).map_err(|e| format!("failure of request {i} then stop: {e}"))?;
        cases += 4;
    }
    Ok(format!("{cases} failure and stop points of a compaction with {n} requests"))
}
fn c07_once(seed: u64, fail: &[usize], crash: Option<usize>) -> Result<usize, String> {
    let mut g = Rng(seed);
    let mut s = Sys::new(&mut g);
    let wild = g.chance(20);
    let mut sp = Space::random(&mut g, wild);
    sp.pointers = 0;
    if small_batch() {
        let n = 1 + g.below(9);
        sp.kws = keywords(&mut g, n, wild);
    }
    for _ in 0..1 + g.below(5) {
        let o = sp.op(&mut g);
        s.apply(&o)?;
    }
    let new = s.next_creds(&mut g);
    let rate = *g.pick(&[0.0, 0.5, 1.0, 1.0]);
    let percent = *g.pick(&[100, 100, 50, 0]);
    let keep = salt_keep(g.next(), percent);
    note(format!("compaction rate {rate} filter {percent}% failing {fail:?} stop {crash:?}"));
    s.w.borrow_mut().cut();
    s.w.borrow_mut().fail = fail.to_vec();
    let before = s.w.borrow().snapshot();
    let filtered = s.model.filter(&keep);
    let res = {
        let keep = &keep;
        let f = |d: HashSet<Data>| async move { Ok(d.into_iter().filter(|x| keep(x)).collect()) };
        let fut = s.fx.compact(&s.cr.key, &new.key, &s.cr.label, &new.label, rate, &f);
        match crash {
            None => Some(run(fut)),
            Some(i) => run_crash(&s.w, fut, i),
        }
    };
    let log = s.w.borrow().log.clone();
    let n = s.w.borrow().n;
    s.w.borrow_mut().cut();
    let failed: Vec<&Req> = log.iter().filter(|q| !q.ok).collect();
    if crash.is_none() && !failed.is_empty() {
        ensure!(matches!(res, Some(Err(_))), "the compaction reports success although {} failed", failed[0].name());
    }
    if failed.is_empty() && crash.is_none() {
        ensure!(matches!(res, Some(Ok(()))), "the compaction fails without any storage failure");
    }
    // The insertion of the new lines or entries failed: nothing stored before may be gone.
    let single = !small_batch();
    let insert_failed = failed.iter().any(|q| matches!(q.kind, Kind::Insert(_)));
    let after = s.w.borrow().snapshot();
    let no_delete_yet = !log.iter().any(|q| q.ok && q.tab == Tab::E && matches!(q.kind, Kind::Delete(_)));
    if single && insert_failed {
        for (t, v) in &before.0 {
            ensure!(after.0.get(t) == Some(v), "a stored entry is gone or changed after a failed insertion");
        }
        for (t, v) in &before.1 {
            ensure!(after.1.get(t) == Some(v), "a stored line is gone or changed after a failed insertion");
        }
        if failed.len() == 1 && crash.is_none() {
            ensure!(after.1.len() == before.1.len(), "{} lines added by the failed compaction are left", after.1.len() - before.1.len());
            ensure!(after.0.len() == before.0.len(), "entries added by the failed compaction are left");
        }
    }
    if single && no_delete_yet {
        for (t, v) in &before.0 {
            ensure!(after.0.get(t) == Some(v), "an entry disappeared although no entry was deleted");
        }
    }
    // Every keyword keeps its result under one of the credentials.
    for k in &sp.kws {
        let old_res = s.search_as(&s.cr, std::slice::from_ref(k));
        let new_res = s.search_as(&new, std::slice::from_ref(k));
        let want = s.model.search(k);
        let want2 = filtered.search(k);
        let o = old_res.as_ref().map_err(|e| format!("search under the old credentials fails: {e:?}"))?.get(k).cloned().unwrap_or_default();
        let w = new_res.as_ref().map_err(|e| format!("search under the new credentials fails: {e:?}"))?.get(k).cloned().unwrap_or_default();
        ensure!(
            o == want || w == want || w == want2,
            "{} has lost data: {} under the old credentials, {} under the new ones ({} before)",
            show(k), o.len(), w.len(), want.len()
        );
    }
    Ok(n)
}

// ---- C08 ------------------------------------------------------------------------------------
pub fn c08(r: &mut Rng, _t: bool) -> Res {
    if r.chance(45) {
        return c08_refusals(r);
    }
    let mut s = Sys::new(r);
    let wild = r.chance(30);
    let sp = Space::random(r, wild);
    let k1 = crate::gen::key(r);
    let mut k2 = crate::gen::key(r);
    if r.chance(40) {
        // keys that differ in one byte
        k2.copy_from_slice(&k1);
        let i = r.below(16);
        k2[i] ^= 1 << r.below(8);
    }
    let mut labels = vec![Label::from(""), Label::from("a"), Label::from("ab"), Label::from("b"), Label::from(vec![0u8]), Label::from(vec![0u8, 0])];
    let base = r.bytes(32);
    let mut other = base.clone();
    other[r.clone().below(32)] ^= 1;
    labels.push(Label::from(base));
    labels.push(Label::from(other));
    r.shuffle(&mut labels);
    let mut crs: Vec<Creds> = vec![];
    for i in 0..2 + r.below(3) {
        let mut key = UserKey::default();
        key.copy_from_slice(if r.chance(50) { &k1 } else { &k2 });
        let label = if i > 0 && r.chance(30) { crs[0].label.clone() } else { labels[i].clone() };
        if !crs.iter().any(|c| c.key[..] == key[..] && c.label == label) {
            crs.push(Creds { key, label });
        }
    }
    let mut models: Vec<Model> = crs.iter().map(|_| Model::default()).collect();
    let n = 2 + r.below(8);
    for _ in 0..n {
        let i = r.below(crs.len());
        let o = sp.op(r);
        note(format!("index {i}: {}", show_op(&o)));
        let known: HashSet<Keyword> = models[i].0.keys().cloned().collect();
        let got = s.call_as(&crs[i], &o).map_err(|e| format!("unexpected error: {e:?}"))?;
        models[i].apply(&o);
        let want: HashSet<Keyword> = o.keywords().difference(&known).cloned().collect();
        ensure!(got == want, "the new keywords of an index depend on another index");
        for (j, c) in crs.iter().enumerate() {
            if r.chance(50) {
                let c = c.dup();
                s.check_search_as(&c, &models[j].clone(), &sp.kws)?;
            }
        }
    }
    for (j, c) in crs.iter().enumerate() {
        let c = c.dup();
        s.check_search_as(&c, &models[j].clone(), &sp.kws)?;
    }
    // a stranger finds nothing
    let c = Creds::random(r);
    if !crs.iter().any(|x| x.key[..] == c.key[..] && x.label == c.label) {
        s.check_search_as(&c, &Model::default(), &sp.kws)?;
    }
    Ok(format!("{} indexes in the same stores, {n} operations", crs.len()))
}
fn c08_refusals(r: &mut Rng) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(20);
    let sp = Space::random(r, wild);
    for _ in 0..1 + r.below(4) {
        let o = sp.op(r);
        s.apply(&o)?;
    }
    let rate = *r.pick(&[0.0, 0.5, 1.0]);
    let mut new = s.next_creds(r);
    let kind = r.below(4);
    let what = match kind {
        0 => {
            new = s.cr.dup();
            "compaction keeping the key and the label"
        }
        1 => {
            // the same keyword already stored with the same key under the target label
            new.key.copy_from_slice(&s.cr.key);
            if new.label == s.cr.label {
                new.label = Label::from("another label");
            }
            let k = s.model.0.keys().next().unwrap().clone();
            let o = Op { add: true, assoc: vec![(IndexedValue::Data(Data::from("x")), vec![k])] };
            s.call_as(&new, &o).map_err(|e| format!("{e:?}"))?;
            note("the same keyword is indexed under the target label too".into());
            "compaction of two entries of one keyword into the same place"
        }
        2 => {
            // entries of another key
            let mut c = Creds::random(r);
            c.key = crate::gen::key(r);
            let o = sp.op(r);
            s.call_as(&c, &o).map_err(|e| format!("{e:?}"))?;
            note(format!("another index in the same stores: {}", show_op(&o)));
            if r.chance(50) {
                new = c;
                if new.key[..] == s.cr.key[..] && new.label == s.cr.label {
                    return Ok("skipped".into());
                }
            }
            "compaction meeting entries of another key"
        }
        _ => {
            // target key = key of other entries, same label and same keyword
            let mut c = s.cr.dup();
            c.key = crate::gen::key(r);
            let k = s.model.0.keys().next().unwrap().clone();
            let o = Op { add: true, assoc: vec![(IndexedValue::Data(Data::from("x")), vec![k])] };
            s.call_as(&c, &o).map_err(|e| format!("{e:?}"))?;
            new = c;
            note("the target key already indexes a keyword".into());
            "compaction meeting entries of the target key"
        }
    };
    if small_batch() && kind != 0 {
        return Ok("skipped (several batches)".into());
    }
    let before = s.w.borrow().snapshot();
    s.w.borrow_mut().cut();
    note(format!("{what}, rate {rate}"));
    let res = s.compact(&new, rate, |_| true);
    ensure!(res.is_err(), "{what} is not refused");
    ensure!(s.w.borrow().snapshot() == before, "{what} changed the stores");
    if kind == 0 {
        ensure!(!s.w.borrow().log.iter().any(|q| q.is_write()), "{what} sends write requests");
    }
    let kws = sp.kws.clone();
    s.check_search(&kws)?;
    Ok(what.into())
}

// ---- C18 ------------------------------------------------------------------------------------
pub fn c18(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(30);
    let mut sp = Space::random(r, wild);
    if small_batch() {
        let n = 1 + r.below(9);
        sp.kws = keywords(r, n, wild);
    }
    sp.pointers = *r.pick(&[0, 30, 60]);
    for _ in 0..1 + r.below(7) {
        let o = sp.op(r);
        s.apply(&o)?;
    }
    let new = s.next_creds(r);
    let rate = *r.pick(&[0.0, 0.3, 1.0, 1.0, 2.0]);
    let before_chains = all_chains(&s, &s.cr, &sp.kws, true)?;
    let before = s.w.borrow().snapshot();
    s.w.borrow_mut().cut();
    let calls: RefCell<Vec<HashSet<Data>>> = RefCell::new(vec![]);
    if r.chance(20) {
        note(format!("compaction, rate {rate}, failing filter"));
        let fail_at = if small_batch() { r.below(2) } else { 0 };
        let res = run(s.fx.compact(&s.cr.key, &new.key, &s.cr.label, &new.label, rate, &|d: HashSet<Data>| {
            calls.borrow_mut().push(d.clone());
            let n = calls.borrow().len() - 1;
            async move { if n == fail_at { Err("filter says no".to_string()) } else { Ok(d) } }
        }));
        if calls.borrow().len() > fail_at {
            match res {
                Err(Error::Filter(m)) => ensure!(m.contains("filter says no"), "the filter error message is lost: {m}"),
                Err(e) => return Err(format!("a failing filter gives another error: {e:?}")),
                Ok(()) => return Err("a failing filter does not fail the compaction".into()),
            }
            ensure!(calls.borrow().len() == fail_at + 1, "the filter is called again after it failed");
        }
        if !small_batch() {
            ensure!(s.w.borrow().snapshot() == before, "the stores changed although the filter failed");
            ensure!(!s.w.borrow().log.iter().any(|q| q.is_write()), "write requests were sent although the filter failed");
            let kws = sp.kws.clone();
            s.check_search(&kws)?;
        }
        return Ok("failing filter".into());
    }
    let mode = r.below(5);
    let keep = salt_keep(r.next(), match mode { 0 => 100, 1 => 0, _ => 50 });
    let invent: Vec<Data> = match mode {
        3 => vec![Data::from("invented"), r.pick(&sp.data).clone()],
        4 => sp.data.clone(),
        _ => vec![],
    };
    // data returned by the filter stay: keep or invented
    let stays = |d: &Data| keep(d) || invent.contains(d);
    note(format!("compaction, rate {rate}, filter mode {mode}"));
    let res = run(s.fx.compact(&s.cr.key, &new.key, &s.cr.label, &new.label, rate, &|d: HashSet<Data>| {
        calls.borrow_mut().push(d.clone());
        let mut out: HashSet<Data> = d.into_iter().filter(|x| keep(x)).collect();
        out.extend(invent.iter().cloned());
        async move { Ok(out) }
    }));
    res.map_err(|e| format!("compaction failed: {e:?}"))?;
    let fetched: HashSet<Token> = s
        .w
        .borrow()
        .log
        .iter()
        .filter(|q| q.tab == Tab::C)
        .flat_map(|q| match &q.kind { Kind::Fetch(t) => t.clone(), _ => vec![] })
        .collect();
    let mut want = HashSet::new();
    let mut model = s.model.clone();
    let mut n = 0;
    for (k, c) in &before_chains {
        if c.tokens.iter().any(|t| fetched.contains(t)) {
            n += 1;
            want.extend(s.model.own(k).iter().filter_map(|v| v.get_data().cloned()));
            let left = s.model.own(k).into_iter().filter(|v| v.get_data().map_or(true, |d| stays(d))).collect();
            model.0.insert(k.clone(), left);
        }
    }
    ensure!(rate < 1.0 || n == before_chains.len(), "a full compaction does not read all chains");
    let calls = calls.into_inner();
    let seen: HashSet<Data> = calls.iter().flatten().cloned().collect();
    ensure!(seen == want, "the data filter received: {}", diff(&seen, &want));
    if !small_batch() {
        ensure!(calls.len() == 1, "the data filter was called {} times", calls.len());
    }
    s.cr = new;
    s.model = model;
    let after = all_chains(&s, &s.cr, &sp.kws, true)?;
    for k in &sp.kws {
        let v = after.get(k).map(|c| c.values()).unwrap_or_default();
        ensure!(v == ser_set(&s.model.own(k)), "{} holds {} values after the compaction, {} expected", show(k), v.len(), s.model.own(k).len());
    }
    let kws = sp.kws.clone();
    s.check_search(&kws)?;
    Ok(format!("rate {rate}, filter mode {mode}, {n} chains compacted"))
}
