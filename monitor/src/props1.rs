//! Properties over histories: C01-C04, C09, C15, C16.
use crate::{gen::*, model::*, world::*};
use cosmian_findex::*;
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    future::Future,
    pin::Pin,
    rc::Rc,
    task::Poll,
};

pub type Res = Result<String, String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

fn unknown(sp: &Space) -> Keyword {
    let mut i = 0;
    loop {
        let k = Keyword::from(format!("never indexed {i}").as_str());
        if !sp.kws.contains(&k) {
            return k;
        }
        i += 1;
    }
}

// ---- C01 ------------------------------------------------------------------------------------
pub fn c01(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(40);
    let sp = Space::random(r, wild);
    let n = 1 + if r.chance(85) { r.below(10) } else { r.below(50) };
    let unk = unknown(&sp);
    for i in 0..n {
        let o = sp.op(r);
        s.apply(&o)?;
        if r.chance(15) {
            s.fx = findex(&s.w); // another process
        }
        if i + 1 == n || r.chance(35) {
            let mut ks: Vec<_> = sp.kws.iter().filter(|_| r.chance(70)).cloned().collect();
            if r.chance(30) {
                ks.push(unk.clone());
            }
            s.check_search(&ks)?;
        }
    }
    s.check_search(&sp.kws)?;
    for k in &sp.kws {
        s.check_search(std::slice::from_ref(k))?;
    }
    Ok(format!("{n} operations on {} keywords, {} values", sp.kws.len(), sp.data.len()))
}

// ---- C02 ------------------------------------------------------------------------------------
pub fn c02(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let kw = Keyword::from(wild_bytes(r));
    let mode = r.below(4);
    let mut vals: Vec<Iv> = vec![];
    let push = |vals: &mut Vec<Iv>, v: Iv| {
        if !vals.contains(&v) {
            vals.push(v);
        }
    };
    if mode == 0 {
        // a value of a chosen length at a chosen position in the line
        for i in 0..r.below(6) {
            push(&mut vals, IndexedValue::Data(Data::from(vec![i as u8 + 1; 3])));
        }
        let n = r.below(330);
        push(&mut vals, IndexedValue::Data(Data::from(wild_of_len(r, n))));
        for i in 0..r.below(3) {
            push(&mut vals, IndexedValue::Data(Data::from(vec![i as u8 + 100; 5])));
        }
    } else {
        for _ in 0..1 + r.below(9) {
            let b = wild_bytes(r);
            let v = if mode == 1 || r.chance(75) { IndexedValue::Data(Data::from(b)) } else { IndexedValue::Pointer(Keyword::from(b)) };
            // near-duplicates: prefixes, extensions, same bytes as another kind
            if r.chance(30) {
                let mut b = ser(&v)[1..].to_vec();
                match r.below(4) {
                    0 => b.push(0),
                    1 => {
                        b.pop();
                    }
                    2 => b.insert(0, b'l'),
                    _ => b.extend([0; 16]),
                }
                push(&mut vals, IndexedValue::Data(Data::from(b)));
            }
            if mode == 2 && r.chance(30) {
                push(&mut vals, IndexedValue::Pointer(Keyword::from(ser(&v)[1..].to_vec())));
                push(&mut vals, IndexedValue::Data(Data::from(ser(&v)[1..].to_vec())));
            }
            push(&mut vals, v);
        }
    }
    // Every value goes through the public conversions unchanged.
    for v in &vals {
        let b: Vec<u8> = v.into();
        let back = Iv::try_from(b.as_slice()).map_err(|e| format!("conversion of {}: {e:?}", show_iv(v)))?;
        ensure!(back == *v, "conversion of {} gives {}", show_iv(v), show_iv(&back));
    }
    r.shuffle(&mut vals);
    let mut i = 0;
    while i < vals.len() {
        let n = 1 + r.below(vals.len() - i);
        let o = Op { add: true, assoc: vals[i..i + n].iter().map(|v| (v.clone(), vec![kw.clone()])).collect() };
        s.apply(&o)?;
        i += n;
    }
    let check = |s: &Sys| -> Result<(), String> {
        let rounds: RefCell<Vec<HashMap<Keyword, HashSet<Iv>>>> = RefCell::new(vec![]);
        let got = run(s.fx.search(&s.cr.key, &s.cr.label, Keywords::from_iter([kw.clone()]), &|m| {
            rounds.borrow_mut().push(m);
            async { Ok(false) }
        }))
        .map_err(|e| format!("search failed after indexing: {e:?}"))?;
        ensure!(got[&kw] == s.model.search(&kw), "search of {}: {}", show(&kw), diff(&got[&kw], &s.model.search(&kw)));
        let rounds = rounds.into_inner();
        let seen = rounds.first().and_then(|m| m.get(&kw)).cloned().unwrap_or_default();
        ensure!(seen == s.model.own(&kw), "the interrupt received {} values instead of {}", seen.len(), s.model.own(&kw).len());
        Ok(())
    };
    check(&s)?;
    for _ in 0..r.below(4) {
        let v = r.pick(&vals).clone();
        let o = Op { add: r.chance(40), assoc: vec![(v, vec![kw.clone()])] };
        s.apply(&o)?;
        check(&s)?;
    }
    if r.chance(40) {
        let new = s.next_creds(r);
        let seen = RefCell::new(HashSet::new());
        run(s.fx.compact(&s.cr.key, &new.key, &s.cr.label, &new.label, 1.0, &|d: HashSet<Data>| {
            seen.borrow_mut().extend(d.iter().cloned());
            async move { Ok(d) }
        }))
        .map_err(|e| format!("compaction failed: {e:?}"))?;
        let want: HashSet<Data> = s.model.own(&kw).iter().filter_map(|v| v.get_data().cloned()).collect();
        let seen = seen.into_inner();
        ensure!(seen == want, "the data filter: {}", diff(&seen, &want));
        s.cr = new;
        check(&s)?;
    }
    Ok(format!("{} values, lengths {:?}", vals.len(), vals.iter().map(|v| ser(v).len() - 1).collect::<Vec<_>>()))
}

// ---- C03 ------------------------------------------------------------------------------------
pub fn c03(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(30);
    let sp = Space::random(r, wild);
    let n = 1 + r.below(10);
    let mut news = 0;
    for _ in 0..n {
        match r.below(10) {
            0 => {
                // a failed operation leaves some entries behind
                let o = sp.op(r);
                let at = r.below(4);
                {
                    let mut w = s.w.borrow_mut();
                    w.cut();
                    w.fail = vec![at];
                }
                note(format!("{} with request {at} failing", show_op(&o)));
                let _ = s.call(&o);
                s.w.borrow_mut().cut();
            }
            1 => {
                let new = s.next_creds(r);
                note("compaction".into());
                s.compact(&new, *r.pick(&[0.0, 0.5, 1.0]), |_| true).map_err(|e| format!("compaction failed: {e:?}"))?;
                s.cr = new;
            }
            2 | 3 => {
                // concurrent operations
                let ops: Vec<_> = (0..2 + r.below(2)).map(|_| sp.op(r)).collect();
                news += race(&mut s, r, &sp, &ops)?;
            }
            _ => {
                let o = sp.op(r);
                let before: HashSet<Keyword> =
                    sp.kws.iter().filter(|k| s.w.borrow().e.contains_key(&entry_token(&s.w, &s.cr, k))).cloned().collect();
                let got = s.apply(&o)?;
                let want: HashSet<Keyword> = o.keywords().difference(&before).cloned().collect();
                ensure!(got == want, "reported {} new keywords, expected {}: got {:?}", got.len(), want.len(), got.iter().map(|k| show(k)).collect::<Vec<_>>());
                news += got.len();
            }
        }
    }
    Ok(format!("{n} steps, {news} keywords reported"))
}

fn race(s: &mut Sys, r: &mut Rng, sp: &Space, ops: &[Op]) -> Result<usize, String> {
    s.w.borrow_mut().cut();
    let (res, sched) = interleave(&s.w, ops.iter().map(|o| (o.clone(), s.cr.dup())).collect(), r)?;
    note(format!("concurrent {} schedule {:?}", ops.iter().map(show_op).collect::<Vec<_>>().join(" || "), sched));
    let mut n = 0;
    let log = s.w.borrow().log.clone();
    for (i, x) in res.iter().enumerate() {
        let got = x.as_ref().map_err(|e| format!("concurrent operation failed: {e:?}"))?;
        let mut want = HashSet::new();
        for k in ops[i].keywords() {
            let t = entry_token(&s.w, &s.cr, &k);
            for q in log.iter().filter(|q| q.task == i) {
                if let Kind::Upsert { accepted, .. } = &q.kind {
                    if accepted.contains(&(t, false)) {
                        want.insert(k.clone());
                    }
                }
            }
        }
        ensure!(*got == want, "operation {i} reported {:?} as new, it created {:?}", got.iter().map(|k| show(k)).collect::<Vec<_>>(), want.iter().map(|k| show(k)).collect::<Vec<_>>());
        n += got.len();
    }
    let _ = sp;
    Ok(n)
}

/// Runs the operations concurrently, one storage request at a time, in a random order.
pub type OpResult = Result<HashSet<Keyword>, Err>;
pub fn interleave(w: &W, ops: Vec<(Op, Creds)>, r: &mut Rng) -> Result<(Vec<OpResult>, Vec<usize>), String> {
    let mode = r.below(3);
    let n = ops.len();
    let mut last = 0;
    interleave_by(w, ops, |alive, r| match mode {
        0 => *r.pick(alive),
        1 => {
            // long runs of one task
            if !alive.contains(&last) || r.chance(25) {
                last = *r.pick(alive);
            }
            last
        }
        _ => {
            // round robin with jumps
            last = (last + 1 + usize::from(r.chance(20))) % n;
            while !alive.contains(&last) {
                last = (last + 1) % n;
            }
            last
        }
    }, r)
}
pub fn interleave_by(
    w: &W,
    ops: Vec<(Op, Creds)>,
    mut choose: impl FnMut(&[usize], &mut Rng) -> usize,
    r: &mut Rng,
) -> Result<(Vec<OpResult>, Vec<usize>), String> {
    let n = ops.len();
    w.borrow_mut().yields = true;
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = OpResult>>>>> = vec![];
    for (o, cr) in ops {
        let fx = Rc::new(findex(w));
        tasks.push(Some(Box::pin(async move {
            if o.add {
                fx.add(&cr.key, &cr.label, o.map()).await.map(|k| k.into())
            } else {
                fx.delete(&cr.key, &cr.label, o.map()).await.map(|k| k.into())
            }
        })));
    }
    let mut out: Vec<Option<OpResult>> = (0..n).map(|_| None).collect();
    let mut sched = vec![];
    let mut steps = 0;
    loop {
        let alive: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some()).collect();
        if alive.is_empty() {
            break;
        }
        steps += 1;
        ensure!(steps < 60_000, "concurrent operations do not terminate");
        let i = choose(&alive, r);
        sched.push(i);
        w.borrow_mut().task = i;
        let done = match poll_once(tasks[i].as_mut().unwrap()) {
            Poll::Ready(x) => {
                out[i] = Some(x);
                true
            }
            Poll::Pending => false,
        };
        if done {
            tasks[i] = None;
        }
    }
    let mut b = w.borrow_mut();
    b.yields = false;
    b.task = 0;
    Ok((out.into_iter().map(|x| x.unwrap()).collect(), sched))
}

// ---- C04 ------------------------------------------------------------------------------------
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn check_lines_kept(log: &[Req], before: &HashSet<Token>) -> Result<(), String> {
    let mut have = before.clone();
    for q in log {
        match (&q.kind, q.tab) {
            (Kind::Insert(v), Tab::C) => {
                for (t, _) in v {
                    ensure!(have.insert(*t), "a line is written at a token that is already used ({})", q.name());
                }
            }
            (Kind::Upsert { .. }, Tab::C) => return Err("conditional write on the chain store".into()),
            (Kind::Delete(t), Tab::C) => ensure!(t.is_empty(), "an update deletes lines ({})", q.name()),
            (Kind::Delete(t), Tab::E) => ensure!(t.is_empty(), "an update deletes entries ({})", q.name()),
            _ => (),
        }
    }
    Ok(())
}
fn serial_ok(s: &Sys, base: &Model, ops: &[Op], kws: &[Keyword]) -> Result<(), String> {
    for k in kws {
        let touching: Vec<usize> = (0..ops.len()).filter(|i| !ops[*i].values_of(k).is_empty()).collect();
        let got = match decode(&s.w, &s.cr, k)? {
            Some(c) => {
                ensure!(c.missing == 0, "{} lines of {} are missing", c.missing, show(k));
                c.values()
            }
            None => HashSet::new(),
        };
        let mut found = false;
        for p in perms(touching.len()) {
            let mut m = base.clone();
            for i in p {
                let o = &ops[touching[i]];
                let o = Op { add: o.add, assoc: o.values_of(k).into_iter().map(|v| (v, vec![k.clone()])).collect() };
                m.apply(&o);
            }
            if ser_set(&m.own(k)) == got {
                found = true;
                break;
            }
        }
        ensure!(found, "the content of {} after the concurrent operations is not the result of any serial order ({} values)", show(k), got.len());
    }
    Ok(())
}
/// After concurrency, searches (which follow associations) must agree with the decoded chains.
fn search_matches_store(s: &mut Sys, kws: &[Keyword]) -> Result<(), String> {
    let mut m = Model::default();
    for k in kws {
        if let Some(c) = decode(&s.w, &s.cr, k)? {
            let set = c.values().into_iter().map(|v| Iv::try_from(v.as_slice()).map_err(|e| format!("{e:?}"))).collect::<Result<_, _>>()?;
            m.0.insert(k.clone(), set);
        }
    }
    let cr = s.cr.dup();
    s.check_search_as(&cr, &m, kws)?;
    s.model = m;
    Ok(())
}
pub fn c04(r: &mut Rng, thorough: bool) -> Res {
    if r.chance(if thorough { 10 } else { 4 }) {
        return c04_exhaustive(r);
    }
    if r.chance(if thorough { 4 } else { 2 }) {
        return c04_contention(r, thorough);
    }
    let mut s = Sys::new(r);
    let wild = r.chance(20);
    let mut sp = Space::random(r, wild);
    if r.chance(70) {
        let n = 1 + r.below(2);
        sp.kws.truncate(n);
    }
    let pre = r.below(3);
    for _ in 0..pre {
        let o = sp.op(r);
        s.apply(&o)?;
    }
    let rounds = 1 + r.below(2);
    let mut total = 0;
    for _ in 0..rounds {
        let n = 2 + r.below(3);
        let ops: Vec<_> = (0..n).map(|_| sp.op(r)).collect();
        let base = s.model.clone();
        let before: HashSet<Token> = s.w.borrow().c.keys().copied().collect();
        s.w.borrow_mut().cut();
        let (res, sched) = interleave(&s.w, ops.iter().map(|o| (o.clone(), s.cr.dup())).collect(), r)?;
        note(format!("concurrent {} schedule {:?}", ops.iter().map(show_op).collect::<Vec<_>>().join(" || "), sched));
        for x in res {
            x.map_err(|e| format!("a concurrent operation failed without any storage failure: {e:?}"))?;
        }
        let log = s.w.borrow().log.clone();
        check_lines_kept(&log, &before)?;
        serial_ok(&s, &base, &ops, &sp.kws)?;
        let kws = sp.kws.clone();
        search_matches_store(&mut s, &kws)?;
        total += sched.len();
    }
    Ok(format!("{rounds} rounds, {total} steps, {} keywords", sp.kws.len()))
}
/// One operation loses the race for its keywords many times in a row.
fn c04_contention(r: &mut Rng, thorough: bool) -> Res {
    let losses = 1 + r.below(if thorough { 1100 } else { 110 });
    let mut s = Sys::new(r);
    let sp = Space { kws: keywords(r, 1, false), data: datas(r, 4, false), pointers: 0, max_pairs: 1, deletes: 0 };
    if r.chance(50) {
        s.apply(&sp.op(r))?;
    }
    let base = s.model.clone();
    let slow = sp.op(r);
    let rival = Op { add: true, assoc: vec![(sp.op(r).assoc[0].0.clone(), vec![sp.kws[0].clone()])] };
    let mut ops = vec![slow.clone()];
    ops.extend((0..losses).map(|_| rival.clone()));
    s.w.borrow_mut().cut();
    // a rival runs to its end before each conditional write of the slow operation
    let (w, mut next, mut seen) = (s.w.clone(), 1, 0);
    let (res, _) = interleave_by(
        &s.w,
        ops.iter().map(|o| (o.clone(), s.cr.dup())).collect(),
        |alive, _| {
            let b = w.borrow();
            let reads = b.log.iter().filter(|q| q.task == 0 && matches!(q.kind, Kind::Fetch(_) | Kind::Upsert { .. })).count();
            if reads > seen && next <= losses {
                // the slow operation has just learnt the current state
                if alive.contains(&next) {
                    return next;
                }
                next += 1;
                seen = reads;
            }
            if alive.contains(&0) { 0 } else { alive[0] }
        },
        r,
    )?;
    note(format!("{} loses {losses} races against {}", show_op(&slow), show_op(&rival)));
    for x in res {
        x.map_err(|e| format!("a concurrent operation failed without any storage failure: {e:?}"))?;
    }
    // additions only: every order gives the same content
    serial_ok(&s, &base, &[slow, rival], &sp.kws)?;
    search_matches_store(&mut s, &sp.kws.clone())?;
    Ok(format!("{losses} lost races"))
}
/// Every interleaving of two small operations on one or two keywords.
fn c04_exhaustive(r: &mut Rng) -> Res {
    let seed = r.next();
    let nk = 1 + r.below(2);
    let with_base = r.chance(50);
    let mut prefix: Vec<usize> = vec![];
    let mut count = 0;
    loop {
        let mut g = Rng(seed);
        let mut s = Sys::new(&mut g);
        let sp = Space { kws: keywords(&mut g, nk, false), data: datas(&mut g, 3, false), pointers: 0, max_pairs: 2, deletes: 40 };
        if with_base {
            let o = sp.op(&mut g);
            s.apply(&o)?;
        }
        let ops: Vec<_> = (0..2).map(|_| sp.op(&mut g)).collect();
        let base = s.model.clone();
        let before: HashSet<Token> = s.w.borrow().c.keys().copied().collect();
        s.w.borrow_mut().cut();
        let mut choices: Vec<(usize, usize)> = vec![];
        let (res, sched) = interleave_by(
            &s.w,
            ops.iter().map(|o| (o.clone(), s.cr.dup())).collect(),
            |alive, _| {
                let i = choices.len();
                let c = prefix.get(i).copied().unwrap_or(0);
                choices.push((c, alive.len()));
                alive[c]
            },
            &mut g,
        )?;
        note(format!("concurrent {} schedule {:?}", ops.iter().map(show_op).collect::<Vec<_>>().join(" || "), sched));
        for x in res {
            x.map_err(|e| format!("a concurrent operation failed without any storage failure: {e:?}"))?;
        }
        let log = s.w.borrow().log.clone();
        check_lines_kept(&log, &before)?;
        serial_ok(&s, &base, &ops, &sp.kws)?;
        let kws = sp.kws.clone();
        search_matches_store(&mut s, &kws)?;
        count += 1;
        TRACE.with(|t| t.borrow_mut().clear());
        // next schedule
        let mut p = choices;
        loop {
            match p.pop() {
                None => return Ok(format!("all {count} interleavings of two operations on {nk} keywords")),
                Some((c, n)) if c + 1 < n => {
                    p.push((c + 1, n));
                    break;
                }
                _ => (),
            }
        }
        prefix = p.iter().map(|x| x.0).collect();
        if count > 3000 {
            return Ok(format!("{count} interleavings (cut)"));
        }
    }
}

// ---- C09 ------------------------------------------------------------------------------------
fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
pub fn c09(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    s.cr.label = Label::from(r.bytes(24));
    // long random secrets so that an accidental match is impossible
    let kws: Vec<Keyword> = (0..1 + r.below(4)).map(|_| { let n = 8 + r.below(30); Keyword::from(r.bytes(n)) }).collect();
    let data: Vec<Data> = (0..1 + r.below(6)).map(|_| { let n = 8 + r.below(60); Data::from(r.bytes(n)) }).collect();
    let sp = Space { kws, data, pointers: 15, max_pairs: 5, deletes: 30 };
    let mut secrets: Vec<(String, Vec<u8>)> = vec![];
    for k in &sp.kws {
        secrets.push(("keyword".into(), k.to_vec()));
        secrets.push(("keyword hash".into(), sha3(k).to_vec()));
    }
    for d in &sp.data {
        secrets.push(("data".into(), d.to_vec()));
    }
    let mut allowed: HashSet<Token> = HashSet::new();
    let mut seeds: HashMap<Vec<u8>, (Keyword, usize)> = HashMap::new();
    let mut epoch = 0;
    let n = 1 + r.below(7);
    let mut all: Vec<Req> = vec![];
    for _ in 0..n {
        secrets.push(("key".into(), key_bytes(&s.cr.key)));
        secrets.push(("label".into(), s.cr.label.to_vec()));
        for k in &sp.kws {
            allowed.insert(entry_token(&s.w, &s.cr, k));
        }
        let compacting = r.below(6) == 0;
        if compacting {
            let mut new = s.next_creds(r);
            if new.label != s.cr.label {
                new.label = Label::from(r.bytes(24));
            }
            secrets.push(("key".into(), key_bytes(&new.key)));
            secrets.push(("label".into(), new.label.to_vec()));
            note("compaction".into());
            s.compact(&new, 1.0, |_| true).map_err(|e| format!("compaction failed: {e:?}"))?;
            s.cr = new;
            epoch += 1;
            for k in &sp.kws {
                allowed.insert(entry_token(&s.w, &s.cr, k));
            }
        } else if r.chance(40) {
            let ops: Vec<_> = (0..2 + r.below(2)).map(|_| sp.op(r)).collect();
            let (res, sched) = interleave(&s.w, ops.iter().map(|o| (o.clone(), s.cr.dup())).collect(), r)?;
            note(format!("concurrent {} schedule {:?}", ops.iter().map(show_op).collect::<Vec<_>>().join(" || "), sched));
            for x in res {
                x.map_err(|e| format!("{e:?}"))?;
            }
            let kws = sp.kws.clone();
            search_matches_store(&mut s, &kws)?;
        } else {
            let o = sp.op(r);
            s.apply(&o)?;
            if r.chance(30) {
                let kws = sp.kws.clone();
                s.check_search(&kws)?;
            }
        }
        // everything now in the stores is derived and readable with the right keys, under fresh seeds
        let mut etoks = HashSet::new();
        let mut ctoks = HashSet::new();
        for k in &sp.kws {
            if let Some(c) = decode(&s.w, &s.cr, k)? {
                etoks.insert(c.token);
                ctoks.extend(c.tokens.iter().copied());
                allowed.extend(c.tokens.iter().copied());
                secrets.push(("seed".into(), c.rec.seed.to_vec()));
                match seeds.get(&c.rec.seed.to_vec()) {
                    Some((k2, e2)) => ensure!(
                        k2 == k && *e2 == epoch,
                        "the chain seed of {} was already used {}",
                        show(k),
                        if k2 == k { "before the compaction" } else { "for another keyword" }
                    ),
                    None => {
                        seeds.insert(c.rec.seed.to_vec(), (k.clone(), epoch));
                    }
                }
            }
        }
        let w = s.w.borrow();
        ensure!(w.e.keys().all(|t| etoks.contains(t)), "an entry is stored at a token derived from no keyword");
        ensure!(w.c.keys().all(|t| ctoks.contains(t)), "a line is stored at a token derived from no chain");
        drop(w);
        all.append(&mut s.w.borrow_mut().log);
    }
    // requests
    let mut nonces: HashSet<Vec<u8>> = HashSet::new();
    let mut written = 0;
    let mut vals: Vec<&Val> = vec![];
    let mut tab_nonces: HashMap<char, Vec<&Vec<u8>>> = HashMap::new();
    for q in &all {
        let mut toks: Vec<Token> = vec![];
        match &q.kind {
            Kind::Dump => (),
            Kind::Fetch(t) | Kind::Delete(t) => toks.extend(t),
            Kind::Upsert { old, new, .. } => {
                toks.extend(old.iter().chain(new).map(|x| x.0));
                vals.extend(new.iter().map(|x| &x.1));
                for (_, v) in old {
                    ensure!(nonces.contains(&v.nonce), "an upsert sends an old value that was never written");
                }
            }
            Kind::Insert(v) => {
                toks.extend(v.iter().map(|x| x.0));
                vals.extend(v.iter().map(|x| &x.1));
            }
        }
        for t in &toks {
            ensure!(allowed.contains(t), "{} uses a token that is not derived from the key", q.name());
        }
        for v in vals.drain(..) {
            written += 1;
            let want = if q.tab == Tab::E { ENTRY_LENGTH } else { LINK_LENGTH };
            ensure!(v.ct.len() == want && v.nonce.len() == NONCE_LENGTH && v.tag.len() == MAC_LENGTH, "{}: value of unexpected length", q.name());
            ensure!(nonces.insert(v.nonce.clone()), "{}: a nonce is used twice", q.name());
            tab_nonces.entry(if q.tab == Tab::E { 'E' } else { 'C' }).or_default().push(&v.nonce);
            let raw = [&v.nonce[..], &v.ct[..], &v.tag[..]].concat();
            for (what, sec) in &secrets {
                for win in sec.chunks_exact(8) {
                    ensure!(!contains(&raw, win), "{}: the value sent contains bytes of a {what}", q.name());
                }
            }
        }
        for t in &toks {
            for (what, sec) in &secrets {
                for win in sec.chunks_exact(8) {
                    ensure!(!contains(t, win), "{}: a token contains bytes of a {what}", q.name());
                }
            }
        }
    }
    // Every byte of the nonces and seeds is drawn: none keeps one value over 10 draws (a false
    // alarm has a probability under 2^-67).
    let ss: Vec<&Vec<u8>> = seeds.keys().collect();
    for (what, v) in [("entry nonce", tab_nonces.remove(&'E').unwrap_or_default()), ("line nonce", tab_nonces.remove(&'C').unwrap_or_default()), ("chain seed", ss)] {
        if v.len() >= 10 {
            for j in 0..v[0].len() {
                ensure!(v.iter().any(|x| x[j] != v[0][j]), "byte {j} of the {} {what}s is always {}", v.len(), v[0][j]);
            }
        }
    }
    Ok(format!("{n} steps, {} requests, {written} encryptions", all.len()))
}

// ---- C15 ------------------------------------------------------------------------------------
pub fn c15(r: &mut Rng, _t: bool) -> Res {
    let seed = r.next();
    let pick = r.next();
    let (_, n) = c15_once(seed, pick, None)?;
    let mut cases = 0;
    for i in 0..n {
        for crash in [false, true] {
            TRACE.with(|t| t.borrow_mut().clear());
            c15_once(seed, pick, Some((i, crash))).map_err(|e| format!("{} request {i}: {e}", if crash { "stop before" } else { "failure of" }))?;
            cases += 1;
        }
    }
    Ok(format!("{cases} failure and stop points of one operation with {n} requests"))
}
fn c15_once(seed: u64, pick: u64, fault: Option<(usize, bool)>) -> Result<((), usize), String> {
    let mut g = Rng(seed);
    let mut s = Sys::new(&mut g);
    let wild = g.chance(30);
    let sp = Space::random(&mut g, wild);
    for _ in 0..g.below(5) {
        let o = sp.op(&mut g);
        s.apply(&o)?;
    }
    // some earlier failures too
    let mut reserved: HashSet<Keyword> = HashSet::new();
    for _ in 0..g.below(3) {
        let o = sp.op(&mut g);
        reserved.extend(o.keywords());
        s.w.borrow_mut().cut();
        s.w.borrow_mut().fail = vec![2];
        let res = s.call(&o);
        note(format!("{} with its third request failing", show_op(&o)));
        ensure!(res.is_err() || s.w.borrow().n <= 2, "an operation reports success although a storage request failed");
        if res.is_ok() {
            s.model.apply(&o);
        }
        s.w.borrow_mut().cut();
        let kws = sp.kws.clone();
        s.check_search(&kws)?;
    }
    s.w.borrow_mut().cut();
    let mut p = Rng(pick);
    let what = p.below(5);
    let o = sp.op(&mut p);
    let before = s.w.borrow().snapshot();
    let kws = sp.kws.clone();
    let mut r = Rng(pick ^ 99);
    if what == 0 {
        note(format!("search with {fault:?}"));
        let cr = s.cr.dup();
        let rounds = std::cell::Cell::new(0);
        let int = |_| {
            rounds.set(rounds.get() + 1);
            async { Ok(false) }
        };
        let fut = s.fx.search(&cr.key, &cr.label, kws.iter().cloned().collect(), &int);
        match fault {
            Some((i, true)) => {
                run_crash(&s.w, fut, i);
            }
            _ => {
                if let Some((i, _)) = fault {
                    s.w.borrow_mut().fail = vec![i];
                }
                let res = run(fut);
                if fault.is_some() {
                    ensure!(matches!(res, Err(Error::DbInterface(_))), "search does not return the storage error: {}", if res.is_ok() { "it reports success" } else { "another error" });
                } else {
                    let res: HashMap<_, _> = res.map_err(|e| format!("search failed: {e:?}"))?.into();
                    for k in &kws {
                        ensure!(res.get(k) == Some(&s.model.search(k)), "search of {} is wrong", show(k));
                    }
                }
            }
        }
        let w = s.w.borrow();
        for q in &w.log {
            ensure!(!q.is_write(), "a search sends a write request: {}", q.name());
        }
        let n = w.n;
        drop(w);
        ensure!(s.w.borrow().snapshot() == before, "a search changed the stores");
        s.w.borrow_mut().cut();
        s.check_search(&kws)?;
        return Ok(((), n));
    }
    if what == 1 {
        // A compaction never reports success although one of its requests failed.
        let new = s.next_creds(&mut r);
        let rate = *r.pick(&[0.0, 0.5, 1.0]);
        note(format!("compaction rate {rate} with {fault:?}"));
        match fault {
            Some((_, true)) => (),
            Some((i, false)) => {
                s.w.borrow_mut().fail = vec![i];
                ensure!(s.compact(&new, rate, |_| true).is_err(), "the compaction reports success although its request {i} failed");
            }
            None => s.compact(&new, rate, |_| true).map_err(|e| format!("the compaction fails: {e:?}"))?,
        }
        let n = s.w.borrow().n;
        return Ok(((), n));
    }
    note(format!("{} with {fault:?}", show_op(&o)));
    let mut done = false;
    let n;
    {
        let fut = async {
            if o.add {
                s.fx.add(&s.cr.key, &s.cr.label, o.map()).await
            } else {
                s.fx.delete(&s.cr.key, &s.cr.label, o.map()).await
            }
        };
        match fault {
            None => {
                run(fut).map_err(|e| format!("{e:?}"))?;
                done = true;
            }
            Some((i, true)) => {
                ensure!(run_crash(&s.w, fut, i).is_none(), "the operation ended before its request {i}");
            }
            Some((i, false)) => {
                s.w.borrow_mut().fail = vec![i];
                let res = run(fut);
                ensure!(matches!(res, Err(Error::DbInterface(_)) | Err(Error::Crypto(_))), "the operation does not report the storage failure: {}", if res.is_ok() { "it reports success" } else { "unrelated error" });
            }
        }
        n = s.w.borrow().n;
    }
    s.w.borrow_mut().cut();
    if done {
        s.model.apply(&o);
    }
    // all lines that were there are still there
    let after = s.w.borrow().snapshot();
    for (t, v) in &before.1 {
        ensure!(after.1.get(t) == Some(v), "a line written by an earlier operation is gone or changed");
    }
    for t in before.0.keys() {
        ensure!(after.0.contains_key(t), "an entry is gone");
    }
    s.check_search(&kws)?;
    // later operations work normally: same operation again, another one, a compaction
    s.apply(&o)?;
    s.check_search(&kws)?;
    let o2 = sp.op(&mut r);
    s.apply(&o2)?;
    s.check_search(&kws)?;
    let new = s.next_creds(&mut r);
    s.compact(&new, *r.pick(&[0.0, 0.5, 1.0]), |_| true).map_err(|e| format!("a later compaction fails: {e:?}"))?;
    s.cr = new;
    s.check_search(&kws)?;
    Ok(((), n))
}

// ---- C16 ------------------------------------------------------------------------------------
pub fn c16(r: &mut Rng, _t: bool) -> Res {
    let mut s = Sys::new(r);
    let wild = r.chance(60);
    let sp = Space::random(r, wild);
    let n = 1 + r.below(8);
    let mut total = 0;
    for _ in 0..n {
        if r.chance(12) {
            let new = s.next_creds(r);
            note("compaction".into());
            s.compact(&new, *r.pick(&[0.0, 0.5, 1.0]), |_| true).map_err(|e| format!("compaction failed: {e:?}"))?;
            s.cr = new;
        }
        s.w.borrow_mut().cut();
        let before = s.w.borrow().snapshot();
        let mut prev: HashMap<Keyword, Vec<Token>> = HashMap::new();
        for k in &sp.kws {
            if let Some(c) = decode(&s.w, &s.cr, k)? {
                prev.insert(k.clone(), c.tokens);
            }
        }
        let ops: Vec<_> = if r.chance(30) { (0..2 + r.below(2)).map(|_| sp.op(r)).collect() } else { vec![sp.op(r)] };
        if ops.len() == 1 {
            s.apply(&ops[0])?;
        } else {
            let (res, sched) = interleave(&s.w, ops.iter().map(|o| (o.clone(), s.cr.dup())).collect(), r)?;
            note(format!("concurrent {} schedule {:?}", ops.iter().map(show_op).collect::<Vec<_>>().join(" || "), sched));
            for x in res {
                x.map_err(|e| format!("{e:?}"))?;
            }
        }
        let log = s.w.borrow().log.clone();
        check_lines_kept(&log, &before.1.keys().copied().collect())?;
        let after = s.w.borrow().snapshot();
        for (t, v) in &before.1 {
            ensure!(after.1.get(t) == Some(v), "an update changed or removed an existing line");
        }
        ensure!(before.0.keys().all(|t| after.0.contains_key(t)), "an update removed an entry");
        for (i, o) in ops.iter().enumerate() {
            // writes of this operation
            let mine: Vec<&Req> = log.iter().filter(|q| q.task == i || ops.len() == 1).collect();
            let mut accepted: Vec<Token> = vec![];
            let mut lines: Vec<Token> = vec![];
            for q in &mine {
                match &q.kind {
                    Kind::Upsert { accepted: a, .. } => accepted.extend(a.iter().map(|x| x.0)),
                    Kind::Insert(v) if q.tab == Tab::C => lines.extend(v.iter().map(|x| x.0)),
                    Kind::Insert(_) => return Err("an update inserts entries unconditionally".into()),
                    _ => (),
                }
            }
            let toks: HashSet<Token> = o.keywords().iter().map(|k| entry_token(&s.w, &s.cr, k)).collect();
            ensure!(accepted.len() == toks.len() && accepted.iter().all(|t| toks.contains(t)), "{} entries rewritten for {} keywords", accepted.len(), toks.len());
            let mut want = 0;
            for k in o.keywords() {
                let v: Vec<_> = o.values_of(&k).iter().map(ser).collect();
                let c = decode(&s.w, &s.cr, &k)?.ok_or("no entry after the update")?;
                let mine: Vec<usize> = (0..c.tokens.len()).filter(|j| lines.contains(&c.tokens[*j])).collect();
                let need = lines_for(v.iter());
                ensure!(mine.len() == need, "{} lines written for {}, {} needed", mine.len(), show(&k), need);
                ensure!(mine.windows(2).all(|w| w[1] == w[0] + 1), "the new lines are not consecutive on the chain");
                let p = prev.get(&k).cloned().unwrap_or_default();
                ensure!(c.tokens.len() >= p.len() && c.tokens[..p.len()] == p[..], "the chain of {} does not extend the previous one", show(&k));
                ensure!(mine[0] >= p.len(), "new lines overlap the existing chain");
                if ops.len() == 1 {
                    ensure!(mine[0] == p.len() && c.tokens.len() == p.len() + need, "the new lines do not directly follow the chain of {}", show(&k));
                }
                // dense and exact content
                let part = parse_lines(&mine.iter().map(|j| c.lines[*j]).collect::<Vec<_>>())?;
                ensure!(part.iter().all(|(a, _)| *a == o.add), "a line holds the wrong operation");
                let a: HashSet<_> = part.iter().map(|x| x.1.clone()).collect();
                ensure!(part.len() == v.len() && a == v.iter().cloned().collect::<HashSet<_>>(), "the lines written do not hold exactly the values given");
                want += need;
            }
            ensure!(lines.len() == want, "{} lines written, {want} needed", lines.len());
            total += want;
        }
        let kws = sp.kws.clone();
        search_matches_store(&mut s, &kws)?;
    }
    Ok(format!("{n} updates, {total} lines"))
}
