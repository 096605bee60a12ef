//! Instrumented storage: records every request, injects faults, suspends before each request so
//! that a scheduler can interleave or drop operations.
use async_trait::async_trait;
use cosmian_findex::*;
use std::{
    cell::RefCell,
    collections::HashMap,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

#[derive(Debug, Clone)]
pub struct DbErr(pub String);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected: {}", self.0)
    }
}
impl std::error::Error for DbErr {}
impl DbInterfaceErrorTrait for DbErr {}
pub type Err = Error<DbErr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tab {
    E,
    C,
}

/// Value as seen by the storage.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Val {
    pub nonce: Vec<u8>,
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
}
pub fn val<const N: usize>(v: &EncryptedValue<N>) -> Val {
    Val { nonce: v.nonce.0.to_vec(), ct: v.ciphertext.to_vec(), tag: v.tag.to_vec() }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Dump,
    Fetch(Vec<Token>),
    Upsert { old: Vec<(Token, Val)>, new: Vec<(Token, Val)>, accepted: Vec<(Token, bool)> },
    Insert(Vec<(Token, Val)>),
    Delete(Vec<Token>),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub task: usize,
    pub tab: Tab,
    pub kind: Kind,
    pub ok: bool,
}
impl Req {
    pub fn is_write(&self) -> bool {
        matches!(self.kind, Kind::Upsert { .. } | Kind::Insert(_) | Kind::Delete(_))
    }
    pub fn name(&self) -> String {
        let k = match &self.kind {
            Kind::Dump => "dump".to_string(),
            Kind::Fetch(t) => format!("fetch({})", t.len()),
            Kind::Upsert { new, accepted, .. } => format!("upsert({}, accepted {})", new.len(), accepted.len()),
            Kind::Insert(v) => format!("insert({})", v.len()),
            Kind::Delete(t) => format!("delete({})", t.len()),
        };
        format!("task{} {:?}.{}{}", self.task, self.tab, k, if self.ok { "" } else { " -> error" })
    }
}

#[derive(Default)]
pub struct World {
    pub e: HashMap<Token, EncryptedValue<ENTRY_LENGTH>>,
    pub c: HashMap<Token, EncryptedValue<LINK_LENGTH>>,
    pub log: Vec<Req>,
    /// Number of requests received so far (log length, kept separately so that the log can be cut).
    pub n: usize,
    /// Request numbers that fail without any effect.
    pub fail: Vec<usize>,
    pub task: usize,
    pub yields: bool,
    pub shuffle: u64,
    /// Contract violations seen by the store itself.
    pub misuse: Vec<String>,
}
impl World {
    pub fn cut(&mut self) {
        self.log.clear();
        self.n = 0;
        self.fail.clear();
    }
    pub fn snapshot(&self) -> (HashMap<Token, Val>, HashMap<Token, Val>) {
        (
            self.e.iter().map(|(k, v)| (*k, val(v))).collect(),
            self.c.iter().map(|(k, v)| (*k, val(v))).collect(),
        )
    }
}
pub type W = Rc<RefCell<World>>;

pub struct Db<const N: usize> {
    pub w: W,
    pub tab: Tab,
}

/// Selects the map of the right constant length.
pub trait Sel<const N: usize> {
    fn map(&mut self) -> &mut HashMap<Token, EncryptedValue<N>>;
}
impl Sel<ENTRY_LENGTH> for World {
    fn map(&mut self) -> &mut HashMap<Token, EncryptedValue<ENTRY_LENGTH>> {
        &mut self.e
    }
}
impl Sel<LINK_LENGTH> for World {
    fn map(&mut self) -> &mut HashMap<Token, EncryptedValue<LINK_LENGTH>> {
        &mut self.c
    }
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

impl<const N: usize> Db<N>
where
    World: Sel<N>,
{
    async fn pre(&self, kind: Kind) -> Result<usize, DbErr> {
        let y = self.w.borrow().yields;
        if y {
            YieldOnce(false).await;
        }
        let mut w = self.w.borrow_mut();
        let i = w.n;
        w.n += 1;
        let ok = !w.fail.contains(&i);
        let task = w.task;
        w.log.push(Req { task, tab: self.tab, kind, ok });
        if ok {
            Ok(w.log.len() - 1)
        } else {
            Err(DbErr(format!("request {i} failed")))
        }
    }
}

fn vals<const N: usize>(m: &HashMap<Token, EncryptedValue<N>>) -> Vec<(Token, Val)> {
    m.iter().map(|(k, v)| (*k, val(v))).collect()
}

#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Db<N>
where
    World: Sel<N>,
{
    type Error = DbErr;

    async fn dump_tokens(&self) -> Result<Tokens, DbErr> {
        self.pre(Kind::Dump).await?;
        let mut w = self.w.borrow_mut();
        Ok(Sel::<N>::map(&mut *w).keys().copied().collect())
    }

    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<N>, DbErr> {
        self.pre(Kind::Fetch(tokens.iter().copied().collect())).await?;
        let mut w = self.w.borrow_mut();
        let seed = w.shuffle;
        let m = Sel::<N>::map(&mut *w);
        let mut v: Vec<_> = tokens.iter().filter_map(|t| m.get(t).map(|x| (*t, x.clone()))).collect();
        if seed != 0 {
            let mut r = crate::gen::Rng(seed);
            r.shuffle(&mut v);
            w.shuffle = r.next();
        }
        Ok(TokenWithEncryptedValueList::from(v))
    }

    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<N>,
        new: TokenToEncryptedValueMap<N>,
    ) -> Result<TokenToEncryptedValueMap<N>, DbErr> {
        let i = self
            .pre(Kind::Upsert { old: vals(&old), new: vals(&new), accepted: vec![] })
            .await?;
        let mut w = self.w.borrow_mut();
        let m = Sel::<N>::map(&mut *w);
        if old.keys().any(|t| !m.contains_key(t)) {
            w.log[i].ok = false;
            return Err(DbErr("old value given for a token that is not stored".into()));
        }
        let mut rejected = HashMap::new();
        let mut acc = vec![];
        for (t, v) in new.iter() {
            if m.get(t) == old.get(t) {
                acc.push((*t, m.contains_key(t)));
                m.insert(*t, v.clone());
            } else {
                rejected.insert(*t, m.get(t).unwrap().clone());
            }
        }
        if let Kind::Upsert { accepted, .. } = &mut w.log[i].kind {
            *accepted = acc;
        }
        Ok(rejected.into())
    }

    async fn insert(&self, values: TokenToEncryptedValueMap<N>) -> Result<(), DbErr> {
        let i = self.pre(Kind::Insert(vals(&values))).await?;
        let mut w = self.w.borrow_mut();
        let m = Sel::<N>::map(&mut *w);
        if values.keys().any(|t| m.contains_key(t)) {
            w.log[i].ok = false;
            return Err(DbErr("insert on a used token".into()));
        }
        m.extend(values);
        Ok(())
    }

    async fn delete(&self, tokens: Tokens) -> Result<(), DbErr> {
        self.pre(Kind::Delete(tokens.iter().copied().collect())).await?;
        let mut w = self.w.borrow_mut();
        let m = Sel::<N>::map(&mut *w);
        for t in tokens.iter() {
            m.remove(t);
        }
        Ok(())
    }
}

pub type Et = EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>;
pub type Ct = ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>;
pub type Fx = Findex<DbErr, Et, Ct>;

pub fn tables(w: &W) -> (Et, Ct) {
    (
        Et::setup(Db { w: w.clone(), tab: Tab::E }),
        Ct::setup(Db { w: w.clone(), tab: Tab::C }),
    )
}
pub fn findex(w: &W) -> Fx {
    let (e, c) = tables(w);
    <Fx as Index<Et, Ct>>::new(e, c)
}

fn noop_waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn no(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

pub fn poll_once<T>(f: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Poll<T> {
    let w = noop_waker();
    f.as_mut().poll(&mut Context::from_waker(&w))
}

/// Runs a future to its end; a future that stays pending too long is reported as `None`.
pub fn run<T>(f: impl Future<Output = T>) -> T {
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    for _ in 0..5_000_000u64 {
        if let Poll::Ready(x) = poll_once(&mut f) {
            return x;
        }
    }
    panic!("the operation does not terminate");
}

/// Runs the future until it has completed `steps` storage requests, then drops it. Returns its
/// result when it ended before.
pub fn run_crash<T>(w: &W, f: impl Future<Output = T>, steps: usize) -> Option<T> {
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    w.borrow_mut().yields = true;
    let mut res = None;
    for _ in 0..=steps {
        if let Poll::Ready(x) = poll_once(&mut f) {
            res = Some(x);
            break;
        }
    }
    drop(f);
    w.borrow_mut().yields = false;
    res
}
