//! Stand-in for actix: one process, explicit scheduler, every source of
//! nondeterminism goes through `vx::choose`.
#![allow(static_mut_refs)]
use std::any::Any;
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub use vx;
pub use actix_derive::{Message, MessageResponse};

pub trait Message {
    type Result: 'static;
}
pub trait MessageResponse<A, M> {}
impl<A, M: Message<Result = ()>> MessageResponse<A, M> for () {}

pub trait Handler<M>
where
    Self: Actor,
    M: Message,
{
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}

pub enum Running {
    Stop,
    Continue,
}

pub trait Actor: Sized + 'static {
    type Context: ActorContext;
    #[allow(unused_variables)]
    fn started(&mut self, ctx: &mut Self::Context) {}
    #[allow(unused_variables)]
    fn stopping(&mut self, ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    #[allow(unused_variables)]
    fn stopped(&mut self, ctx: &mut Self::Context) {}
    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        let id = sched::new_slot();
        sched::install(id, self, Context { id, stop: false, p: PhantomData });
        Addr { id, p: PhantomData }
    }
    fn start_default() -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>> + Default,
    {
        Self::default().start()
    }
    fn create<F>(f: F) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
        F: FnOnce(&mut Context<Self>) -> Self,
    {
        let id = sched::new_slot();
        let mut ctx = Context { id, stop: false, p: PhantomData };
        let a = f(&mut ctx);
        sched::install(id, a, ctx);
        Addr { id, p: PhantomData }
    }
}

pub trait ActorContext: Sized + 'static {
    fn stop(&mut self);
    fn terminate(&mut self) {
        self.stop()
    }
    #[doc(hidden)]
    fn is_stopped(&self) -> bool;
}
pub trait AsyncContext<A>: ActorContext
where
    A: Actor<Context = Self>,
{
    fn address(&self) -> Addr<A>;
    fn notify<M>(&mut self, msg: M)
    where
        A: Handler<M>,
        M: Message + 'static,
    {
        self.address().do_send(msg)
    }
}

pub struct Context<A> {
    id: usize,
    stop: bool,
    p: PhantomData<fn(A)>,
}
impl<A: Actor<Context = Context<A>>> ActorContext for Context<A> {
    fn stop(&mut self) {
        self.stop = true
    }
    fn is_stopped(&self) -> bool {
        self.stop
    }
}
impl<A: Actor<Context = Context<A>>> AsyncContext<A> for Context<A> {
    fn address(&self) -> Addr<A> {
        Addr { id: self.id, p: PhantomData }
    }
}

pub struct SyncContext<A> {
    id: usize,
    stop: bool,
    p: PhantomData<fn(A)>,
}
impl<A: Actor<Context = SyncContext<A>>> SyncContext<A> {
    pub fn address(&self) -> Addr<A> {
        Addr { id: self.id, p: PhantomData }
    }
}
impl<A: Actor<Context = SyncContext<A>>> ActorContext for SyncContext<A> {
    fn stop(&mut self) {
        self.stop = true
    }
    fn is_stopped(&self) -> bool {
        self.stop
    }
}

pub struct SyncArbiter<A>(PhantomData<A>);
impl<A: Actor<Context = SyncContext<A>>> SyncArbiter<A> {
    pub fn start<F>(threads: usize, factory: F) -> Addr<A>
    where
        F: Fn() -> A + Send + Sync + 'static,
    {
        let id = sched::new_slot();
        let mut v: Vec<Box<dyn Any>> = Vec::new();
        for _ in 0..threads {
            let mut actor = factory();
            let mut ctx = SyncContext { id, stop: false, p: PhantomData };
            actor.started(&mut ctx);
            v.push(Box::new(Slot { actor, ctx }));
        }
        sched::install_pool(id, v);
        Addr { id, p: PhantomData }
    }
}

pub struct Slot<A: Actor> {
    pub actor: A,
    pub ctx: A::Context,
}

pub struct Addr<A> {
    id: usize,
    p: PhantomData<fn(A)>,
}
impl<A> Addr<A> {
    pub fn vx_id(&self) -> usize {
        self.id
    }
    pub fn vx_from_id(id: usize) -> Self {
        Addr { id, p: PhantomData }
    }
}
impl<A: Actor> Addr<A> {
    pub fn do_send<M>(&self, msg: M)
    where
        M: Message + 'static,
        A: Handler<M>,
    {
        send_to::<A, M>(self.id, msg)
    }
    pub fn try_send<M>(&self, msg: M) -> Result<(), ()>
    where
        M: Message + 'static,
        A: Handler<M>,
    {
        self.do_send(msg);
        Ok(())
    }
    pub fn recipient<M>(self) -> Recipient<M>
    where
        M: Message + 'static,
        A: Handler<M>,
    {
        Recipient { id: self.id, f: send_to::<A, M> }
    }
    pub fn connected(&self) -> bool {
        sched::alive(self.id)
    }
}
impl<A> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr { id: self.id, p: PhantomData }
    }
}
impl<A> fmt::Debug for Addr<A> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Addr")
    }
}
impl<A> PartialEq for Addr<A> {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl<A> Eq for Addr<A> {}
impl<A> Hash for Addr<A> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}

fn send_to<A, M>(id: usize, msg: M)
where
    A: Actor + Handler<M>,
    M: Message + 'static,
{
    sched::push(
        id,
        Box::new(move |any: &mut dyn Any| {
            let s = any.downcast_mut::<Slot<A>>().unwrap();
            match sched::stub_of::<A, M>() {
                Some(f) => f(&mut s.actor, msg, &mut s.ctx),
                None => {
                    s.actor.handle(msg, &mut s.ctx);
                }
            }
            if s.ctx.is_stopped() {
                s.actor.stopped(&mut s.ctx);
                return true;
            }
            false
        }),
        std::any::type_name::<M>(),
    );
}

pub struct Recipient<M> {
    id: usize,
    f: fn(usize, M),
}
impl<M> Recipient<M> {
    pub fn do_send(&self, msg: M) {
        (self.f)(self.id, msg)
    }
    pub fn try_send(&self, msg: M) -> Result<(), ()> {
        (self.f)(self.id, msg);
        Ok(())
    }
    pub fn vx_id(&self) -> usize {
        self.id
    }
    /// a recipient that calls f directly (used by harnesses)
    pub fn vx_from_fn(id: usize, f: fn(usize, M)) -> Self {
        Recipient { id, f }
    }
}
impl<M> Clone for Recipient<M> {
    fn clone(&self) -> Self {
        Recipient { id: self.id, f: self.f }
    }
}
impl<M> fmt::Debug for Recipient<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Recipient")
    }
}
impl<M> PartialEq for Recipient<M> {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl<M> Eq for Recipient<M> {}

// ---------------------------------------------------------------- scheduler
pub mod sched {
    use super::*;
    pub type Envelope = Box<dyn FnOnce(&mut dyn Any) -> bool>;
    pub struct Pending {
        target: usize,
        env: Envelope,
        name: &'static str,
    }
    pub enum Cell {
        Free,
        Running,
        Single(Box<dyn Any>),
        Pool(Vec<Box<dyn Any>>, VecDeque<(Envelope, usize, &'static str)>, usize),
        Dead,
    }
    pub struct Entry {
        node: usize,
        cell: Cell,
    }
    pub struct Channel {
        pub src: usize,
        pub dst: usize,
        q: VecDeque<Box<dyn FnOnce()>>,
    }
    pub struct Sched {
        entries: Vec<Entry>,
        /// one FIFO of local messages per cluster node
        local: Vec<VecDeque<Pending>>,
        channels: Vec<Channel>,
        cur_node: usize,
        stopped: Vec<bool>,
        next_job: usize,
        dirty: usize,
        sleep: Vec<(usize, usize, usize)>,
        pub mode: Mode,
        pub steps: usize,
        pub hold: Option<&'static str>,
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum Mode {
        /// deterministic: local messages first, then helpers in order, then remote channels in order
        Fifo,
        /// arbitrary interleavings of helper completions (and remote deliveries)
        Any,
        /// arbitrary interleavings at one cluster node; the others run as far as they can
        At(usize),
        /// the deterministic order but for a number of deviations at arbitrary steps
        Few(usize),
        /// the deterministic order for a number of steps; from then on one cluster node is slow: the others run as far as
        /// they can and everything they send to it arrives before it takes its next step
        Lag(usize, usize),
    }
    static mut S: Option<Box<Sched>> = None;
    static mut STUBS: Vec<(std::any::TypeId, *const ())> = Vec::new();
    /// replaces the handler of M at A
    pub fn stub<A: Actor, M: 'static>(f: fn(&mut A, M, &mut A::Context)) {
        unsafe { STUBS.push((std::any::TypeId::of::<(A, M)>(), f as *const ())) }
    }
    pub fn stub_of<A: Actor, M: 'static>() -> Option<fn(&mut A, M, &mut A::Context)> {
        unsafe {
            if STUBS.is_empty() {
                return None;
            }
            let t = std::any::TypeId::of::<(A, M)>();
            STUBS.iter().find(|x| x.0 == t).map(|x| std::mem::transmute(x.1))
        }
    }
    fn s() -> &'static mut Sched {
        unsafe {
            if S.is_none() {
                S = Some(Box::new(Sched {
                    entries: Vec::new(),
                    local: vec![VecDeque::new()],
                    channels: Vec::new(),
                    cur_node: 0,
                    stopped: vec![false],
                    next_job: 0,
                    dirty: 0,
                    sleep: Vec::new(),
                    mode: Mode::Fifo,
                    steps: 0,
                    hold: None,
                }));
            }
            S.as_mut().unwrap()
        }
    }
    /// the running step does not commute with deliveries
    pub fn dirty() {
        s().dirty += 1;
    }
    pub fn set_mode(m: Mode) {
        s().mode = m;
        s().sleep.clear();
    }
    /// forget everything (a fresh process)
    pub fn reset() {
        unsafe {
            std::mem::forget(S.take());
        }
    }
    pub fn set_node(n: usize) {
        let s = s();
        while s.local.len() <= n {
            s.local.push(VecDeque::new());
            s.stopped.push(false);
        }
        s.cur_node = n;
    }
    pub fn node() -> usize {
        s().cur_node
    }
    pub fn new_slot() -> usize {
        let s = s();
        let node = s.cur_node;
        s.entries.push(Entry { node, cell: Cell::Free });
        s.entries.len() - 1
    }
    pub fn install<A: Actor>(id: usize, actor: A, ctx: A::Context) {
        s().entries[id].cell = Cell::Single(Box::new(Slot { actor, ctx }));
        push(
            id,
            Box::new(move |any: &mut dyn Any| {
                let s = any.downcast_mut::<Slot<A>>().unwrap();
                s.actor.started(&mut s.ctx);
                if s.ctx.is_stopped() {
                    s.actor.stopped(&mut s.ctx);
                    return true;
                }
                false
            }),
            "started",
        );
    }
    pub fn install_pool(id: usize, v: Vec<Box<dyn Any>>) {
        let n = v.len();
        s().entries[id].cell = Cell::Pool(v, VecDeque::new(), n);
    }
    pub fn alive(id: usize) -> bool {
        !matches!(s().entries[id].cell, Cell::Dead)
    }
    pub fn push(id: usize, env: Envelope, name: &'static str) {
        let s = s();
        let node = s.entries[id].node;
        match &mut s.entries[id].cell {
            Cell::Dead => {
                std::mem::forget(env);
            }
            Cell::Pool(_, q, _) => {
                q.push_back((env, s.next_job, name));
                s.next_job += 1;
            }
            _ => s.local[node].push_back(Pending { target: id, env, name }),
        }
    }
    pub fn remote(src: usize, dst: usize, f: Box<dyn FnOnce()>) {
        let s = s();
        for c in s.channels.iter_mut() {
            if c.src == src && c.dst == dst {
                c.q.push_back(f);
                return;
            }
        }
        let mut q = VecDeque::new();
        q.push_back(f);
        s.channels.push(Channel { src, dst, q });
    }
    pub fn stop_current() {
        let s = s();
        let n = s.cur_node;
        s.stopped[n] = true;
    }
    pub fn is_stopped(n: usize) -> bool {
        s().stopped[n]
    }
    pub fn clear_stopped(n: usize) {
        s().stopped[n] = false;
    }
    /// run until the given local message type is about to be handled
    pub fn hold_before(name: Option<&'static str>) {
        s().hold = name;
    }
    pub fn steps() -> usize {
        s().steps
    }
    pub fn remote_pending() -> usize {
        s().channels.iter().map(|c| c.q.len()).sum()
    }
    pub fn local_pending(node: usize) -> usize {
        s().local[node].len()
    }
    /// name of the next local message of the current node
    pub fn peek_local(node: usize) -> Option<&'static str> {
        s().local[node].front().map(|p| p.name)
    }
    /// the next local message of the node has that name, and no other one waits
    pub fn held_once(node: usize, name: &str) -> bool {
        peek_local(node).map_or(false, |n| n.ends_with(name)) && s().local[node].iter().filter(|p| p.name.ends_with(name)).count() == 1
    }
    pub fn drop_local(node: usize) {
        if let Some(p) = s().local[node].pop_front() {
            std::mem::forget(p.env)
        }
    }

    fn run_on(id: usize, env: Envelope) {
        let node = s().entries[id].node;
        s().cur_node = node;
        let cell = std::mem::replace(&mut s().entries[id].cell, Cell::Running);
        match cell {
            Cell::Single(mut b) => {
                let stop = env(&mut *b);
                if stop {
                    s().entries[id].cell = Cell::Dead;
                    std::mem::forget(b);
                } else {
                    s().entries[id].cell = Cell::Single(b);
                }
            }
            other => {
                s().entries[id].cell = other;
                std::mem::forget(env);
            }
        }
    }
    fn run_pool(id: usize, which: usize) {
        let node = s().entries[id].node;
        s().cur_node = node;
        let (mut v, env, live) = match &mut s().entries[id].cell {
            Cell::Pool(v, q, live) => {
                let (env, _, _) = q.remove(which).unwrap();
                (std::mem::take(v), env, *live)
            }
            _ => return,
        };
        // any instance may take it; instances are interchangeable
        let idx = which % live;
        let stop = env(&mut *v[idx]);
        if let Cell::Pool(v0, _, l) = &mut s().entries[id].cell {
            if stop {
                std::mem::forget(v.remove(idx));
                *l -= 1;
            }
            *v0 = v;
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    enum Ev {
        Local(usize),
        Pool(usize, usize),
        Chan(usize),
    }
    fn key(e: Ev) -> (usize, usize, usize) {
        match e {
            Ev::Local(n) => (0, n, 0),
            Ev::Pool(i, w) => match &s().entries[i].cell {
                Cell::Pool(_, q, _) => (1, i, q[w].1),
                _ => (1, i, usize::MAX),
            },
            Ev::Chan(c) => (2, c, 0),
        }
    }
    fn node_of(k: (usize, usize, usize)) -> usize {
        match k.0 {
            0 => k.1,
            1 => s().entries[k.1].node,
            _ => s().channels[k.1].dst,
        }
    }
    fn enabled() -> Vec<Ev> {
        let s = s();
        let mut out = Vec::new();
        for (n, q) in s.local.iter().enumerate() {
            if !q.is_empty() {
                match (s.hold, q.front()) {
                    (Some(h), Some(p)) if p.name.ends_with(h) => {}
                    _ => out.push(Ev::Local(n)),
                }
            }
        }
        let fifo = matches!(s.mode, Mode::Fifo | Mode::Lag(_, _));
        for (i, e) in s.entries.iter().enumerate() {
            if let Cell::Pool(_, q, live) = &e.cell {
                let m = if *live == 0 { 0 } else { q.len().min(*live) };
                let m = if fifo { m.min(1) } else { m };
                for w in 0..m {
                    out.push(Ev::Pool(i, w));
                }
            }
        }
        for (i, c) in s.channels.iter().enumerate() {
            if !c.q.is_empty() {
                out.push(Ev::Chan(i));
            }
        }
        out
    }
    /// one scheduler step; false if nothing can happen
    pub fn step() -> bool {
        let en = enabled();
        if en.is_empty() {
            return false;
        }
        let mut same: Vec<(usize, usize, usize)> = Vec::new();
        // the end of an idle helper commutes with everything
        let idle = en.iter().copied().find(|e| match e {
            Ev::Pool(i, 0) => match &s().entries[*i].cell {
                Cell::Pool(_, q, _) => q[0].2.ends_with("PoisonPill"),
                _ => false,
            },
            _ => false,
        });
        let other = match s().mode {
            Mode::Fifo | Mode::Few(0) => Some(en[0]),
            Mode::Few(_) if en.len() == 1 => Some(en[0]),
            Mode::Few(n) => {
                let c = vx::choose(en.len());
                if c > 0 {
                    s().mode = Mode::Few(n - 1);
                }
                Some(en[c])
            }
            Mode::Lag(v, 0) => {
                let at = |e: &Ev| node_of(key(*e)) == v;
                let first = en.iter().copied().find(|e| !at(e));
                let last = |peers: bool| {
                    en.iter().copied().rev().find(|e| match e {
                        Ev::Chan(c) => !peers || s().channels[*c].src < s().local.len(),
                        _ => false,
                    })
                };
                // what the harness itself sends comes after what the peers send
                let unpack = en.iter().copied().find(|e| match e {
                    Ev::Local(n) => *n == v && peek_local(v).map_or(false, |m| m.ends_with("RemoteWrapper")),
                    _ => false,
                });
                first.or(last(true)).or(unpack).or(last(false)).or(Some(en[0]))
            }
            Mode::Lag(v, n) => {
                s().mode = Mode::Lag(v, n - 1);
                Some(en[0])
            }
            Mode::At(v) => en.iter().copied().find(|e| node_of(key(*e)) != v),
            _ => None,
        };
        let ev = if let Some(e) = other.or(idle) {
            if !matches!(s().mode, Mode::Fifo | Mode::Few(_) | Mode::Lag(_, _)) {
                // eager steps of other nodes; everything at this node is still to be explored
                let n = node_of(key(e));
                if idle != Some(e) {
                    let old = std::mem::take(&mut s().sleep);
                    s().sleep = old.into_iter().filter(|k| node_of(*k) != n).collect();
                }
            }
            e
        } else {
            // sleep sets: steps at different cluster nodes commute
            let mut cand: Vec<Ev> = Vec::new();
            // deliveries first: a local step that sends nothing locally commutes with them
            for e in en.iter().rev() {
                if !s().sleep.contains(&key(*e)) {
                    cand.push(*e);
                }
            }
            if cand.is_empty() {
                vx::assume(false);
            }
            let i = vx::choose(cand.len());
            let e = cand[i];
            let n = node_of(key(e));
            for j in 0..i {
                s().sleep.push(key(cand[j]));
            }
            let old = std::mem::take(&mut s().sleep);
            for k in old {
                if node_of(k) != n {
                    s().sleep.push(k);
                } else if k.0 != 0 {
                    same.push(k);
                }
            }
            e
        };
        s().steps += 1;
        match ev {
            Ev::Local(n) => {
                let p = s().local[n].pop_front().unwrap();
                let left = (s().local[n].len(), s().dirty);
                run_on(p.target, p.env);
                if (s().local[n].len(), s().dirty) == left {
                    s().sleep.extend(same);
                }
            }
            Ev::Pool(i, w) => run_pool(i, w),
            Ev::Chan(c) => {
                let dst = s().channels[c].dst;
                let f = s().channels[c].q.pop_front().unwrap();
                s().cur_node = dst;
                f();
            }
        }
        true
    }
    pub fn run_all() {
        while step() {}
    }
    pub fn with<A: Actor, R>(addr: &Addr<A>, f: impl FnOnce(&mut A) -> R) -> R {
        match &mut s().entries[addr.id].cell {
            Cell::Single(b) => f(&mut b.downcast_mut::<Slot<A>>().unwrap().actor),
            _ => panic!("actor not available"),
        }
    }
    /// call f with an actor and its context, like a handler
    pub fn with_ctx<A: Actor, R>(addr: &Addr<A>, f: impl FnOnce(&mut A, &mut A::Context) -> R) -> R {
        let id = addr.id;
        let node = s().entries[id].node;
        s().cur_node = node;
        let cell = std::mem::replace(&mut s().entries[id].cell, Cell::Running);
        match cell {
            Cell::Single(mut b) => {
                let sl = b.downcast_mut::<Slot<A>>().unwrap();
                let r = f(&mut sl.actor, &mut sl.ctx);
                s().entries[id].cell = Cell::Single(b);
                r
            }
            _ => panic!("actor not available"),
        }
    }
}

// ---------------------------------------------------------------- system
pub struct SystemRunner;
pub struct System;
impl System {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> SystemRunner {
        let n = sched::node();
        sched::set_node(n);
        sched::clear_stopped(n);
        SystemRunner
    }
    pub fn current() -> System {
        System
    }
    pub fn stop(&self) {
        sched::stop_current()
    }
}
fn noop_waker() -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable};
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { std::task::Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
impl SystemRunner {
    pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
        let mut fut = Box::pin(fut);
        let waker = noop_waker();
        let mut cx = std::task::Context::from_waker(&waker);
        loop {
            if let std::task::Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                std::mem::forget(fut);
                return r;
            }
            if !sched::step() {
                vx::check(false, vx::TAG_DEADLOCK);
                panic!("deadlock");
            }
        }
    }
    pub fn run(self) -> std::io::Result<()> {
        let n = sched::node();
        while !sched::is_stopped(n) {
            if !sched::step() {
                vx::check(false, vx::TAG_DEADLOCK);
                panic!("deadlock");
            }
        }
        Ok(())
    }
}
pub struct Arbiter;
impl Arbiter {
    pub fn current() -> Arbiter {
        Arbiter
    }
    pub fn stop(&self) {}
}

// ---------------------------------------------------------------- futures
pub struct FutureWrap<F, A>(F, PhantomData<fn(A)>);
pub trait WrapFuture<A> {
    type Future;
    fn into_actor(self, a: &A) -> Self::Future;
}
impl<F: Future, A: Actor> WrapFuture<A> for F {
    type Future = FutureWrap<F, A>;
    fn into_actor(self, _a: &A) -> FutureWrap<F, A> {
        FutureWrap(self, PhantomData)
    }
}
pub struct MapFut<F, G>(F, G);
pub trait ActorFutureExt<A: Actor>: Sized {
    type Output;
    fn map<G, U>(self, g: G) -> MapFut<Self, G>
    where
        G: FnOnce(Self::Output, &mut A, &mut A::Context) -> U,
    {
        MapFut(self, g)
    }
}
impl<A: Actor, F: Future> ActorFutureExt<A> for FutureWrap<F, A> {
    type Output = F::Output;
}
/// The only futures spawned in this code base are completed sends.
pub trait ContextFutureSpawner<A: Actor>: Sized {
    fn wait(self, _ctx: &mut A::Context) {}
    fn spawn(self, _ctx: &mut A::Context) {}
}
impl<A: Actor, F, G> ContextFutureSpawner<A> for MapFut<FutureWrap<F, A>, G> {}
impl<A: Actor, F: Future> ContextFutureSpawner<A> for FutureWrap<F, A> {}

pub mod dev {
    pub use super::MessageResponse;
    /// marker: every actor context can envelope every message it handles
    pub trait ToEnvelope<A, M> {}
    impl<A, M, C> ToEnvelope<A, M> for C {}
}

pub mod io {
    use super::*;
    use futures_sink::Sink;
    use std::cell::RefCell;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::Poll;
    pub trait WriteHandler<E>
    where
        Self: Actor,
    {
        #[allow(unused_variables)]
        fn error(&mut self, err: E, ctx: &mut Self::Context) -> Running {
            Running::Stop
        }
        fn finished(&mut self, ctx: &mut Self::Context) {
            ctx.stop()
        }
    }
    struct Inner<I, S> {
        sink: S,
        q: VecDeque<I>,
        closing: bool,
        closed: bool,
    }
    pub struct SinkWrite<I, S> {
        inner: Rc<RefCell<Inner<I, S>>>,
        id: usize,
        wake: fn(usize, Rc<RefCell<Inner<I, S>>>),
    }
    fn wake<A, I, S>(id: usize, inner: Rc<RefCell<Inner<I, S>>>)
    where
        A: Actor + WriteHandler<<S as Sink<I>>::Error>,
        S: Sink<I> + Unpin + 'static,
        I: 'static,
    {
        sched::push(
            id,
            Box::new(move |any: &mut dyn Any| {
                let sl = any.downcast_mut::<Slot<A>>().unwrap();
                let w = noop_waker();
                let mut cx = std::task::Context::from_waker(&w);
                let mut done = false;
                {
                    let mut i = inner.borrow_mut();
                    let i = &mut *i;
                    while let Some(item) = i.q.pop_front() {
                        match Pin::new(&mut i.sink).poll_ready(&mut cx) {
                            Poll::Ready(_) => {
                                let _ = Pin::new(&mut i.sink).start_send(item);
                            }
                            Poll::Pending => {
                                i.q.push_front(item);
                                break;
                            }
                        }
                    }
                    let _ = Pin::new(&mut i.sink).poll_flush(&mut cx);
                    if i.closing && !i.closed {
                        if let Poll::Ready(_) = Pin::new(&mut i.sink).poll_close(&mut cx) {
                            i.closed = true;
                            done = true;
                        }
                    }
                }
                if done {
                    sl.actor.finished(&mut sl.ctx);
                }
                sl.ctx.is_stopped()
            }),
            "sink",
        );
    }
    impl<I: 'static, S: Sink<I> + Unpin + 'static> SinkWrite<I, S> {
        pub fn new<A>(sink: S, ctx: &mut Context<A>) -> Self
        where
            A: Actor<Context = Context<A>> + WriteHandler<<S as Sink<I>>::Error>,
        {
            SinkWrite {
                inner: Rc::new(RefCell::new(Inner { sink, q: VecDeque::new(), closing: false, closed: false })),
                id: ctx.id,
                wake: wake::<A, I, S>,
            }
        }
        pub fn write(&mut self, item: I) -> Result<(), I> {
            if self.inner.borrow().closing {
                return Err(item);
            }
            self.inner.borrow_mut().q.push_back(item);
            (self.wake)(self.id, self.inner.clone());
            Ok(())
        }
        pub fn close(&mut self) {
            self.inner.borrow_mut().closing = true;
            (self.wake)(self.id, self.inner.clone());
        }
        pub fn closed(&self) -> bool {
            self.inner.borrow().closed
        }
    }
}

pub mod prelude {
    pub use super::dev;
    pub use super::{
        Actor, ActorContext, ActorFutureExt, Addr, Arbiter, AsyncContext, Context, ContextFutureSpawner, Handler,
        Message, MessageResponse, Recipient, Running, SyncArbiter, SyncContext, System, SystemRunner, WrapFuture,
    };
}
