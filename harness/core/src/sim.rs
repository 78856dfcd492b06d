//! A deterministic three-party world: the network the protocols talk to, and the executor that
//! runs the three parties.  Every choice (which party runs next, which link delivers next) is drawn
//! from a seed; a state in which no party can move is recognised exactly (deadlock), and so is a
//! message nobody ever reads.
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::{Aby3Network, NetworkTrait};
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// deliver at once, parties in turn
    Eager,
    /// any party or link, at random
    Random,
    /// deliver only when no party can run
    Lazy,
    /// the given party runs only when nothing else can
    Slow(usize),
    /// the given party runs whenever it can
    Fast(usize),
}

impl Policy {
    pub fn parse(s: &str) -> Policy {
        match s {
            "eager" => Policy::Eager,
            "random" => Policy::Random,
            "lazy" => Policy::Lazy,
            "slow0" => Policy::Slow(0),
            "slow1" => Policy::Slow(1),
            "slow2" => Policy::Slow(2),
            "fast0" => Policy::Fast(0),
            "fast1" => Policy::Fast(1),
            "fast2" => Policy::Fast(2),
            _ => panic!("HARNESS: unknown policy {s}"),
        }
    }
}

/// How a message is changed on its way (what a cheating sender, or a broken link, does).
#[derive(Clone, Debug, PartialEq)]
pub enum Mutation {
    None,
    /// xor `mask` into the byte at position `pos` (modulo the length)
    Xor { pos: usize, mask: u8 },
    /// add one (little endian) to the `width`-byte element number `elem` (modulo the count)
    Add { elem: usize, width: usize, delta: u128 },
    /// xor every byte with the mask
    XorAll { mask: u8 },
    /// words of 128 bits from..to: bit 0, the others, or all of them
    Words { from: usize, to: usize, bits: u64 },
    Zero,
    Random,
    /// first half random
    Half,
    Truncate { n: usize },
    Extend { n: usize },
    Empty,
    /// what this party sent on the same link the last time the length was the same
    Replay,
    /// other contents altogether
    Set { bytes: Vec<u8> },
    /// never arrives; the sender's links close
    Cut,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub party: usize,
    /// number of the message among all the party's sends, from 0, or any when None
    pub seq: Option<usize>,
    /// number of the operation in the party's program
    pub op: Option<usize>,
    /// number of the message among the party's sends within the operation
    pub nth: Option<usize>,
    pub to: Option<usize>,
    pub len: Option<usize>,
    pub mutation: Mutation,
}

#[derive(Clone, Debug)]
pub struct NetEv {
    pub send: bool,
    pub peer: usize,
    pub len: usize,
    pub op: usize,
    pub data: Option<Vec<u8>>,
}

#[derive(Default)]
struct Link {
    flight: VecDeque<BytesMut>,
    inbox: VecDeque<BytesMut>,
    history: Vec<Bytes>,
}

pub struct World {
    links: Vec<Link>, // from*3+to
    closed: [bool; 3],
    cut: [bool; 3],
    /// messages sent to a party that had already finished
    late: [usize; 9],
    /// what a cheater says instead of its own data and goes on with
    said: [Option<BytesMut>; 3],
    pub rules: Vec<Rule>,
    pub fired: usize,
    rng: ChaCha12Rng,
    cap: usize,
    auto_deliver: bool,
    ready: [bool; 3],
    yielded: [bool; 3],
    kill: bool,
    pub op: [usize; 3],
    sent: [usize; 3],
    sent_in_op: [usize; 3],
    pub record: bool,
    pub keep_data: bool,
    pub trace: [Vec<NetEv>; 3],
    pub reject_closed: bool,
}

impl World {
    pub fn new(cfg: &SimCfg) -> WorldRef {
        Rc::new(RefCell::new(World {
        links: (0..9).map(|_| Link::default()).collect(),
        closed: [false; 3],
        cut: [false; 3],
        late: [0; 9],
        said: [None, None, None],
        rules: cfg.rules.clone(),
        fired: 0,
        rng: ChaCha12Rng::seed_from_u64(cfg.seed ^ 0x5eed),
        cap: cfg.cap,
        auto_deliver: cfg.policy == Policy::Eager && cfg.cap == usize::MAX,
        ready: [true; 3],
        yielded: [false; 3],
        kill: false,
        op: [0; 3],
        sent: [0; 3],
        sent_in_op: [0; 3],
        record: cfg.record,
        keep_data: cfg.keep_data,
        trace: Default::default(),
        reject_closed: cfg.reject_closed,
        }))
    }
    fn link(&mut self, from: usize, to: usize) -> &mut Link {
        &mut self.links[from * 3 + to]
    }
    pub fn set_op(&mut self, party: usize, op: usize) {
        self.op[party] = op;
        self.sent_in_op[party] = 0;
    }
    fn used(&self, from: usize, to: usize) -> usize {
        let l = &self.links[from * 3 + to];
        l.flight.len() + l.inbox.len()
    }
    fn deliver(&mut self, from: usize, to: usize) {
        if let Some(m) = self.link(from, to).flight.pop_front() {
            self.link(from, to).inbox.push_back(m);
            self.ready[to] = true;
        }
    }
    fn mutate(&mut self, from: usize, to: usize, data: Bytes) -> Option<BytesMut> {
        let seq = self.sent[from];
        let nth = self.sent_in_op[from];
        self.sent[from] += 1;
        self.sent_in_op[from] += 1;
        let op = self.op[from];
        let mut out = BytesMut::from(data.as_ref());
        let mut dropped = false;
        for i in 0..self.rules.len() {
            let r = self.rules[i].clone();
            if r.party != from
                || r.seq.map(|s| s != seq).unwrap_or(false)
                || r.op.map(|s| s != op).unwrap_or(false)
                || r.nth.map(|s| s != nth).unwrap_or(false)
                || r.to.map(|s| s != to).unwrap_or(false)
                || r.len.map(|s| s != data.len()).unwrap_or(false)
            {
                continue;
            }
            let n = out.len();
            match r.mutation {
                Mutation::None => {}
                Mutation::Xor { pos, mask } => {
                    if n > 0 {
                        out[pos % n] ^= mask;
                    }
                }
                Mutation::Add { elem, width, delta } => {
                    if n >= width && width > 0 {
                        let e = (elem % (n / width)) * width;
                        let mut carry = delta;
                        for b in out[e..e + width].iter_mut().rev() {
                            let s = *b as u128 + (carry & 0xff);
                            *b = s as u8;
                            carry = (carry >> 8) + (s >> 8);
                        }
                    }
                }
                Mutation::XorAll { mask } => out.iter_mut().for_each(|b| *b ^= mask),
                Mutation::Words { from, to, bits } => {
                    for w in out.chunks_exact_mut(16).take(to).skip(from) {
                        w.iter_mut().for_each(|b| *b ^= if bits & 2 != 0 { 0xff } else { 0 });
                        w[15] ^= ((bits ^ (bits >> 1)) & 1) as u8;
                    }
                }
                Mutation::Zero => out.iter_mut().for_each(|b| *b = 0),
                Mutation::Random => {
                    for b in out.iter_mut() {
                        *b = self.rng.gen();
                    }
                }
                Mutation::Half => {
                    for b in out.iter_mut().take((n + 1) / 2) {
                        *b = self.rng.gen();
                    }
                }
                Mutation::Truncate { n: k } => out.truncate(n.saturating_sub(k)),
                Mutation::Extend { n: k } => {
                    for _ in 0..k {
                        let b: u8 = self.rng.gen();
                        out.extend_from_slice(&[b]);
                    }
                }
                Mutation::Empty => out.clear(),
                Mutation::Replay => {
                    if let Some(h) = self.links[from * 3 + to]
                        .history
                        .iter()
                        .rev()
                        .find(|h| h.len() == n)
                    {
                        out = BytesMut::from(h.as_ref());
                    }
                }
                Mutation::Set { bytes } => {
                    out = BytesMut::from(bytes.as_slice());
                    self.said[from] = Some(out.clone());
                }
                Mutation::Cut => {
                    dropped = true;
                }
            }
            if out.as_ref() != data.as_ref() || dropped {
                self.fired += 1;
            }
        }
        if dropped {
            self.cut[from] = true;
            self.ready = [true; 3];
            return None;
        }
        if self.rules.iter().any(|r| r.mutation == Mutation::Replay) {
            self.link(from, to).history.push(data);
        }
        Some(out)
    }
}

pub type WorldRef = Rc<RefCell<World>>;

pub struct SimNet {
    id: usize,
    world: WorldRef,
    /// the repository's own network instead of the simulated one
    real: Option<(Box<Aby3Network>, ChaCha12Rng, u64)>,
}

struct SendFut<'a> {
    net: &'a SimNet,
    to: usize,
    data: Option<Bytes>,
    done: bool,
}

impl Future for SendFut<'_> {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.done {
            return Poll::Ready(Ok(()));
        }
        let (me, to) = (self.net.id, self.to);
        let mut w = self.net.world.borrow_mut();
        if w.kill {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::TimedOut, "world killed")));
        }
        if to > 2 || to == me {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "Invalid ID")));
        }
        if w.closed[to] && w.reject_closed {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "peer is gone")));
        }
        if !w.closed[to] && w.used(me, to) >= w.cap {
            return Poll::Pending;
        }
        drop(w);
        let data = self.data.take().unwrap();
        let mut w = self.net.world.borrow_mut();
        if w.record {
            let ev = NetEv {
                send: true,
                peer: to,
                len: data.len(),
                op: w.op[me],
                data: w.keep_data.then(|| data.to_vec()),
            };
            w.trace[me].push(ev);
        }
        if !w.cut[me] {
            if let Some(m) = w.mutate(me, to, data) {
                if !w.closed[to] {
                    w.link(me, to).flight.push_back(m);
                    if w.auto_deliver {
                        w.deliver(me, to);
                    }
                } else {
                    w.late[me * 3 + to] += 1;
                }
            }
        }
        if w.auto_deliver {
            return Poll::Ready(Ok(()));
        }
        // give others a chance between two steps of this party
        w.yielded[me] = true;
        drop(w);
        self.done = true;
        Poll::Pending
    }
}

struct RecvFut<'a> {
    net: &'a SimNet,
    from: usize,
}

impl Future for RecvFut<'_> {
    type Output = io::Result<BytesMut>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let (me, from) = (self.net.id, self.from);
        let mut w = self.net.world.borrow_mut();
        if w.kill {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::TimedOut, "world killed")));
        }
        if from > 2 || from == me {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "Invalid ID")));
        }
        if let Some(m) = w.link(from, me).inbox.pop_front() {
            w.ready[from] = true;
            if w.record {
                let ev = NetEv {
                    send: false,
                    peer: from,
                    len: m.len(),
                    op: w.op[me],
                    data: w.keep_data.then(|| m.to_vec()),
                };
                w.trace[me].push(ev);
            }
            return Poll::Ready(Ok(m));
        }
        if (w.closed[from] || w.cut[from]) && w.link(from, me).flight.is_empty() {
            return Poll::Ready(Err(io::Error::new(
                io::ErrorKind::ConnectionAborted,
                "peer closed",
            )));
        }
        Poll::Pending
    }
}

impl SimNet {
    fn send_to(&self, to: usize, data: Bytes) -> SendFut<'_> {
        SendFut {
            net: self,
            to,
            data: Some(data),
            done: false,
        }
    }
    fn recv_from(&self, from: usize) -> RecvFut<'_> {
        RecvFut { net: self, from }
    }
}

impl SimNet {
    pub fn real(id: usize, world: WorldRef, net: Aby3Network, seed: u64, jitter: u64) -> Self {
        SimNet { id, world, real: Some((Box::new(net), ChaCha12Rng::seed_from_u64(seed), jitter)) }
    }
    /// Waits a random time, in sessions that are to have irregular timing.
    async fn dawdle(&mut self) {
        if let Some((_, rng, j)) = &mut self.real {
            if *j > 0 && rng.gen_range(0..4) == 0 {
                let us = rng.gen_range(0..*j * 1000);
                tokio::time::sleep(std::time::Duration::from_micros(us)).await;
            }
        }
    }
}

impl NetworkTrait for SimNet {
    fn get_id(&self) -> usize {
        self.id
    }
    fn get_num_parties(&self) -> usize {
        3
    }
    fn print_connection_stats(&self, _out: &mut impl std::io::Write) -> io::Result<()> {
        Ok(())
    }
    async fn shutdown(self) -> io::Result<()> {
        if let Some((n, ..)) = self.real {
            return n.shutdown().await;
        }
        Ok(())
    }
    async fn send(&mut self, id: usize, data: Bytes) -> io::Result<()> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.send(id, data).await;
        }
        self.send_to(id, data).await
    }
    async fn send_next_id(&mut self, data: Bytes) -> io::Result<()> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.send_next_id(data).await;
        }
        self.send_to((self.id + 1) % 3, data).await
    }
    async fn send_prev_id(&mut self, data: Bytes) -> io::Result<()> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.send_prev_id(data).await;
        }
        self.send_to((self.id + 2) % 3, data).await
    }
    async fn receive(&mut self, id: usize) -> io::Result<BytesMut> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.receive(id).await;
        }
        self.recv_from(id).await
    }
    async fn receive_prev_id(&mut self) -> io::Result<BytesMut> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.receive_prev_id().await;
        }
        self.recv_from((self.id + 2) % 3).await
    }
    async fn receive_next_id(&mut self) -> io::Result<BytesMut> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.receive_next_id().await;
        }
        self.recv_from((self.id + 1) % 3).await
    }
    async fn broadcast(&mut self, data: Bytes) -> io::Result<Vec<BytesMut>> {
        if self.real.is_some() {
            self.dawdle().await;
            return self.real.as_mut().unwrap().0.broadcast(data).await;
        }
        self.world.borrow_mut().said[self.id] = None;
        for id in 0..3 {
            if id != self.id {
                self.send_to(id, data.clone()).await?;
            }
        }
        let own = self.world.borrow_mut().said[self.id].take().unwrap_or_else(|| BytesMut::from(data.as_ref()));
        let mut res = Vec::with_capacity(3);
        for id in 0..3 {
            if id == self.id {
                res.push(own.clone());
            } else {
                res.push(self.recv_from(id).await?);
            }
        }
        Ok(res)
    }
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed: u64,
    pub ent: [u64; 3],
    pub flip: Option<(usize, u64)>,
    pub policy: Policy,
    pub cap: usize,
    pub rules: Vec<Rule>,
    pub record: bool,
    pub keep_data: bool,
    pub reject_closed: bool,
}

impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            seed: 1,
            ent: [1, 2, 3],
            flip: None,
            policy: Policy::Eager,
            cap: usize::MAX,
            rules: vec![],
            record: false,
            keep_data: false,
            reject_closed: false,
        }
    }
}

pub struct SimResult<O> {
    /// Ok(output) or Err(panic message)
    pub outcome: Vec<Result<O, String>>,
    pub deadlock: bool,
    /// parties that had not finished when nothing could move any more
    pub stuck: Vec<usize>,
    /// messages left unread per link (from, to, count)
    pub leftover: Vec<(usize, usize, usize)>,
    pub trace: [Vec<NetEv>; 3],
    pub fired: usize,
    /// how often each party asked for randomness
    pub draws: [u64; 3],
}

thread_local! { pub static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let text = format!("{msg} at {loc}");
        if msg.starts_with("HARNESS") || loc.starts_with("src/") {
            eprintln!("harness error: {text}");
            std::process::exit(3);
        }
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("panic: {text}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(text));
    }));
}

/// Runs the three parties (each a future made from its network) to the end.
pub fn run<O, F, Fut>(cfg: &SimCfg, mut make: F) -> SimResult<O>
where
    F: FnMut(usize, SimNet, WorldRef) -> Fut,
    Fut: Future<Output = O>,
{
    let world: WorldRef = World::new(cfg);
    let mut rng = ChaCha12Rng::seed_from_u64(cfg.seed);
    let mut futs: Vec<Option<Pin<Box<Fut>>>> = (0..3)
        .map(|i| {
            Some(Box::pin(make(
                i,
                SimNet {
                    id: i,
                    world: world.clone(),
                    real: None,
                },
                world.clone(),
            )))
        })
        .collect();
    let mut outcome: Vec<Option<Result<O, String>>> = vec![None, None, None];
    let waker = futures::task::noop_waker();
    let mut deadlock = false;
    let mut stuck = vec![];
    let mut turn = 0usize;
    let mut ent = [0, 1, 2].map(|i| getrandom::stream(cfg.ent[i], cfg.flip.filter(|f| f.0 == i).map(|f| f.1)));
    loop {
        if futs.iter().all(|f| f.is_none()) {
            break;
        }
        // what can happen next
        let (parties, links) = {
            let w = world.borrow();
            let parties: Vec<usize> = (0..3)
                .filter(|&i| futs[i].is_some() && (w.ready[i] || w.yielded[i]))
                .collect();
            let links: Vec<(usize, usize)> = (0..9)
                .filter(|&l| !w.links[l].flight.is_empty())
                .map(|l| (l / 3, l % 3))
                .collect();
            (parties, links)
        };
        if parties.is_empty() && links.is_empty() {
            // nobody can move: those waiting wait for ever
            let mut w = world.borrow_mut();
            if w.kill {
                panic!("HARNESS: a killed world does not end");
            }
            deadlock = true;
            stuck = (0..3).filter(|&i| futs[i].is_some()).collect();
            w.kill = true;
            w.ready = [true; 3];
            continue;
        }
        enum Step {
            P(usize),
            L(usize, usize),
        }
        let step = {
            let pick_p = |rng: &mut ChaCha12Rng| parties[rng.gen_range(0..parties.len())];
            let pick_l = |rng: &mut ChaCha12Rng| links[rng.gen_range(0..links.len())];
            let any = |rng: &mut ChaCha12Rng, ps: &Vec<usize>| {
                let k = rng.gen_range(0..ps.len() + links.len());
                if k < ps.len() {
                    Step::P(ps[k])
                } else {
                    let l = links[k - ps.len()];
                    Step::L(l.0, l.1)
                }
            };
            match cfg.policy {
                Policy::Eager => {
                    if !links.is_empty() {
                        Step::L(links[0].0, links[0].1)
                    } else {
                        turn += 1;
                        Step::P(parties[turn % parties.len()])
                    }
                }
                Policy::Random => any(&mut rng, &parties),
                Policy::Lazy => {
                    if !parties.is_empty() {
                        Step::P(pick_p(&mut rng))
                    } else {
                        let l = pick_l(&mut rng);
                        Step::L(l.0, l.1)
                    }
                }
                Policy::Slow(s) => {
                    let others: Vec<usize> = parties.iter().copied().filter(|&p| p != s).collect();
                    if others.is_empty() && links.is_empty() {
                        Step::P(s)
                    } else {
                        any(&mut rng, &others)
                    }
                }
                Policy::Fast(s) => {
                    if parties.contains(&s) {
                        Step::P(s)
                    } else if let Some(l) = links.iter().find(|l| l.1 == s) {
                        Step::L(l.0, l.1)
                    } else {
                        any(&mut rng, &parties)
                    }
                }
            }
        };
        match step {
            Step::L(f, t) => world.borrow_mut().deliver(f, t),
            Step::P(i) => {
                {
                    let mut w = world.borrow_mut();
                    w.ready[i] = false;
                    w.yielded[i] = false;
                }
                let mut cx = Context::from_waker(&waker);
                let fut = futs[i].as_mut().unwrap();
                PANIC_MSG.with(|p| *p.borrow_mut() = None);
                getrandom::swap(Some(ent[i]));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    fut.as_mut().poll(&mut cx)
                }));
                ent[i] = getrandom::swap(None).expect("HARNESS: source");
                let res = match r {
                    Ok(Poll::Pending) => None,
                    Ok(Poll::Ready(o)) => Some(Ok(o)),
                    Err(_) => {
                        let m = PANIC_MSG
                            .with(|p| p.borrow_mut().take())
                            .unwrap_or_else(|| "panic".into());
                        if m.starts_with("HARNESS") {
                            std::process::exit(3);
                        }
                        Some(Err(m))
                    }
                };
                if let Some(r) = res {
                    outcome[i] = Some(r);
                    let f = futs[i].take();
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
                    let mut w = world.borrow_mut();
                    w.closed[i] = true;
                    w.ready = [true; 3];
                }
            }
        }
    }
    let mut w = world.borrow_mut();
    let leftover = (0..9)
        .map(|l| {
            (
                l / 3,
                l % 3,
                w.links[l].flight.len() + w.links[l].inbox.len() + w.late[l],
            )
        })
        .filter(|l| l.2 > 0)
        .collect();
    SimResult {
        outcome: outcome.into_iter().map(|o| o.unwrap()).collect(),
        deadlock,
        stuck,
        leftover,
        trace: std::mem::take(&mut w.trace),
        fired: w.fired,
        draws: ent.map(|e| e.n),
    }
}
