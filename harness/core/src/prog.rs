//! Runs a program of protocol operations at three parties and writes down what each party got.
use crate::mpc::*;
use crate::sim::*;
use futures::FutureExt;
use iris_mpc::prelude::{Aby3Network, Error};
use mpc_net::config::{NetworkConfig, NetworkParty};
use plain_reference::IrisCodeArray;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct RuleJ {
    pub party: usize,
    pub seq: Option<usize>,
    pub op: Option<usize>,
    pub nth: Option<usize>,
    pub to: Option<usize>,
    pub len: Option<usize>,
    pub kind: String,
    pub a: usize,
    pub b: usize,
    pub c: u64,
    pub x: String,
}
impl RuleJ {
    pub fn rule(&self) -> Rule {
        let mutation = match self.kind.as_str() {
            "none" => Mutation::None,
            "xor" => Mutation::Xor { pos: self.a, mask: self.b as u8 },
            "add" => Mutation::Add { elem: self.a, width: self.b, delta: self.c as u128 },
            "sub" => Mutation::Add { elem: self.a, width: self.b, delta: (self.c as u128).wrapping_neg() },
            "xorall" => Mutation::XorAll { mask: self.b as u8 },
            "words" => Mutation::Words { from: self.a, to: self.b, bits: self.c },
            "zero" => Mutation::Zero,
            "random" => Mutation::Random,
            "half" => Mutation::Half,
            "trunc" => Mutation::Truncate { n: self.a },
            "extend" => Mutation::Extend { n: self.a },
            "empty" => Mutation::Empty,
            "replay" => Mutation::Replay,
            "set" => Mutation::Set { bytes: self.x.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect() },
            "cut" => Mutation::Cut,
            k => panic!("HARNESS: unknown mutation {k}"),
        };
        Rule { party: self.party, seq: self.seq, op: self.op, nth: self.nth, to: self.to, len: self.len, mutation }
    }
}

#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Scenario {
    pub id: String,
    pub proto: String,
    pub ring: String,
    pub seed: u64,
    /// names of the streams of randomness of the parties; from the seed if there are none
    pub ent: Vec<u64>,
    /// party and number of its draw that comes out differently
    pub flip: Vec<u64>,
    pub policy: String,
    pub cap: usize,
    pub iris: bool,
    pub record: bool,
    pub data: bool,
    /// write down only the communication of these operations, if any are given
    pub keep: Vec<usize>,
    pub reject_closed: bool,
    /// run over the repository's network, with random pauses of up to so many milliseconds
    pub real: bool,
    pub jitter: u64,
    pub delays: Vec<u64>,
    pub rules: Vec<RuleJ>,
    pub ops: Vec<Op>,
    pub tag: Value,
}

#[derive(Deserialize, Serialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Op {
    pub op: String,
    pub p: usize,
    pub x: i64,
    pub y: i64,
    pub d: i64,
    pub n: usize,
    pub c: usize,
    pub v: String,
    pub xs: Vec<i64>,
    pub ys: Vec<i64>,
    pub ms: Vec<String>,
    /// linear operations: 0 the protocol's methods, else a way to write the operator of the shares
    pub w: usize,
    /// do not write the shares down
    pub q: bool,
    /// this party deviates here (corrupt operations), or has no input (input)
    pub f: bool,
}

pub fn err_name(e: &Error) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

pub fn unpack(s: &str, w: usize) -> Vec<String> {
    s.as_bytes().chunks(w).map(|c| String::from_utf8(c.to_vec()).unwrap()).collect()
}

pub fn mask_of(s: &str) -> IrisCodeArray {
    let mut m = IrisCodeArray::ZERO;
    let b = s.as_bytes();
    for i in 0..IrisCodeArray::IRIS_CODE_SIZE {
        let byte = u8::from_str_radix(std::str::from_utf8(&b[(i / 8) * 2..(i / 8) * 2 + 2]).unwrap(), 16).expect("HARNESS: mask");
        if (byte >> (i % 8)) & 1 == 1 {
            m.set_bit(i, true);
        }
    }
    m
}
pub fn bits_of(s: &str) -> Vec<bool> {
    let b = s.as_bytes();
    (0..b.len() * 4)
        .map(|i| {
            let byte = u8::from_str_radix(std::str::from_utf8(&b[(i / 8) * 2..(i / 8) * 2 + 2]).unwrap(), 16).unwrap();
            (byte >> (i % 8)) & 1 == 1
        })
        .collect()
}

type Log = Rc<RefCell<Vec<Value>>>;

fn shares_json<P: Party>(a: &[P::A]) -> Value {
    pack(a.iter().map(P::a_comp).collect())
}
fn bits_json<P: Party>(a: &[P::B]) -> Value {
    pack(a.iter().map(P::b_comp).collect())
}
fn pack(c: Vec<Vec<String>>) -> Value {
    let n = c.first().map(|x| x.len()).unwrap_or(0);
    let mut out = vec![String::new(); n];
    for e in &c {
        for (o, s) in out.iter_mut().zip(e) {
            o.push_str(s);
        }
    }
    json!({"k":"s","s":out,"n":c.len()})
}

struct Machine<P: Party> {
    me: usize,
    p: P,
    a: HashMap<i64, Vec<P::A>>,
    b: HashMap<i64, Vec<P::B>>,
    dealt: u64,
    key: String,
    seed: u64,
    codes: HashMap<i64, String>,
}

impl<P: Party> Machine<P> {
    fn ra(&self, r: i64) -> Vec<P::A> {
        self.a.get(&r).cloned().unwrap_or_else(|| panic!("HARNESS: no register {r}"))
    }
    fn rb(&self, r: i64) -> Vec<P::B> {
        self.b.get(&r).cloned().unwrap_or_else(|| panic!("HARNESS: no bit register {r}"))
    }
    fn dealer_rng(&mut self) -> ChaCha12Rng {
        self.dealt += 1;
        ChaCha12Rng::seed_from_u64(self.seed.wrapping_mul(1000003).wrapping_add(self.dealt))
    }
    fn put(&mut self, o: &Op, v: Vec<P::A>) -> Value {
        let j = if o.q { json!({"k":"ok"}) } else { shares_json::<P>(&v) };
        self.a.insert(o.d, v);
        j
    }
    fn putb(&mut self, o: &Op, v: Vec<P::B>) -> Value {
        let j = if o.q { json!({"k":"ok"}) } else { bits_json::<P>(&v) };
        self.b.insert(o.d, v);
        j
    }
    async fn step(&mut self, o: &Op) -> Result<Value, Error> {
        let w = hexw(P::T::K);
        let vals = |s: &str| -> Vec<P::T> { unpack(s, w).iter().map(|x| P::T::unhx(x)).collect() };
        Ok(match o.op.as_str() {
            "preprocess" => {
                self.p.preprocess().await?;
                json!({"k":"ok"})
            }
            "precompute" => {
                self.p.precompute(o.n).await?;
                json!({"k":"ok"})
            }
            "newkey" => {
                self.p.set_new_mac_key();
                json!({"k":"s","s":self.p.key_share(),"n":1})
            }
            "dealkey" => {
                self.key = o.v.clone();
                let mut rng = self.dealer_rng();
                let one = format!("{:0w$x}", 1, w = w);
                let s = P::dealer(P::T::unhx(&one), &self.key, &mut rng);
                self.p.set_mac_key(s[self.me].clone());
                json!({"k":"s","s":self.p.key_share(),"n":1})
            }
            "input" => {
                let mut out = vec![];
                for v in vals(&o.v) {
                    let mine = if self.me == o.p && !o.f { Some(v) } else { None };
                    out.push(self.p.input(mine, o.p).await?);
                }
                self.put(o, out)
            }
            "deal" => {
                let mut rng = self.dealer_rng();
                let mut out = vec![];
                for v in vals(&o.v) {
                    let s = P::dealer(v, &self.key, &mut rng);
                    if s.len() != 3 {
                        return Ok(json!({"k":"bad","e":format!("dealer made {} shares", s.len())}));
                    }
                    out.push(s[self.me].clone());
                }
                self.put(o, out)
            }
            "bdeal" => {
                // the lowest bits of a sharing of a number share its lowest bit
                let mut rng = self.dealer_rng();
                let out = o
                    .v
                    .chars()
                    .map(|b| {
                        let v = P::T::unhx(&format!("{:0w$x}", (b == '1') as u8, w = w));
                        let a = &P::dealer(v, "", &mut rng)[self.me];
                        let c: Vec<bool> = P::a_comp(a).iter().map(|x| u8::from_str_radix(&x[x.len() - 1..], 16).unwrap() & 1 == 1).collect();
                        P::b_of(&c)
                    })
                    .collect();
                self.putb(o, out)
            }
            "dealbits" => {
                self.codes.insert(o.d, o.v.clone());
                let mut rng = self.dealer_rng();
                let z = P::T::unhx(&format!("{:0w$x}", 0, w = w));
                let e = P::T::unhx(&format!("{:0w$x}", 1, w = w));
                let out = bits_of(&o.v)
                    .into_iter()
                    .map(|b| P::dealer(if b { e } else { z }, &self.key, &mut rng)[self.me].clone())
                    .collect();
                self.put(o, out)
            }
            "add" | "sub" | "mul" => {
                let (x, y) = (self.ra(o.x), self.ra(o.y));
                let mut out = vec![];
                for (a, b) in x.into_iter().zip(y) {
                    out.push(match (o.op.as_str(), o.w) {
                        ("add", 0) => self.p.add(a, b),
                        ("add", w) => P::op_add(a, b, w),
                        ("sub", 0) => self.p.sub(a, b),
                        ("sub", w) => P::op_sub(a.clone(), b.clone(), w).unwrap_or_else(|| self.p.sub(a, b)),
                        _ => self.p.mul(a, b).await?,
                    });
                }
                self.put(o, out)
            }
            "add_const" | "sub_const" | "mul_const" => {
                let x = self.ra(o.x);
                let c = vals(&o.v);
                let out = x
                    .into_iter()
                    .zip(c)
                    .map(|(a, b)| match o.op.as_str() {
                        "add_const" => self.p.add_const(a, b),
                        "sub_const" => self.p.sub_const(a, b),
                        _ if o.w > 0 => P::op_mul(a.clone(), b, o.w).unwrap_or_else(|| self.p.mul_const(a, b)),
                        _ => self.p.mul_const(a, b),
                    })
                    .collect();
                self.put(o, out)
            }
            "dot" => {
                let (x, y) = (P::av(&self.ra(o.x)), P::av(&self.ra(o.y)));
                let r = self.p.dot(x, y).await?;
                self.put(o, vec![r])
            }
            "dot_many" => {
                let x: Vec<P::AV> = o.xs.iter().map(|r| P::av(&self.ra(*r))).collect();
                let y: Vec<P::AV> = o.ys.iter().map(|r| P::av(&self.ra(*r))).collect();
                let r = self.p.dot_many(&x, &y).await?;
                self.put(o, r)
            }
            "mdot" => {
                let x = P::av(&self.ra(o.x));
                let y: Vec<P::AV> = o.ys.iter().map(|r| P::av(&self.ra(*r))).collect();
                let m: Vec<_> = o.ms.iter().map(|m| mask_of(m)).collect();
                let r = self.p.masked_dot_many(&x, &y, &m).await?;
                self.put(o, r)
            }
            "msb" => {
                let mut out = vec![];
                for a in self.ra(o.x) {
                    out.push(self.p.msb(a).await?);
                }
                self.putb(o, out)
            }
            "msb_many" => {
                let a = self.ra(o.x);
                let r = self.p.msb_many(a).await?;
                let r = P::bv_split(r);
                self.putb(o, r)
            }
            "xor" => {
                let out = self.rb(o.x).into_iter().zip(self.rb(o.y)).map(|(a, b)| P::op_xor(a, b, o.w)).collect();
                self.putb(o, out)
            }
            "or" => {
                let (x, y) = (self.rb(o.x), self.rb(o.y));
                let mut out = vec![];
                for (a, b) in x.into_iter().zip(y) {
                    out.push(self.p.or(a, b).await?);
                }
                self.putb(o, out)
            }
            "reduce_or" => {
                let v = P::bv(&self.rb(o.x));
                let r = self.p.reduce_or(v, o.c).await?;
                self.putb(o, vec![r])
            }
            "cat" => {
                let mut out = vec![];
                for r in &o.xs {
                    out.extend(self.ra(*r));
                }
                self.put(o, out)
            }
            "slice" => {
                let out = self.ra(o.x)[o.c..o.c + o.n].to_vec();
                self.put(o, out)
            }
            "bcat" => {
                let mut out = vec![];
                for r in &o.xs {
                    out.extend(self.rb(*r));
                }
                self.putb(o, out)
            }
            "bslice" => {
                let out = self.rb(o.x)[o.c..o.c + o.n].to_vec();
                self.putb(o, out)
            }
            "open" => {
                let mut s = String::new();
                for a in self.ra(o.x) {
                    s.push_str(&self.p.open(a).await?.hx());
                }
                json!({"k":"o","v":s})
            }
            "open_many" => {
                let v = P::av(&self.ra(o.x));
                let r = self.p.open_many(v).await?;
                json!({"k":"o","v":r.into_iter().map(|x| x.hx()).collect::<String>()})
            }
            "open_bit" => {
                let mut s = String::new();
                for b in self.rb(o.x) {
                    s.push(if self.p.open_bit(b).await? { '1' } else { '0' });
                }
                json!({"k":"o","v":s})
            }
            "open_bit_many" => {
                let v = P::bv(&self.rb(o.x));
                let r = self.p.open_bit_many(v).await?;
                json!({"k":"o","v":r.into_iter().map(|b| if b {'1'} else {'0'}).collect::<String>()})
            }
            "verify" => {
                self.p.verify().await?;
                json!({"k":"ok"})
            }
            "iris" => {
                let c = P::av(&self.ra(o.x));
                let db: Vec<P::AV> = o.ys.iter().map(|r| P::av(&self.ra(*r))).collect();
                let m = mask_of(&o.v);
                let ms: Vec<_> = o.ms.iter().map(|m| mask_of(m)).collect();
                let r = self.p.iris_in_db(&c, &db, &m, &ms, o.c).await?;
                json!({"k":"o","v":if r {"1"} else {"0"}})
            }
            // what the plaintext reference says
            "plain" => {
                let code = |r: i64, m: &str| plain_reference::IrisCode { code: mask_of(&self.codes[&r]), mask: mask_of(m) };
                let c = code(o.x, &o.v);
                let mut ans = "0";
                for (y, m) in o.ys.iter().zip(&o.ms) {
                    let d = code(*y, m);
                    match std::panic::catch_unwind(|| (c.is_close(&d), d.is_close(&c))) {
                        Err(_) => return Ok(json!({"k":"err","e":"refused"})),
                        Ok((a, b)) if a != b => return Ok(json!({"k":"bad","e":"is_close is not symmetric"})),
                        Ok((true, _)) => ans = "1",
                        Ok(_) => {}
                    }
                }
                json!({"k":"o","v":ans})
            }
            "corrupt" => {
                if self.me == o.p {
                    let mut v = self.ra(o.x);
                    let i = o.n % v.len();
                    v[i] = P::a_corrupt(&v[i], o.c, &o.v);
                    self.a.insert(o.x, v);
                }
                json!({"k":"ok"})
            }
            "bcorrupt" => {
                if self.me == o.p {
                    let mut v = self.rb(o.x);
                    let i = o.n % v.len();
                    v[i] = P::b_flip(&v[i], o.c);
                    self.b.insert(o.x, v);
                }
                json!({"k":"ok"})
            }
            k => panic!("HARNESS: unknown operation {k}"),
        })
    }
}

async fn party<P: Party>(sc: Rc<Scenario>, me: usize, net: SimNet, world: WorldRef, log: Log) -> bool {
    let p = match P::create(net, sc.iris) {
        Ok(p) => p,
        Err(e) => {
            log.borrow_mut().push(json!({"k":"err","e":err_name(&e)}));
            return false;
        }
    };
    let mut m = Machine { me, p, a: HashMap::new(), b: HashMap::new(), dealt: 0, key: String::new(), seed: sc.seed, codes: HashMap::new() };
    for (i, o) in sc.ops.iter().enumerate() {
        world.borrow_mut().set_op(me, i);
        match m.step(o).await {
            Ok(v) => log.borrow_mut().push(v),
            Err(e) => {
                log.borrow_mut().push(json!({"k":"err","e":err_name(&e)}));
                return false;
            }
        }
    }
    world.borrow_mut().set_op(me, sc.ops.len());
    match m.p.finish().await {
        Ok(()) => true,
        Err(e) => {
            log.borrow_mut().push(json!({"k":"err","e":err_name(&e)}));
            false
        }
    }
}

type Raw = (SimResult<bool>, Vec<Vec<Value>>);

/// Runs the scenario at three parties of type P; the result goes to `finish_scenario`.
pub fn exec<P: Party>(sc: &Scenario) -> Value {
    let cfg = prepare(sc);
    let sc = Rc::new(sc.clone());
    if sc.real {
        return finish_scenario(&sc, exec_real::<P>(&sc, &cfg), P::T::K, P::SK);
    }
    let logs: Vec<Log> = (0..3).map(|_| Rc::new(RefCell::new(vec![]))).collect();
    let l2 = logs.clone();
    let s2 = sc.clone();
    let r = run(&cfg, move |i, net, w| party::<P>(s2.clone(), i, net, w, l2[i].clone()));
    let out = logs.iter().map(|l| l.borrow().clone()).collect();
    finish_scenario(&sc, (r, out), P::T::K, P::SK)
}

static PORT: AtomicUsize = AtomicUsize::new(0);
/// A free port of the loopback interface.
pub fn port() -> u16 {
    loop {
        let n = PORT.fetch_add(1, Ordering::SeqCst);
        let p = 10_000 + ((n + (std::process::id() as usize) * 97) % 20_000) as u16;
        if std::net::UdpSocket::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

/// The same, over the repository's own network.
fn exec_real<P: Party>(sc: &Rc<Scenario>, cfg: &SimCfg) -> Raw {
    let dir = std::path::PathBuf::from(std::env::var("VH_CERTS").expect("HARNESS: VH_CERTS"));
    let parties: Vec<NetworkParty> = (0..3)
        .map(|i| {
            let a = format!("127.0.0.1:{}", port()).parse().unwrap();
            NetworkParty { id: i, dns_name: format!("party{i}"), bind_addr: a, public_addr: a, cert_path: dir.join(format!("cert{i}.der")) }
        })
        .collect();
    let logs: Vec<Log> = (0..3).map(|_| Rc::new(RefCell::new(vec![]))).collect();
    let world = World::new(cfg);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("HARNESS: runtime");
    let outcome = rt.block_on(futures::future::join_all((0..3).map(|i| {
        let config = NetworkConfig { parties: parties.clone(), my_id: i, key_path: dir.join(format!("key{i}.der")) };
        let (sc, world, log) = (sc.clone(), world.clone(), logs[i].clone());
        let f = async move {
            let wait = sc.delays.get(i).copied().unwrap_or(0);
            tokio::time::sleep(std::time::Duration::from_millis(wait)).await;
            match Aby3Network::new(config).await {
                Ok(net) => party::<P>(sc.clone(), i, SimNet::real(i, world.clone(), net, sc.seed + i as u64, sc.jitter), world, log).await,
                Err(e) => {
                    log.borrow_mut().push(json!({"k":"err","e":err_name(&e)}));
                    false
                }
            }
        };
        async move { std::panic::AssertUnwindSafe(f).catch_unwind().await.map_err(|_| "panic".to_string()) }
    })));
    rt.shutdown_background();
    let res = SimResult { outcome, deadlock: false, stuck: vec![], leftover: vec![], trace: Default::default(), fired: 0, draws: [0; 3] };
    (res, logs.iter().map(|l| l.borrow().clone()).collect())
}

pub fn prepare(sc: &Scenario) -> SimCfg {
    SimCfg {
        seed: sc.seed,
        ent: [0, 1, 2].map(|i| sc.ent.get(i).copied().unwrap_or((sc.seed << 2) | i as u64)),
        flip: (sc.flip.len() == 2).then(|| (sc.flip[0] as usize, sc.flip[1])),
        policy: if sc.policy.is_empty() { Policy::Eager } else { Policy::parse(&sc.policy) },
        cap: if sc.cap == 0 { usize::MAX } else { sc.cap },
        rules: sc.rules.iter().map(|r| r.rule()).collect(),
        record: sc.record,
        keep_data: sc.data,
        reject_closed: sc.reject_closed,
    }
}

pub fn finish_scenario(sc: &Scenario, raw: Raw, k: usize, sk: usize) -> Value {
    let (res, mut logs) = raw;
    let mut out = vec![];
    for i in 0..3 {
        match &res.outcome[i] {
            Ok(true) => out.push("done".to_string()),
            Ok(false) => out.push("err".to_string()),
            Err(m) => {
                logs[i].push(json!({"k":"panic","e":m}));
                out.push("panic".to_string());
            }
        }
    }
    let events: Vec<Value> = sc
        .ops
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let mut e = serde_json::to_value(o).unwrap();
            let r: Vec<Value> = (0..3).map(|p| logs[p].get(i).cloned().unwrap_or(json!({"k":"none"}))).collect();
            e["r"] = Value::Array(r);
            e
        })
        .collect();
    // what happened at or after the end of the program (finish)
    let tail: Vec<Value> = (0..3)
        .map(|p| logs[p].get(sc.ops.len()).cloned().unwrap_or(json!({"k":"none"})))
        .collect();
    let mut j = json!({
        "id": sc.id, "proto": sc.proto, "ring": sc.ring, "k": k, "sk": sk,
        "ev": events, "tail": tail, "out": out,
        "deadlock": res.deadlock, "stuck": res.stuck, "fired": res.fired, "draws": res.draws.to_vec(),
        "left": res.leftover.iter().map(|l| json!([l.0, l.1, l.2])).collect::<Vec<_>>(),
        "tag": sc.tag,
    });
    if sc.record {
        j["net"] = Value::Array(
            res.trace
                .iter()
                .map(|t| {
                    Value::Array(
                        t.iter()
                            .filter(|e| sc.keep.is_empty() || sc.keep.contains(&e.op))
                            .map(|e| {
                                let mut v = json!({"t": if e.send {"s"} else {"r"}, "p": e.peer, "l": e.len, "o": e.op});
                                if let Some(d) = &e.data {
                                    v["x"] = Value::String(d.iter().map(|b| format!("{b:02x}")).collect());
                                }
                                v
                            })
                            .collect(),
                    )
                })
                .collect(),
        );
    }
    j
}
