//! Parties that talk over the real network layer (QUIC on the loopback interface), following a
//! script; what each of them sent and received is written down.
use bytes::{Bytes, BytesMut};
use vhcore::prog::port;
use iris_mpc::prelude::{Aby3Network, NetworkTrait};
use futures::{SinkExt, StreamExt};
use mpc_net::channel::{BytesChannel, ChannelHandle};
use mpc_net::config::{NetworkConfig, NetworkParty};
use mpc_net::MpcNetworkHandler;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Step {
    /// send, recv, post (a receive whose result is awaited later, by "take"), take, bcast, sleep, sync
    pub a: String,
    pub s: usize,
    pub p: usize,
    /// length of the message, and what it is made from
    pub l: usize,
    pub m: u64,
    /// wait until the message has been handed to the transport
    pub w: bool,
    /// use the blocking variant
    pub b: bool,
}

#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct NetScen {
    pub id: String,
    /// mesh: MpcNetworkHandler and channels; aby3: Aby3Network
    pub kind: String,
    /// ids that the parties run as, and the list of parties in each one's configuration
    pub ids: Vec<usize>,
    pub lists: Vec<Vec<usize>>,
    /// start delays in milliseconds
    pub delays: Vec<u64>,
    /// raw or bincode, one per set of channels
    pub sets: Vec<String>,
    pub progs: Vec<Vec<Step>>,
    /// parties end only after all have done their part
    pub hold: bool,
    /// channels are closed one by one before the end
    pub close: bool,
    pub limit: u64,
    /// datagrams: how many of a thousand are lost, how many are doubled, and by how many milliseconds they
    /// are held back at most (so that they overtake each other); none: no relay in between
    pub relay: Vec<u64>,
    pub tag: Value,
}

/// Carries datagrams between a client and a server, badly.
async fn relay(front: tokio::net::UdpSocket, server: std::net::SocketAddr, how: Vec<u64>, mut x: u64) {
    let (front, back) = (Arc::new(front), Arc::new(tokio::net::UdpSocket::bind("127.0.0.1:0").await.expect("HARNESS: relay")));
    let mut client = None;
    let (mut a, mut b) = (vec![0u8; 1 << 16], vec![0u8; 1 << 16]);
    let mut roll = move |n: u64| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 11) % n
    };
    loop {
        let (sock, to, data) = tokio::select! {
            r = front.recv_from(&mut a) => match r {
                Ok((n, from)) => {
                    client = Some(from);
                    (back.clone(), server, a[..n].to_vec())
                }
                Err(_) => continue,
            },
            r = back.recv_from(&mut b) => match (r, client) {
                (Ok((n, _)), Some(c)) => (front.clone(), c, b[..n].to_vec()),
                _ => continue,
            },
        };
        let times = if roll(1000) < how[0] { 0 } else if roll(1000) < how[1] { 2 } else { 1 };
        for _ in 0..times {
            let (sock, data, wait) = (sock.clone(), data.clone(), roll(how[2] + 1));
            if wait == 0 {
                let _ = sock.send_to(&data, to).await;
            } else {
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_millis(wait)).await;
                    let _ = sock.send_to(&data, to).await;
                });
            }
        }
    }
}

/// A typed message.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Msg {
    pub id: u64,
    pub name: String,
    pub body: Vec<u8>,
    pub opt: Option<Box<Msg>>,
}

fn payload(m: u64, l: usize) -> Vec<u8> {
    let mut x = m.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
    let mut out = Vec::with_capacity(l + 8);
    while out.len() < l {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        out.extend_from_slice(&x.to_le_bytes());
    }
    out.truncate(l);
    out
}

/// A short name for the contents of a message.
fn label(b: &[u8]) -> String {
    if b.len() <= 24 {
        return format!("{}:{}", b.len(), b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    }
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    b.hash(&mut h);
    format!("{}:{}~{:016x}", b.len(), b[..4].iter().map(|x| format!("{x:02x}")).collect::<String>(), h.finish())
}

fn typed(m: u64, l: usize) -> Msg {
    Msg {
        id: m,
        name: format!("message {m}"),
        body: payload(m, l),
        opt: (m % 3 == 0).then(|| Box::new(Msg { id: !m, name: String::new(), body: payload(m ^ 77, l % 7), opt: None })),
    }
}

fn tlabel(m: &Msg) -> String {
    format!("{}/{}/{}/{}", m.id, m.name, label(&m.body), m.opt.as_ref().map(|o| tlabel(o)).unwrap_or_default())
}

/// Certificates and keys, made once.
pub fn certs(dir: &Path, n: usize) {
    std::fs::create_dir_all(dir).expect("HARNESS: directory");
    for i in 0..n {
        let c = rcgen::generate_simple_self_signed(vec![format!("party{i}")]).expect("HARNESS: certificate");
        std::fs::write(dir.join(format!("key{i}.der")), c.serialize_private_key_der()).expect("HARNESS: key");
        std::fs::write(dir.join(format!("cert{i}.der")), c.serialize_der().expect("HARNESS: certificate")).expect("HARNESS: certificate");
    }
}

enum Chan {
    Direct(BytesChannel<quinn::RecvStream, quinn::SendStream>),
    Raw(ChannelHandle<Bytes, BytesMut>),
    Typed(ChannelHandle<Msg, Msg>),
}

type Log = Arc<Mutex<Vec<Value>>>;

enum Pending {
    Raw(tokio::sync::oneshot::Receiver<Result<BytesMut, std::io::Error>>),
    Typed(tokio::sync::oneshot::Receiver<Result<Msg, std::io::Error>>),
}
impl Pending {
    async fn take(self) -> Result<String, String> {
        match self {
            Pending::Raw(r) => r.await.map_err(|e| e.to_string())?.map(|b| label(&b)).map_err(|e| e.to_string()),
            Pending::Typed(r) => r.await.map_err(|e| e.to_string())?.map(|b| tlabel(&b)).map_err(|e| e.to_string()),
        }
    }
}

async fn mesh(cfg: NetworkConfig, sc: Arc<NetScen>, me: usize, log: Log, barrier: Arc<tokio::sync::Barrier>) -> Result<(), String> {
    let id = cfg.my_id;
    let mut net = MpcNetworkHandler::establish(cfg).await.map_err(|e| format!("establish: {e:#}"))?;
    let mut sets: Vec<HashMap<usize, Chan>> = vec![];
    for s in &sc.sets {
        let chans: HashMap<usize, Chan> = if s == "raw" {
            net.get_byte_channels().await.map_err(|e| format!("channels: {e}"))?.into_iter().map(|(i, c)| (i, Chan::Raw(ChannelHandle::manage(c)))).collect()
        } else if s == "direct" {
            net.get_byte_channels().await.map_err(|e| format!("channels: {e}"))?.into_iter().map(|(i, c)| (i, Chan::Direct(c))).collect()
        } else {
            net.get_serde_bincode_channels::<Msg>().await.map_err(|e| format!("channels: {e}"))?.into_iter().map(|(i, c)| (i, Chan::Typed(ChannelHandle::manage(c)))).collect()
        };
        let mut peers: Vec<usize> = chans.keys().copied().collect();
        peers.sort_unstable();
        log.lock().unwrap().push(json!({"a": "peers", "ids": peers, "me": id}));
        sets.push(chans);
    }
    let mut posted: HashMap<(usize, usize), std::collections::VecDeque<Pending>> = HashMap::new();
    let say = |a: &str, s: usize, p: usize, m: String| log.lock().unwrap().push(json!({"a": a, "s": s, "p": p, "m": m}));
    for st in &sc.progs[me] {
        match st.a.as_str() {
            "send" => {
                let c = sets[st.s].get_mut(&st.p).ok_or("no channel to that party")?;
                match c {
                    Chan::Direct(c) => {
                        let b = payload(st.m, st.l);
                        say("send", st.s, st.p, label(&b));
                        SinkExt::<Bytes>::send(c, b.into()).await.map_err(|e| format!("send: {e}"))?;
                    }
                    Chan::Raw(c) => {
                        let b = payload(st.m, st.l);
                        say("send", st.s, st.p, label(&b));
                        let r = if st.b { tokio::task::block_in_place(|| c.blocking_send(b.into())) } else { c.send(b.into()).await };
                        if st.w {
                            r.await.map_err(|e| e.to_string())?.map_err(|e| format!("send: {e}"))?;
                        }
                    }
                    Chan::Typed(c) => {
                        let b = typed(st.m, st.l);
                        say("send", st.s, st.p, tlabel(&b));
                        let r = c.send(b).await;
                        if st.w {
                            r.await.map_err(|e| e.to_string())?.map_err(|e| format!("send: {e}"))?;
                        }
                    }
                }
            }
            "recv" | "post" => {
                let c = sets[st.s].get_mut(&st.p).ok_or("no channel to that party")?;
                let r = match c {
                    Chan::Direct(c) => {
                        let m = c.next().await.ok_or("closed")?.map_err(|e| format!("receive: {e}"))?;
                        say("recv", st.s, st.p, label(&m));
                        continue;
                    }
                    Chan::Raw(c) => Pending::Raw(if st.b { tokio::task::block_in_place(|| c.blocking_recv()) } else { c.recv().await }),
                    Chan::Typed(c) => Pending::Typed(c.recv().await),
                };
                if st.a == "post" {
                    posted.entry((st.s, st.p)).or_default().push_back(r);
                } else {
                    let m = r.take().await.map_err(|e| format!("receive: {e}"))?;
                    say("recv", st.s, st.p, m);
                }
            }
            "take" => {
                let r = posted.get_mut(&(st.s, st.p)).and_then(|q| q.pop_front()).expect("HARNESS: nothing posted");
                let m = r.take().await.map_err(|e| format!("receive: {e}"))?;
                say("recv", st.s, st.p, m);
            }
            "sleep" => tokio::time::sleep(Duration::from_millis(st.l as u64)).await,
            "sync" => {
                barrier.wait().await;
            }
            x => panic!("HARNESS: unknown step {x}"),
        }
    }
    if sc.hold {
        barrier.wait().await;
    }
    let mut closing = vec![];
    for c in sets.into_iter().flatten() {
        match c {
            (_, Chan::Direct(c)) => closing.push(c.close::<Bytes>()),
            (_, Chan::Raw(c)) if sc.close => c.close().await,
            (_, Chan::Typed(c)) if sc.close => c.close().await,
            _ => {}
        }
    }
    for r in futures::future::join_all(closing).await {
        r.map_err(|e| format!("close: {e}"))?;
    }
    if sc.hold {
        barrier.wait().await;
    }
    net.shutdown().await;
    Ok(())
}

async fn aby3(cfg: NetworkConfig, sc: Arc<NetScen>, me: usize, log: Log, barrier: Arc<tokio::sync::Barrier>) -> Result<(), String> {
    let id = cfg.my_id;
    let mut net = Aby3Network::new(cfg).await.map_err(|e| format!("establish: {e}"))?;
    let got = NetworkTrait::get_id(&net);
    let mut others = vec![(id + 1) % 3, (id + 2) % 3];
    others.sort_unstable();
    log.lock().unwrap().push(json!({"a": "peers", "ids": others, "me": got}));
    let say = |a: &str, p: usize, m: String| log.lock().unwrap().push(json!({"a": a, "s": 0, "p": p, "m": m}));
    let (next, prev) = ((id + 1) % 3, (id + 2) % 3);
    let e = |e: std::io::Error| e.to_string();
    for st in &sc.progs[me] {
        match st.a.as_str() {
            "send" | "snext" | "sprev" => {
                let b = payload(st.m, st.l);
                let p = match st.a.as_str() {
                    "snext" => next,
                    "sprev" => prev,
                    _ => st.p,
                };
                say("send", p, label(&b));
                match st.a.as_str() {
                    "snext" => net.send_next_id(b.into()).await.map_err(e)?,
                    "sprev" => net.send_prev_id(b.into()).await.map_err(e)?,
                    _ => net.send(st.p, b.into()).await.map_err(e)?,
                }
            }
            "recv" | "rnext" | "rprev" => {
                let (p, b) = match st.a.as_str() {
                    "rnext" => (next, net.receive_next_id().await.map_err(e)?),
                    "rprev" => (prev, net.receive_prev_id().await.map_err(e)?),
                    _ => (st.p, net.receive(st.p).await.map_err(e)?),
                };
                say("recv", p, label(&b));
            }
            "bcast" => {
                let b = payload(st.m, st.l);
                say("bcast", 0, label(&b));
                let r = net.broadcast(b.into()).await.map_err(e)?;
                log.lock().unwrap().push(json!({"a": "bgot", "ms": r.iter().map(|x| label(x)).collect::<Vec<_>>()}));
            }
            "bad" => {
                // a party that does not exist, or oneself
                let r = net.send(st.p, Bytes::from_static(b"x")).await.is_err();
                let q = net.receive(st.p).await.is_err();
                log.lock().unwrap().push(json!({"a": "bad", "ok": r && q}));
            }
            "sleep" => tokio::time::sleep(Duration::from_millis(st.l as u64)).await,
            "sync" => {
                barrier.wait().await;
            }
            x => panic!("HARNESS: unknown step {x}"),
        }
    }
    if sc.hold {
        barrier.wait().await;
    }
    net.shutdown().await.map_err(e)?;
    Ok(())
}

fn run_one(sc: NetScen, dir: &Path) -> Value {
    let sc = Arc::new(sc);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("HARNESS: runtime");
    let n = sc.ids.len();
    // a port for every id that occurs anywhere
    let mut ports: HashMap<usize, u16> = HashMap::new();
    for i in sc.lists.iter().flatten().chain(sc.ids.iter()) {
        ports.entry(*i).or_insert_with(port);
    }
    let party = |i: usize| {
        let a = format!("127.0.0.1:{}", ports[&i]).parse().unwrap();
        NetworkParty { id: i, dns_name: format!("party{}", i % 8), bind_addr: a, public_addr: a, cert_path: dir.join(format!("cert{}.der", i % 8)) }
    };
    let limit = Duration::from_millis(sc.limit.max(1000));
    let logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
    let barrier = Arc::new(tokio::sync::Barrier::new(n));
    let outs: Vec<String> = rt.block_on(async {
        let mut tasks = vec![];
        for i in 0..n {
            let id = sc.ids[i];
            let mut cfg = NetworkConfig { parties: sc.lists[i].iter().map(|&j| party(j)).collect(), my_id: id, key_path: dir.join(format!("key{}.der", id % 8)) };
            if sc.relay.len() == 3 {
                for p in cfg.parties.iter_mut().filter(|p| p.id != id) {
                    let front = tokio::net::UdpSocket::bind("127.0.0.1:0").await.expect("HARNESS: relay");
                    let at = front.local_addr().expect("HARNESS: relay");
                    tokio::spawn(relay(front, p.public_addr, sc.relay.clone(), ((i * 8 + p.id + 1) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ sc.limit));
                    p.public_addr = at;
                }
            }
            let (sc, log, barrier) = (sc.clone(), logs[i].clone(), barrier.clone());
            let delay = sc.delays.get(i).copied().unwrap_or(0);
            tasks.push(tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(delay)).await;
                let f = async move {
                    if sc.kind == "mesh" {
                        mesh(cfg, sc, i, log, barrier).await
                    } else {
                        aby3(cfg, sc, i, log, barrier).await
                    }
                };
                match tokio::time::timeout(limit, f).await {
                    Err(_) => "hang".to_string(),
                    Ok(Err(e)) => format!("err {e}"),
                    Ok(Ok(())) => "done".to_string(),
                }
            }));
        }
        let mut outs = vec![];
        for t in tasks {
            outs.push(match t.await {
                Ok(s) => s,
                Err(_) => "panic".to_string(),
            });
        }
        outs
    });
    rt.shutdown_background();
    let logs: Vec<Value> = logs.iter().map(|l| Value::Array(l.lock().unwrap().clone())).collect();
    let out: Vec<&str> = outs.iter().map(|o| o.split(' ').next().unwrap()).collect();
    json!({"id": sc.id, "kind": sc.kind, "n": n, "ids": sc.ids, "sets": if sc.kind == "mesh" { sc.sets.len() } else { 1 }, "log": logs, "out": out, "why": outs, "tag": sc.tag})
}

pub fn run_file(inp: &str, out: &str, dir: &str, threads: usize) {
    let dir = PathBuf::from(dir);
    certs(&dir, 8);
    let scens: Vec<NetScen> = std::fs::read_to_string(inp)
        .expect("HARNESS: input")
        .lines()
        .map(|l| {
            serde_json::from_str(l).unwrap_or_else(|e| {
                eprintln!("HARNESS: bad scenario: {e}");
                std::process::exit(3)
            })
        })
        .collect();
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<Option<Value>>> = Mutex::new(vec![None; scens.len()]);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= scens.len() {
                    break;
                }
                let r = run_one(scens[i].clone(), &dir);
                res.lock().unwrap()[i] = Some(r);
            });
        }
    });
    let mut f = String::new();
    for (i, r) in res.into_inner().unwrap().into_iter().enumerate() {
        f.push_str(&json!([i, r.expect("HARNESS: result")]).to_string());
        f.push('\n');
    }
    std::fs::write(out, f).expect("HARNESS: output");
    std::process::exit(0);
}
