//! Ring elements and typed messages: encodes, decodes and converts them with the real code and
//! writes down each result.
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::{Bit, RingImpl, Sharable};
use mpc_net::codecs::BincodeCodec;
use num_traits::{One, Zero};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tokio_util::codec::{Decoder, Encoder};

#[derive(Deserialize, Clone, Debug, Default)]
#[serde(default)]
pub struct Scen {
    pub id: String,
    /// a ring, or "msg"
    pub ring: String,
    /// pairs of elements
    pub xs: Vec<String>,
    pub ys: Vec<String>,
    /// shift amounts, lengths of fragments
    pub ns: Vec<usize>,
}

trait Prim: Sharable {
    const BITS: usize;
    fn parse(s: &str) -> Self;
}
macro_rules! prim {
    ($($t:ty, $u:ty);*) => { $(impl Prim for $t {
        const BITS: usize = <$u>::BITS as usize;
        fn parse(s: &str) -> Self { <$u>::from_str_radix(s, 16).expect("HARNESS: element") as $t }
    })* }
}
prim!(u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; i8, u8; i16, u16; i32, u32; i64, u64; i128, u128);
impl Prim for Bit {
    const BITS: usize = 1;
    fn parse(s: &str) -> Self {
        Bit::new(s == "1")
    }
}

fn hex(v: u128, k: usize) -> String {
    format!("{:0w$x}", if k < 128 { v & ((1 << k) - 1) } else { v }, w = (k + 3) / 4)
}
/// What an element of a ring is, from its decimal notation.
fn shown<R: RingImpl>(r: &R) -> String {
    hex(r.to_string().parse::<u128>().expect("HARNESS: decimal"), R::K)
}
fn shown_s<S: Prim>(s: S) -> String {
    let d = s.to_string();
    match d.strip_prefix('-') {
        Some(m) => hex((m.parse::<u128>().expect("HARNESS: decimal")).wrapping_neg(), S::BITS),
        None => hex(d.parse::<u128>().expect("HARNESS: decimal"), S::BITS),
    }
}
fn guard(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}
fn or_err<R: RingImpl, E>(r: Result<R, E>) -> String {
    r.map(|r| shown(&r)).unwrap_or("err".into())
}
fn all<R: RingImpl>(rs: &[R]) -> String {
    rs.iter().map(shown).collect()
}
fn serde<M: Serialize + DeserializeOwned>(m: &M) -> Option<M> {
    let b = bincode::serialize(m).ok()?;
    bincode::deserialize(&b).ok()
}

fn ring<S: Prim>(sc: &Scen) -> Vec<Value>
where
    S::Share: PartialEq + Clone,
{
    let mut ev = vec![];
    let mut say = |op: &str, x: &str, y: &str, n: usize, r: String| ev.push(json!({"op": op, "x": x, "y": y, "n": n, "r": r}));
    let k = S::BITS;
    let width = k.div_ceil(8);
    let el = |x: &str| S::parse(x).to_sharetype();
    type V<S> = <<S as Sharable>::VerificationShare as Sharable>::Share;
    for (i, x) in sc.xs.iter().enumerate() {
        let y = &sc.ys[i % sc.ys.len()];
        let (s, a, b) = (S::parse(x), el(x), el(y));
        say("share", x, "", 0, guard(|| shown(&s.to_sharetype())));
        say("unshare", x, "", 0, guard(|| shown_s(S::from_sharetype(a.clone()))));
        say("bytes", x, "", width, guard(|| or_err(S::Share::from_bytes(a.clone().to_bytes()))));
        say("bytes", x, "", width, guard(|| {
            let mut o = BytesMut::new();
            a.add_to_bytes(&mut o);
            let l = o.len();
            let r = or_err(S::Share::from_bytes_mut(o));
            if l == width { r } else { format!("{l} bytes") }
        }));
        say("bytes2", x, y, 0, guard(|| {
            let mut o = BytesMut::new();
            a.add_to_bytes(&mut o);
            b.add_to_bytes(&mut o);
            let p = or_err(S::Share::take_from_bytes_mut(&mut o));
            let q = or_err(S::Share::take_from_bytes_mut(&mut o));
            format!("{p}{q}{}", or_err(S::Share::take_from_bytes_mut(&mut o)))
        }));
        say("badlen", x, "", 0, guard(|| {
            let mut o = BytesMut::new();
            a.add_to_bytes(&mut o);
            let mut long = o.clone();
            long.extend_from_slice(&[0]);
            let short = o.split_off(1);
            let mut shorter = short.clone();
            let r = [
                or_err(S::Share::from_bytes_mut(long.clone())),
                or_err(S::Share::from_bytes(long.freeze())),
                or_err(S::Share::from_bytes_mut(short.clone())),
                or_err(S::Share::from_bytes(short.freeze())),
                or_err(S::Share::from_bytes(Bytes::new())),
                or_err(S::Share::take_from_bytes_mut(&mut shorter)),
            ];
            if r.iter().all(|r| r == "err") { "err".into() } else { r.join(",") }
        }));
        say("serde", x, "", 0, guard(|| serde(&a).map(|r| shown(&r)).unwrap_or("err".into())));
        say("serde", x, "", 0, guard(|| serde(&s).map(|r| shown_s(r)).unwrap_or("err".into())));
        say("serde2", x, y, 0, guard(|| serde(&vec![a.clone(), b.clone()]).map(|r| all(&r)).unwrap_or("err".into())));
        say("tobits", x, "", 0, guard(|| a.to_bits().iter().map(|b| b.to_string()).collect()));
        say("frombits", x, "", 0, guard(|| or_err(S::Share::from_bits(&a.to_bits()))));
        if k > 1 {
            say("refuse", x, "", 0, guard(|| or_err(S::Share::from_bits(&a.to_bits()[1..]))));
        }
        say("msb", x, "", 0, guard(|| a.get_msb().to_string()));
        for &n in sc.ns.iter().filter(|&&n| n < k) {
            say("bit", x, "", n, guard(|| shown(&a.get_bit(n))));
            say("shl", x, "", n, guard(|| shown(&(a.clone() << n as u32))));
            say("shr", x, "", n, guard(|| shown(&(a.clone() >> n as u32))));
            say(if sc.ring.starts_with('i') { "ashr" } else { "shr" }, x, "", n, guard(|| shown(&S::arithmetic_shr(a.clone(), n as u32))));
            say("shl", x, "", n, guard(|| { let mut c = a.clone(); c <<= n as u32; shown(&c) }));
            say("shr", x, "", n, guard(|| { let mut c = a.clone(); c >>= n as u32; shown(&c) }));
        }
        say("up", x, "", 0, guard(|| shown(&a.clone().upgrade_to_128())));
        let vk = <V<S> as RingImpl>::K;
        say("vup", x, "", vk, guard(|| shown(&S::to_verificationtype(a.clone()))));
        say("same", x, "", 0, guard(|| shown(&S::from_verificationtype(S::to_verificationtype(a.clone())))));
        say("same", x, "", 0, guard(|| shown_s(S::from_verificationshare(s.to_verificationshare()))));
        say("inv", x, "", 0, guard(|| or_err(a.inverse())));
        if !b.is_zero() {
            say("div", x, y, 0, guard(|| shown(&a.clone().floor_div(&b))));
        }
        say("add", x, y, 0, guard(|| shown(&(a.clone() + b.clone()))));
        say("add", x, y, 0, guard(|| { let mut c = a.clone() + &b; c -= &b; c += b.clone(); shown(&c) }));
        say("sub", x, y, 0, guard(|| shown(&(a.clone() - b.clone()))));
        say("sub", x, y, 0, guard(|| { let mut c = a.clone(); c -= b.clone(); c += &b; shown(&(c - &b)) }));
        say("mul", x, y, 0, guard(|| shown(&(a.clone() * b.clone()))));
        say("mul", x, y, 0, guard(|| { let mut c = a.clone(); c *= &b; shown(&c) }));
        say("neg", x, "", 0, guard(|| shown(&-a.clone())));
        say("xor", x, y, 0, guard(|| shown(&(a.clone() ^ b.clone()))));
        say("and", x, y, 0, guard(|| shown(&(a.clone() & b.clone()))));
        say("and", x, y, 0, guard(|| { let mut c = a.clone(); c &= &b; shown(&c) }));
        say("or", x, y, 0, guard(|| { let mut c = a.clone(); c |= b.clone(); shown(&c) }));
        say("not", x, "", 0, guard(|| shown(&!a.clone())));
        say("one", x, "", 0, guard(|| shown(&(a.clone() * S::Share::one() + S::Share::zero()))));
    }
    // whole vectors
    let vs: Vec<S> = sc.xs.iter().map(|x| S::parse(x)).collect();
    let x = sc.xs.concat();
    say("vec", &x, "", 0, guard(|| all(&S::vec_to_sharetype(vs.clone()))));
    say("vec", &x, "", 0, guard(|| all(S::slice_to_sharetype(&vs))));
    say("vec", &x, "", 0, guard(|| S::vec_from_sharetype(S::vec_to_sharetype(vs.clone())).into_iter().map(shown_s).collect()));
    say("vec", &x, "", 0, guard(|| S::slice_from_sharetype(S::slice_to_sharetype(&vs)).iter().copied().map(shown_s).collect()));
    say("vec", &x, "", 0, guard(|| {
        let mut o = BytesMut::new();
        vs.iter().for_each(|v| v.to_sharetype().add_to_bytes(&mut o));
        vs.iter().map(|_| or_err(S::Share::take_from_bytes_mut(&mut o))).collect()
    }));
    ev
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Kind {
    Unit,
    Pair(u16, i64),
    Named { text: String, flags: Vec<bool> },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Message {
    n: u128,
    s: i32,
    kind: Kind,
    body: Vec<u8>,
    inner: Option<Box<Message>>,
}
fn message(seed: &str, l: usize) -> Message {
    let n = u128::from_str_radix(seed, 16).expect("HARNESS: seed");
    Message {
        n,
        s: n as i32,
        kind: match n % 3 {
            0 => Kind::Unit,
            1 => Kind::Pair(n as u16, -(n as i64 & 0xff)),
            _ => Kind::Named { text: format!("{n:x}\u{e9}"), flags: (0..n % 13).map(|i| i % 2 == 0).collect() },
        },
        body: (0..l).map(|i| (i as u128).wrapping_mul(n | 1) as u8).collect(),
        inner: (n % 2 == 0).then(|| Box::new(Message { n: !n, s: -1, kind: Kind::Unit, body: vec![0; l % 5], inner: None })),
    }
}

/// Several messages in one stream, which arrives in fragments.
fn stream<M: Serialize + DeserializeOwned + PartialEq + Clone>(ms: &[M], cuts: &[usize]) -> String {
    guard(|| {
        let mut c = BincodeCodec::<M>::new();
        let mut b = BytesMut::new();
        for m in ms {
            if c.encode(m.clone(), &mut b).is_err() {
                return "err".into();
            }
        }
        let (mut d, mut buf, mut got, mut i) = (c.clone(), BytesMut::new(), vec![], 0);
        while !b.is_empty() {
            let n = cuts[i % cuts.len()].max(1).min(b.len());
            i += 1;
            buf.extend_from_slice(&b.split_to(n));
            loop {
                match d.decode(&mut buf) {
                    Ok(Some(m)) => got.push(m),
                    Ok(None) => break,
                    Err(_) => return "err".into(),
                }
            }
        }
        if got.len() != ms.len() {
            format!("{} messages instead of {}", got.len(), ms.len())
        } else if let Some(i) = (0..ms.len()).find(|&i| got[i] != ms[i]) {
            format!("message {i} differs")
        } else if !buf.is_empty() {
            "bytes left over".into()
        } else {
            "same".into()
        }
    })
}

fn messages(sc: &Scen) -> Vec<Value> {
    let mut ev = vec![];
    let n = |x: &String| u128::from_str_radix(x, 16).expect("HARNESS: element");
    let mut say = |op: &str, r: String| ev.push(json!({"op": "stream", "x": op, "y": "", "n": sc.xs.len(), "r": r}));
    let cuts: Vec<usize> = sc.ys.iter().map(|y| n(y) as usize).collect();
    say("u8", stream(&sc.xs.iter().map(|x| n(x) as u8).collect::<Vec<_>>(), &cuts));
    say("u16", stream(&sc.xs.iter().map(|x| n(x) as u16).collect::<Vec<_>>(), &cuts));
    say("i64", stream(&sc.xs.iter().map(|x| n(x) as i64).collect::<Vec<_>>(), &cuts));
    say("u128", stream(&sc.xs.iter().map(n).collect::<Vec<_>>(), &cuts));
    say("string", stream(&sc.xs.clone(), &cuts));
    say("option", stream(&sc.xs.iter().map(|x| (n(x) % 2 == 0).then(|| n(x) as u32)).collect::<Vec<_>>(), &cuts));
    say("unit", stream(&sc.xs.iter().map(|_| ()).collect::<Vec<_>>(), &cuts));
    let ls: Vec<usize> = sc.ns.clone();
    say("struct", stream(&sc.xs.iter().enumerate().map(|(i, x)| message(x, ls[i % ls.len()])).collect::<Vec<_>>(), &cuts));
    say("vector", stream(&sc.xs.iter().enumerate().map(|(i, x)| vec![n(x); ls[i % ls.len()] / 16]).collect::<Vec<_>>(), &cuts));
    say("elements", stream(&sc.xs.iter().map(|x| vec![(n(x) as u16).to_sharetype(); 3]).collect::<Vec<_>>(), &cuts));
    say("bits", stream(&sc.xs.iter().map(|x| vec![Bit::new(n(x) % 2 == 1).to_sharetype(); 3]).collect::<Vec<_>>(), &cuts));
    ev
}

pub fn run_file(inp: &str, out: &str) {
    let mut f = String::new();
    for (i, l) in std::fs::read_to_string(inp).expect("HARNESS: input").lines().enumerate() {
        let sc: Scen = serde_json::from_str(l).expect("HARNESS: scenario");
        let (k, ev) = match sc.ring.as_str() {
            "u8" => (8, ring::<u8>(&sc)),
            "u16" => (16, ring::<u16>(&sc)),
            "u32" => (32, ring::<u32>(&sc)),
            "u64" => (64, ring::<u64>(&sc)),
            "u128" => (128, ring::<u128>(&sc)),
            "i8" => (8, ring::<i8>(&sc)),
            "i16" => (16, ring::<i16>(&sc)),
            "i32" => (32, ring::<i32>(&sc)),
            "i64" => (64, ring::<i64>(&sc)),
            "i128" => (128, ring::<i128>(&sc)),
            "bit" => (1, ring::<Bit>(&sc)),
            "msg" => (8, messages(&sc)),
            r => panic!("HARNESS: unknown ring {r}"),
        };
        f.push_str(&json!([i, {"id": sc.id, "ring": sc.ring, "k": k, "ev": ev}]).to_string());
        f.push('\n');
    }
    std::fs::write(out, f).expect("HARNESS: output");
    std::process::exit(0);
}
