//! The four protocols behind one interface.  The crate's own traits cannot be named generically
//! from outside, so the implementations are stamped out per protocol and ring.
use crate::sim::SimNet;
use iris_mpc::prelude::*;
use plain_reference::IrisCodeArray;
use rand_chacha::ChaCha12Rng;

pub type Res<T> = Result<T, Error>;

/// A plaintext ring type, printed as lower-case big-endian hex of fixed width.
pub trait Ring: Copy + 'static {
    const K: usize;
    fn hx(self) -> String;
    fn unhx(s: &str) -> Self;
}
macro_rules! ring {
    ($($t:ty => $u:ty),*) => {$(
        impl Ring for $t {
            const K: usize = <$t>::BITS as usize;
            fn hx(self) -> String { format!("{:0w$x}", self as $u, w = Self::K / 4) }
            fn unhx(s: &str) -> Self { <$u>::from_str_radix(s, 16).expect("HARNESS: bad hex") as $t }
        }
    )*};
}
ring!(u8=>u8, u16=>u16, u32=>u32, u64=>u64, u128=>u128, i8=>u8, i16=>u16, i32=>u32, i64=>u64, i128=>u128);
impl Ring for Bit {
    const K: usize = 1;
    fn hx(self) -> String {
        if self.convert() { "1" } else { "0" }.to_string()
    }
    fn unhx(s: &str) -> Self {
        Bit::new(s == "1")
    }
}
pub fn hexw(k: usize) -> usize {
    (k + 3) / 4
}

#[allow(async_fn_in_trait)]
pub trait Party: Sized {
    type T: Ring;
    type A: Clone;
    type AV: Clone;
    type B: Clone;
    type BV: Clone;
    const PROTO: &'static str;
    /// width of the ring the arithmetic shares live in
    const SK: usize;
    fn create(net: SimNet, iris: bool) -> Res<Self>;
    async fn preprocess(&mut self) -> Res<()>;
    async fn precompute(&mut self, n: usize) -> Res<()>;
    fn set_mac_key(&mut self, key: Self::A);
    fn set_new_mac_key(&mut self);
    fn key_share(&self) -> Vec<String>;
    async fn input(&mut self, v: Option<Self::T>, id: usize) -> Res<Self::A>;
    fn dealer(v: Self::T, key: &str, rng: &mut ChaCha12Rng) -> Vec<Self::A>;
    async fn open(&mut self, a: Self::A) -> Res<Self::T>;
    async fn open_many(&mut self, a: Self::AV) -> Res<Vec<Self::T>>;
    async fn open_bit(&mut self, a: Self::B) -> Res<bool>;
    async fn open_bit_many(&mut self, a: Self::BV) -> Res<Vec<bool>>;
    fn add(&self, a: Self::A, b: Self::A) -> Self::A;
    fn sub(&self, a: Self::A, b: Self::A) -> Self::A;
    fn add_const(&self, a: Self::A, b: Self::T) -> Self::A;
    fn sub_const(&self, a: Self::A, b: Self::T) -> Self::A;
    fn mul_const(&self, a: Self::A, b: Self::T) -> Self::A;
    async fn mul(&mut self, a: Self::A, b: Self::A) -> Res<Self::A>;
    async fn dot(&mut self, a: Self::AV, b: Self::AV) -> Res<Self::A>;
    async fn dot_many(&mut self, a: &[Self::AV], b: &[Self::AV]) -> Res<Vec<Self::A>>;
    async fn masked_dot_many(&mut self, a: &Self::AV, b: &[Self::AV], m: &[IrisCodeArray]) -> Res<Vec<Self::A>>;
    async fn msb(&mut self, a: Self::A) -> Res<Self::B>;
    async fn msb_many(&mut self, a: Vec<Self::A>) -> Res<Self::BV>;
    async fn or(&mut self, a: Self::B, b: Self::B) -> Res<Self::B>;
    async fn reduce_or(&mut self, a: Self::BV, chunk: usize) -> Res<Self::B>;
    async fn verify(&mut self) -> Res<()>;
    async fn iris_in_db(&mut self, c: &Self::AV, db: &[Self::AV], m: &IrisCodeArray, ms: &[IrisCodeArray], chunk: usize) -> Res<bool>;
    async fn finish(self) -> Res<()>;

    /// the same with the operators of the share types, in one of several ways to write it
    fn op_add(a: Self::A, b: Self::A, way: usize) -> Self::A;
    fn op_sub(a: Self::A, b: Self::A, way: usize) -> Option<Self::A>;
    fn op_mul(a: Self::A, b: Self::T, way: usize) -> Option<Self::A>;
    fn op_xor(a: Self::B, b: Self::B, way: usize) -> Self::B;

    fn av(v: &[Self::A]) -> Self::AV;
    fn bv(v: &[Self::B]) -> Self::BV;
    fn bv_split(v: Self::BV) -> Vec<Self::B>;
    /// the share's components, each as hex; for authenticated shares the value's then the MAC's
    fn a_comp(a: &Self::A) -> Vec<String>;
    fn b_comp(b: &Self::B) -> Vec<String>;
    /// the same share with `delta` added to component `comp`
    fn a_corrupt(a: &Self::A, comp: usize, delta: &str) -> Self::A;
    fn b_flip(b: &Self::B, comp: usize) -> Self::B;
    /// the share with these components
    fn b_of(c: &[bool]) -> Self::B;
}

pub enum Hold<M, I> {
    Plain(M),
    Iris(I),
}

pub fn hexs<T: Ring>(x: T) -> String {
    x.hx()
}

#[macro_export]
macro_rules! common {
    ($t:ty, $a:ty, $b:ty, $mpc:ty) => {
        fn create(net: SimNet, iris: bool) -> Res<Self> {
            let m = <$mpc>::new(net);
            Ok(Self(if iris { Hold::Iris(IrisProtocol::new(m)?) } else { Hold::Plain(m) }))
        }
        async fn preprocess(&mut self) -> Res<()> {
            match &mut self.0 {
                Hold::Plain(m) => MpcTrait::<$t, $a, $b>::preprocess(m).await,
                Hold::Iris(i) => i.preprocessing().await,
            }
        }
        async fn precompute(&mut self, n: usize) -> Res<()> {
            MpcTrait::<$t, $a, $b>::precompute_and_triples(self.m(), n).await
        }
        fn set_mac_key(&mut self, key: Self::A) {
            match &mut self.0 {
                Hold::Plain(m) => MpcTrait::<$t, $a, $b>::set_mac_key(m, key),
                Hold::Iris(i) => i.set_mac_key(key),
            }
        }
        fn set_new_mac_key(&mut self) {
            match &mut self.0 {
                Hold::Plain(m) => MpcTrait::<$t, $a, $b>::set_new_mac_key(m),
                Hold::Iris(i) => i.set_new_mac_key(),
            }
        }
        async fn input(&mut self, v: Option<$t>, id: usize) -> Res<Self::A> {
            MpcTrait::<$t, $a, $b>::input(self.m(), v, id).await
        }
        async fn open(&mut self, a: Self::A) -> Res<$t> {
            MpcTrait::<$t, $a, $b>::open(self.m(), a).await
        }
        async fn open_many(&mut self, a: Self::AV) -> Res<Vec<$t>> {
            MpcTrait::<$t, $a, $b>::open_many(self.m(), a).await
        }
        async fn open_bit(&mut self, a: Self::B) -> Res<bool> {
            MpcTrait::<$t, $a, $b>::open_bit(self.m(), a).await
        }
        async fn open_bit_many(&mut self, a: Self::BV) -> Res<Vec<bool>> {
            MpcTrait::<$t, $a, $b>::open_bit_many(self.m(), a).await
        }
        fn add(&self, a: Self::A, b: Self::A) -> Self::A {
            MpcTrait::<$t, $a, $b>::add(self.r(), a, b)
        }
        fn sub(&self, a: Self::A, b: Self::A) -> Self::A {
            MpcTrait::<$t, $a, $b>::sub(self.r(), a, b)
        }
        fn add_const(&self, a: Self::A, b: $t) -> Self::A {
            MpcTrait::<$t, $a, $b>::add_const(self.r(), a, b)
        }
        fn sub_const(&self, a: Self::A, b: $t) -> Self::A {
            MpcTrait::<$t, $a, $b>::sub_const(self.r(), a, b)
        }
        fn mul_const(&self, a: Self::A, b: $t) -> Self::A {
            MpcTrait::<$t, $a, $b>::mul_const(self.r(), a, b)
        }
        async fn mul(&mut self, a: Self::A, b: Self::A) -> Res<Self::A> {
            MpcTrait::<$t, $a, $b>::mul(self.m(), a, b).await
        }
        async fn dot(&mut self, a: Self::AV, b: Self::AV) -> Res<Self::A> {
            MpcTrait::<$t, $a, $b>::dot(self.m(), a, b).await
        }
        async fn dot_many(&mut self, a: &[Self::AV], b: &[Self::AV]) -> Res<Vec<Self::A>> {
            MpcTrait::<$t, $a, $b>::dot_many(self.m(), a, b).await
        }
        async fn masked_dot_many(&mut self, a: &Self::AV, b: &[Self::AV], m: &[IrisCodeArray]) -> Res<Vec<Self::A>> {
            MpcTrait::<$t, $a, $b>::masked_dot_many(self.m(), a, b, m).await
        }
        async fn msb(&mut self, a: Self::A) -> Res<Self::B> {
            MpcTrait::<$t, $a, $b>::get_msb(self.m(), a).await
        }
        async fn msb_many(&mut self, a: Vec<Self::A>) -> Res<Self::BV> {
            MpcTrait::<$t, $a, $b>::get_msb_many(self.m(), a).await
        }
        async fn or(&mut self, a: Self::B, b: Self::B) -> Res<Self::B> {
            MpcTrait::<$t, $a, $b>::binary_or(self.m(), a, b).await
        }
        async fn reduce_or(&mut self, a: Self::BV, chunk: usize) -> Res<Self::B> {
            MpcTrait::<$t, $a, $b>::reduce_binary_or(self.m(), a, chunk).await
        }
        async fn verify(&mut self) -> Res<()> {
            MpcTrait::<$t, $a, $b>::verify(self.m()).await
        }
        async fn iris_in_db(
            &mut self, c: &Self::AV, db: &[Self::AV], m: &IrisCodeArray, ms: &[IrisCodeArray], chunk: usize,
        ) -> Res<bool> {
            match &mut self.0 {
                Hold::Plain(_) => panic!("HARNESS: iris_in_db outside an iris session"),
                Hold::Iris(i) => i.iris_in_db(c, db, m, ms, chunk).await,
            }
        }
        async fn finish(self) -> Res<()> {
            match self.0 {
                Hold::Plain(m) => MpcTrait::<$t, $a, $b>::finish(m).await,
                Hold::Iris(i) => i.finish().await,
            }
        }
        fn bv(v: &[Self::B]) -> Self::BV {
            v.to_vec()
        }
        fn bv_split(v: Self::BV) -> Vec<Self::B> {
            v
        }
    };
}

#[macro_export]
macro_rules! accessors {
    ($name:ident, $mpc:ty) => {
        impl $name {
            #[allow(dead_code)]
            fn m(&mut self) -> &mut $mpc {
                match &mut self.0 {
                    Hold::Plain(m) => m,
                    Hold::Iris(i) => i.get_mpc_mut(),
                }
            }
            #[allow(dead_code)]
            fn r(&self) -> &$mpc {
                match &self.0 {
                    Hold::Plain(m) => m,
                    Hold::Iris(i) => i.get_mpc_ref(),
                }
            }
        }
    };
}

#[macro_export]
macro_rules! bits2 {
    () => {
        fn b_comp(b: &Self::B) -> Vec<String> {
            let (x, y) = b.clone().get_ab();
            vec![hexs(x.convert()), hexs(y.convert())]
        }
        fn b_of(c: &[bool]) -> Self::B {
            Aby3Share::new(Bit::new(c[0]).to_sharetype(), Bit::new(c[1]).to_sharetype())
        }
        fn b_flip(b: &Self::B, comp: usize) -> Self::B {
            let (x, y) = b.clone().get_ab();
            if comp == 0 {
                Aby3Share::new(!x, y)
            } else {
                Aby3Share::new(x, !y)
            }
        }
    };
}

#[macro_export]
macro_rules! operators {
    ($t:ident) => {
        fn op_add(mut a: Self::A, b: Self::A, way: usize) -> Self::A {
            match way % 4 {
                0 => a + b,
                1 => a + &b,
                2 => {
                    a += b;
                    a
                }
                _ => {
                    a += &b;
                    a
                }
            }
        }
        fn op_sub(mut a: Self::A, b: Self::A, way: usize) -> Option<Self::A> {
            Some(match way % 5 {
                0 => a - b,
                1 => a - &b,
                2 => {
                    a -= b;
                    a
                }
                3 => {
                    a -= &b;
                    a
                }
                _ => a + -b,
            })
        }
        fn op_mul(mut a: Self::A, b: $t, way: usize) -> Option<Self::A> {
            let n = (0..<$t as Ring>::K as u32).find(|n| b == (1 as $t).wrapping_shl(*n));
            let b = b.to_sharetype();
            Some(match (way % 6, n) {
                (0, _) => a * b,
                (1, _) => a * &b,
                (2, _) => {
                    a *= b;
                    a
                }
                (3, _) => {
                    a *= &b;
                    a
                }
                (4, Some(n)) => a << n,
                (5, Some(n)) => {
                    a <<= n;
                    a
                }
                (4, _) => b * a,
                _ => b * &a,
            })
        }
    };
}

#[macro_export]
macro_rules! bit_operators {
    () => {
        fn op_xor(mut a: Self::B, b: Self::B, way: usize) -> Self::B {
            match way % 4 {
                0 => a ^ b,
                1 => a ^ &b,
                2 => {
                    a ^= b;
                    a
                }
                _ => {
                    a ^= &b;
                    a
                }
            }
        }
    };
}

#[macro_export]
macro_rules! aby3_like {
    ($name:ident, $t:ident, $proto:ident, $label:expr) => {
        pub struct $name(Hold<$proto<SimNet>, IrisAby3<$t, $proto<SimNet>>>);
        accessors!($name, $proto<SimNet>);
        impl Party for $name {
            type T = $t;
            type A = Aby3Share<$t>;
            type AV = Vec<Aby3Share<$t>>;
            type B = Aby3Share<Bit>;
            type BV = Vec<Aby3Share<Bit>>;
            const PROTO: &'static str = $label;
            const SK: usize = <$t as Ring>::K;
            common!($t, Aby3Share<$t>, Aby3Share<Bit>, $proto<SimNet>);
            operators!($t);
            bit_operators!();
            fn key_share(&self) -> Vec<String> {
                vec![]
            }
            fn dealer(v: $t, _key: &str, rng: &mut ChaCha12Rng) -> Vec<Self::A> {
                <$proto<SimNet> as MpcTrait<$t, Aby3Share<$t>, Aby3Share<Bit>>>::share(v, Default::default(), rng)
            }
            fn av(v: &[Self::A]) -> Self::AV {
                v.to_vec()
            }
            fn a_comp(a: &Self::A) -> Vec<String> {
                let (x, y) = a.clone().get_ab();
                vec![hexs(x.convert()), hexs(y.convert())]
            }
            fn a_corrupt(a: &Self::A, comp: usize, delta: &str) -> Self::A {
                let (mut x, mut y) = a.clone().get_ab();
                let d = <<$t as Sharable>::Share as Ring2<$t>>::of(<$t>::unhx(delta));
                if comp == 0 { x += d } else { y += d }
                Aby3Share::new(x, y)
            }
            bits2!();
        }
    };
}

#[macro_export]
macro_rules! swift3_like {
    ($name:ident, $t:ident) => {
        pub struct $name(Hold<Swift3<SimNet, $t>, IrisSwift3<$t, Swift3<SimNet, $t>>>);
        accessors!($name, Swift3<SimNet, $t>);
        impl Party for $name {
            type T = $t;
            type A = Swift3Share<$t>;
            type AV = Vec<Swift3Share<$t>>;
            type B = Swift3Share<Bit>;
            type BV = Vec<Swift3Share<Bit>>;
            const PROTO: &'static str = "swift3";
            const SK: usize = <$t as Ring>::K;
            common!($t, Swift3Share<$t>, Swift3Share<Bit>, Swift3<SimNet, $t>);
            operators!($t);
            bit_operators!();
            fn key_share(&self) -> Vec<String> {
                vec![]
            }
            fn dealer(v: $t, _key: &str, rng: &mut ChaCha12Rng) -> Vec<Self::A> {
                <Swift3<SimNet, $t> as MpcTrait<$t, Swift3Share<$t>, Swift3Share<Bit>>>::share(v, Default::default(), rng)
            }
            fn av(v: &[Self::A]) -> Self::AV {
                v.to_vec()
            }
            fn a_comp(a: &Self::A) -> Vec<String> {
                let (x, y, z) = a.clone().get_abc();
                vec![hexs(x.convert()), hexs(y.convert()), hexs(z.convert())]
            }
            fn a_corrupt(a: &Self::A, comp: usize, delta: &str) -> Self::A {
                let (mut x, mut y, mut z) = a.clone().get_abc();
                let d = <<$t as Sharable>::Share as Ring2<$t>>::of(<$t>::unhx(delta));
                match comp {
                    0 => x += d,
                    1 => y += d,
                    _ => z += d,
                }
                Swift3Share::new(x, y, z)
            }
            fn b_comp(b: &Self::B) -> Vec<String> {
                let (x, y, z) = b.clone().get_abc();
                vec![hexs(x.convert()), hexs(y.convert()), hexs(z.convert())]
            }
            fn b_of(c: &[bool]) -> Self::B {
                Swift3Share::new(Bit::new(c[0]).to_sharetype(), Bit::new(c[1]).to_sharetype(), Bit::new(c[2]).to_sharetype())
            }
            fn b_flip(b: &Self::B, comp: usize) -> Self::B {
                let (x, y, z) = b.clone().get_abc();
                match comp {
                    0 => Swift3Share::new(!x, y, z),
                    1 => Swift3Share::new(x, !y, z),
                    _ => Swift3Share::new(x, y, !z),
                }
            }
        }
    };
}

#[macro_export]
macro_rules! spdz_like {
    ($name:ident, $t:ident, $u:ident) => {
        pub struct $name(Hold<SpdzWise<SimNet, $u>, IrisSpdzWise<$t, SpdzWise<SimNet, $u>>>);
        accessors!($name, SpdzWise<SimNet, $u>);
        impl Party for $name {
            type T = $t;
            type A = SpdzWiseShare<$u>;
            type AV = SpdzWiseVecShare<$u>;
            type B = Aby3Share<Bit>;
            type BV = Vec<Aby3Share<Bit>>;
            const PROTO: &'static str = "spdzwise";
            const SK: usize = <$u as Ring>::K;
            common!($t, SpdzWiseShare<$u>, Aby3Share<Bit>, SpdzWise<SimNet, $u>);
            bit_operators!();
            fn op_add(a: Self::A, b: Self::A, _: usize) -> Self::A {
                a + b
            }
            fn op_sub(_: Self::A, _: Self::A, _: usize) -> Option<Self::A> {
                None
            }
            fn op_mul(_: Self::A, _: $t, _: usize) -> Option<Self::A> {
                None
            }
            fn key_share(&self) -> Vec<String> {
                let (x, y) = self.r().get_r().get_ab();
                vec![hexs(x.convert()), hexs(y.convert())]
            }
            fn dealer(v: $t, key: &str, rng: &mut ChaCha12Rng) -> Vec<Self::A> {
                let key = if key.is_empty() { 0 } else { <$u>::unhx(key) };
                <SpdzWise<SimNet, $u> as MpcTrait<$t, SpdzWiseShare<$u>, Aby3Share<Bit>>>::share(v, key, rng)
            }
            fn av(v: &[Self::A]) -> Self::AV {
                SpdzWiseVecShare::from_vec(v.to_vec())
            }
            fn a_comp(a: &Self::A) -> Vec<String> {
                let (v, m) = a.clone().get();
                let (x, y) = v.get_ab();
                let (z, w) = m.get_ab();
                vec![hexs(x.convert()), hexs(y.convert()), hexs(z.convert()), hexs(w.convert())]
            }
            fn a_corrupt(a: &Self::A, comp: usize, delta: &str) -> Self::A {
                let (v, m) = a.clone().get();
                let (mut x, mut y) = v.get_ab();
                let (mut z, mut w) = m.get_ab();
                let d = <<$u as Sharable>::Share as Ring2<$u>>::of(<$u>::unhx(delta));
                match comp {
                    0 => x += d,
                    1 => y += d,
                    2 => z += d,
                    _ => w += d,
                }
                SpdzWiseShare::new(Aby3Share::new(x, y), Aby3Share::new(z, w))
            }
            bits2!();
        }
    };
}

/// share-ring element of a plaintext value
pub trait Ring2<T> {
    fn of(x: T) -> Self;
}
macro_rules! ring2 {
    ($($t:ty),*) => {$(
        impl Ring2<$t> for <$t as Sharable>::Share {
            fn of(x: $t) -> Self { x.to_sharetype() }
        }
    )*};
}
ring2!(u8, u16, u32, u64, u128);
macro_rules! ring2s {
    ($($t:ty => $u:ty),*) => {$(
        impl Ring2<$t> for <$u as Sharable>::Share {
            fn of(x: $t) -> Self { x.to_sharetype() }
        }
    )*};
}
ring2s!(i8=>u8, i16=>u16, i32=>u32, i64=>u64, i128=>u128);

/// everything a stamped implementation needs in scope
pub mod stamp_prelude {
    pub use super::{hexs, Hold, Party, Res, Ring, Ring2};
    pub use crate::prog::{exec, finish_scenario, prepare, Scenario};
    pub use crate::sim::SimNet;
    pub use iris_mpc::prelude::*;
    pub use plain_reference::IrisCodeArray;
    pub use rand_chacha::ChaCha12Rng;
}
