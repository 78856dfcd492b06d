From 5a48abbabfecbc4f15e778413d0c3749b82b3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 01/15] fix: compare zero-knowledge proof polynomials by value,
 not by representation

The sum of two reduced polynomials may have leading zero coefficients, so
that equal polynomials compared unequal and an honest Swift3 verification
failed with probability about 2^-K.
---
 iris-mpc/src/dzkp/dot_proof.rs | 2 +-
 iris-mpc/src/dzkp/mul_proof.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/dzkp/dot_proof.rs b/iris-mpc/src/dzkp/dot_proof.rs
index 537e078..6cea3a4 100644
--- a/iris-mpc/src/dzkp/dot_proof.rs
+++ b/iris-mpc/src/dzkp/dot_proof.rs
@@ -452,7 +452,7 @@ where
 
         let pr_ = Self::g(thetas, f1, self.dot_size) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr_ - (pr1 + pr2)).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
diff --git a/iris-mpc/src/dzkp/mul_proof.rs b/iris-mpc/src/dzkp/mul_proof.rs
index 80d091a..ac72190 100644
--- a/iris-mpc/src/dzkp/mul_proof.rs
+++ b/iris-mpc/src/dzkp/mul_proof.rs
@@ -362,7 +362,7 @@ where
 
         let pr_ = Self::g(thetas, f1) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr_ - (pr1 + pr2)).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
-- 
2.43.0


From 4627d7d815328e43c28f8b1f08c9af634421e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/15] fix: count all AND triples that the next SpdzWise
 verification consumes

A verification consumes at least 2^13 registers of triples, and for every
gate that waits for it, but only the announced amount was provided for;
with leftovers of an earlier batch an honest session failed with
NotEnoughTriplesError. The estimate of iris_in_db also ignored that the
comparison works on multiples of 128 bits per chunk.
---
 iris-mpc/src/iris/protocol.rs     | 9 +++++----
 iris-mpc/src/spdzwise/protocol.rs | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index a62b616..e542c61 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -247,8 +247,9 @@ where
         // amount * T::Share::K * (2 + 2 * logk)
 
         // ripple carry adder: 2 * K - 2
+        // The adder works on multiples of 128 bit per chunk
         amount = (amount + chunk_size - 1) / chunk_size;
-        amount * chunk_size * (T::Share::K * 2 - 3)
+        amount * ((chunk_size + 127) / 128) * 128 * (T::Share::K * 2 - 3)
     }
 
     pub async fn iris_in_db(
@@ -265,9 +266,9 @@ where
         }
 
         // Get enough and triples. So far only relevant for SpdzWise
-        // amount - 1 for or_reduce, but padded for chunk size + msb_extract
-        let num_and_triples = self.msb_and_gates(amount, chunk_size)
-            + ((amount + chunk_size - 2) / chunk_size) * chunk_size;
+        // or_reduce works on multiples of 128 bit as well + msb_extract
+        let num_and_triples =
+            self.msb_and_gates(amount, chunk_size) + ((amount + 127) / 128) * 128;
         self.mpc.precompute_and_triples(num_and_triples).await?;
 
         let mut bool_shares = Bshare::VecShare::with_capacity(amount);
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..4c93a92 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -752,7 +752,10 @@ where
     async fn precompute_and_triples(&mut self, amount: usize) -> Result<(), Error> {
         let ands = self.prec_triples.len();
         let amount = (amount + 127) / 128; // We allow precomputing as multiples of 128 bit
-        if ands <= amount {
+        // The next verification also consumes triples for the gates already waiting for it, and at
+        // least as many as are required for security
+        let amount = std::cmp::max(amount + self.triple_buffer.len(), 1usize << (20 - 7));
+        if ands < amount {
             // We have to precompute AND gates
             let prec_triples = self.generate_triples::<ChaCha12Rng>(amount - ands).await?;
             self.prec_triples.extend(prec_triples);
-- 
2.43.0


From a60f8e4ade602b1a52ce351d8602908858e66eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 03/15] fix: return an error from iris_in_db when verification
 fails instead of panicking

---
 iris-mpc/src/iris/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index e542c61..387cdca 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -280,7 +280,7 @@ where
 
         let res = self.mpc.reduce_binary_or(bool_shares, chunk_size).await?;
 
-        self.mpc.verify().await.unwrap();
+        self.mpc.verify().await?;
         self.mpc.open_bit(res).await
     }
 }
-- 
2.43.0


From 4c2f83caf1747c9cc41716e5166bbf1b969705be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 04/15] fix: verify what SpdzWise::open and open_many receive

The values were opened without comparing the message with what the third
party would have sent, so a single cheating party could make the next party
open any value.
---
 iris-mpc/src/spdzwise/protocol.rs | 39 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 4c93a92..557fdb3 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -479,6 +479,26 @@ where
         Ok(())
     }
 
+    // Opens values whose MACs were verified: the parties compare what they sent and received
+    async fn open_verified(&mut self, shares: Vec<Aby3Share<U>>) -> Result<Vec<U>, Error> {
+        let (shares_a, shares_b): (Vec<_>, Vec<_>) = shares
+            .iter()
+            .map(|s| (s.a.to_owned(), s.b.to_owned()))
+            .unzip();
+
+        let shares_c = self
+            .jmp_send_receive_many::<U>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
+
+        let res = shares
+            .iter()
+            .zip(shares_c)
+            .map(|(s, c)| U::from_sharetype(c + &s.a + &s.b))
+            .collect();
+        Ok(res)
+    }
+
     async fn verify_triple_queue<R: Rng + SeedableRng>(&mut self) -> Result<(), Error>
     where
         Standard: Distribution<R::Seed>,
@@ -752,6 +772,7 @@ where
     async fn precompute_and_triples(&mut self, amount: usize) -> Result<(), Error> {
         let ands = self.prec_triples.len();
         let amount = (amount + 127) / 128; // We allow precomputing as multiples of 128 bit
+
         // The next verification also consumes triples for the gates already waiting for it, and at
         // least as many as are required for security
         let amount = std::cmp::max(amount + self.triple_buffer.len(), 1usize << (20 - 7));
@@ -873,12 +894,11 @@ where
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
+        let result = self
+            .open_verified(vec![share.get_value()])
+            .await?
+            .pop()
+            .expect("one value was opened");
 
         Ok(T::from_verificationshare(result))
     }
@@ -887,12 +907,7 @@ where
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        let result = self.open_verified(shares.get_values()).await?;
 
         let result = result
             .into_iter()
-- 
2.43.0


From cf47514695a9c89b36ab6d8063ee714818b0f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 05/15] fix: refuse invalid bits in received vectors instead of
 panicking

---
 iris-mpc/src/aby3/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..1788c47 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -245,6 +245,14 @@ where
         return Err(Error::ConversionError);
     }
 
+    if T::K % 8 != 0 {
+        // Not every byte is a valid element
+        let mut check = bytes.clone();
+        for _ in 0..n {
+            T::take_from_bytes_mut(&mut check)?;
+        }
+    }
+
     Ok(RingBytesIter {
         bytes,
         _marker: std::marker::PhantomData,
-- 
2.43.0


From fc7d192ad348d3f67c0a7a07863fe4a42afd2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 06/15] fix: refuse invalid arguments with an error

Mismatched lengths were truncated silently, and empty inputs, a chunk size
of zero and unknown party ids ended in panics.
---
 iris-mpc/src/aby3/protocol.rs     | 2 +-
 iris-mpc/src/aby3/utils.rs        | 3 +++
 iris-mpc/src/iris/protocol.rs     | 5 ++---
 iris-mpc/src/spdzwise/protocol.rs | 5 ++++-
 iris-mpc/src/swift3/protocol.rs   | 5 ++++-
 iris-mpc/src/traits/mpc_trait.rs  | 4 ++++
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index ec7dd9a..a0ac50e 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -471,7 +471,7 @@ where
         b: &[Vec<Share<T>>],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 1788c47..f1fce5a 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -327,6 +327,9 @@ where
         + 'static,
 {
     let mut num = inputs.len();
+    if num == 0 || chunk_size == 0 {
+        return Err(Error::InvalidSizeError);
+    }
 
     while num > 1 {
         let mod_ = num & 1;
diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 387cdca..ce13046 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -261,14 +261,13 @@ where
         chunk_size: usize,
     ) -> Result<bool, Error> {
         let amount = db.len();
-        if (amount != mask_db.len()) || (amount == 0) {
+        if (amount != mask_db.len()) || (amount == 0) || (chunk_size == 0) {
             return Err(Error::InvalidSizeError);
         }
 
         // Get enough and triples. So far only relevant for SpdzWise
         // or_reduce works on multiples of 128 bit as well + msb_extract
-        let num_and_triples =
-            self.msb_and_gates(amount, chunk_size) + ((amount + 127) / 128) * 128;
+        let num_and_triples = self.msb_and_gates(amount, chunk_size) + ((amount + 127) / 128) * 128;
         self.mpc.precompute_and_triples(num_and_triples).await?;
 
         let mut bool_shares = Bshare::VecShare::with_capacity(amount);
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 557fdb3..bae516f 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1169,7 +1169,7 @@ where
         masks: &[IrisCodeArray],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = b.len();
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || len != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
@@ -1177,6 +1177,9 @@ where
         let mut mac_shares_a = Vec::with_capacity(len);
 
         for (b, mask) in b.iter().zip(masks.iter()) {
+            if a.len() != b.len() {
+                return Err(Error::InvalidSizeError);
+            }
             let mut rand = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
             let mut rand2 = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
 
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..40b5cdb 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2019,7 +2019,7 @@ where
                     unreachable!()
                 }
             }
-            _ => unreachable!(),
+            _ => return Err(Error::IdError(id)),
         };
 
         Ok(share)
@@ -2252,6 +2252,9 @@ where
         let mut shares_e = Vec::with_capacity(len);
 
         for (a_, b_) in a.iter().cloned().zip(b.iter().cloned()) {
+            if a_.len() != b_.len() {
+                return Err(Error::InvalidSizeError);
+            }
             let mut d = Vec::with_capacity(len);
             let mut e = Vec::with_capacity(len);
 
diff --git a/iris-mpc/src/traits/mpc_trait.rs b/iris-mpc/src/traits/mpc_trait.rs
index d5fff1c..f49706e 100644
--- a/iris-mpc/src/traits/mpc_trait.rs
+++ b/iris-mpc/src/traits/mpc_trait.rs
@@ -54,6 +54,10 @@ pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait> {
         b: &[Ashare::VecShare],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Ashare>, Error> {
+        if b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+
         let mut a_vec = Vec::with_capacity(b.len());
         let mut b_vec = Vec::with_capacity(b.len());
 
-- 
2.43.0


From c111811d2bbb23a2b1afb4010d278d3ab496fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 07/15] fix: share SpdzWise inputs so that no other party can
 shift them

---
 iris-mpc/src/spdzwise/protocol.rs | 40 ++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index bae516f..6f9187a 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -499,6 +499,39 @@ where
         Ok(res)
     }
 
+    // Shares an input as a public difference to a random value, which is opened to the inputting
+    // party only.
+    async fn verified_input(&mut self, input: Option<U>, id: usize) -> Result<Aby3Share<U>, Error> {
+        if id >= self.aby3.network.get_num_parties() {
+            return Err(Error::IdError(id));
+        }
+        let my_id = self.get_id();
+        let mut share = self.aby3.prf.gen_rand::<U>();
+
+        if id == my_id {
+            let value = match input {
+                Some(x) => x.to_sharetype(),
+                None => return Err(Error::ValueError("Cannot share None".to_string())),
+            };
+            let missing = self.jmp_receive::<U>().await?;
+            let diff = value - &share.a - &share.b - missing;
+            utils::send_value_next(&mut self.aby3.network, diff.to_owned()).await?;
+            utils::send_value_prev(&mut self.aby3.network, diff.to_owned()).await?;
+            share.a += diff;
+        } else if my_id == (id + 1) % 3 {
+            self.jmp_buffer::<U>(share.a.to_owned());
+            let diff = self.jmp_receive::<U>().await?;
+            share.b += diff;
+        } else {
+            self.jmp_send::<U>(share.b.to_owned()).await?;
+            let diff = utils::receive_value_next::<_, U::Share>(&mut self.aby3.network).await?;
+            self.jmp_buffer::<U>(diff);
+        }
+        self.jmp_verify().await?;
+
+        Ok(share)
+    }
+
     async fn verify_triple_queue<R: Rng + SeedableRng>(&mut self) -> Result<(), Error>
     where
         Standard: Distribution<R::Seed>,
@@ -819,12 +852,7 @@ where
     async fn input(&mut self, input: Option<T>, id: usize) -> Result<TShare<T>, Error> {
         let input = input.map(|i| T::to_verificationshare(i));
 
-        let value = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::input(&mut self.aby3, input, id)
-        .await?;
+        let value = self.verified_input(input, id).await?;
 
         let r = self.get_r();
         let mac = <_ as MpcTrait<
-- 
2.43.0


From fc822cefd8bc856280696ef8be23edcdc15e9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 08/15] fix: pack a 128-bit triple behind 127 free bits without
 overflowing the mask

---
 iris-mpc/src/spdzwise/triples.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/spdzwise/triples.rs b/iris-mpc/src/spdzwise/triples.rs
index c88b572..7fe32ff 100644
--- a/iris-mpc/src/spdzwise/triples.rs
+++ b/iris-mpc/src/spdzwise/triples.rs
@@ -1,6 +1,6 @@
 use crate::{
     prelude::{Aby3Share, Error, Sharable},
-    types::ring_element::RingImpl,
+    types::ring_element::{RingElement, RingImpl},
 };
 
 #[derive(Clone, Debug)]
@@ -118,9 +118,9 @@ impl Triples {
 
         a_.a <<= open as u32;
         a_.b <<= open as u32;
-        let mask = (1 << open) - 1;
-        a_.a |= aa.to_owned() & mask;
-        a_.b |= ab.to_owned() & mask;
+        let mask = RingElement((1u128 << open) - 1);
+        a_.a |= aa.to_owned() & &mask;
+        a_.b |= ab.to_owned() & &mask;
 
         aa >>= open as u32;
         ab >>= open as u32;
-- 
2.43.0


From 6730764ad802b625951d245a6a8ae42e94dd2712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 09/15] fix: deliver everything that was sent before the
 network shuts down

---
 iris-mpc/src/aby3/network.rs |  5 +++--
 mpc-net/src/channel.rs       | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/iris-mpc/src/aby3/network.rs b/iris-mpc/src/aby3/network.rs
index cda2e8b..05c47b3 100644
--- a/iris-mpc/src/aby3/network.rs
+++ b/iris-mpc/src/aby3/network.rs
@@ -162,8 +162,9 @@ impl NetworkTrait for Aby3Network {
             handler,
             ..
         } = self;
-        drop(channel_recv);
-        drop(channel_send);
+        // closing the connections drops whatever has not reached the other parties by then
+        channel_recv.close().await;
+        channel_send.close().await;
 
         handler.shutdown().await;
         Ok(())
diff --git a/mpc-net/src/channel.rs b/mpc-net/src/channel.rs
index 32c6862..1475589 100644
--- a/mpc-net/src/channel.rs
+++ b/mpc-net/src/channel.rs
@@ -7,6 +7,7 @@ use std::{
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     sync::{mpsc, oneshot},
+    task::JoinHandle,
 };
 use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite, LengthDelimitedCodec};
 
@@ -129,6 +130,7 @@ struct ReadJob<MRecv> {
 pub struct ChannelHandle<MSend, MRecv> {
     write_job_queue: mpsc::Sender<WriteJob<MSend>>,
     read_job_queue: mpsc::Sender<ReadJob<MRecv>>,
+    write_task: JoinHandle<()>,
 }
 
 impl<MSend, MRecv> ChannelHandle<MSend, MRecv>
@@ -165,7 +167,7 @@ where
                 }
             }
         });
-        tokio::spawn(async move {
+        let write_task = tokio::spawn(async move {
             while let Some(write_job) = write_recv.recv().await {
                 let write_result = write.send(write_job.data).await;
                 // we don't really care if the receiver for a write job is gone, as this is a common case
@@ -177,11 +179,30 @@ where
                     }
                 }
             }
+            // there will be no more jobs, what was written still has to reach the peer
+            if let Err(e) = write.close().await {
+                tracing::trace!("Debug: Closing the write channel failed: {e}");
+            }
         });
 
         ChannelHandle {
             write_job_queue: write_send,
             read_job_queue: read_send,
+            write_task,
+        }
+    }
+
+    /// Close the channel after everything that was sent on it has reached the peer.
+    pub async fn close(self) {
+        let Self {
+            write_job_queue,
+            read_job_queue,
+            write_task,
+        } = self;
+        drop(write_job_queue);
+        drop(read_job_queue);
+        if write_task.await.is_err() {
+            tracing::warn!("Warning: Write task of the channel failed!");
         }
     }
 
-- 
2.43.0


From 2165e16c119a8f09a502f164ad9b88819c2b5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 10/15] fix: refuse network configurations with party ids other
 than 0 to 2

---
 iris-mpc/src/aby3/network.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/aby3/network.rs b/iris-mpc/src/aby3/network.rs
index 05c47b3..57fd6dc 100644
--- a/iris-mpc/src/aby3/network.rs
+++ b/iris-mpc/src/aby3/network.rs
@@ -21,6 +21,9 @@ impl Aby3Network {
         if config.parties.len() != 3 {
             return Err(Error::NumPartyError(config.parties.len()));
         }
+        for party in &config.parties {
+            PartyID::try_from(party.id)?;
+        }
 
         let mut handler = MpcNetworkHandler::establish(config).await?;
         let mut channels = handler.get_byte_channels().await?;
-- 
2.43.0


From 3e42f42cb30541207f4832b630ecb6491282ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 11/15] fix: implement the inverse of u128 instead of panicking

---
 iris-mpc/src/types/int_ring.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/types/int_ring.rs b/iris-mpc/src/types/int_ring.rs
index 6f6e21c..9ce6894 100644
--- a/iris-mpc/src/types/int_ring.rs
+++ b/iris-mpc/src/types/int_ring.rs
@@ -427,7 +427,18 @@ impl IntRing2k for u128 {
     }
 
     fn inverse(&self) -> Result<Self, Error> {
-        todo!("Implement inverse for u128")
+        if 1 & self == 0 {
+            return Err(Error::NoInverseError);
+        }
+
+        // 2^128 does not fit into u128, so Newton's iteration instead of Euclid's algorithm. An
+        // odd number is its own inverse mod 2^3 and each step doubles the number of correct bits
+        let mut inv = *self;
+        for _ in 0..6 {
+            let product = Self::wrapping_mul(*self, inv);
+            inv = Self::wrapping_mul(inv, Self::wrapping_sub(2, product));
+        }
+        Ok(inv)
     }
 
     fn add_to_hash<D: Digest>(&self, hasher: &mut D) {
-- 
2.43.0


From 70a100bc137eca08593b29201b4357bdc8201c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 12/15] fix: draw the coefficients that combine the gates of a
 Swift3 verification by a coin

---
 iris-mpc/src/swift3/protocol.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 40b5cdb..a4aba6c 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -640,11 +640,13 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+
+        // coin the thetas: no party may know them before the gates to verify are fixed
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_and_dzkp::<ChaCha12Rng>(l, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.and_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -722,11 +724,13 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+
+        // coin the thetas: no party may know them before the gates to verify are fixed
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.mul_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -805,11 +809,13 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+
+        // coin the thetas: no party may know them before the gates to verify are fixed
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.dot_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
-- 
2.43.0


From e6d75fd70e864fb640b260b02a7033c3c2147f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 13/15] fix: malicious ABY3 parties reveal a coin only after
 everybody's products have arrived

---
 iris-mpc/src/aby3/utils.rs        | 11 +++++++++++
 iris-mpc/src/aby3_mal/protocol.rs |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index f1fce5a..c908050 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -138,6 +138,17 @@ pub(crate) async fn send_value<N: NetworkTrait, R: RingImpl>(
     Ok(network.send(id, value.to_bytes()).await?)
 }
 
+// Returns once the previous party called this as well, i.e., after it received everything that is
+// sent to it in the steps before.
+pub(crate) async fn sync_with_next<N: NetworkTrait>(network: &mut N) -> Result<(), Error> {
+    network.send_next_id(Bytes::new()).await?;
+    let response = network.receive_prev_id().await?;
+    if !response.is_empty() {
+        return Err(Error::InvalidMessageSize);
+    }
+    Ok(())
+}
+
 pub(crate) async fn send_value_next<N: NetworkTrait, R: RingImpl>(
     network: &mut N,
     value: R,
diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aaca85a..1b64a93 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -124,6 +124,9 @@ impl<N: NetworkTrait> MalAby3<N> {
         Standard: Distribution<R::Seed>,
         R::Seed: AsRef<[u8]>,
     {
+        // Whoever still has a message to send to the next party must not learn the coin yet
+        utils::sync_with_next(&mut self.network).await?;
+
         let (mut seed1, seed2) = self.prf.gen_rands::<R::Seed>();
 
         let seed3 = self
-- 
2.43.0


From 7288752f244cc8e2d54a0195492713b3f1c6a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 14/15] fix: SPDZ-wise parties reveal a coin only after
 everybody's triples and gates have arrived

---
 iris-mpc/src/spdzwise/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 6f9187a..f285c20 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -250,6 +250,9 @@ where
         Standard: Distribution<R::Seed>,
         R::Seed: AsRef<[u8]>,
     {
+        // Whoever still has a message to send to the next party must not learn the coin yet
+        utils::sync_with_next(&mut self.aby3.network).await?;
+
         let (mut seed1, seed2) = self.aby3.prf.gen_rands::<R::Seed>();
 
         let seed3 = self
-- 
2.43.0


From fb51bbebd7b2df1d7dd1e928f7c376e6e2cce9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 15/15] fix: read a connecting party's id stream to its end, so
 that its finish cannot fail

---
 mpc-net/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 8f6ead8..c239a44 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -127,6 +127,9 @@ impl MpcNetworkHandler {
                     );
                     let mut uni = conn.accept_uni().await?;
                     let other_party_id = uni.read_u32().await?;
+                    // dropping the stream before its end tells the client to stop sending,
+                    // which fails its finish
+                    uni.read(&mut [0]).await?;
                     assert!(connections
                         .insert(
                             usize::try_from(other_party_id).expect("u32 fits into usize"),
-- 
2.43.0

