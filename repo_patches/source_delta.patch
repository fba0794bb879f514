From a303906e44441eebe69184ee41a9fc1f57676ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 01/24] verif: environment seam (clock, UDP, randomness, hash
 maps) behind cfg(uflow_verif)

---
 src/client/mod.rs           |   3 +-
 src/half_connection/emit.rs |   1 +
 src/half_connection/mod.rs  |  16 ++-
 src/lib.rs                  |  12 ++
 src/seam.rs                 | 267 ++++++++++++++++++++++++++++++++++++
 src/server/mod.rs           |   5 +-
 src/server/remote_client.rs |   2 +-
 src/udp_frame_sink.rs       |   2 +-
 8 files changed, 300 insertions(+), 8 deletions(-)
 create mode 100644 src/seam.rs

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..9080bc2 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1,5 +1,3 @@
-use std::net;
-use std::time;
 
 use crate::CHANNEL_COUNT;
 use crate::EndpointConfig;
@@ -10,6 +8,7 @@ use crate::MAX_FRAME_SIZE;
 use crate::MAX_FRAME_WINDOW_SIZE;
 use crate::MAX_PACKET_WINDOW_SIZE;
 use crate::PROTOCOL_VERSION;
+use crate::seam::{net, rand, time};
 use crate::SendMode;
 use crate::udp_frame_sink::UdpFrameSink;
 
diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..7d0face 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -5,6 +5,7 @@ use crate::frame::serial::DataFrameBuilder;
 use crate::MAX_FRAME_SIZE;
 use crate::MAX_FRAME_WINDOW_SIZE;
 use crate::packet_id;
+use crate::seam::rand;
 
 use super::pending_packet;
 use super::frame_queue;
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..9aa20d6 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -2,7 +2,7 @@
 use crate::SendMode;
 use crate::frame;
 
-use std::time;
+use crate::seam::time;
 
 mod emit;
 mod frame_ack_queue;
@@ -80,6 +80,20 @@ pub struct HalfConnection {
     sync_keepalive_interval_ms: Option<u64>,
 }
 
+#[cfg(uflow_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use super::{Config, FrameSink, HalfConnection, PacketSink};
+    pub use super::send_rate::{FeedbackData, SendRateComp};
+
+    impl HalfConnection {
+        // Allowed send rate in bytes per second
+        pub fn verif_send_rate(&self) -> f64 {
+            self.send_rate_comp.send_rate()
+        }
+    }
+}
+
 impl HalfConnection {
     pub fn new(config: Config) -> Self {
         Self {
diff --git a/src/lib.rs b/src/lib.rs
index eea23e7..3e4f9a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! `uflow` is a non-blocking, connection-based layer over UDP that provides an ordered and
 //! drop-tolerant packet streaming interface for real-time applications (e.g. games). It manages
@@ -263,8 +264,19 @@
 mod half_connection;
 mod frame;
 mod packet_id;
+mod seam;
 mod udp_frame_sink;
 
+#[cfg(uflow_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use crate::frame::*;
+    pub use crate::frame::serial::Serialize;
+    pub use crate::half_connection::verif::*;
+    pub use crate::seam::sim::{set_backend, Backend};
+}
+
 /// Server-related connection objects and parameters.
 pub mod server;
 
diff --git a/src/seam.rs b/src/seam.rs
new file mode 100644
index 0000000..fc8eb86
--- /dev/null
+++ b/src/seam.rs
@@ -0,0 +1,267 @@
+// Environment seam: the clock, the UDP socket, randomness and hash maps used by this crate.
+//
+// In an ordinary build every name below is the one from `std` or `rand`. With `--cfg uflow_verif`
+// they are replaced by equivalents driven by a thread-local simulation backend (see `sim`), so that
+// a simulator decides everything which is otherwise nondeterministic.
+
+#[cfg(not(uflow_verif))]
+pub (crate) use std::{net, time};
+
+#[cfg(not(uflow_verif))]
+pub (crate) mod collections {
+    pub (crate) use std::collections::HashMap;
+}
+
+#[cfg(not(uflow_verif))]
+pub (crate) mod rand {
+    pub (crate) use ::rand::random;
+}
+
+#[cfg(uflow_verif)]
+pub (crate) use sim::{collections, net, rand, time};
+
+#[cfg(uflow_verif)]
+#[allow(missing_docs, dead_code)]
+pub mod sim {
+    use std::cell::RefCell;
+    use std::io;
+    use std::net::SocketAddr;
+    use std::rc::Rc;
+
+    /// Everything a simulated endpoint obtains from its environment.
+    pub trait Backend {
+        fn now_ns(&self) -> u64;
+        fn random_u64(&self) -> u64;
+        fn udp_bind(&self, addr: SocketAddr) -> io::Result<(u64, SocketAddr)>;
+        fn udp_connect(&self, socket: u64, peer: SocketAddr) -> io::Result<()>;
+        fn udp_send(&self, socket: u64, to: SocketAddr, data: &[u8]) -> io::Result<usize>;
+        fn udp_recv(&self, socket: u64, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)>;
+        fn udp_local_addr(&self, socket: u64) -> io::Result<SocketAddr>;
+        fn udp_close(&self, socket: u64);
+    }
+
+    thread_local! {
+        static BACKEND: RefCell<Option<Rc<dyn Backend>>> = RefCell::new(None);
+    }
+
+    pub fn set_backend(backend: Option<Rc<dyn Backend>>) {
+        let _old = BACKEND.with(|b| std::mem::replace(&mut *b.borrow_mut(), backend));
+    }
+
+    fn with<R>(f: impl FnOnce(&dyn Backend) -> R) -> R {
+        let backend = BACKEND.with(|b| b.borrow().clone()).expect("no simulation backend");
+        f(&*backend)
+    }
+
+    pub mod rand {
+        pub trait Random {
+            fn from_u64(v: u64) -> Self;
+        }
+
+        macro_rules! impl_random {
+            ($($t:ty),*) => { $(impl Random for $t { fn from_u64(v: u64) -> Self { v as $t } })* };
+        }
+
+        impl_random!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
+
+        impl Random for bool {
+            fn from_u64(v: u64) -> Self { v & 1 == 1 }
+        }
+
+        impl Random for f64 {
+            fn from_u64(v: u64) -> Self { (v >> 11) as f64 / (1u64 << 53) as f64 }
+        }
+
+        pub fn random<T: Random>() -> T {
+            T::from_u64(super::with(|b| b.random_u64()))
+        }
+    }
+
+    pub mod time {
+        pub use std::time::Duration;
+
+        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+        pub struct Instant(u64);
+
+        impl Instant {
+            pub fn now() -> Self {
+                Self(super::with(|b| b.now_ns()))
+            }
+
+            pub fn elapsed(&self) -> Duration {
+                Self::now() - *self
+            }
+
+            pub fn duration_since(&self, other: Self) -> Duration {
+                *self - other
+            }
+
+            pub fn saturating_duration_since(&self, other: Self) -> Duration {
+                *self - other
+            }
+
+            pub fn checked_duration_since(&self, other: Self) -> Option<Duration> {
+                self.0.checked_sub(other.0).map(Duration::from_nanos)
+            }
+
+            pub fn checked_add(&self, d: Duration) -> Option<Self> {
+                self.0.checked_add(d.as_nanos() as u64).map(Self)
+            }
+        }
+
+        impl std::ops::Sub<Instant> for Instant {
+            type Output = Duration;
+            fn sub(self, other: Instant) -> Duration {
+                Duration::from_nanos(self.0.saturating_sub(other.0))
+            }
+        }
+
+        impl std::ops::Add<Duration> for Instant {
+            type Output = Instant;
+            fn add(self, d: Duration) -> Instant {
+                Instant(self.0 + d.as_nanos() as u64)
+            }
+        }
+
+        impl std::ops::Sub<Duration> for Instant {
+            type Output = Instant;
+            fn sub(self, d: Duration) -> Instant {
+                Instant(self.0 - d.as_nanos() as u64)
+            }
+        }
+    }
+
+    pub mod net {
+        pub use std::net::*;
+
+        use std::cell::Cell;
+        use std::io;
+
+        #[derive(Debug)]
+        pub struct UdpSocket {
+            id: u64,
+            peer: Cell<Option<SocketAddr>>,
+        }
+
+        fn first_addr<A: ToSocketAddrs>(addr: A) -> io::Result<SocketAddr> {
+            addr.to_socket_addrs()?.next()
+                .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no addresses"))
+        }
+
+        impl UdpSocket {
+            pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
+                let addr = first_addr(addr)?;
+                let (id, _) = super::with(|b| b.udp_bind(addr))?;
+                Ok(Self { id, peer: Cell::new(None) })
+            }
+
+            pub fn set_nonblocking(&self, _nonblocking: bool) -> io::Result<()> {
+                Ok(())
+            }
+
+            pub fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
+                let addr = first_addr(addr)?;
+                super::with(|b| b.udp_connect(self.id, addr))?;
+                self.peer.set(Some(addr));
+                Ok(())
+            }
+
+            pub fn local_addr(&self) -> io::Result<SocketAddr> {
+                super::with(|b| b.udp_local_addr(self.id))
+            }
+
+            pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+                self.peer.get().ok_or_else(|| io::Error::from(io::ErrorKind::NotConnected))
+            }
+
+            pub fn send(&self, data: &[u8]) -> io::Result<usize> {
+                let peer = self.peer_addr()?;
+                super::with(|b| b.udp_send(self.id, peer, data))
+            }
+
+            pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addr: A) -> io::Result<usize> {
+                let addr = first_addr(addr)?;
+                super::with(|b| b.udp_send(self.id, addr, data))
+            }
+
+            pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
+                super::with(|b| b.udp_recv(self.id, buf)).map(|(size, _)| size)
+            }
+
+            pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+                super::with(|b| b.udp_recv(self.id, buf))
+            }
+        }
+
+        impl Drop for UdpSocket {
+            fn drop(&mut self) {
+                super::with(|b| b.udp_close(self.id));
+            }
+        }
+    }
+
+    pub mod collections {
+        use std::collections::hash_map::DefaultHasher;
+        use std::hash::BuildHasherDefault;
+        use std::ops::{Deref, DerefMut};
+
+        type Inner<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<DefaultHasher>>;
+
+        /// A hash map with a fixed iteration order.
+        #[derive(Debug, Clone)]
+        pub struct HashMap<K, V>(Inner<K, V>);
+
+        impl<K, V> HashMap<K, V> {
+            pub fn new() -> Self {
+                Self(Inner::default())
+            }
+
+            pub fn with_capacity(_capacity: usize) -> Self {
+                Self(Inner::default())
+            }
+        }
+
+        impl<K, V> Default for HashMap<K, V> {
+            fn default() -> Self {
+                Self::new()
+            }
+        }
+
+        impl<K, V> IntoIterator for HashMap<K, V> {
+            type Item = (K, V);
+            type IntoIter = std::collections::hash_map::IntoIter<K, V>;
+            fn into_iter(self) -> Self::IntoIter {
+                self.0.into_iter()
+            }
+        }
+
+        impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+            type Item = (&'a K, &'a V);
+            type IntoIter = std::collections::hash_map::Iter<'a, K, V>;
+            fn into_iter(self) -> Self::IntoIter {
+                self.0.iter()
+            }
+        }
+
+        impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
+            type Item = (&'a K, &'a mut V);
+            type IntoIter = std::collections::hash_map::IterMut<'a, K, V>;
+            fn into_iter(self) -> Self::IntoIter {
+                self.0.iter_mut()
+            }
+        }
+
+        impl<K, V> Deref for HashMap<K, V> {
+            type Target = Inner<K, V>;
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        impl<K, V> DerefMut for HashMap<K, V> {
+            fn deref_mut(&mut self) -> &mut Self::Target {
+                &mut self.0
+            }
+        }
+    }
+}
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..f98d70d 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,8 +1,5 @@
 use std::cell::RefCell;
-use std::collections::HashMap;
-use std::net;
 use std::rc::Rc;
-use std::time;
 
 use crate::EndpointConfig;
 use crate::frame::serial::Serialize;
@@ -12,6 +9,8 @@ use crate::MAX_FRAME_SIZE;
 use crate::MAX_FRAME_WINDOW_SIZE;
 use crate::MAX_PACKET_WINDOW_SIZE;
 use crate::PROTOCOL_VERSION;
+use crate::seam::{net, rand, time};
+use crate::seam::collections::HashMap;
 use crate::udp_frame_sink::UdpFrameSink;
 
 mod event_queue;
diff --git a/src/server/remote_client.rs b/src/server/remote_client.rs
index 301611b..a3e559e 100644
--- a/src/server/remote_client.rs
+++ b/src/server/remote_client.rs
@@ -1,4 +1,4 @@
-use std::net;
+use crate::seam::net;
 
 use crate::half_connection::HalfConnection;
 use crate::SendMode;
diff --git a/src/udp_frame_sink.rs b/src/udp_frame_sink.rs
index e9a26d5..25484a3 100644
--- a/src/udp_frame_sink.rs
+++ b/src/udp_frame_sink.rs
@@ -1,7 +1,7 @@
 
 use crate::half_connection;
 
-use std::net;
+use crate::seam::net;
 
 // TODO: A Result<usize, std::io::Error> stored here could be used to forward errors to
 // client/server step/flush after the FrameSink has been used.
-- 
2.43.0


From 5cd20472f92e5656e5cd15d14916673aa9836ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 02/24] fix: return assembled packets with the heap layout they
 were allocated with

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..4b6a79c 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut data = self.buffer.into_vec();
+        data.truncate(self.total_size);
+        data.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From 546f7d006b70676d86d21319aff037bbadcf2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 03/24] fix: skip packets dropped for lack of receive memory
 instead of panicking

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..5749a63 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // Packets which exceeded the receive allocation have no data to deliver
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From 63c51d8220c23c81bae5e17f1a44a84003d36d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 04/24] fix: discard pending fragments of acknowledged packets
 from the pending queue

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 9aa20d6..2787793 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -417,7 +417,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -434,7 +434,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From ab748db3d22df02d6efd79b6474f4e439382b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 05/24] fix: repeated acknowledgements do not produce feedback

---
 src/half_connection/frame_queue.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..6de4232 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -283,6 +283,8 @@ impl FrameQueue {
         let mut total_ack_size = 0;
         let mut rate_limited = false;
 
+        let mut newly_acked = false;
+
         let mut bitfield_size = 0;
         for i in (0 .. 32).rev() {
             if ack.bitfield & (1 << i) != 0 {
@@ -326,6 +328,7 @@ impl FrameQueue {
                 // Receiver has received this packet
                 if sent_frame.acked == false {
                     sent_frame.acked = true;
+                    newly_acked = true;
 
                     // Mark each fragment acknowledged and clear the list
                     let fragment_refs = std::mem::take(&mut sent_frame.fragment_refs);
@@ -350,8 +353,10 @@ impl FrameQueue {
             }
         }
 
-        // Add to pending feedback data
-        self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
+        // Add to pending feedback data, unless this is a repetition of an earlier acknowledgement
+        if newly_acked {
+            self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
+        }
     }
 
     pub fn can_advance_transfer_window(&mut self, new_base_id: u32) -> bool {
-- 
2.43.0


From f7d24245b49363071e0c621daa5f3a1d863d8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 06/24] fix: bound the search for the inverse of the throughput
 equation

---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..c8ce56c 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -30,10 +30,13 @@ fn eval_tcp_throughput(rtt: f64, p: f64) -> u32 {
 fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
     let delta = (target_rate_bps as f64 * 0.05) as u32;
 
+    // Successive intervals become indistinguishable long before this many bisections
+    const MAX_ITERATIONS: u32 = 64;
+
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    for _ in 0 .. MAX_ITERATIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +59,9 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    // The target is not a value of the throughput function, return the nearest loss rate
+    return (b + a)/2.0;
 }
 
 #[derive(Debug,PartialEq)]
-- 
2.43.0


From 96037db355a5a0039356713b16a79f531b84fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 07/24] fix: keep the latest receive rate when the RTT estimate
 is zero

---
 src/half_connection/recv_rate_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..fba5d21 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -53,14 +53,14 @@ impl RecvRateSet {
     }
 
     pub fn rate_limited_update(&mut self, now_ms: u64, recv_rate: u32, rtt_ms: u64) -> u32 {
+        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+
         self.entries.push(RecvEntry {
             value: recv_rate,
             timestamp_ms: now_ms,
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
-
         return self.max();
     }
 
-- 
2.43.0


From f125667aebdbbec117c63d07e66c0fee3188f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 08/24] fix: no arithmetic overflow or failed assertion in the
 send rate computation

---
 src/half_connection/send_rate.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index c8ce56c..44c14c7 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -258,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -285,7 +285,7 @@ impl SendRateComp {
         self.send_rate = self.send_rate.min(self.max_send_rate);
 
         // Restart nofeedback timer
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
@@ -328,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
@@ -336,8 +336,6 @@ impl SendRateComp {
                     }
                 } else {
                     // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
-
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
                 }
@@ -366,7 +364,7 @@ impl SendRateComp {
         // This may or may not be the intended behavior.
         let rto_s = self.update_rto(self.rtt_s.unwrap_or(0.0), self.send_rate);
 
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
-- 
2.43.0


From befb3f2b67b73c9e5a76c0355269d0812b5e7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 09/24] fix: no-feedback expiry and initial rate stay within
 the floor, the ceiling and the current rate

---
 src/half_connection/send_rate.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 44c14c7..ad8c59b 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -130,7 +130,7 @@ impl SendRateComp {
             nofeedback_idle: false,
 
             mode: SendRateMode::AwaitSend,
-            send_rate: MSS as u32,
+            send_rate: max_send_rate.min(MSS as u32),
             max_send_rate: max_send_rate,
 
             recv_rate_set: recv_rate_set::RecvRateSet::new(),
@@ -332,12 +332,12 @@ impl SendRateComp {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
-                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                        self.send_rate = (self.send_rate/2).max(MINIMUM_RATE).min(self.send_rate);
                     }
                 } else {
                     // In slow start, but no feedback has been received.
                     // Halve send rate every RTO, subject to minimum
-                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
+                    self.send_rate = (self.send_rate/2).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             SendRateMode::ThroughputEqn(ref mut state) => {
@@ -352,7 +352,8 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    // The expiry itself must not raise the rate, e.g. past the configured maximum
+                    self.send_rate = state.send_rate_tcp.min(new_limit).max(MINIMUM_RATE).min(self.send_rate);
                 }
             }
             _ => panic!()
-- 
2.43.0


From 5ed4bed00fad29b7571ca30e6f2ee38e3aaad23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 10/24] fix: carry the fractional part of the flush allocation
 between steps

Rounding the allocation of each step to whole bytes meant that a connection
near the minimum rate which is stepped frequently is never allocated a byte
(and so stalls forever), while other rates are exceeded by rounding up.
---
 src/half_connection/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 2787793..82bc88a 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -74,6 +74,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_frac: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -116,6 +117,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_frac: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -217,10 +219,19 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
-            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
-
-            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
+            let new_bytes = send_rate * delta_time + self.flush_alloc_frac;
+            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).floor() as isize;
+
+            // Whole bytes are allocated now, and the remaining fraction is carried over to the
+            // next step. Were the fraction rounded, a slow sender which steps often would either
+            // never be allocated anything, or be allocated more than its send rate permits.
+            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes.floor() as isize);
+            self.flush_alloc_frac = new_bytes.fract();
+
+            if self.flush_alloc >= alloc_max {
+                self.flush_alloc = alloc_max;
+                self.flush_alloc_frac = 0.0;
+            }
 
             //println!("dt: {}s, rtt: {:?}s, rate: {}B/s, new: {}B, max: {}B, val: {}B",
             //       delta_time, rtt_s, send_rate, new_bytes, alloc_max, self.flush_alloc);
-- 
2.43.0


From 4561bf43bb33b656d1fe96b852fe7adad2813f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 11/24] fix: account for elapsed time when flushing

The flush allocation was only refilled by step(), so a flush before a step
followed by a flush after it could transmit a full RTT worth of data twice
within no time, in excess of the negotiated ceiling.
---
 src/half_connection/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 82bc88a..1143435 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -209,6 +209,10 @@ impl HalfConnection {
     }
 
     pub fn flush(&mut self, sink: &mut impl FrameSink) {
+        // Account for the time elapsed since the last call to step(), otherwise what accrues during
+        // that time could be sent in addition to all that is permitted by the time it is allocated
+        self.fill_flush_alloc(time::Instant::now());
+
         // Send as many frames as possible
         self.emit_frames(self.now_ms, self.rtt_ms, self.rto_ms, self.flush_id, sink);
     }
-- 
2.43.0


From aae7165ebbf1ae75a3f4896878679126e2cee9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 12/24] fix: keep frame data until the RTO has passed

Frames were forgotten 4*RTT after being sent, so if the RTT became more than
4 times the estimate every ack was ignored as being for an unknown frame: the
estimate never caught up and the send rate remained at its minimum. The same
happened when the initial RTT exceeded 600 ms.
---
 src/half_connection/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 1143435..95a0a09 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -21,7 +21,8 @@ mod send_rate;
 mod packet_tests;
 
 const INITIAL_RTT_ESTIMATE_MS: u64 = 150;
-const INITIAL_RTO_ESTIMATE_MS: u64 = 4*INITIAL_RTT_ESTIMATE_MS;
+// No RTO is computed prior to the first feedback or nofeedback expiry, see RFC 5348, section 4.2
+const INITIAL_RTO_ESTIMATE_MS: u64 = 2000;
 const MIN_SYNC_TIMEOUT_MS: u64 = 2000;
 
 pub trait FrameSink {
@@ -190,8 +191,10 @@ impl HalfConnection {
         self.rtt_ms = rtt_ms;
         self.rto_ms = rto_ms;
 
-        // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        // Forget old frame data. The RTO is at least 4*RTT, and increases each time the nofeedback
+        // timer expires, so that acks are eventually recognized again if the RTT has increased to
+        // more than 4 times the estimate.
+        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From 55b287f4678f6041bc0c9795e11fb46e126af6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 13/24] fix: pull a packet from the send queue only when it can
 be transmitted

A TimeSensitive packet which was pulled from the send queue when the bandwidth
or the frame window was exhausted stayed in the pending queue, and was sent
after any number of subsequent calls to step().
---
 src/half_connection/emit.rs          | 55 +++++++++++++++++++++++-----
 src/half_connection/frame_queue.rs   |  7 +++-
 src/half_connection/mod.rs           | 13 +++++++
 src/half_connection/packet_sender.rs | 18 +++++++--
 4 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index 7d0face..a70d836 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -32,6 +32,16 @@ pub struct DataFrameEmitter<'a, F> {
 }
 
 impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
+    // Restrict the number of datagrams per frame to ensure that packet IDs are unique over
+    // the receiver's frame window, which has size MAX_FRAME_WINDOW_SIZE * 2. I.e.:
+    //
+    //    MAX_PACKET_COUNT * MAX_FRAME_WINDOW_SIZE * 2 <= packet_id::SPAN
+    const MAX_PACKET_COUNT: usize = {
+        let max_count = (packet_id::SPAN / (MAX_FRAME_WINDOW_SIZE * 2)) as usize;
+
+        if max_count < DataFrameBuilder::MAX_COUNT { max_count } else { DataFrameBuilder::MAX_COUNT }
+    };
+
     pub fn new(now_ms: u64, frame_queue: &'a mut frame_queue::FrameQueue, flush_alloc: isize, emit_cb: F) -> Self {
         Self {
             now_ms,
@@ -43,6 +53,41 @@ impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
         }
     }
 
+    // Returns Ok(()) if a datagram containing data_size bytes may be pushed
+    // Returns Err(DataPushError) if such a datagram could not be pushed at this time
+    pub fn reserve(&mut self, data_size: usize) -> Result<(), DataPushError> {
+        let mut frame_size = 0;
+        let mut frame_count = 0;
+
+        if let Some(ref next_frame) = self.in_progress_frame {
+            frame_size = next_frame.fbuilder.size();
+            frame_count = 1;
+        }
+
+        if (self.flush_alloc - frame_size as isize) < 0 {
+            // Out of bandwidth
+            self.finalize();
+            self.frame_queue.mark_rate_limited();
+            return Err(DataPushError::SizeLimited);
+        }
+
+        if let Some(ref next_frame) = self.in_progress_frame {
+            let max_potential_frame_size = frame_size + frame::serial::MAX_DATAGRAM_OVERHEAD + data_size;
+
+            if max_potential_frame_size <= MAX_FRAME_SIZE && next_frame.fbuilder.count() < Self::MAX_PACKET_COUNT {
+                return Ok(());
+            }
+        }
+
+        if !self.frame_queue.can_push_count(frame_count + 1) {
+            // Would exceed window
+            self.finalize();
+            return Err(DataPushError::WindowLimited);
+        }
+
+        return Ok(());
+    }
+
     // Returns Ok(()) if the datagram was added successfully
     // Returns Err(DataPushError) if the datagram could not be added
     pub fn push(&mut self, packet_rc: &pending_packet::PendingPacketRc, fragment_id: u16, resend: bool) -> Result<(), DataPushError> {
@@ -54,20 +99,12 @@ impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
             let frame_size = next_frame.fbuilder.size();
             let potential_frame_size = frame_size + DataFrameBuilder::encoded_size(&datagram);
 
-            // Restrict the number of datagrams per frame to ensure that packet IDs are unique over
-            // the receiver's frame window, which has size MAX_FRAME_WINDOW_SIZE * 2. I.e.:
-            //
-            //    max_packet_count * MAX_FRAME_WINDOW_SIZE * 2 <= packet_id::SPAN
-
-            let max_packet_count =
-                ((packet_id::SPAN / (MAX_FRAME_WINDOW_SIZE * 2)) as usize).min(frame::serial::DataFrameBuilder::MAX_COUNT);
-
             if (self.flush_alloc - frame_size as isize) < 0 {
                 // Out of bandwidth
                 self.finalize();
                 self.frame_queue.mark_rate_limited();
                 return Err(DataPushError::SizeLimited);
-            } else if potential_frame_size > MAX_FRAME_SIZE || next_frame.fbuilder.count() >= max_packet_count {
+            } else if potential_frame_size > MAX_FRAME_SIZE || next_frame.fbuilder.count() >= Self::MAX_PACKET_COUNT {
                 // Would exceed maximum
                 self.finalize();
             } else {
diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index 6de4232..6b17df2 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -226,7 +226,12 @@ impl FrameQueue {
     }
 
     pub fn can_push(&self) -> bool {
-        return self.next_id().wrapping_sub(self.window.base_id) < self.window.size;
+        self.can_push_count(1)
+    }
+
+    // Returns true if the given number of frames may be pushed
+    pub fn can_push_count(&self, count: u32) -> bool {
+        return self.next_id().wrapping_sub(self.window.base_id) + count <= self.window.size;
     }
 
     pub fn next_id(&self) -> u32 {
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 95a0a09..4668ad4 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -1,4 +1,5 @@
 
+use crate::MAX_FRAGMENT_SIZE;
 use crate::SendMode;
 use crate::frame;
 
@@ -416,6 +417,18 @@ impl HalfConnection {
 
         loop {
             if self.pending_queue.is_empty() {
+                // A packet is pulled from the send queue only if its transmission may begin right
+                // away. Otherwise, a TimeSensitive packet which has been pulled from the queue
+                // could no longer be discarded, and would be sent after the next call to step().
+                if let Some(packet_size) = self.packet_sender.next_packet_size(flush_id) {
+                    match dfe.reserve(packet_size.min(MAX_FRAGMENT_SIZE)) {
+                        // Being window-limited does not preclude further sends
+                        Err(emit::DataPushError::WindowLimited) => return Ok(()),
+                        Err(emit::DataPushError::SizeLimited) => return Err(()),
+                        Ok(_) => (),
+                    }
+                }
+
                 if let Some((packet_rc, resend)) = self.packet_sender.emit_packet(flush_id) {
                     let pending_packet_ref = packet_rc.borrow();
 
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..4a69bb6 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -144,9 +144,9 @@ impl PacketSender {
         self.packet_send_queue.push_back(PacketSendEntry::new(data, channel_id, mode, flush_id));
     }
 
-    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
-    // the maximum transfer window.
-    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+    // Returns the size of the packet which would be pulled from the send queue by emit_packet(), if
+    // any. Expired TimeSensitive packets are discarded.
+    pub fn next_packet_size(&mut self, flush_id: u32) -> Option<usize> {
         while let Some(packet) = self.packet_send_queue.front() {
             match packet.mode {
                 SendMode::TimeSensitive => {
@@ -172,6 +172,18 @@ impl PacketSender {
                 return None;
             }
 
+            return Some(packet.data.len());
+        }
+
+        return None;
+    }
+
+    // Pulls a single packet from the send queue, respecting both the maximum allocation limit, and
+    // the maximum transfer window.
+    pub fn emit_packet(&mut self, flush_id: u32) -> Option<(PendingPacketRc, bool)> {
+        if let Some(packet_size) = self.next_packet_size(flush_id) {
+            let packet_alloc_size = alloc_size(packet_size);
+
             let packet = self.packet_send_queue.pop_front().unwrap();
 
             let sequence_id = self.next_id;
-- 
2.43.0


From 0cee4ccd8d1d9feffa0017f17bf69d70c746c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 14/24] fix: owed acknowledgements do not starve data

Acks were always emitted first, and whenever the flush allocation is small
(before the first RTT sample, or near the minimum rate) a single ack frame
exhausts it. A sender which owed acks at each flush thus never transmitted any
data, and so never obtained the feedback which would raise its rate.
---
 src/half_connection/mod.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 4668ad4..797756a 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -79,6 +79,8 @@ pub struct HalfConnection {
     flush_alloc_frac: f64,
     flush_id: u32,
 
+    acks_deferred: bool,
+
     sync_reply: bool,
     sync_keepalive_interval_ms: Option<u64>,
 }
@@ -122,6 +124,8 @@ impl HalfConnection {
             flush_alloc_frac: 0.0,
             flush_id: 0,
 
+            acks_deferred: false,
+
             sync_reply: false,
             sync_keepalive_interval_ms: config.keepalive_interval_ms,
         }
@@ -248,7 +252,32 @@ impl HalfConnection {
     }
 
     fn emit_frames(&mut self, now_ms: u64, rtt_ms: u64, rto_ms: u64, flush_id: u32, sink: &mut impl FrameSink) {
-        match self.emit_ack_frames(sink) {
+        if self.acks_deferred {
+            if self.flush_alloc < 0 {
+                return;
+            }
+
+            self.acks_deferred = false;
+
+            match self.emit_data_frames(now_ms, rtt_ms, flush_id, sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
+
+            match self.emit_sync_frame(now_ms, rto_ms, sink) {
+                Err(_) => return,
+                Ok(_) => (),
+            }
+        }
+
+        let flush_alloc_init = self.flush_alloc;
+        let ack_result = self.emit_ack_frames(sink);
+
+        // If acks have exhausted the flush allocation, data takes precedence the next time.
+        // Otherwise a slow sender which owes acks often enough would never send any data.
+        self.acks_deferred = self.flush_alloc < flush_alloc_init && self.flush_alloc < 0;
+
+        match ack_result {
             Err(_) => return,
             Ok(_) => (),
         }
-- 
2.43.0


From 59c35670d3a5eb3f7180eb61462b412ebddc552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 15/24] fix: client timeout is relative to the time of
 connection

The timeout of a new client connection was set to the configured duration since
the creation of the client instead of since the handshake, so a connection
which took long to establish timed out too early, if not at once. Responding to
a repeated SYN+ACK now counts as having heard of the server, too.
---
 src/client/mod.rs | 17 ++++++++++-------
 src/server/mod.rs |  8 ++++----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 9080bc2..3f9e5d4 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -390,7 +390,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -448,12 +448,12 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
             }
-            State::Active(ref state) => {
+            State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
                 // the nonce ack matches ours (and ignore it otherwise). This case is only
                 // encountered when our initial ACK was dropped - all that matters is that the
@@ -464,6 +464,9 @@ impl Client {
                         nonce_ack: frame.nonce,
                     });
                     let _ = self.socket.send(&reply.write());
+
+                    // The server is alive
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
             }
             _ => (),
@@ -557,7 +560,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -567,7 +570,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -577,7 +580,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -588,7 +591,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f98d70d..4b6eaeb 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -391,7 +391,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -503,7 +503,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -525,7 +525,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -547,7 +547,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From 2cc1fb10886be0a8fb3cace734987ef86cae78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 16/24] fix: ignore invalid packet sequence IDs in ack and sync
 frames

An ID of more than 20 bits made PacketReceiver::resynchronize() loop forever
and PacketSender::acknowledge() panic.
---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 src/half_connection/packet_sender.rs       | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 5749a63..12ad48d 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -409,7 +409,10 @@ impl PacketReceiver {
     // comes first. Any incomplete or dropped packets are skipped, and as a result, the sender must
     // ensure that all reliable packets have been received in full prior to issuing the request.
     pub fn resynchronize(&mut self, sender_next_id: u32) {
-        debug_assert!(packet_id::is_valid(sender_next_id));
+        if !packet_id::is_valid(sender_next_id) {
+            // Not a sequence ID which could have been sent
+            return;
+        }
 
         let base_id = self.base_id;
         let sender_delta = packet_id::sub(sender_next_id, base_id);
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 4a69bb6..89465b2 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -252,6 +252,11 @@ impl PacketSender {
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
+        if !packet_id::is_valid(receiver_base_id) {
+            // Not a sequence ID which could have been sent
+            return;
+        }
+
         let receiver_delta = packet_id::sub(receiver_base_id, self.base_id);
         let span = packet_id::sub(self.next_id, self.base_id);
 
-- 
2.43.0


From e14a006f5eb4007fb158803bd3a0bfe6a981ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 17/24] fix: do not advance the receive window past an
 undelivered packet

A peer could specify a window parent lead which contradicts the channel parent
lead, so that the window was advanced past a packet which could not yet be
delivered.
---
 src/half_connection/packet_receiver/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 12ad48d..662a2a4 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -379,6 +379,12 @@ impl PacketReceiver {
 
                 let next_id = packet_id::add(sequence_id, 1);
 
+                if self.data_flags[flags_index] & flag_bit != 0 {
+                    // This packet awaits delivery, so the sender has specified a window parent
+                    // which precedes its channel parent. Cease to consider advancing the window.
+                    break;
+                }
+
                 if self.entry_flags[flags_index] & flag_bit != 0 {
                     let ref mut window_entry = self.window_entries[window_idx];
 
@@ -388,8 +394,6 @@ impl PacketReceiver {
                     if window_parent_lead == 0 || window_parent_lead > window_delta {
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
-                        // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From bac223e2a17c297fb7992d0e319f2d6e05fdc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 18/24] fix: bound the number of pending acknowledgements

Acknowledgement groups which the sender no longer keeps track of are discarded, so
that a peer cannot make the queue of owed acknowledgements grow without limit.
---
 src/half_connection/frame_ack_queue.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..b3dea5f 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -28,6 +28,10 @@ impl ReceiveWindow {
     pub fn base_id(&self) -> u32 {
         self.base_id
     }
+
+    pub fn size(&self) -> u32 {
+        self.size
+    }
 }
 
 pub struct FrameAckQueue {
@@ -72,6 +76,8 @@ impl FrameAckQueue {
                         bitfield: 0x00000001,
                         nonce: nonce,
                     });
+
+                    self.cull_entries();
                 }
             } else {
                 self.entries.push_back(frame::AckGroup {
@@ -83,6 +89,21 @@ impl FrameAckQueue {
         }
     }
 
+    // Forgets acks for frames which the sender no longer keeps track of, so that the number of
+    // pending acks remains bounded no matter how slowly they are sent
+    fn cull_entries(&mut self) {
+        let base_id = self.receive_window.base_id();
+        let max_age = self.receive_window.size()*2;
+
+        while let Some(first_entry) = self.entries.front() {
+            if base_id.wrapping_sub(first_entry.base_id) <= max_age {
+                break;
+            }
+
+            self.entries.pop_front();
+        }
+    }
+
     pub fn pop(&mut self) -> Option<frame::AckGroup> {
         if let Some(first_entry) = self.entries.pop_front() {
             debug_assert!(first_entry.bitfield & 0x00000001 != 0);
-- 
2.43.0


From 43949dca19c4a58275a5f8b2dc4c4283fe30a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 19/24] fix: client acknowledges only the SYN+ACK its
 connection was established with

A SYN+ACK which echoes the nonce of an active client but carries another server nonce
belongs to a different handshake (e.g. one initiated by a delayed copy of the SYN, after
the server has forgotten the connection). Acknowledging it established a connection on
the server which did not agree with the client's sequence numbers.
---
 src/client/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3f9e5d4..0a21873 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -111,6 +111,7 @@ struct PendingState {
 
 struct ActiveState {
     local_nonce: u32,
+    remote_nonce: u32,
     half_connection: half_connection::HalfConnection,
     timeout_time_ms: u64,
     disconnect_signal: Option<DisconnectMode>,
@@ -447,6 +448,7 @@ impl Client {
 
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
+                        remote_nonce: frame.nonce,
                         half_connection,
                         timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
@@ -455,11 +457,16 @@ impl Client {
             }
             State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
-                // the nonce ack matches ours (and ignore it otherwise). This case is only
-                // encountered when our initial ACK was dropped - all that matters is that the
-                // server receives an ACK.
+                // it is a duplicate (and ignore it otherwise). This case is only encountered when
+                // our initial ACK was dropped - all that matters is that the server receives an
+                // ACK.
+                //
+                // A SYN+ACK with a different server nonce belongs to another handshake, such as one
+                // initiated by a stale copy of our SYN. If that were acknowledged, the server would
+                // consider the new connection to be established, with initial sequence numbers that
+                // this connection knows nothing about.
 
-                if frame.nonce_ack == state.local_nonce {
+                if frame.nonce_ack == state.local_nonce && frame.nonce == state.remote_nonce {
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From 98fac83c4b45a263023879e9dec319c594be1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 20/24] fix: enforce both connection limits of the server

A connection request was refused only if both limits were reached, and connections which
were pending when the limit on active connections was checked could all become active.
---
 src/server/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 4b6eaeb..55d41a8 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -116,6 +116,7 @@ pub struct Server {
 
     clients: HashMap<net::SocketAddr, Rc<RefCell<remote_client::RemoteClient>>>,
     active_clients: Vec<Rc<RefCell<remote_client::RemoteClient>>>,
+    pending_client_count: usize,
 
     client_events: event_queue::EventQueue,
 
@@ -144,6 +145,7 @@ impl Server {
 
             clients: HashMap::new(),
             active_clients: Vec::new(),
+            pending_client_count: 0,
 
             client_events: event_queue::EventQueue::new(),
 
@@ -212,8 +214,15 @@ impl Server {
     /// or received, and a timeout error will be generated on the client.
     pub fn drop(&mut self, client_addr: &net::SocketAddr) {
         if let Some(client_rc) = self.clients.get(client_addr) {
+            let mut client = client_rc.borrow_mut();
+
+            if let remote_client::State::Pending(_) = client.state {
+                self.pending_client_count -= 1;
+            }
+
             // Forget client immediately
-            client_rc.borrow_mut().state = remote_client::State::Fin;
+            client.state = remote_client::State::Fin;
+            std::mem::drop(client);
             self.clients.remove(client_addr);
         }
     }
@@ -250,8 +259,10 @@ impl Server {
             return;
         }
 
+        // A pending connection becomes active as soon as its handshake completes, and cannot be
+        // refused at that point, so each takes up the room of an active connection
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || self.active_clients.len() + self.pending_client_count >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
@@ -346,6 +357,7 @@ impl Server {
         ));
 
         self.clients.insert(client_addr, client_rc);
+        self.pending_client_count += 1;
     }
 
     fn handle_handshake_ack(
@@ -395,6 +407,7 @@ impl Server {
                             disconnect_signal: None,
                         });
 
+                        self.pending_client_count -= 1;
                         self.active_clients.push(Rc::clone(&client_rc));
 
                         // Signal connect
@@ -624,6 +637,7 @@ impl Server {
                             self.events_out.push(Event::Error(client.address, ErrorType::Timeout));
                         }
 
+                        self.pending_client_count -= 1;
                         client.state = remote_client::State::Fin;
                         self.clients.remove(&client.address);
                     }
-- 
2.43.0


From 48637da9bc94bab639368a1eb12f45c731372544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 21/24] fix: report the packets enqueued prior to connecting in
 the client send buffer size

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 0a21873..499c29f 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -107,6 +107,7 @@ struct PendingState {
     resend_count: u8,
 
     initial_sends: Vec<SendEntry>,
+    initial_sends_size: usize,
 }
 
 struct ActiveState {
@@ -218,6 +219,7 @@ impl Client {
             resend_count: HANDSHAKE_RESEND_COUNT,
 
             initial_sends: Vec::new(),
+            initial_sends_size: 0,
         });
 
         Ok(Self {
@@ -299,6 +301,7 @@ impl Client {
 
         match self.state {
             State::Pending(ref mut state) => {
+                state.initial_sends_size += data.len();
                 state.initial_sends.push(SendEntry { data, channel_id: channel_id as u8, mode });
             }
             State::Active(ref mut state) => {
@@ -381,6 +384,7 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => state.initial_sends_size,
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0


From 6a69b157d05f13f3f7947f278efe0b85de5867d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 22/24] fix: configured send rates of 2^32 and above do not
 wrap around

---
 src/client/mod.rs | 6 +++++-
 src/server/mod.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 499c29f..2da31f9 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -428,7 +428,11 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: self
+                            .config
+                            .endpoint_config
+                            .max_send_rate
+                            .min(frame.max_receive_rate as usize) as u32,
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 55d41a8..b09a52b 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -387,7 +387,11 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: self
+                                .config
+                                .endpoint_config
+                                .max_send_rate
+                                .min(state.remote_max_receive_rate as usize) as u32,
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From ed4a640ac142a39954aad6349b9fa1ca43737eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 23/24] fix: do not panic because of the receive allocation
 limit

The peer may announce a limit below the size of the packets this endpoint is allowed to
send, and the local limit may be as high as usize::MAX.
---
 src/half_connection/packet_receiver/assembly_window/mod.rs | 2 +-
 src/half_connection/packet_sender.rs                       | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 89465b2..d89d205 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -97,7 +97,7 @@ impl PacketSender {
 
         let channels: Vec<Channel> = (0 .. CHANNEL_COUNT).map(|_| Channel::new()).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             packet_send_queue: VecDeque::new(),
@@ -137,7 +137,6 @@ impl PacketSender {
     // Places a user packet on the send queue.
     pub fn enqueue_packet(&mut self, data: Box<[u8]>, channel_id: u8, mode: SendMode, flush_id: u32) {
         debug_assert!(data.len() <= MAX_PACKET_SIZE);
-        debug_assert!(data.len() <= self.max_alloc);
         debug_assert!((channel_id as usize) < CHANNEL_COUNT);
 
         self.total_size += data.len();
-- 
2.43.0


From 258df842b57250609756700a7d4c663e82f7d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 24/24] verif: seam: more of the Instant and HashMap interfaces

---
 src/seam.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/seam.rs b/src/seam.rs
index fc8eb86..c012f0c 100644
--- a/src/seam.rs
+++ b/src/seam.rs
@@ -107,6 +107,22 @@ pub mod sim {
             pub fn checked_add(&self, d: Duration) -> Option<Self> {
                 self.0.checked_add(d.as_nanos() as u64).map(Self)
             }
+
+            pub fn checked_sub(&self, d: Duration) -> Option<Self> {
+                self.0.checked_sub(d.as_nanos() as u64).map(Self)
+            }
+        }
+
+        impl std::ops::AddAssign<Duration> for Instant {
+            fn add_assign(&mut self, d: Duration) {
+                *self = *self + d;
+            }
+        }
+
+        impl std::ops::SubAssign<Duration> for Instant {
+            fn sub_assign(&mut self, d: Duration) {
+                *self = *self - d;
+            }
         }
 
         impl std::ops::Sub<Instant> for Instant {
@@ -219,6 +235,20 @@ pub mod sim {
             pub fn with_capacity(_capacity: usize) -> Self {
                 Self(Inner::default())
             }
+
+            pub fn into_keys(self) -> std::collections::hash_map::IntoKeys<K, V> {
+                self.0.into_keys()
+            }
+
+            pub fn into_values(self) -> std::collections::hash_map::IntoValues<K, V> {
+                self.0.into_values()
+            }
+        }
+
+        impl<K: Eq + std::hash::Hash, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
+            fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
+                Self(Inner::from_iter(iter))
+            }
         }
 
         impl<K, V> Default for HashMap<K, V> {
-- 
2.43.0

