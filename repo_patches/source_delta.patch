From 7bf41b7a7c28ad805a3c951f8003ced7ce89f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 01/18] Add schedule-perturbation points behind cfg(dam_verif)

---
 src/channel/receiver/mod.rs   |  4 ++++
 src/channel/sender/bounded.rs |  4 ++++
 src/channel/sender/mod.rs     |  2 ++
 src/datastructures/time.rs    |  2 ++
 src/lib.rs                    |  4 ++++
 src/verif_hooks.rs            | 19 +++++++++++++++++++
 src/view/basic.rs             |  8 ++++++++
 7 files changed, 43 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/channel/receiver/mod.rs b/src/channel/receiver/mod.rs
index d205b89..f986e24 100644
--- a/src/channel/receiver/mod.rs
+++ b/src/channel/receiver/mod.rs
@@ -106,7 +106,11 @@ trait ReceiverCommon<T: Clone>: Responsive + DataProvider<T> {
             None => unreachable!(),
         }
 
+        #[cfg(dam_verif)]
+        crate::verif_hooks::point(5);
         let sig_time = self.data().spec.wait_until_sender(recv_time);
+        #[cfg(dam_verif)]
+        crate::verif_hooks::point(6);
         assert!(sig_time >= recv_time);
         self.try_update_head(sig_time);
         self.data().head.clone().unwrap()
diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..05aa16f 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -134,7 +134,11 @@ impl<T> BoundedProvider for BoundedCyclicSender<T> {
                 continue;
             }
 
+            #[cfg(dam_verif)]
+            crate::verif_hooks::point(7);
             let new_time = self.data.spec.wait_until_receiver(manager.tick());
+            #[cfg(dam_verif)]
+            crate::verif_hooks::point(8);
 
             // Forces the resp channel to synchronize w.r.t. the signal.
 
diff --git a/src/channel/sender/mod.rs b/src/channel/sender/mod.rs
index ee5e7bc..b67c08c 100644
--- a/src/channel/sender/mod.rs
+++ b/src/channel/sender/mod.rs
@@ -76,6 +76,8 @@ trait SenderCommon<T>: DataProvider<T> + BoundedProvider {
             .underlying
             .send(data)
             .map_err(|_| EnqueueError::Closed)?;
+        #[cfg(dam_verif)]
+        crate::verif_hooks::point(9);
         self.register_send();
         Ok(())
     }
diff --git a/src/datastructures/time.rs b/src/datastructures/time.rs
index c9f4f13..15632db 100644
--- a/src/datastructures/time.rs
+++ b/src/datastructures/time.rs
@@ -168,6 +168,8 @@ impl AtomicTime {
     /// Reads the underlying time with Acquire semantics, used by other threads.
     pub fn load(&self) -> Time {
         let time = self.time.load(std::sync::atomic::Ordering::Acquire);
+        #[cfg(dam_verif)]
+        crate::verif_hooks::point(10);
         let done = self.done.load(std::sync::atomic::Ordering::Acquire);
         Time { time, done }
     }
diff --git a/src/lib.rs b/src/lib.rs
index 83a5051..d8f6b8b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 // #![cfg_attr(docsrs, cfg(feature = "doc_cfg"))]
 
 //! The Dataflow Abstract Machine is a simulation framework designed for simulating dataflow-like systems.
@@ -20,6 +21,9 @@ mod view;
 
 pub use dam_macros;
 
+#[cfg(dam_verif)]
+pub mod verif_hooks;
+
 /// Reference implementations of a few basic components.
 pub mod templates;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..2e1454d
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,19 @@
+//! Schedule-perturbation points, compiled in only with `--cfg dam_verif`.
+//! A monitor may install one callback, which runs (on the context's own thread) whenever execution passes a named point.
+
+use std::sync::OnceLock;
+
+static HOOK: OnceLock<fn(u32)> = OnceLock::new();
+
+/// Installs the callback. Only the first installation takes effect.
+pub fn install(hook: fn(u32)) {
+    let _ = HOOK.set(hook);
+}
+
+/// Marks a point which the installed callback may delay.
+#[inline]
+pub fn point(id: u32) {
+    if let Some(hook) = HOOK.get() {
+        hook(id)
+    }
+}
diff --git a/src/view/basic.rs b/src/view/basic.rs
index 93d3d26..0dac480 100644
--- a/src/view/basic.rs
+++ b/src/view/basic.rs
@@ -63,6 +63,8 @@ impl TimeManager {
     }
 
     fn scan_and_write_signals(&self) {
+        #[cfg(dam_verif)]
+        crate::verif_hooks::point(4);
         let mut signal_buffer = self.underlying.signal_buffer.lock();
         let tlb = self.underlying.time.load_relaxed();
         // Log the updated time
@@ -126,12 +128,16 @@ impl ContextView for BasicContextView {
         loop {
             // Try to lock the signal buffer
             let try_lock = self.under.signal_buffer.try_lock();
+            #[cfg(dam_verif)]
+            crate::verif_hooks::point(1);
             let mut cur_time = self.under.time.load();
             if cur_time >= when {
                 // Fast exit, also drops the lock if there was one.
                 return cur_time;
             }
             if let Some(mut signal_buffer) = try_lock {
+                #[cfg(dam_verif)]
+                crate::verif_hooks::point(2);
                 signal_buffer.push(SignalElement {
                     when,
                     thread: crate::shim::current(),
@@ -141,6 +147,8 @@ impl ContextView for BasicContextView {
 
                 let _ = log_event(&ContextViewEvent::Park);
 
+                #[cfg(dam_verif)]
+                crate::verif_hooks::point(3);
                 while cur_time < when {
                     // Park is Acquire, so the load can be relaxed
                     crate::shim::park();
-- 
2.43.0


From c7e8999c805ed97a355325bb463ceb7fcdfdacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 02/18] Add DRAM constructors behind cfg(dam_verif)

---
 src/templates/dram.rs | 50 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..ac15137 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -61,6 +61,56 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
     }
 }
 
+#[cfg(dam_verif)]
+mod verif_constructors {
+    use super::*;
+
+    impl DRAMConfig {
+        /// Builds a configuration from its parts.
+        pub fn verif_new(
+            num_simultaneous_requests: usize,
+            bandwidth_in_bits: usize,
+            latency: Time,
+            capacity: usize,
+        ) -> Self {
+            Self {
+                num_simultaneous_requests,
+                bandwidth_in_bits,
+                latency,
+                capacity,
+            }
+        }
+    }
+
+    impl<IT: Clone, DT: Clone> DRAMReadBundle<IT, DT> {
+        /// Builds a read bundle from its channels.
+        pub fn verif_new(addr: Receiver<IT>, req_size: Receiver<IT>, data: Sender<DT>) -> Self {
+            Self {
+                addr,
+                req_size,
+                data,
+            }
+        }
+    }
+
+    impl<IT: DAMType, DT: DAMType, AT: Clone> DRAMWriteBundle<IT, DT, AT> {
+        /// Builds a write bundle from its channels.
+        pub fn verif_new(
+            addr: Receiver<IT>,
+            request_size: Receiver<IT>,
+            data: Receiver<DT>,
+            ack: Sender<AT>,
+        ) -> Self {
+            Self {
+                addr,
+                request_size,
+                data,
+                ack,
+            }
+        }
+    }
+}
+
 enum AccessBundle<IT: DAMType, DT: DAMType, AT: Clone> {
     Write(DRAMWriteBundle<IT, DT, AT>),
     Read(DRAMReadBundle<IT, DT>),
-- 
2.43.0


From b5474ed61288843a10fa276b13ee84fe74466c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 03/18] fix: acyclic senders forgot the slot freed while
 waiting for space

wait_until_available consumed a response without lowering the number of
outstanding elements, so waiting explicitly and then enqueueing took two
responses for one element and blocked forever.
---
 src/channel/sender/bounded.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index 05aa16f..68a19b7 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -35,6 +35,7 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         match self.bound.resp.recv() {
             Ok(time) => {
                 manager.advance(time);
+                self.bound.send_receive_delta -= 1;
                 Ok(())
             }
             Err(_) => Err(EnqueueError::Closed),
-- 
2.43.0


From 108c99140cbd6f407e3b985264b3049ab026b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 04/18] fix: acyclic peek_next left the clock behind an already
 peeked element

When a plain peek had already fetched the head, peek_next returned it
without advancing the receiver to the element's timestamp.
---
 src/channel/receiver/acyclic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..0e94bc5 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,11 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                let data = data.clone();
+                manager.advance(data.time);
+                return Ok(data);
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From ff5e0d245038d35c91b38fb8f8dda880bf56e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 05/18] fix: datastore reads before the first write returned
 the latest write

A read earlier than every write of an address returned the newest (future)
value, so the result depended on how far the writer had run ahead.
---
 src/templates/datastore.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..d87a2aa 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -69,6 +69,15 @@ impl<T: DAMType> Datastore<T> {
         }
     }
 
+    // The value of an address which has not been written yet
+    fn unwritten(&self) -> T {
+        if self.behavior.use_default_value {
+            T::default()
+        } else {
+            panic!("Attempting to read a value before anything was written!")
+        }
+    }
+
     /// Reads from the datastore. In order to avoid reading a stale value, the reader should first synchronize with the writers (i.e. via [crate::view::ContextView::wait_until])
     pub fn read(&self, addr: usize, time: Time) -> T {
         let history = self.underlying.get(self.safe_addr(addr)).unwrap();
@@ -76,18 +85,12 @@ impl<T: DAMType> Datastore<T> {
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
         match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
-                }
+            Some(x) if x > 0 => reader.get(x - 1).unwrap().data.clone(),
+            Some(_) => self.unwritten(),
+            None => match reader.last() {
+                None => self.unwritten(),
                 Some(last_val) => last_val.data.clone(),
             },
-
-            Some(x) => reader.get(x - 1).unwrap().data.clone(),
         }
     }
 }
-- 
2.43.0


From a802e01d302dffb2160edbcb559846b4bc5dc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 06/18] fix: all-of events claimed to be ready when one part
 was not

Nothing(t) and Ready(t + 1) compare as equal and max() keeps the last of
equal elements, so an all-of over both could report Ready(t + 1) although
one part had promised nothing. The units built on it then dequeued from a
channel without an element, at a time that depended on the schedule.
---
 src/channel/utils.rs  |  9 ++++++++-
 src/templates/dram.rs | 12 +++++-------
 src/templates/pmu.rs  |  7 ++++---
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 53fb445..6be254b 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -24,6 +24,11 @@ impl EventTime {
             EventTime::Closed => Time::infinite(),
         }
     }
+
+    // Nothing(t) and Ready(t + 1) compare as equal, but only one of them is a promise that the event is there.
+    fn is_nothing(&self) -> bool {
+        matches!(self, EventTime::Nothing(_))
+    }
 }
 
 impl Ord for EventTime {
@@ -73,7 +78,9 @@ where
 {
     fn next_event(self) -> EventTime {
         let events = self.under.map(|thing| thing.next_event());
-        events.max().unwrap_or(EventTime::Closed)
+        events
+            .max_by(|a, b| a.cmp(b).then(a.is_nothing().cmp(&b.is_nothing())))
+            .unwrap_or(EventTime::Closed)
     }
 }
 
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index ac15137..24eb7fe 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelElement, Receiver, Sender,
     },
     context::Context,
@@ -34,9 +34,8 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
-            .into_iter()
-            .max()
-            .unwrap()
+            .all_events()
+            .next_event()
     }
 }
 
@@ -55,9 +54,8 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
             self.data.next_event(),
             self.request_size.next_event(),
         ]
-        .into_iter()
-        .max()
-        .unwrap()
+        .all_events()
+        .next_event()
     }
 }
 
diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..53c8367 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -2,14 +2,13 @@
 //! Unlike the original PMU, this does not support processing within the pipeline, and so all values must be pre-computed before being sent here.
 
 use std::{
-    cmp::max,
     collections::{HashMap, HashSet},
     sync::Arc,
 };
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
@@ -282,7 +281,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for WritePipeline<T, IT, AT
                 .writers
                 .iter_mut()
                 .map(|writer: &mut PMUWriteBundle<T, IT, AT>| {
-                    max(writer.addr.next_event(), writer.data.next_event())
+                    [writer.addr.next_event(), writer.data.next_event()]
+                        .all_events()
+                        .next_event()
                 })
                 .collect();
             let next_event = next_events
-- 
2.43.0


From f1ac5f93fc710dd5d6d19c85d799cf94fda6c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 07/18] fix: PMU reads raced with writes of the same cycle

The reader only waited for the writer to reach the read cycle. At that
point a write of that very cycle may or may not have landed.
---
 src/templates/pmu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 53c8367..1d3b9e8 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -197,11 +197,12 @@ where
         self.readers.push(rd);
     }
 
+    // Every write up to and including the current cycle must have landed, so the writer has to be past it.
     fn await_writer(&mut self) -> Time {
         self.writer_view
             .as_ref()
             .unwrap()
-            .wait_until(self.time.tick())
+            .wait_until(self.time.tick() + 1)
     }
 }
 
-- 
2.43.0


From fa6b7feeab33ecff1a3dc9dca857c94d99b06537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 08/18] fix: PMU reported incomplete connections to flavor
 inference

Only the last bundle of each pipeline was reported, and the reader's
dependence on the writer was missing, so feedback through a PMU could be
classified as acyclic and deadlock.
---
 src/templates/pmu.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 1d3b9e8..d155b57 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -74,19 +74,23 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     }
 
     fn edge_connections(&self) -> Option<ExplicitConnections> {
-        let mut result =
-            HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
-        for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
-        }
+        // The bundles of a pipeline share its clock, and the reader waits for the writer's clock.
+        let mut write_srcs = HashSet::<ChannelID>::new();
+        let mut write_dsts = HashSet::<ChannelID>::new();
         for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
+            write_srcs.extend([bundle.addr.id(), bundle.data.id()]);
+            write_dsts.insert(bundle.ack.id());
+        }
+        let mut read_srcs = write_srcs.clone();
+        let mut read_dsts = HashSet::<ChannelID>::new();
+        for bundle in &self.reader.readers {
+            read_srcs.insert(bundle.addr.id());
+            read_dsts.insert(bundle.resp.id());
         }
-        Some(result)
+        Some(HashMap::from([
+            (self.reader.id(), vec![(read_srcs, read_dsts)]),
+            (self.writer.id(), vec![(write_srcs, write_dsts)]),
+        ]))
     }
 
     fn summarize(&self) -> context::ContextSummary {
-- 
2.43.0


From b3396e1ce5e10c83a4091cacc91ce048aaf6194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 09/18] fix: DRAM writes ignored the bandwidth

The transfer time of a write was its size in bits, whatever the bandwidth.
---
 src/templates/dram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 24eb7fe..d131b58 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -263,9 +263,9 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
                         );
 
                         // The bandwidth-constrained transfer time
+                        let write_size: usize = write_buffer.iter().map(|x| x.dam_size()).sum();
                         let transfer_time =
-                            u64::try_from(write_buffer.iter().map(|x| x.dam_size()).sum::<usize>())
-                                .unwrap();
+                            u64::try_from(write_size / self.config.bandwidth_in_bits).unwrap();
                         // This is when the write "actually happened"
                         let write_time = transfer_start_time + transfer_time;
                         write_buffer
-- 
2.43.0


From 86d708793ffcf994abae4545f92bccabce21bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 10/18] fix: traces could not emit an element at time zero

---
 src/utility_contexts/trace_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..2a11daa 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,10 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                let time: Time = time.into();
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From f42ddf926d649395fb5b4fbf576bd89d0efd7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 11/18] fix: endpoints dropped before initialization were
 brought back to life

Initialization installed a live endpoint in place of the dropped one, so
the other side never observed the closure and waited forever.
---
 src/channel/handle.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/channel/handle.rs b/src/channel/handle.rs
index 9f801a3..43a0466 100644
--- a/src/channel/handle.rs
+++ b/src/channel/handle.rs
@@ -57,6 +57,8 @@ impl<T: Clone> ChannelData<T> {
 
 impl<T: Clone> ChannelHandle for ChannelData<T> {
     fn set_flavor(&self, flavor: ChannelFlavor) {
+        let sender_dropped = matches!(self.sender(), SenderImpl::Terminated(_));
+        let receiver_dropped = matches!(self.receiver(), ReceiverImpl::Terminated(_));
         let make_receiver_data = |underlying| ReceiverData::<T> {
             spec: self.channel_spec.make_inline(),
             underlying,
@@ -149,6 +151,14 @@ impl<T: Clone> ChannelHandle for ChannelData<T> {
                 }
             }
         }
+
+        // An endpoint which was already dropped must stay terminated, or the other side never sees the channel close.
+        if sender_dropped {
+            *self.sender() = SenderImpl::default();
+        }
+        if receiver_dropped {
+            *self.receiver() = ReceiverImpl::default();
+        }
     }
 
     fn sender(&self) -> Option<Identifier> {
-- 
2.43.0


From c8e05e36bdafb7bd95105a7b52f85b3de75beddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 12/18] fix: all-of events claimed to be ready while a part had
 nothing yet

The latest of Ready(13) and Nothing(3) is Ready(13), although the second part
may have its element much later, or never. Whether the second part said
Nothing(3) or Nothing(20) depends on how far its sender happened to be, so
units that arbitrate between bundles chose different requests in different
runs.
---
 src/channel/utils.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 6be254b..3331cc9 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -24,11 +24,6 @@ impl EventTime {
             EventTime::Closed => Time::infinite(),
         }
     }
-
-    // Nothing(t) and Ready(t + 1) compare as equal, but only one of them is a promise that the event is there.
-    fn is_nothing(&self) -> bool {
-        matches!(self, EventTime::Nothing(_))
-    }
 }
 
 impl Ord for EventTime {
@@ -78,9 +73,16 @@ where
 {
     fn next_event(self) -> EventTime {
         let events = self.under.map(|thing| thing.next_event());
-        events
-            .max_by(|a, b| a.cmp(b).then(a.is_nothing().cmp(&b.is_nothing())))
-            .unwrap_or(EventTime::Closed)
+        let mut all_known = true;
+        let latest = events
+            .inspect(|event| all_known &= !matches!(event, EventTime::Nothing(_)))
+            .max();
+        match latest {
+            // Some part only said that it has nothing yet, so the latest of the others isn't a promise that all are there.
+            Some(EventTime::Ready(time)) if !all_known => EventTime::Nothing(time - 1),
+            Some(event) => event,
+            None => EventTime::Closed,
+        }
     }
 }
 
-- 
2.43.0


From 765c2b90a82815a3068e67195dbc6473f5ae15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:00 +0000
Subject: [PATCH 13/18] fix: a failing PMU pipeline kept its channels open

The pipelines were only cleaned up after a regular end. When one of them
failed, the other one kept waiting for its clock and its neighbours kept
waiting for its channels, so the simulation hung instead of reporting the
failure.
---
 src/templates/pmu.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index d155b57..a15fe19 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -3,6 +3,7 @@
 
 use std::{
     collections::{HashMap, HashSet},
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
     sync::Arc,
 };
 
@@ -46,8 +47,7 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
                     logger.id = self.reader.id();
                     initialize_log(logger);
                 }
-                self.reader.run();
-                self.reader.cleanup();
+                run_pipeline(&mut self.reader);
             })
             .unwrap();
             crate::shim::spawn!(s, || {
@@ -55,8 +55,7 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
                     logger.id = self.writer.id();
                     initialize_log(logger);
                 }
-                self.writer.run();
-                self.writer.cleanup();
+                run_pipeline(&mut self.writer);
             })
             .unwrap();
         });
@@ -179,6 +178,17 @@ pub struct PMUWriteBundle<T: Clone, IT: Clone, AT: Clone> {
     pub ack: Sender<AT>,
 }
 
+/// A pipeline that fails has to let go of its channels and its clock right away:
+/// the PMU itself only ends once the other pipeline does, which may well be waiting for this one.
+fn run_pipeline<T: Context>(pipeline: &mut ProxyContext<T>) {
+    #[allow(deprecated)]
+    let result = catch_unwind(AssertUnwindSafe(|| pipeline.run()));
+    pipeline.cleanup();
+    if let Err(panic) = result {
+        resume_unwind(panic);
+    }
+}
+
 #[context_internal]
 struct ReadPipeline<T, IT>
 where
-- 
2.43.0


From e5df611ea2f49a1a187321663b2d028d7bdcde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:06 +0000
Subject: [PATCH 14/18] fix: callbacks of logged events ran with the logger
 locked

---
 src/logging/log_functions.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/logging/log_functions.rs b/src/logging/log_functions.rs
index 2336f65..ee7d227 100644
--- a/src/logging/log_functions.rs
+++ b/src/logging/log_functions.rs
@@ -37,11 +37,15 @@ cfg_if! {
         where
             F: FnOnce() -> T,
         {
-            LOGGER.with(|logger| match logger.lock().unwrap().deref() {
-                Some(interface) if interface.log_filter.enabled::<T>() => interface.log(&callback()),
-                Some(_) => Ok(()),
-                None => Ok(()),
-            })
+            let enabled = LOGGER.with(|logger| match logger.lock().unwrap().deref() {
+                Some(interface) => interface.log_filter.enabled::<T>(),
+                None => false,
+            });
+            if !enabled {
+                return Ok(());
+            }
+            // The callback may panic, log, or advance the clock, so it must not run with the logger locked.
+            log_event(&callback())
         }
 
         /// Standard logging method, which logs to the underlying logger.
-- 
2.43.0


From 64a31b2fc696da1f3f2a27db636fdec25a6e999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 15/18] fix: a bounded sender took the end of its receiver for
 a response

---
 src/channel/sender/bounded.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index 68a19b7..3c43fb0 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -144,9 +144,12 @@ impl<T> BoundedProvider for BoundedCyclicSender<T> {
             // Forces the resp channel to synchronize w.r.t. the signal.
 
             if !self.update_srd() {
-                self.next_available = Some(SendOptions::CheckBackAt(
-                    new_time + self.data.spec.response_latency,
-                ));
+                self.next_available = Some(if new_time.is_infinite() {
+                    // The receiver has finished, so there won't be any more responses.
+                    SendOptions::Never
+                } else {
+                    SendOptions::CheckBackAt(new_time + self.data.spec.response_latency)
+                });
             }
         }
     }
-- 
2.43.0


From 49b86b63ad80d19ed11e0f4d253597a5e6ebe5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 16/18] cfg(dam_verif): a perturbation point before other
 contexts' clocks are read

---
 src/datastructures/time.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/datastructures/time.rs b/src/datastructures/time.rs
index 15632db..a50c4a5 100644
--- a/src/datastructures/time.rs
+++ b/src/datastructures/time.rs
@@ -167,6 +167,8 @@ impl AtomicTime {
 
     /// Reads the underlying time with Acquire semantics, used by other threads.
     pub fn load(&self) -> Time {
+        #[cfg(dam_verif)]
+        crate::verif_hooks::point(11);
         let time = self.time.load(std::sync::atomic::Ordering::Acquire);
         #[cfg(dam_verif)]
         crate::verif_hooks::point(10);
-- 
2.43.0


From 892ac6f32b5a4ddeec470762f52cd3b8704e2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:13 +0000
Subject: [PATCH 17/18] fix: check a context's clock again after logging that
 it will be waited for

A log entry can block on a full queue, which parks the waiting thread and consumes the wakeup its registered signal
stands for. The thread then parked again on a clock value read before, and was never woken.
---
 src/view/basic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/view/basic.rs b/src/view/basic.rs
index 0dac480..5e96908 100644
--- a/src/view/basic.rs
+++ b/src/view/basic.rs
@@ -147,6 +147,9 @@ impl ContextView for BasicContextView {
 
                 let _ = log_event(&ContextViewEvent::Park);
 
+                // Logging may block, and then consumes the wakeup which this signal stands for, so check again.
+                cur_time = self.under.time.load();
+
                 #[cfg(dam_verif)]
                 crate::verif_hooks::point(3);
                 while cur_time < when {
-- 
2.43.0


From 9023089aa847d89a9bab411f6a37fbf4d9ad49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:25 +0000
Subject: [PATCH 18/18] fix: a run whose logger panicked returned as if its log
 were complete

---
 src/simulation/initialized.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/initialized.rs b/src/simulation/initialized.rs
index 88dbd67..429b096 100644
--- a/src/simulation/initialized.rs
+++ b/src/simulation/initialized.rs
@@ -92,7 +92,10 @@ impl<'a> Initialized<'a> {
             drop(log_sender);
         });
 
-        handle.map(|jh| jh.join());
+        // A logger which panicked has lost entries, which shouldn't go unnoticed.
+        if let Some(Err(cause)) = handle.map(|jh| jh.join()) {
+            std::panic::resume_unwind(cause);
+        }
 
         Executed {
             nodes: std::sync::Arc::into_inner(summaries)
-- 
2.43.0

