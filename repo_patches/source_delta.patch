From 630b0fcd3aa27e1131daebef13b7e7a6f59ff31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:31 +0000
Subject: [PATCH 01/12] fix: do not overflow when adding the two halves of a
 long pulse

A mark and a space whose lengths together exceed the duration type made the
NEC, Samsung Blu-ray and Denon decoders overflow (panic in debug builds, a
bogus short pulse otherwise).
---
 src/protocol/denon/mod.rs       |  2 +-
 src/protocol/nec/decoder.rs     |  2 +-
 src/protocol/sbp/mod.rs         |  2 +-
 src/receiver/time.rs            |  5 +++++
 src/receiver/time/fgt.rs        | 10 ++++++++++
 src/receiver/time/primitives.rs |  8 ++++++++
 6 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 00fcb5b..f72f6d1 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -79,7 +79,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
     fn event(&mut self, rising: bool, dt: Mono::Duration) -> State {
 
         if rising {
-            let pulsewidth = self.spans.get::<PulseWidth>( self.dt_save + dt)
+            let pulsewidth = self.spans.get::<PulseWidth>(Mono::saturating_add(self.dt_save, dt))
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 6bf3bf5..4543408 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -94,7 +94,7 @@ where
 
         if rising {
 
-            let total_duration = dur + self.dt_save;
+            let total_duration = Mono::saturating_add(dur, self.dt_save);
 
             let pulsewidth = self.pulsespans.get(total_duration)
                 .unwrap_or(PulseWidth::Invalid);
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 49551e8..3858946 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -138,7 +138,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         use SbpState::*;
 
         if rising {
-            let dt = self.since_rising + dt;
+            let dt = Mono::saturating_add(self.since_rising, dt);
             let pulsewidth = self.spans.get::<SbpPulse>(dt).unwrap_or(SbpPulse::NotAPulseWidth);
 
             self.state = match (self.state, pulsewidth) {
diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 96fe8fa..1b5ce00 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -20,6 +20,11 @@ pub trait InfraMonotonic: Sized {
 
     fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration>;
 
+    /// Add two durations, staying at the largest duration instead of overflowing
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a + b
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration>;
 }
 
diff --git a/src/receiver/time/fgt.rs b/src/receiver/time/fgt.rs
index 6e71079..a834fe9 100644
--- a/src/receiver/time/fgt.rs
+++ b/src/receiver/time/fgt.rs
@@ -12,6 +12,11 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u32, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.checked_add(b)
+            .unwrap_or(Self::Duration::from_ticks(u32::MAX))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<Self::Duration>::new(p.micros(), t)
     }
@@ -37,6 +42,11 @@ impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENO
         a.checked_duration_since(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.checked_add(b)
+            .unwrap_or(Self::Duration::from_ticks(u64::MAX))
+    }
+
     fn create_span(_freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         let p: u64 = p.into();
         Span::<Self::Duration>::new(p.micros(), t)
diff --git a/src/receiver/time/primitives.rs b/src/receiver/time/primitives.rs
index feedf93..5f6e7f8 100644
--- a/src/receiver/time/primitives.rs
+++ b/src/receiver/time/primitives.rs
@@ -13,6 +13,10 @@ impl InfraMonotonic for u32 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u32>::scaled(p, freq, t)
     }
@@ -28,6 +32,10 @@ impl InfraMonotonic for u64 {
         a.checked_sub(b)
     }
 
+    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
+        a.saturating_add(b)
+    }
+
     fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
         Span::<u64>::scaled(p, freq, t)
     }
-- 
2.43.0


From cbdccaaab2efdf562c9bd89e9b9144718fe0b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:33 +0000
Subject: [PATCH 02/12] fix: keep the last bit of a Denon frame

The 48th bit was dropped when it was a one.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index f72f6d1..2805e57 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -86,7 +86,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
-                (DenonState::Data(47),      PulseWidth::One)    => DenonState::Done,
+                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                 (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                 (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                 (DenonState::Data(_ix),     _)                  => DenonState::Idle,
-- 
2.43.0


From f57d44ee6592753deed3898989bafc6dbb566562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:34 +0000
Subject: [PATCH 03/12] fix: start every Denon frame with an empty buffer

The bits of a frame that was broken off were left in the buffer and showed
up in the next command.
---
 src/protocol/denon/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/denon/mod.rs b/src/protocol/denon/mod.rs
index 2805e57..0b6c8aa 100644
--- a/src/protocol/denon/mod.rs
+++ b/src/protocol/denon/mod.rs
@@ -83,7 +83,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Denon, Mono> for DenonDecoder<Mono> {
                 .unwrap_or(PulseWidth::Fail);
 
             self.state = match (self.state, pulsewidth) {
-                (DenonState::Idle,          PulseWidth::Sync)   => DenonState::Data(0),
+                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }
                 (DenonState::Idle,          _)                  => DenonState::Idle,
                 (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                 (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
-- 
2.43.0


From 23f340cb851fee56d9777f5ccb8db7a8824d1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:36 +0000
Subject: [PATCH 04/12] fix: only hand out a command when a frame is complete

ProtocolDecoder::command is documented to return None unless the decoder is
done, but the RC5, RC6 and Samsung Blu-ray decoders always made up one.
---
 src/protocol/rc5/decoder.rs | 5 ++++-
 src/protocol/rc6/decoder.rs | 5 ++++-
 src/protocol/sbp/mod.rs     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index 3a404d1..fe4285d 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -68,7 +68,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc5Command> {
-        Some(Rc5Command::unpack(self.bitbuf))
+        match self.state {
+            Rc5State::Done => Some(Rc5Command::unpack(self.bitbuf)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 76234d6..798266e 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -93,7 +93,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
     }
 
     fn command(&self) -> Option<Rc6Command> {
-        Some(Rc6Command::from_bits(self.data, self.toggle))
+        match self.state {
+            Rc6State::Done => Some(Rc6Command::from_bits(self.data, self.toggle)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 3858946..6294fc5 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -170,7 +170,10 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Sbp, Mono> for SbpDecoder<Mono> {
         self.state.into()
     }
     fn command(&self) -> Option<SbpCommand> {
-        Some(SbpCommand::unpack(self.address, self.command))
+        match self.state {
+            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
+            _ => None,
+        }
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 55c2b45c3f4cdf1a98bd37b994acccc67b7bda15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 05/12] fix: only repeat a NEC command that was received
 completely

A repeat code after a broken frame, or before any frame, was reported as a
command made of whatever bits were in the buffer.
---
 src/protocol/nec/decoder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protocol/nec/decoder.rs b/src/protocol/nec/decoder.rs
index 4543408..8915bbc 100644
--- a/src/protocol/nec/decoder.rs
+++ b/src/protocol/nec/decoder.rs
@@ -33,6 +33,7 @@ impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> DecoderBuilder<Mono> for Nec<
         NecDecoder {
             state: NecState::Init,
             bitbuf: 0,
+            complete: false,
             cmd_type: Default::default(),
             dt_save: Mono::ZERO_DURATION,
             pulsespans: PulseSpans::new(freq, &pulselens::<Cmd>(), &TOL),
@@ -45,6 +46,8 @@ pub struct NecDecoder<Mono: InfraMonotonic, C = NecCommand> {
     state: NecState,
     // Data buffer
     bitbuf: u32,
+    // The data buffer holds a complete command
+    complete: bool,
     // Nec Command type
     cmd_type: PhantomData<C>,
     // Saved dt
@@ -100,12 +103,12 @@ where
                 .unwrap_or(PulseWidth::Invalid);
 
             let status = match (self.state, pulsewidth) {
-                (Init,              Sync)   => { self.bitbuf = 0; Receiving(0) },
+                (Init,              Sync)   => { self.bitbuf = 0; self.complete = false; Receiving(0) },
                 (Init,              Repeat) => RepeatDone,
                 (Init,              _)      => Init,
 
-                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; Done }
-                (Receiving(31),     Zero)   => Done,
+                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
+                (Receiving(31),     Zero)   => { self.complete = true; Done }
                 (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                 (Receiving(bit),    Zero)   => Receiving(bit + 1),
                 (Receiving(_),      _)      => Err(DecodingError::Data),
@@ -136,7 +139,7 @@ where
     fn command(&self) -> Option<Cmd> {
         match self.state {
             NecState::Done => Cmd::unpack(self.bitbuf, false),
-            NecState::RepeatDone => Cmd::unpack(self.bitbuf, true),
+            NecState::RepeatDone if self.complete => Cmd::unpack(self.bitbuf, true),
             _ => None,
         }
     }
-- 
2.43.0


From ba50924eeb8dcf2da7cae17b7e129768d56b51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:08 +0000
Subject: [PATCH 06/12] fix: do not end buffer iteration at a corrupt frame

The iterator returned None for a decoding error or a frame without a
command, so a for loop never saw the commands behind it.
---
 src/receiver/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/receiver/iter.rs b/src/receiver/iter.rs
index 7398553..dbb5537 100644
--- a/src/receiver/iter.rs
+++ b/src/receiver/iter.rs
@@ -60,11 +60,12 @@ where
                 State::Done => {
                     let cmd = self.decoder.command();
                     self.decoder.reset();
-                    break cmd.map(|r| r.into());
+                    if let Some(cmd) = cmd {
+                        break Some(cmd.into());
+                    }
                 }
                 State::Error(_) => {
                     self.decoder.reset();
-                    break None;
                 }
             }
         }
-- 
2.43.0


From 7f7eeecf62524163ae4bad777a557f288c76514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:09 +0000
Subject: [PATCH 07/12] fix: refuse to create commands the protocol cannot
 carry

NEC and Samsung commands were silently truncated to 8 bits, and RC5 accepted
addresses above 31 and commands above 63, which spill into the neighbouring
fields when packed.
---
 src/protocol/nec/samsung.rs  | 4 ++--
 src/protocol/nec/standard.rs | 4 ++--
 src/protocol/rc5/mod.rs      | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/protocol/nec/samsung.rs b/src/protocol/nec/samsung.rs
index cd60a29..c3f8ac9 100644
--- a/src/protocol/nec/samsung.rs
+++ b/src/protocol/nec/samsung.rs
@@ -53,8 +53,8 @@ impl AddressCommand for SamsungNecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(SamsungNecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/nec/standard.rs b/src/protocol/nec/standard.rs
index e50d63e..ed70c3e 100644
--- a/src/protocol/nec/standard.rs
+++ b/src/protocol/nec/standard.rs
@@ -54,8 +54,8 @@ impl AddressCommand for NecCommand {
 
     fn create(addr: u32, cmd: u32) -> Option<Self> {
         Some(NecCommand {
-            addr: addr as u8,
-            cmd: cmd as u8,
+            addr: addr.try_into().ok()?,
+            cmd: cmd.try_into().ok()?,
             repeat: false,
         })
     }
diff --git a/src/protocol/rc5/mod.rs b/src/protocol/rc5/mod.rs
index 59ca5bb..a2ba056 100644
--- a/src/protocol/rc5/mod.rs
+++ b/src/protocol/rc5/mod.rs
@@ -90,7 +90,12 @@ impl AddressCommand for Rc5Command {
 
     fn create(addr: u32, cmd: u32) -> Option<Rc5Command> {
         let addr: u8 = addr.try_into().ok()?;
-        let cmd = cmd.try_into().ok()?;
+        let cmd: u8 = cmd.try_into().ok()?;
+
+        // 5 bit address and 6 bit command
+        if addr > 0x1F || cmd > 0x3F {
+            return None;
+        }
 
         Some(Rc5Command::new(addr, cmd, false))
     }
-- 
2.43.0


From 92854f2284acfec7df78088e7a7a3f42c65373ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:11 +0000
Subject: [PATCH 08/12] fix: stop sending at the end of the loaded command

The rest of the buffer, including pulses of a longer earlier command, was
played after the last pulse.
---
 src/sender/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender/buffer.rs b/src/sender/buffer.rs
index f24a0b9..0a05e06 100644
--- a/src/sender/buffer.rs
+++ b/src/sender/buffer.rs
@@ -23,7 +23,7 @@ impl<const S: usize> PulsedataBuffer<S> {
     }
 
     pub fn get(&self, index: usize) -> Option<u32> {
-        self.buf.get(index).cloned()
+        self.buffer().get(index).cloned()
     }
 
     pub fn buffer(&self) -> &[u32] {
-- 
2.43.0


From d289742e5279ca8d08e2f9de6cbe267809c0fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:12 +0000
Subject: [PATCH 09/12] fix: keep the page in the Apple command number

The page was shifted out of its u8, so commands of different pages got the
same number.
---
 src/protocol/nec/apple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/nec/apple.rs b/src/protocol/nec/apple.rs
index e925129..a416a60 100644
--- a/src/protocol/nec/apple.rs
+++ b/src/protocol/nec/apple.rs
@@ -70,7 +70,7 @@ impl AddressCommand for AppleNecCommand {
     }
 
     fn command(&self) -> u32 {
-        u32::from((self.command_page << 7) | self.command)
+        (u32::from(self.command_page) << 7) | u32::from(self.command)
     }
 
     fn create(_addr: u32, _cmd: u32) -> Option<Self> {
-- 
2.43.0


From ff9229d300a39fecacb14e7cc699108ab898d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:14 +0000
Subject: [PATCH 10/12] fix: build with sbp but not remotes, and with
 embedded-hal alone

---
 src/protocol/sbp/mod.rs | 4 +---
 src/receiver/ppoll.rs   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protocol/sbp/mod.rs b/src/protocol/sbp/mod.rs
index 6294fc5..46464f6 100644
--- a/src/protocol/sbp/mod.rs
+++ b/src/protocol/sbp/mod.rs
@@ -9,14 +9,12 @@
 
 use core::convert::TryInto;
 
-#[cfg(feature = "remotes")]
-use crate::receiver::{DecodingError, ProtocolDecoder, State};
 use crate::{
     cmd::{AddressCommand, Command},
     protocol::Protocol,
     receiver::{
         time::{InfraMonotonic, PulseSpans},
-        DecoderBuilder,
+        DecoderBuilder, DecodingError, ProtocolDecoder, State,
     },
     ProtocolId,
 };
diff --git a/src/receiver/ppoll.rs b/src/receiver/ppoll.rs
index 02f6dd4..82e96af 100644
--- a/src/receiver/ppoll.rs
+++ b/src/receiver/ppoll.rs
@@ -1,6 +1,6 @@
 use core::marker::PhantomData;
 
-#[cfg(feature = "embedded")]
+#[cfg(feature = "embedded-hal")]
 use embedded_hal::digital::v2::InputPin;
 
 use crate::{
-- 
2.43.0


From 41c10b0709ae6aeea304744d956f64fc1ff35555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:15 +0000
Subject: [PATCH 11/12] fix: let the RC5 and RC6 bit clock wrap around

A long enough stream of valid pulses without a valid frame overflowed it,
within a minute where usize has 16 bits. Only its parity is used.
---
 src/protocol/rc5/decoder.rs | 2 +-
 src/protocol/rc6/decoder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/rc5/decoder.rs b/src/protocol/rc5/decoder.rs
index fe4285d..3fe0daf 100644
--- a/src/protocol/rc5/decoder.rs
+++ b/src/protocol/rc5/decoder.rs
@@ -31,7 +31,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc5, Mono> for Rc5Decoder<Mono> {
         let clock_ticks = self.spans.get::<usize>(delta_t);
 
         if let Some(ticks) = clock_ticks {
-            self.clock += ticks + 1;
+            self.clock = self.clock.wrapping_add(ticks + 1);
         } else {
             self.reset();
         }
diff --git a/src/protocol/rc6/decoder.rs b/src/protocol/rc6/decoder.rs
index 798266e..b5b7006 100644
--- a/src/protocol/rc6/decoder.rs
+++ b/src/protocol/rc6/decoder.rs
@@ -44,7 +44,7 @@ impl<Mono: InfraMonotonic> ProtocolDecoder<Rc6, Mono> for Rc6Decoder<Mono> {
 
         // Reconstruct the clock
         if let Some(ticks) = ticks {
-            self.clock += ticks;
+            self.clock = self.clock.wrapping_add(ticks);
         } else {
             self.reset();
         }
-- 
2.43.0


From 3baa94a11ba64a20a42b328871c4764ba217872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:17 +0000
Subject: [PATCH 12/12] fix: do not match unused pulse spans

The unused slots of the span table are [0, 0] and matched a duration of
zero, which RC5 and RC6 then counted as a pulse of 3 or 7 units.
---
 src/receiver/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/receiver/time.rs b/src/receiver/time.rs
index 1b5ce00..1cf34c3 100644
--- a/src/receiver/time.rs
+++ b/src/receiver/time.rs
@@ -61,7 +61,7 @@ where
     pub fn get<P: From<usize>>(&self, pl: Mono::Duration) -> Option<P> {
         self.spans
             .iter()
-            .position(|v| v.contains(pl))
+            .position(|v| v.high > Mono::ZERO_DURATION && v.contains(pl))
             .map(Into::into)
     }
 
-- 
2.43.0

