#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of the library on which every
check has to stay quiet.  usage: refactors.py [name...]   (applies each to /repo,
runs the stable tests and the checks named with it, and undoes it)"""
import shutil, subprocess, sys, os, time
R = "/repo"
RX = []
def rx(name, checks, *edits):
    RX.append((name, checks.split(), edits))

NEC = "C01 C02 C07 C08 C09 C10 C25"
rx("nec-match", NEC, ("src/protocol/nec/decoder.rs", """                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
                (Receiving(31),     Zero)   => { self.complete = true; Done }
                (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                (Receiving(bit),    Zero)   => Receiving(bit + 1),
""", """                (Receiving(bit),    One | Zero)    => {
                    if matches!(pulsewidth, One) {
                        self.bitbuf |= 1 << bit;
                    }
                    if bit < 31 {
                        Receiving(bit + 1)
                    } else {
                        self.complete = true;
                        Done
                    }
                }
"""))
rx("nec-shift", NEC, ("src/protocol/nec/decoder.rs", """                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
                (Receiving(31),     Zero)   => { self.complete = true; Done }
                (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                (Receiving(bit),    Zero)   => Receiving(bit + 1),
""", """                (Receiving(bit),    One)    => self.push(true, bit),
                (Receiving(bit),    Zero)   => self.push(false, bit),
"""), ("src/protocol/nec/decoder.rs", """#[derive(Debug, Copy, Clone)]
#[cfg_attr(feature = "defmt", derive(defmt::Format))]
pub enum PulseWidth {""", """impl<Mono: InfraMonotonic, Cmd: NecCommandVariant> NecDecoder<Mono, Cmd> {
    /// Shift in a bit, least significant first
    fn push(&mut self, one: bool, bit: u32) -> NecState {
        self.bitbuf = (self.bitbuf >> 1) | (u32::from(one) << 31);
        self.complete = bit == 31;
        if self.complete {
            NecState::Done
        } else {
            NecState::Receiving(bit + 1)
        }
    }
}

#[derive(Debug, Copy, Clone)]
#[cfg_attr(feature = "defmt", derive(defmt::Format))]
pub enum PulseWidth {"""))
rx("nec-early", NEC, ("src/protocol/nec/decoder.rs", """        if rising {

            let total_duration""", """        if !rising {
            // Save
            self.dt_save = dur;
            return self.state.into();
        }
        {
            let total_duration"""), ("src/protocol/nec/decoder.rs", """        } else {
            // Save
            self.dt_save = dur;
        }

        self.state.into()""", """        }

        self.state.into()"""))
rx("nec-iflet", NEC, ("src/protocol/nec/decoder.rs", """        match self.state {
            NecState::Done => Cmd::unpack(self.bitbuf, false),
            NecState::RepeatDone if self.complete => Cmd::unpack(self.bitbuf, true),
            _ => None,
        }""", """        let repeat = self.state == NecState::RepeatDone;
        if !repeat && self.state != NecState::Done || !self.complete {
            return None;
        }
        Cmd::unpack(self.bitbuf, repeat)"""))
rx("nec-take", NEC, ("src/protocol/nec/decoder.rs", "Mono::saturating_add(dur, self.dt_save);", "Mono::saturating_add(dur, core::mem::replace(&mut self.dt_save, Mono::ZERO_DURATION));"),
   ("src/protocol/nec/decoder.rs", """            self.state = status;

            self.dt_save = Mono::ZERO_DURATION;
""", """            self.state = status;
"""))
SP = "C01 C02 C03 C04 C05 C06 C07 C10 C25"
rx("span-loop", SP, ("src/receiver/time.rs", """        self.spans
            .iter()
            .position(|v| v.high > Mono::ZERO_DURATION && v.contains(pl))
            .map(Into::into)""", """        for (i, v) in self.spans.iter().enumerate() {
            if v.high > Mono::ZERO_DURATION && v.contains(pl) {
                return Some(i.into());
            }
        }
        None"""))
rx("span-while", SP, ("src/receiver/time.rs", """        self.spans
            .iter()
            .position(|v| v.high > Mono::ZERO_DURATION && v.contains(pl))
            .map(Into::into)""", """        let mut i = 0;
        while i < self.spans.len() {
            let v = &self.spans[i];
            let hit = v.high > Mono::ZERO_DURATION && v.contains(pl);
            if hit {
                break;
            }
            i += 1;
        }
        (i < self.spans.len()).then(|| P::from(i))"""))
rx("span-filter", SP, ("src/receiver/time.rs", """            .iter()
            .position(|v| v.high > Mono::ZERO_DURATION && v.contains(pl))
            .map(Into::into)""", """            .iter()
            .enumerate()
            .filter(|(_, v)| v.high > Mono::ZERO_DURATION)
            .find(|(_, v)| v.contains(pl))
            .map(|(i, _)| i.into())"""))
rx("span-range", SP, ("src/receiver/time.rs", "        self.low <= other && other <= self.high", "        (self.low..=self.high).contains(&other)"))
rx("span-neg", SP, ("src/receiver/time.rs", "        self.low <= other && other <= self.high", "        !(other < self.low || other > self.high)"))
rx("span-fromfn", SP, ("src/receiver/time.rs", """            spans: [
                Mono::create_span(freq, pulse[0], tolerance[0]),
                Mono::create_span(freq, pulse[1], tolerance[1]),
                Mono::create_span(freq, pulse[2], tolerance[2]),
                Mono::create_span(freq, pulse[3], tolerance[3]),
                Mono::create_span(freq, pulse[4], tolerance[4]),
                Mono::create_span(freq, pulse[5], tolerance[5]),
                Mono::create_span(freq, pulse[6], tolerance[6]),
                Mono::create_span(freq, pulse[7], tolerance[7]),
            ],""", """            spans: core::array::from_fn(|i| Mono::create_span(freq, pulse[i], tolerance[i])),"""))
rx("scale-rec", SP + " C09", ("src/protocol/utils.rs", """    let mut div = 1_000_000;

    while len.checked_mul(samplerate).is_none() {
        div /= 1000;
        samplerate /= 1000;
    }

    (len * samplerate) / div""", """    let mut div = 1_000_000;

    loop {
        match len.checked_mul(samplerate) {
            Some(ticks) => return ticks / div,
            None => {
                samplerate /= 1000;
                div /= 1000;
            }
        }
    }"""))
rx("scale-u64", SP + " C09", ("src/protocol/utils.rs", "(len: u32, mut samplerate: u32) -> u32 {", "(len: u32, samplerate: u32) -> u32 {"), ("src/protocol/utils.rs", """    let mut div = 1_000_000;

    while len.checked_mul(samplerate).is_none() {
        div /= 1000;
        samplerate /= 1000;
    }

    (len * samplerate) / div""", """    (len as u64 * samplerate as u64 / 1_000_000) as u32"""))
rx("prim-helper", SP, ("src/receiver/time/primitives.rs", """        let tol = base * tol / 100;
        let low = base - tol;
        let high = base + tol;

        Span {
            low: low as u64,
            high: high as u64,
        }""", """        let Span { low, high } = Span::<u32>::new(base, tol);

        Span {
            low: low as u64,
            high: high as u64,
        }"""))
RC5 = "C01 C03 C07 C09 C10 C25"
rx("rc5-sample", RC5, ("src/protocol/rc5/decoder.rs", """            (Data(0), true, Some(_)) if is_odd => {
                self.bitbuf |= 1;
                Done
            }
            (Data(0), false, Some(_)) if is_odd => Done,

            (Data(bit), true, Some(_)) if is_odd => {
                self.bitbuf |= 1 << bit;
                Data(bit - 1)
            }
            (Data(bit), false, Some(_)) if is_odd => Data(bit - 1),
""", """            (Data(bit), _, Some(_)) if is_odd => {
                self.bitbuf |= u16::from(rising) << bit;
                match bit.checked_sub(1) {
                    Some(next) => Data(next),
                    None => Done,
                }
            }
"""))
rx("rc5-split", RC5, ("src/protocol/rc5/decoder.rs", """        if let Some(ticks) = clock_ticks {
            self.clock = self.clock.wrapping_add(ticks + 1);
        } else {
            self.reset();
        }

        let is_odd = self.clock & 1 == 0;
""", """        match clock_ticks {
            Some(ticks) => self.clock = self.clock.wrapping_add(1).wrapping_add(ticks),
            None => self.reset(),
        }

        let is_odd = self.clock % 2 != 1;
"""))
RC6 = "C01 C04 C07 C09 C10 C25"
rx("rc6-head", RC6, ("src/protocol/rc6/decoder.rs", """                self.headerdata |= if rising { 0 } else { 1 } << n;
                if n == 0 {""", """                if !rising {
                    self.headerdata |= 1 << n;
                }
                if n < 1 {"""), ("src/protocol/rc6/decoder.rs", """            (Data(0),       true,       Some(_)) if odd => Done,
            (Data(0),       false,      Some(_)) if odd => { self.data |= 1; Done }
            (Data(0),       _,          Some(_))        => Data(0),
            (Data(n),       true,       Some(_)) if odd => Data(n - 1),
            (Data(n),       false,      Some(_)) if odd => { self.data |= 1 << n; Data(n - 1) }
            (Data(n),       _,          Some(_))        => Data(n),
""", """            (Data(n),       _,          Some(_)) if !odd => Data(n),
            (Data(n),       _,          Some(_)) => {
                if !rising { self.data |= 1 << n }
                if n > 0 { Data(n - 1) } else { Done }
            }
"""))
rx("rc6-early", RC6, ("src/protocol/rc6/decoder.rs", """        if let Some(ticks) = ticks {
            self.clock = self.clock.wrapping_add(ticks);
        } else {
            self.reset();
        }
""", """        if ticks.is_none() {
            self.reset();
        }
        self.clock = self.clock.wrapping_add(ticks.unwrap_or(0));
"""))
rx("sbp", "C01 C05 C07 C10 C25", ("src/protocol/sbp/mod.rs", """                (Address(15),   One)    => { self.address |= 1 << 15; Divider }
                (Address(15),   Zero)   => Divider,
                (Address(bit),  One)    => { self.address |= 1 << bit; Address(bit + 1) }
                (Address(bit),  Zero)   => Address(bit + 1),
""", """                (Address(bit),  w @ (One | Zero))    => {
                    if let One = w {
                        self.address += 1 << bit;
                    }
                    if bit == 15 { Divider } else { Address(bit + 1) }
                }
"""), ("src/protocol/sbp/mod.rs", """        command >>= 4;

        // Check the checksum
        let valid = ((command ^ (command >> 8)) & 0xFF) == 0xFF;
""", """        command >>= 4;

        // Check the checksum
        let [cmd, check, ..] = command.to_le_bytes();
        let valid = cmd == !check;
"""))
rx("denon", "C01 C06 C07 C10 C25", ("src/protocol/denon/mod.rs", """                (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
                (DenonState::Data(_ix),     _)                  => DenonState::Idle,
""", """                (DenonState::Data(idx),     bit) => match bit {
                    PulseWidth::Sync | PulseWidth::Fail => DenonState::Idle,
                    bit => {
                        let one = u64::from(matches!(bit, PulseWidth::One));
                        self.buf |= one << idx;
                        if idx + 1 == 48 { DenonState::Done } else { DenonState::Data(idx + 1) }
                    }
                }
"""), ("src/protocol/denon/mod.rs", """        if self.state == DenonState::Done {
            Some(DenonCommand { bits: self.buf })
        } else {
            None
        }""", """        (self.state == DenonState::Done).then(|| DenonCommand { bits: self.buf })"""))
rx("rcv-total", "C01 C11 C14 C20 C24 C25 C07", ("src/receiver.rs", """        // Update state machine
        let state = self.decoder.event(edge, dt);

        match state {
            State::Done => {
                let cmd = self.decoder.command().map(Into::into);
                self.decoder.reset();
                Ok(cmd)
            }
            State::Error(err) => {
                self.decoder.reset();
                Err(err)
            }
            State::Idle | State::Receiving => Ok(None),
        }""", """        let cmd = self.decoder.event_total(edge, dt)?;
        Ok(cmd.map(Cmd::from))"""), ("src/receiver.rs", "pub use decoder::{DecoderBuilder, ProtocolDecoder, State};", "pub use decoder::{DecoderBuilder, ProtocolDecoder, State};"))
rx("rcv-reset", "C11 C14 C24 C25 C07", ("src/receiver.rs", """        match state {
            State::Done => {
                let cmd = self.decoder.command().map(Into::into);
                self.decoder.reset();
                Ok(cmd)
            }
            State::Error(err) => {
                self.decoder.reset();
                Err(err)
            }
            State::Idle | State::Receiving => Ok(None),
        }""", """        let res = match state {
            State::Done => Ok(self.decoder.command().map(Cmd::from)),
            State::Error(err) => Err(err),
            State::Idle | State::Receiving => return Ok(None),
        };
        self.decoder.reset();
        res"""))
rx("rcv-instant", "C01 C11 C24 C25", ("src/receiver.rs", """        let edge = self.pin.is_low().map_err(Error::Hal)?;

        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;

        Ok(self.event_edge(dt, edge)?)""", """        let edge = match self.pin.is_high() {
            Ok(high) => !high,
            Err(e) => return Err(Error::Hal(e)),
        };
        let dt = self.since(t);
        self.event_edge(dt, edge).map_err(Error::from)"""), ("src/receiver.rs", """        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;

        self.event_edge(dt, edge)
""", """        let dt = self.since(t);
        self.event_edge(dt, edge)
"""), ("src/receiver.rs", """    pub fn event_edge(
        &mut self,""", """    fn since(&mut self, t: Mono::Instant) -> Mono::Duration {
        let prev = core::mem::replace(&mut self.prev_instant, t);
        match Mono::checked_sub(t, prev) {
            Some(d) => d,
            None => Mono::ZERO_DURATION,
        }
    }

    pub fn event_edge(
        &mut self,"""))
rx("rcv-error", "C24 C11 C12", ("src/receiver/ppoll.rs", "self.poll_base(edge).map_err(Into::into)", "match self.poll_base(edge) {\n            Ok(cmd) => Ok(cmd),\n            Err(e) => Err(e.into()),\n        }"))
rx("iter-total", "C13 C25 C01", ("src/receiver/iter.rs", """            if self.pos == self.buf.len() {
                break None;
            }

            let pos_edge = self.pos & 0x1 == 0;
            let dt_us = self.buf[self.pos];
            self.pos += 1;

            let state = self.decoder.event(pos_edge, dt_us);

            match state {
                State::Idle | State::Receiving => {
                    continue;
                }
                State::Done => {
                    let cmd = self.decoder.command();
                    self.decoder.reset();
                    if let Some(cmd) = cmd {
                        break Some(cmd.into());
                    }
                }
                State::Error(_) => {
                    self.decoder.reset();
                }
            }""", """            let dt_us = *self.buf.get(self.pos)?;
            let pos_edge = self.pos % 2 == 0;
            self.pos += 1;

            if let Ok(Some(cmd)) = self.decoder.event_total(pos_edge, dt_us) {
                return Some(cmd.into());
            }"""), ("src/receiver/iter.rs", "DecoderBuilder, ProtocolDecoder, State}", "DecoderBuilder, ProtocolDecoder}"))
rx("iter-while", "C13 C25", ("src/receiver/iter.rs", """        loop {
            if self.pos == self.buf.len() {
                break None;
            }
""", """        while self.pos < self.buf.len() {"""), ("src/receiver/iter.rs", "break Some(cmd.into());", "return Some(cmd.into());"), ("src/receiver/iter.rs", """                State::Error(_) => {
                    self.decoder.reset();
                }
            }
        }""", """                State::Error(_) => {
                    self.decoder.reset();
                }
            }
        }
        None"""))
rx("iter-slice", "C13 C25 C01", ("src/receiver/iter.rs", "    pos: usize,\n    buf: &'a [Mono::Duration],", "    buf: core::slice::Iter<'a, Mono::Duration>,\n    edge: bool,"),
   ("src/receiver/iter.rs", "            pos: 0,\n            buf,", "            buf: buf.iter(),\n            edge: false,"),
   ("src/receiver/iter.rs", """            if self.pos == self.buf.len() {
                break None;
            }

            let pos_edge = self.pos & 0x1 == 0;
            let dt_us = self.buf[self.pos];
            self.pos += 1;

            let state = self.decoder.event(pos_edge, dt_us);
""", """            let dt_us = *self.buf.next()?;
            self.edge = !self.edge;

            let state = self.decoder.event(self.edge, dt_us);
"""))
rx("iter-split", "C13 C25 C01", ("src/receiver/iter.rs", "    pos: usize,\n", "    edge: bool,\n"),
   ("src/receiver/iter.rs", "            pos: 0,\n", "            edge: true,\n"),
   ("src/receiver/iter.rs", """            if self.pos == self.buf.len() {
                break None;
            }

            let pos_edge = self.pos & 0x1 == 0;
            let dt_us = self.buf[self.pos];
            self.pos += 1;
""", """            let (dt_us, rest) = self.buf.split_first()?;
            let (pos_edge, dt_us) = (self.edge, *dt_us);
            self.buf = rest;
            self.edge = !pos_edge;
"""))
rx("poll-count", "C12 C24 C25 C01", ("src/receiver/ppoll.rs", "    clock: u32,\n", "    since: u32,\n"), ("src/receiver/ppoll.rs", "    /// Seen at\n    last_edge: u32,\n", ""),
   ("src/receiver/ppoll.rs", "            clock: 0,\n", "            since: 0,\n"), ("src/receiver/ppoll.rs", "            last_edge: 0,\n", ""),
   ("src/receiver/ppoll.rs", """        self.clock = self.clock.wrapping_add(1);

        if edge == self.edge {
            return Ok(None);
        }

        let ds = self.clock.wrapping_sub(self.last_edge);
        self.edge = edge;
        self.last_edge = self.clock;
""", """        self.since = self.since.wrapping_add(1);

        if edge == self.edge {
            return Ok(None);
        }

        let ds = core::mem::take(&mut self.since);
        self.edge = edge;
"""))
rx("poll-high", "C12 C24 C25", ("src/receiver/ppoll.rs", "let edge = self.input.is_low().map_err(Error::Hal)?;", "let edge = !self.input.is_high().map_err(Error::Hal)?;"),
   ("src/receiver/ppoll.rs", """        if edge == self.edge {
            return Ok(None);
        }

        let ds = self.clock.wrapping_sub(self.last_edge);
        self.edge = edge;
        self.last_edge = self.clock;

        self.decoder
            .event_total(edge, ds)
            .map(|cmd| cmd.map(Into::into))""", """        if edge != self.edge {
            let ds = self.clock.wrapping_sub(core::mem::replace(&mut self.last_edge, self.clock));
            self.edge = edge;
            let cmd = self.decoder.event_total(edge, ds)?;
            Ok(cmd.map(Cmd::from))
        } else {
            Ok(None)
        }"""))
rx("send-tick", "C15 C16 C25 C01", ("src/sender/senders.rs", """        if let Some(dist) = self.ptb.get(self.pos) {
            let delta_ts = ts.wrapping_sub(self.ts_lastedge);
            if delta_ts >= dist {
                let newstate = match self.status {
                    Status::Idle | Status::Transmit(false) => Status::Transmit(true),
                    _ => Status::Transmit(false),
                };

                self.status = newstate;
                self.pos += 1;
                self.ts_lastedge = ts;
            }
        } else {
            self.status = Status::Idle;
        }

        self.status""", """        let delta_ts = ts.wrapping_sub(self.ts_lastedge);
        self.status = match self.ptb.get(self.pos) {
            None => Status::Idle,
            Some(dist) if delta_ts < dist => self.status,
            Some(_) => {
                self.ts_lastedge = ts;
                self.pos += 1;
                Status::Transmit(self.pos % 2 == 1)
            }
        };
        self.status"""), ("src/sender/buffer.rs", "self.buffer().get(index).cloned()", "if index < self.offset {\n            Some(self.buf[index])\n        } else {\n            None\n        }"))
rx("send-hal", "C16 C25", ("src/sender/hal.rs", """        match status {
            Status::Transmit(true) => self.pin.enable(),
            Status::Transmit(false) => self.pin.disable(),
            Status::Idle => self.pin.disable(),
            Status::Error => self.pin.disable(),
        };""", """        if status == Status::Transmit(true) {
            self.pin.enable();
        } else {
            self.pin.disable();
        }"""), ("src/sender/hal.rs", """        if self.buffer.status == Status::Idle {
            self.buffer.load_command::<Proto, F>(cmd);
            self.counter = 0;
        }""", """        match self.buffer.status {
            Status::Idle => {
                self.counter = 0;
                self.buffer.load_command::<Proto, F>(cmd);
            }
            Status::Transmit(_) | Status::Error => {}
        }"""))
rx("send-buf", "C15 C16 C09 C25", ("src/sender/buffer.rs", """        let len = SendProto::encode(c, &mut self.buf[self.offset..]);
        self.offset += len;""", """        let free = &mut self.buf[self.offset..];
        self.offset += SendProto::encode(c, free);"""), ("src/sender/senders.rs", """        self.pos = 0;
        self.ts_lastedge = 0;
        self.status = Status::Idle;
        self.ptb.reset();""", """        *self = Self::new();"""))
rx("multi-helper", "C14 C25 C20", ("src/receiver/multi.rs", """        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
        ]""", """        [
            generic(rs.0.event(dt, edge)),
            generic(rs.1.event(dt, edge)),
        ]"""), ("src/receiver/multi.rs", """        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.2.event(dt, edge).unwrap_or_default().map(Into::into),
        ]""", """        let a = generic(rs.0.event(dt, edge));
        let b = generic(rs.1.event(dt, edge));
        let c = generic(rs.2.event(dt, edge));
        [a, b, c]"""), ("src/receiver/multi.rs", "pub trait ReceiverWrapper<const N", """fn generic<C: Into<AnyCommand>, E>(r: Result<Option<C>, E>) -> Option<AnyCommand> {
    match r {
        Ok(Some(cmd)) => Some(cmd.into()),
        _ => None,
    }
}

pub trait ReceiverWrapper<const N"""), ("src/receiver/multi.rs", """        let arr = self.event_generic(dt, flank);
        arr.into_iter().flatten()""", """        self.event_generic(dt, flank).into_iter().filter_map(|cmd| cmd)"""))
rx("time-sub", "C01 C11 C24", ("src/receiver/time/primitives.rs", """    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {
        a.checked_sub(b)
    }

    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
        a.saturating_add(b)
    }

    fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
        Span::<u32>""", """    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {
        if a < b {
            None
        } else {
            Some(a - b)
        }
    }

    fn saturating_add(a: Self::Duration, b: Self::Duration) -> Self::Duration {
        a.checked_add(b).unwrap_or(u32::MAX)
    }

    fn create_span(freq: u32, p: u32, t: u32) -> Span<Self::Duration> {
        Span::<u32>"""), ("src/receiver/time/fgt.rs", """        a.checked_add(b)
            .unwrap_or(Self::Duration::from_ticks(u64::MAX))""", """        Self::Duration::from_ticks(a.ticks().saturating_add(b.ticks()))"""))
rx("enc-nec", "C09 C18 C15", ("src/protocol/nec/encoder.rs", """        let mut bi = 3;

        for i in 0..32 {
            let one = (bits >> i) & 1 != 0;
            b[bi] = <Self as ProtocolEncoder<F>>::DATA[3];
            if one {
                b[bi + 1] = <Self as ProtocolEncoder<F>>::DATA[5];
            } else {
                b[bi + 1] = <Self as ProtocolEncoder<F>>::DATA[4];
            }
            bi += 2;
        }

        bi""", """        let data = <Self as ProtocolEncoder<F>>::DATA;
        for (i, pair) in b[3..67].chunks_mut(2).enumerate() {
            let one = (bits & (1 << i)) != 0;
            pair[0] = data[3];
            pair[1] = if one { data[5] } else { data[4] };
        }

        67"""))
rx("enc-rc5", "C09 C18", ("src/protocol/rc5/encoder.rs", """        for b in 0..13 {
            let cur = bits & (1 << (12 - b)) != 0;
""", """        for b in (0..13).rev() {
            let cur = (bits >> b) & 1 == 1;
"""))
rx("enc-rc6", "C09 C18", ("src/protocol/rc6/encoder.rs", """    let mut i = 0;
    let mut b = 0;
    loop {
        let bit_is_set = bits & (1 << (15 - b)) != 0;
        if bit_is_set {
            lvls[i] = Level::High(rc6len);
            lvls[i + 1] = Level::Low(rc6len);
        } else {
            lvls[i] = Level::Low(rc6len);
            lvls[i + 1] = Level::High(rc6len);
        }

        b += 1;
        i += 2;

        if b == 16 {
            break;
        }
    }
""", """    let mut b = 0;
    while b < 16 {
        let (first, second) = if (bits >> (15 - b)) & 1 == 1 {
            (Level::High(rc6len), Level::Low(rc6len))
        } else {
            (Level::Low(rc6len), Level::High(rc6len))
        };
        lvls[2 * b] = first;
        lvls[2 * b + 1] = second;
        b += 1;
    }
"""))
PK = "C02 C08 C09 C17 C18 C19"
rx("nec-pack", PK, ("src/protocol/nec/standard.rs", """        let addr = u32::from(self.addr) | ((u32::from(!self.addr) & 0xFF) << 8);
        let cmd = (u32::from(self.cmd) << 16) | (u32::from(!self.cmd) << 24);
        addr | cmd""", """        u32::from_le_bytes([self.addr, !self.addr, self.cmd, !self.cmd])"""), ("src/protocol/nec/standard.rs", """        ((bits >> 24) ^ (bits >> 16)) & 0xFF == 0xFF && ((bits >> 8) ^ bits) & 0xFF == 0xFF""", """        let [addr, naddr, cmd, ncmd] = bits.to_le_bytes();
        cmd ^ ncmd == 0xFF && naddr == !addr"""), ("src/protocol/nec/standard.rs", """        let addr = ((bits) & 0xFF) as u8;
        let cmd = ((bits >> 16) & 0xFF) as u8;

        Some(NecCommand { addr, cmd, repeat })""", """        let bytes = bits.to_le_bytes();

        Some(NecCommand { addr: bytes[0], cmd: bytes[2], repeat })"""), ("src/protocol/nec/samsung.rs", """        let addr = u32::from(self.addr) | (u32::from(self.addr) << 8);
        let cmd = (u32::from(self.cmd) << 16) | (u32::from(!self.cmd) << 24);
        addr | cmd""", """        u32::from(self.addr) * 0x101 + ((u32::from(self.cmd) << 16) | (u32::from(!self.cmd) << 24))"""))
rx("apple", PK, ("src/protocol/nec/apple.rs", """        vendor == APPLE_VENDOR_ID &&
            // Odd parity
            (bits.count_ones() & 0x1) == 1""", """        if vendor != APPLE_VENDOR_ID {
            return false;
        }
        // Odd parity
        bits.count_ones() % 2 != 0"""))
rx("apple-fold", PK, ("src/protocol/nec/apple.rs", """            // Odd parity
            (bits.count_ones() & 0x1) == 1""", """            // Odd parity
            (0..32).fold(false, |p, i| p ^ ((bits >> i) & 1 == 1))"""))
rx("create", "C19 C17 C18 C23", ("src/protocol/nec/standard.rs", """        Some(NecCommand {
            addr: addr.try_into().ok()?,
            cmd: cmd.try_into().ok()?,
            repeat: false,
        })""", """        if addr > 0xFF || cmd > 0xFF {
            return None;
        }
        Some(NecCommand { addr: addr as u8, cmd: cmd as u8, repeat: false })"""), ("src/protocol/rc5/mod.rs", """        let addr: u8 = addr.try_into().ok()?;
        let cmd: u8 = cmd.try_into().ok()?;

        // 5 bit address and 6 bit command
        if addr > 0x1F || cmd > 0x3F {
            return None;
        }

        Some(Rc5Command::new(addr, cmd, false))""", """        // 5 bit address and 6 bit command
        match (u8::try_from(addr), u8::try_from(cmd)) {
            (Ok(addr @ 0..=0x1F), Ok(cmd @ 0..=0x3F)) => Some(Rc5Command::new(addr, cmd, false)),
            _ => None,
        }"""))
rx("rc5-pack", "C03 C09 C18", ("src/protocol/rc5/mod.rs", """        let addr = ((bits & ADDR_MASK) >> ADDR_SHIFT) as u8;
        let cmd = (bits & CMD_MASK) as u8;
        let start = ((bits & START_MASK) >> START_SHIFT) as u8;""", """        let addr = (bits >> ADDR_SHIFT) as u8 & 0x1F;
        let cmd = bits as u8 & 0x3F;
        let start = (bits >> START_SHIFT) as u8 % 4;"""))
rx("remote-loop", "C17 C25 C23", ("src/remotecontrol/mod.rs", """        // Check address
        if Self::ADDRESS != cmd.address() {
            return None;
        }
        Self::BUTTONS
            .iter()
            .find(|(c, _)| *c == cmd.command())
            .map(|(_, b)| *b)""", """        if Self::ADDRESS == cmd.address() {
            let code = cmd.command();
            for (c, b) in Self::BUTTONS {
                if *c == code {
                    return Some(*b);
                }
            }
        }
        None"""), ("src/remotecontrol/mod.rs", """        Self::BUTTONS
            .iter()
            .find(|(_, b)| b == button)
            .and_then(|(c, _)| Self::Cmd::create(Self::ADDRESS, *c))""", """        let pos = Self::BUTTONS.iter().position(|(_, b)| b == button)?;
        Self::Cmd::create(Self::ADDRESS, Self::BUTTONS[pos].0)"""))
rx("any-cmd", "C14 C19", ("src/cmd.rs", """        AnyCommand {
            protocol: Cmd::ID,
            raw: cmd.raw(),
            address: cmd.address(),
            command: cmd.command(),
            repeat: cmd.is_repeat(),
        }""", """        let (address, command) = (cmd.address(), cmd.command());
        let repeat = cmd.is_repeat();
        AnyCommand { protocol: Cmd::ID, raw: cmd.raw(), address, command, repeat }"""))
rx("total-reset", "C07 C11 C12 C13 C24", ("src/receiver/decoder.rs", """        match self.event(edge, dt) {
            State::Idle | State::Receiving => Ok(None),
            State::Done => {
                let cmd = self.command();
                self.reset();
                Ok(cmd)
            }
            State::Error(err) => {
                self.reset();
                Err(err)
            }
        }""", """        let state = self.event(edge, dt);
        let done = matches!(state, State::Done);
        let cmd = if done { self.command() } else { None };
        if done || matches!(state, State::Error(_)) {
            self.reset();
        }
        if let State::Error(err) = state {
            return Err(err);
        }
        Ok(cmd)"""))

rx("rc5-shift", "C01 C03 C07 C09 C10 C24 C25", ("src/protocol/rc5/decoder.rs", """                self.bitbuf |= 1 << 13;
                Data(12)""", """                self.bitbuf = 1;
                Data(12)"""), ("src/protocol/rc5/decoder.rs", """            (Data(0), true, Some(_)) if is_odd => {
                self.bitbuf |= 1;
                Done
            }
            (Data(0), false, Some(_)) if is_odd => Done,

            (Data(bit), true, Some(_)) if is_odd => {
                self.bitbuf |= 1 << bit;
                Data(bit - 1)
            }
            (Data(bit), false, Some(_)) if is_odd => Data(bit - 1),
""", """            (Data(bit), one, Some(_)) if is_odd => {
                self.bitbuf = (self.bitbuf << 1) | u16::from(one);
                bit.checked_sub(1).map_or(Done, Data)
            }
"""))
rx("rc6-shift", "C01 C04 C07 C09 C10 C24 C25", ("src/protocol/rc6/decoder.rs", """            (Data(0),       true,       Some(_)) if odd => Done,
            (Data(0),       false,      Some(_)) if odd => { self.data |= 1; Done }
            (Data(0),       _,          Some(_))        => Data(0),
            (Data(n),       true,       Some(_)) if odd => Data(n - 1),
            (Data(n),       false,      Some(_)) if odd => { self.data |= 1 << n; Data(n - 1) }
            (Data(n),       _,          Some(_))        => Data(n),
""", """            (Data(n),       level,      Some(_)) if odd => {
                self.data = self.data << 1 | !level as u16;
                if n > 0 { Data(n - 1) } else { Done }
            }
            (Data(n),       _,          Some(_))        => Data(n),
"""))
rx("sbp-shift", "C01 C05 C07 C10 C24 C25", ("src/protocol/sbp/mod.rs", """                (Address(15),   One)    => { self.address |= 1 << 15; Divider }
                (Address(15),   Zero)   => Divider,
                (Address(bit),  One)    => { self.address |= 1 << bit; Address(bit + 1) }
                (Address(bit),  Zero)   => Address(bit + 1),
""", """                (Address(bit),  w @ (Zero | One)) => {
                    let one = match w { One => 1u16, _ => 0 };
                    self.address = self.address >> 1 | one << 15;
                    match bit { 15 => Divider, n => Address(n + 1) }
                }
"""))
rx("denon-count", "C01 C06 C07 C10 C24 C25", ("src/protocol/denon/mod.rs", """            buf: 0,
            dt_save: Mono::ZERO_DURATION,
            spans""", """            buf: 0,
            count: 0,
            dt_save: Mono::ZERO_DURATION,
            spans"""), ("src/protocol/denon/mod.rs", """    buf: u64,
    dt_save""", """    buf: u64,
    count: u8,
    dt_save"""), ("src/protocol/denon/mod.rs", """                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; DenonState::Data(0) }""", """                (DenonState::Idle,          PulseWidth::Sync)   => { self.buf = 0; self.count = 0; DenonState::Data(0) }"""), ("src/protocol/denon/mod.rs", """                (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
""", """                (DenonState::Data(_),       p @ (PulseWidth::Zero | PulseWidth::One)) => {
                    if let PulseWidth::One = p {
                        self.buf |= 1 << self.count;
                    }
                    self.count += 1;
                    if self.count < 48 { DenonState::Data(self.count) } else { DenonState::Done }
                }
"""))
rx("nec-count", "C01 C02 C07 C08 C09 C10 C24 C25", ("src/protocol/nec/decoder.rs", """            bitbuf: 0,
            complete: false,
            cmd_type""", """            bitbuf: 0,
            mask: 0,
            complete: false,
            cmd_type"""), ("src/protocol/nec/decoder.rs", """    bitbuf: u32,
    // The""", """    bitbuf: u32,
    mask: u32,
    // The"""), ("src/protocol/nec/decoder.rs", """self.bitbuf = 0; self.complete = false; Receiving(0) },""", """self.bitbuf = 0; self.mask = 1; self.complete = false; Receiving(0) },"""), ("src/protocol/nec/decoder.rs", """                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
                (Receiving(31),     Zero)   => { self.complete = true; Done }
                (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                (Receiving(bit),    Zero)   => Receiving(bit + 1),
""", """                (Receiving(_),      One | Zero)    => {
                    if matches!(pulsewidth, One) {
                        self.bitbuf |= self.mask;
                    }
                    self.mask <<= 1;
                    self.complete = self.mask == 0;
                    if self.complete { Done } else { Receiving(self.mask.trailing_zeros()) }
                }
"""))
rx("send-opt", "C15 C16 C25 C01", ("src/sender/senders.rs", """        if let Some(dist) = self.ptb.get(self.pos) {
            let delta_ts = ts.wrapping_sub(self.ts_lastedge);
            if delta_ts >= dist {
                let newstate = match self.status {
                    Status::Idle | Status::Transmit(false) => Status::Transmit(true),
                    _ => Status::Transmit(false),
                };

                self.status = newstate;
                self.pos += 1;
                self.ts_lastedge = ts;
            }
        } else {
            self.status = Status::Idle;
        }

        self.status""", """        let elapsed = ts.wrapping_sub(self.ts_lastedge);
        match self.ptb.get(self.pos) {
            None => self.status = Status::Idle,
            Some(wait) if wait <= elapsed => {
                self.ts_lastedge = ts;
                self.pos += 1;
                self.status = Status::Transmit(self.status != Status::Transmit(true));
            }
            Some(_) => {}
        }
        self.status"""))

# The driver: each rewriting in its own mount namespace, with copies of /repo
# and /verif bound over the originals, so that several run side by side and
# the real trees are never touched.
# ---- second batch: other styles
RCV = "C02 C03 C04 C05 C06 C07 C10 C11 C24 C25 C01"
rx("multi-arr", "C14 C20 C23 C25", ("src/receiver/multi.rs", """        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
        ]""", """        let mut out = [None, None];
        if let Ok(Some(cmd)) = rs.0.event(dt, edge) {
            out[0] = Some(cmd.into());
        }
        if let Ok(Some(cmd)) = rs.1.event(dt, edge) {
            out[1] = Some(cmd.into());
        }
        out"""), ("src/receiver/multi.rs", """        [
            rs.0.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.1.event(dt, edge).unwrap_or_default().map(Into::into),
            rs.2.event(dt, edge).unwrap_or_default().map(Into::into),
        ]""", """        let (a, b, c) = rs;
        let third = c.event(dt, edge);
        let first = a.event(dt, edge);
        let second = b.event(dt, edge);
        [
            first.ok().flatten().map(|c| c.into()),
            second.ok().flatten().map(|c| c.into()),
            third.ok().flatten().map(|c| c.into()),
        ]"""), ("src/receiver/multi.rs", """        let arr = self.event(dt)?;
        Ok(arr.into_iter().flatten())""", """        self.event(dt).map(|arr| arr.into_iter().filter_map(|c| c))"""))
rx("iter-range", "C13 C25 C01", ("src/receiver/iter.rs", """        loop {
            if self.pos == self.buf.len() {
                break None;
            }

            let pos_edge = self.pos & 0x1 == 0;
            let dt_us = self.buf[self.pos];
            self.pos += 1;

            let state = self.decoder.event(pos_edge, dt_us);

            match state {
                State::Idle | State::Receiving => {
                    continue;
                }
                State::Done => {
                    let cmd = self.decoder.command();
                    self.decoder.reset();
                    if let Some(cmd) = cmd {
                        break Some(cmd.into());
                    }
                }
                State::Error(_) => {
                    self.decoder.reset();
                }
            }
        }""", """        for ix in self.pos..self.buf.len() {
            let state = self.decoder.event(ix % 2 == 0, self.buf[ix]);
            self.pos = ix + 1;

            let cmd = match state {
                State::Idle | State::Receiving => continue,
                State::Done => self.decoder.command(),
                State::Error(_) => None,
            };
            self.decoder.reset();
            if cmd.is_some() {
                return cmd.map(Cmd::from);
            }
        }
        None"""))
rx("iter-bool", "C13 C25 C01", ("src/receiver/iter.rs", "    pos: usize,\n    buf", "    edge: bool,\n    buf"), ("src/receiver/iter.rs", "            pos: 0,\n", "            edge: true,\n"),
   ("src/receiver/iter.rs", """            if self.pos == self.buf.len() {
                break None;
            }

            let pos_edge = self.pos & 0x1 == 0;
            let dt_us = self.buf[self.pos];
            self.pos += 1;
""", """            let (dt_us, rest) = match self.buf {
                [first, rest @ ..] => (*first, rest),
                [] => break None,
            };
            self.buf = rest;
            let pos_edge = self.edge;
            self.edge = !self.edge;
"""))
rx("iter-first", "C13 C25 C01", ("src/receiver/iter.rs", """            if self.pos == self.buf.len() {
                break None;
            }

            let pos_edge = self.pos & 0x1 == 0;
            let dt_us = self.buf[self.pos];
            self.pos += 1;
""", """            let dt_us = *self.buf.get(self.pos)?;
            let pos_edge = self.pos % 2 != 1;
            self.pos += 1;
"""))
rx("denon-bit", "C06 C07 C10 C24 C25 C01", ("src/protocol/denon/mod.rs", """                (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,
                (DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }
                (DenonState::Data(idx),     PulseWidth::Zero)   => DenonState::Data(idx + 1),
                (DenonState::Data(idx),     PulseWidth::One)    => { self.buf |= 1 << idx; DenonState::Data(idx + 1) }
""", """                (DenonState::Data(idx),     PulseWidth::Zero)   => self.bit(idx, 0),
                (DenonState::Data(idx),     PulseWidth::One)    => self.bit(idx, 1),
"""), ("src/protocol/denon/mod.rs", """#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[cfg_attr(feature = "defmt", derive(defmt::Format))]
pub enum DenonState {""", """impl<Mono: InfraMonotonic> DenonDecoder<Mono> {
    fn bit(&mut self, idx: u8, value: u64) -> DenonState {
        self.buf |= value << idx;
        match idx {
            47 => DenonState::Done,
            _ => DenonState::Data(idx + 1),
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[cfg_attr(feature = "defmt", derive(defmt::Format))]
pub enum DenonState {"""))
rx("denon-ret", "C06 C07 C10 C24 C25 C01", ("src/protocol/denon/mod.rs", """        if rising {
            let pulsewidth""", """        if !rising {
            self.dt_save = dt;
            return State::from(self.state);
        }
        let high = core::mem::replace(&mut self.dt_save, Mono::ZERO_DURATION);
        {
            let pulsewidth"""), ("src/protocol/denon/mod.rs", "Mono::saturating_add(self.dt_save, dt))\n                .unwrap_or(PulseWidth::Fail);", "Mono::saturating_add(high, dt));\n            let pulsewidth = if let Some(p) = pulsewidth { p } else { PulseWidth::Fail };"),
   ("src/protocol/denon/mod.rs", """
            self.dt_save = Mono::ZERO_DURATION;
        } else {
            self.dt_save = dt;
        }
""", """        }
"""), ("src/protocol/denon/mod.rs", """        if self.state == DenonState::Done {
            Some(DenonCommand { bits: self.buf })
        } else {
            None
        }""", """        matches!(self.state, DenonState::Done).then(|| DenonCommand { bits: self.buf })"""))
rx("sbp-fn", "C05 C07 C10 C24 C25 C01", ("src/protocol/sbp/mod.rs", """                (Address(15),   One)    => { self.address |= 1 << 15; Divider }
                (Address(15),   Zero)   => Divider,
                (Address(bit),  One)    => { self.address |= 1 << bit; Address(bit + 1) }
                (Address(bit),  Zero)   => Address(bit + 1),
                (Address(_),    _)      => Err(DecodingError::Address),
""", """                (Address(bit),  p @ (One | Zero)) => {
                    if let One = p {
                        self.address |= 1 << bit;
                    }
                    if bit == 15 { Divider } else { Address(bit + 1) }
                }
                (Address(_),    _)      => Err(DecodingError::Address),
"""), ("src/protocol/sbp/mod.rs", """                (Command(19),   One)    => { self.command |= 1 << 19; Done }
                (Command(19),   Zero)   => Done,
                (Command(bit),  One)    => { self.command |= 1 << bit; Command(bit + 1) }
                (Command(bit),  Zero)   => Command(bit + 1),
""", """                (Command(bit @ 0..=18), One)  => { self.command |= 1 << bit; Command(bit + 1) }
                (Command(bit @ 0..=18), Zero) => Command(bit + 1),
                (Command(last), One)    => { self.command |= 1 << last; Done }
                (Command(_),    Zero)   => Done,
"""), ("src/protocol/sbp/mod.rs", """            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),
            _ => None,""", """            SbpState::Init | SbpState::Address(_) | SbpState::Divider | SbpState::Command(_) | SbpState::Err(_) => None,
            SbpState::Done => Some(SbpCommand::unpack(self.address, self.command)),"""))
rx("sbp-valid", "C05 C19 C17 C18", ("src/protocol/sbp/mod.rs", """        // Discard the 4 unknown bits
        command >>= 4;

        // Check the checksum
        let valid = ((command ^ (command >> 8)) & 0xFF) == 0xFF;

        Self {
            address,
            command: (command) as u8,
            valid,
        }""", """        let [_, _, hi, lo] = (command >> 4).to_be_bytes();

        Self { address, command: lo, valid: lo == !hi }"""), ("src/protocol/sbp/mod.rs", "mut command: u32", "command: u32"))
rx("nec-sub", NEC, ("src/protocol/nec/decoder.rs", """            NecState::Done => Cmd::unpack(self.bitbuf, false),
            NecState::RepeatDone if self.complete => Cmd::unpack(self.bitbuf, true),
            _ => None,""", """            NecState::Done | NecState::RepeatDone => {
                let repeat = matches!(self.state, NecState::RepeatDone);
                if repeat && !self.complete {
                    return None;
                }
                Cmd::unpack(self.bitbuf, repeat)
            }
            NecState::Init | NecState::Receiving(_) | NecState::Err(_) => None,"""), ("src/protocol/nec/decoder.rs", """                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
                (Receiving(31),     Zero)   => { self.complete = true; Done }
                (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                (Receiving(bit),    Zero)   => Receiving(bit + 1),
""", """                (Receiving(bit),    v @ (One | Zero)) => {
                    self.bitbuf += (v as u32 - Zero as u32) << bit;
                    self.complete = bit >= 31;
                    if self.complete { Done } else { Receiving(bit + 1) }
                }
"""))
rx("nec-count-down", NEC, ("src/protocol/nec/decoder.rs", "{ self.bitbuf = 0; self.complete = false; Receiving(0) }", "{ self.bitbuf = 0; self.complete = false; Receiving(32) }"),
   ("src/protocol/nec/decoder.rs", """                (Receiving(31),     One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
                (Receiving(31),     Zero)   => { self.complete = true; Done }
                (Receiving(bit),    One)    => { self.bitbuf |= 1 << bit; Receiving(bit + 1) }
                (Receiving(bit),    Zero)   => Receiving(bit + 1),
""", """                (Receiving(1),      One)    => { self.bitbuf |= 1 << 31; self.complete = true; Done }
                (Receiving(1),      Zero)   => { self.complete = true; Done }
                (Receiving(left),   One)    => { self.bitbuf |= 1 << (32 - left); Receiving(left - 1) }
                (Receiving(left),   Zero)   => Receiving(left - 1),
"""))
rx("rc5-ifs", "C03 C07 C10 C24 C25 C09 C01", ("src/protocol/rc5/decoder.rs", """            (Data(0), true, Some(_)) if is_odd => {
                self.bitbuf |= 1;
                Done
            }
            (Data(0), false, Some(_)) if is_odd => Done,

            (Data(bit), true, Some(_)) if is_odd => {
                self.bitbuf |= 1 << bit;
                Data(bit - 1)
            }
            (Data(bit), false, Some(_)) if is_odd => Data(bit - 1),

            (Data(bit), _, Some(_)) => Data(bit),
""", """            (Data(bit), _, Some(_)) => {
                if !is_odd {
                    Data(bit)
                } else {
                    self.bitbuf |= u16::from(rising) << bit;
                    bit.checked_sub(1).map_or(Done, Data)
                }
            }
"""))
rx("rc5-bool", "C03 C07 C10 C24 C25 C09 C01", ("src/protocol/rc5/decoder.rs", "    pub(crate) clock: usize,\n", "    odd: bool,\n"), ("src/protocol/rc5/decoder.rs", "            clock: 0,\n", "            odd: false,\n"),
   ("src/protocol/rc5/decoder.rs", "            self.clock = self.clock.wrapping_add(ticks + 1);\n", "            self.odd ^= ticks % 2 == 0;\n"),
   ("src/protocol/rc5/decoder.rs", "let is_odd = self.clock & 1 == 0;", "let is_odd = !self.odd;"), ("src/protocol/rc5/decoder.rs", "                self.clock = 0;\n                self.bitbuf", "                self.odd = false;\n                self.bitbuf"),
   ("src/protocol/rc5/decoder.rs", "        self.clock = 0;\n", "        self.odd = false;\n"))
rx("rc6-ret", "C04 C07 C10 C24 C25 C09 C01", ("src/protocol/rc6/decoder.rs", """            (Data(0),       true,       Some(_)) if odd => Done,
            (Data(0),       false,      Some(_)) if odd => { self.data |= 1; Done }
            (Data(0),       _,          Some(_))        => Data(0),
            (Data(n),       true,       Some(_)) if odd => Data(n - 1),
            (Data(n),       false,      Some(_)) if odd => { self.data |= 1 << n; Data(n - 1) }
            (Data(n),       _,          Some(_))        => Data(n),
""", """            (Data(n),       _,          Some(_)) if !odd => Data(n),
            (Data(n),       _,          Some(_))        => {
                if !rising {
                    self.data |= 1 << n;
                }
                match n {
                    0 => Done,
                    n => Data(n - 1),
                }
            }
"""), ("src/protocol/rc6/decoder.rs", """            (Leading,       false,    Some(6))      => LeadingPaus,
            (Leading,       _,        _)            => Idle,
            (LeadingPaus,   true,     Some(2))      => HeaderData(3),
            (LeadingPaus,   _,        _)            => Idle,
""", """            (Leading,       edge,     n)            => if !edge && n == Some(6) { LeadingPaus } else { Idle },
            (LeadingPaus,   edge,     n)            => match n { Some(2) if edge => HeaderData(3), _ => Idle },
"""))
rx("rcv-once", RCV + " C20", ("src/receiver.rs", """        let state = self.decoder.event(edge, dt);

        match state {
            State::Done => {
                let cmd = self.decoder.command().map(Into::into);
                self.decoder.reset();
                Ok(cmd)
            }
            State::Error(err) => {
                self.decoder.reset();
                Err(err)
            }
            State::Idle | State::Receiving => Ok(None),
        }""", """        let result = match self.decoder.event(edge, dt) {
            State::Idle | State::Receiving => return Ok(None),
            State::Done => Ok(self.decoder.command()),
            State::Error(err) => Err(err),
        };
        self.decoder.reset();
        result.map(|c| c.map(Cmd::from))"""), ("src/receiver.rs", """        let decoder = Proto::build(freq);

        Receiver {
            decoder,
            pin: NoPin {},
            prev_instant: Mono::ZERO_INSTANT,
            cmd: PhantomData,
        }""", """        Self::with_input(freq, NoPin)"""))
rx("rcv-delta", "C11 C24 C25 C01", ("src/receiver.rs", """        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;

        self.event_edge(dt, edge)
    }
}""", """        let dt = self.since_last(t);
        self.event_edge(dt, edge)
    }
}

impl<Proto, Input, Mono, Cmd> Receiver<Proto, Input, Mono, Cmd>
where
    Proto: DecoderBuilder<Mono>,
    Mono: InfraMonotonic,
    Cmd: From<Proto::Cmd>,
{
    fn since_last(&mut self, t: Mono::Instant) -> Mono::Duration {
        let last = core::mem::replace(&mut self.prev_instant, t);
        match Mono::checked_sub(t, last) {
            Some(dt) => dt,
            None => Mono::ZERO_DURATION,
        }
    }
}"""), ("src/receiver.rs", """        let edge = self.pin.is_low().map_err(Error::Hal)?;

        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);
        self.prev_instant = t;

        Ok(self.event_edge(dt, edge)?)""", """        match self.pin.is_low() {
            Ok(edge) => {
                let dt = self.since_last(t);
                self.event_edge(dt, edge).map_err(Error::from)
            }
            Err(e) => Err(Error::Hal(e)),
        }"""))
rx("send-get", "C15 C16 C25 C01", ("src/sender/senders.rs", """        if let Some(dist) = self.ptb.get(self.pos) {
            let delta_ts = ts.wrapping_sub(self.ts_lastedge);
            if delta_ts >= dist {
                let newstate = match self.status {
                    Status::Idle | Status::Transmit(false) => Status::Transmit(true),
                    _ => Status::Transmit(false),
                };

                self.status = newstate;
                self.pos += 1;
                self.ts_lastedge = ts;
            }
        } else {
            self.status = Status::Idle;
        }

        self.status""", """        let Some(dist) = self.ptb.get(self.pos) else {
            self.status = Status::Idle;
            return Status::Idle;
        };
        if ts.wrapping_sub(self.ts_lastedge) < dist {
            return self.status;
        }
        self.pos += 1;
        self.ts_lastedge = ts;
        self.status = Status::Transmit(!matches!(self.status, Status::Transmit(true) | Status::Error));
        self.status"""))
rx("buf-del", "C13 C20 C25", ("src/receiver/bufferinput.rs", """        BufferInputReceiver {
            resolution: 1_000_000,
            proto: Default::default(),
            mono: Default::default(),
            cmd: Default::default(),
        }""", """        Self::with_frequenzy(1_000_000)"""), ("src/receiver/bufferinput.rs", """        BufferIterator::new(self.resolution, buf)
    }""", """        let resolution = self.resolution;
        self.iter_with::<Proto, Mono, Cmd>(resolution, buf)
    }"""))

def sh(c, t=890):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def one(name, checks, edits):
    for f, a, b in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        if a not in s:
            print(name, "EDIT MISMATCH", f, a[:60]); return 0
        open(p, "w").write(s.replace(a, b))
    if subprocess.call("cargo test --workspace --no-fail-fast --offline >/tmp/rt.log 2>&1", shell=True, cwd=R):
        print(name, "TESTS", open("/tmp/rt.log").read()[-1500:]); return 0
    bad = 0
    for c in checks:
        t0 = time.time()
        rc, out = sh(f"cd /verif && bash check.sh {c}")
        dt = time.time() - t0
        if rc:
            bad += 1
            l = [x for x in out.splitlines() if x.strip() and not x.startswith("VIOLATION") and "call chain" not in x and "analysis root" not in x and "abstract state" not in x]
            print(f"{name}: {c} rc={rc} {dt:.0f}s", " | ".join(x.strip()[:170] for x in l[:3]), flush=True)
        elif dt > 150:
            print(f"{name}: {c} slow {dt:.0f}s", flush=True)
    print(name, "done", flush=True)
    return bad
if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--one":
        for name, checks, edits in RX:
            if name == a[1]:
                sys.exit(1 if one(name, checks, edits) else 0)
    from concurrent.futures import ThreadPoolExecutor
    import shutil
    sel = [r[0] for r in RX if not a or r[0] in a]
    B = "/tmp/refx"
    def work(name):
        d = f"{B}/{name}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh(f"cp -a /repo {d}/repo; mkdir {d}/tmp; mkdir {d}/verif; cd /verif; tar c --exclude=./seeded --exclude=./.git . | tar x -C {d}/verif")
        rc, out = sh(f"unshare -m bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && mount --bind {d}/tmp /tmp && exec python3 /verif/tools/refactors.py --one {name}'", t=3000)
        print(out.strip(), flush=True)
        shutil.rmtree(d)
        return rc
    os.makedirs(B, exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        r = list(ex.map(work, sel))
    print("alarms in", [n for n, c in zip(sel, r) if c])
