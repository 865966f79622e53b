"""Witness programs: each wrong program must be rejected by the type checker, at
the marked line only, and its correct twin must be accepted."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

PRE = """#![allow(unused, dead_code)]
use infrared::{protocol::*, receiver::*, sender::*, remotecontrol::{nec::*, rc5::*, sbp::*, Button, RemoteControlModel}, PeriodicPoll, Receiver};
use infrared::protocol::{nec::*, rc5::*, rc6::*, sbp::*, denon::*};
use infrared::cmd::*;
pub struct Pin;
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> { Ok(true) }
    fn is_low(&self) -> Result<bool, u8> { Ok(false) }
}
/// A pin that must stay on its thread.
pub struct Bound(*const ());
impl embedded_hal::digital::v2::InputPin for Bound {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> { Ok(true) }
    fn is_low(&self) -> Result<bool, u8> { Ok(false) }
}
pub struct Pwm<T>(T);
impl<T> embedded_hal::PwmPin for Pwm<T> {
    type Duty = u16;
    fn disable(&mut self) {}
    fn enable(&mut self) {}
    fn get_duty(&self) -> u16 { 0 }
    fn get_max_duty(&self) -> u16 { 0 }
    fn set_duty(&mut self, _: u16) {}
}
type T32 = fugit::TimerInstantU32<1_000_000>;
type T64 = fugit::TimerInstantU64<1_000_000>;
type D32 = fugit::TimerDurationU32<1_000_000>;
type D64 = fugit::TimerDurationU64<1_000_000>;
type Other = fugit::TimerDurationU32<40_000>;
type OtherI = fugit::TimerInstantU32<40_000>;
fn some<T>() -> T { loop {} }
fn send<T: Send>() {}
"""

PROTOS = ["Nec", "Nec16", "SamsungNec", "AppleNec", "NecDebug", "Rc5", "Rc6", "Sbp", "Denon"]
CMD = {"Nec": "NecCommand", "Nec16": "Nec16Command", "SamsungNec": "SamsungNecCommand", "AppleNec": "AppleNecCommand", "NecDebug": "NecDebugCmd", "Rc5": "Rc5Command", "Rc6": "Rc6Command", "Sbp": "SbpCommand", "Denon": "DenonCommand"}
REMOTES = {"SamsungTv": "SamsungNec", "SpecialForMp3": "Nec", "Apple2009": "AppleNec", "CdPlayer": "Rc5", "SamsungBluRayPlayer": "Sbp"}
METHOD = {"Nec": "nec()", "Nec16": "nec16()", "SamsungNec": "nec_samsung()", "AppleNec": "nec_apple()", "Rc5": "rc5()", "Rc6": "rc6()", "Sbp": "samsung_bluray()", "Denon": "denon()"}
ENCODE = ["Nec", "Nec16", "SamsungNec", "AppleNec", "NecDebug", "Rc5", "Rc6"]


def programs():
    """(family, what the wrong program does, right line, wrong line); either line may be None."""
    out = []

    def pair(fam, what, right, wrong):
        out.append((fam, what, right, wrong))

    # a remote control of another protocol
    for r, own in REMOTES.items():
        for p in PROTOS:
            if p == own:
                continue
            ch = lambda q: f"infrared::receiver().protocol::<{q}>()"
            m = lambda q: f"infrared::receiver().{METHOD[q]}" if q in METHOD else ch(q)
            forms = [
                ("build", lambda q: f"let mut r = {m(q)}.remotecontrol({r}).build(); let _ = r.event(1u32, true);"),
                ("build with a pin", lambda q: f"let mut r = {m(q)}.pin(Pin).remotecontrol({r}).build(); let _ = r.event(1u32);"),
                ("build_polled", lambda q: f"let mut r = {ch(q)}.remotecontrol({r}).build_polled(); let _ = r.poll(true);"),
                ("Receiver::new", lambda q: f"let mut r: Receiver<{q}, NoPin, u32, Button<{r}>> = Receiver::new(1); let _ = r.event(1u32, true);"),
                ("PeriodicPoll::new", lambda q: f"let mut r: PeriodicPoll<{q}, NoPin, Button<{r}>> = PeriodicPoll::new(1); let _ = r.poll(true);"),
                ("BufferInputReceiver", lambda q: f"let mut r: BufferInputReceiver<{q}, u32, Button<{r}>> = BufferInputReceiver::with_frequenzy(1); let _ = r.iter(&[1u32, 2]).next();"),
                ("Button::from", lambda q: f"let b: Button<{r}> = some::<{CMD[q]}>().into(); let _ = b.action();"),
                ("decode", lambda q: f"let _ = <{r} as RemoteControlModel>::decode(&some::<{CMD[q]}>());"),
            ]
            for n, f in forms:
                pair("remote of another protocol", f"{r} on {p} ({n})", f(own), f(p))

    # a receiver without a protocol
    for pre in ["", ".frequency(1)", ".pin(Pin)", ".monotonic::<u64>()", ".pin(Pin).frequency(1)"]:
        for fin in ["build()", "build_polled()"]:
            for ann in ["let _ = ", "let r: Receiver<_, _, _, _> = "] if fin == "build()" else ["let _ = "]:
                pair("no protocol", f"receiver(){pre}.{fin}", f"{ann}infrared::receiver(){pre}.rc5().{fin};", f"{ann}infrared::receiver(){pre}.{fin};")
    for r in REMOTES:
        pair("no protocol", f"only the remote {r}", f"let _ = infrared::receiver().{METHOD[REMOTES[r]]}.remotecontrol({r}).build();", f"let _ = infrared::receiver().remotecontrol({r}).build();")

    # edges: given exactly where there is no pin to read
    for p in PROTOS:
        for m, d, i in [("u32", "1u32", "1u32"), ("u64", "1u64", "1u64"), ("T32", "D32::from_ticks(1)", "T32::from_ticks(1)"), ("T64", "D64::from_ticks(1)", "T64::from_ticks(1)")]:
            np = f"let mut r: Receiver<{p}, NoPin, {m}> = Receiver::new(1_000_000);"
            wp = f"let mut r: Receiver<{p}, Pin, {m}> = Receiver::with_pin(1_000_000, Pin);"
            for f, a in [("event", d), ("event_instant", i)]:
                pair("edge", f"{p}/{m}: {f} without pin and edge", f"{np} let _ = r.{f}({a}, true);", f"{np} let _ = r.{f}({a});")
                pair("edge", f"{p}/{m}: {f} with pin and edge", f"{wp} let _ = r.{f}({a});", f"{wp} let _ = r.{f}({a}, true);")
        np, wp = f"let mut r: PeriodicPoll<{p}> = PeriodicPoll::new(1);", f"let mut r: PeriodicPoll<{p}, Pin> = PeriodicPoll::with_pin(1, Pin);"
        pair("edge", f"{p}: poll without pin and edge", f"{np} let _ = r.poll(true);", f"{np} let _ = r.poll();")
        pair("edge", f"{p}: poll with pin and edge", f"{wp} let _ = r.poll();", f"{wp} let _ = r.poll(true);")
    mp = "let mut r: MultiReceiver<2, (Nec, Rc5), {}> = MultiReceiver::new(1, {});"
    for f in ["event", "event_iter"]:
        pair("edge", f"multi-receiver {f} without a pin", mp.format("Pin", "Pin") + f" let _ = r.{f}(1u32);", mp.format("NoPin", "NoPin") + f" let _ = r.{f}(1u32);")
        pair("edge", f"multi-receiver {f} with pin and edge", mp.format("Pin", "Pin") + f" let _ = r.{f}(1u32);", mp.format("Pin", "Pin") + f" let _ = r.{f}(1u32, true);")

    # times of another clock
    for p in PROTOS:
        np = f"let mut r: Receiver<{p}, NoPin, {{}}> = Receiver::new(1_000_000);"
        for m, good, bads in [
            ("u32", "1u32", ["1u64", "D32::from_ticks(1)"]),
            ("u64", "1u64", ["1u32", "D64::from_ticks(1)"]),
            ("T32", "D32::from_ticks(1)", ["1u32", "T32::from_ticks(1)", "Other::from_ticks(1)", "D64::from_ticks(1)"]),
            ("T64", "D64::from_ticks(1)", ["1u64", "T64::from_ticks(1)", "D32::from_ticks(1)"]),
        ]:
            for b in bads:
                pair("clock", f"{p}/{m}: event({b})", np.format(m) + f" let _ = r.event({good}, true);", np.format(m) + f" let _ = r.event({b}, true);")
        for m, good, bads in [("T32", "T32::from_ticks(1)", ["D32::from_ticks(1)", "OtherI::from_ticks(1)", "T64::from_ticks(1)", "1u32"])]:
            for b in bads:
                pair("clock", f"{p}/{m}: event_instant({b})", np.format(m) + f" let _ = r.event_instant({good}, true);", np.format(m) + f" let _ = r.event_instant({b}, true);")
    for b in ["String", "i32", "fugit::TimerDurationU32<1_000_000>"]:
        pair("clock", f"{b} as a clock", "let _ = infrared::receiver().rc5().monotonic::<u64>().build();", f"let _ = infrared::receiver().rc5().monotonic::<{b}>().build();")

    # sending
    for p in PROTOS:
        c = CMD[p]
        if p in ENCODE:
            for q in PROTOS:
                if q == p:
                    continue
                pair("sending", f"a {q} command as {p}", f"PulsedataSender::<96>::new().load_command::<{p}, 40_000>(&some::<{c}>());", f"PulsedataSender::<96>::new().load_command::<{p}, 40_000>(&some::<{CMD[q]}>());")
                pair("sending", f"a {q} command as {p} through a pin", f"Sender::<Pwm<u8>, 40_000, 96>::new(Pwm(0)).load::<{p}>(&some::<{c}>());", f"Sender::<Pwm<u8>, 40_000, 96>::new(Pwm(0)).load::<{p}>(&some::<{CMD[q]}>());")
        else:
            pair("sending", f"{p} cannot be sent", f"PulsedataSender::<96>::new().load_command::<Rc5, 40_000>(&some::<Rc5Command>());", f"PulsedataSender::<96>::new().load_command::<{p}, 40_000>(&some::<{c}>());")
            pair("sending", f"{p} cannot be sent through a pin", f"Sender::<Pwm<u8>, 40_000, 96>::new(Pwm(0)).load::<Rc5>(&some::<Rc5Command>());", f"Sender::<Pwm<u8>, 40_000, 96>::new(Pwm(0)).load::<{p}>(&some::<{c}>());")

    # a remote's actions become commands of its own protocol only
    for r, own in REMOTES.items():
        for p in PROTOS:
            if p != own:
                pair("remote of another protocol", f"{r}::encode as {p}", f"let _: Option<{CMD[own]}> = <{r} as RemoteControlModel>::encode(&some());", f"let _: Option<{CMD[p]}> = <{r} as RemoteControlModel>::encode(&some());")

    # a released pin takes its receiver along
    for p in PROTOS:
        wp = f"let mut r: Receiver<{p}, Pin> = Receiver::with_pin(1, Pin);"
        pair("released", f"{p}: event after release", f"{wp} let _ = r.event(1); let _ = r.release();", f"{wp} let _ = r.release(); let _ = r.event(1);")

    # as many answers as decoders
    for n, t in [(2, "(Nec, Rc5)"), (3, "(Nec, Rc5, Rc6)"), (4, "(Nec, Rc5, Rc6, Denon)"), (5, "(Nec, Rc5, Rc6, Denon, AppleNec)"), (6, "(Nec, Rc5, Rc6, Denon, AppleNec, SamsungNec)")]:
        for k in (n - 1, n + 1):
            pair("multi", f"{k} answers from {t}", f"let mut m: MultiReceiver<{n}, {t}, NoPin> = MultiReceiver::new(1, NoPin); let _: [Option<AnyCommand>; {n}] = m.event_generic(1u32, true);",
                 f"let mut m: MultiReceiver<{n}, {t}, NoPin> = MultiReceiver::new(1, NoPin); let _: [Option<AnyCommand>; {k}] = m.event_generic(1u32, true);")

    # sendable exactly when the pin is
    for p in PROTOS:
        for m in ["u32", "u64", "T32", "T64"]:
            pair("send", f"{p}/{m}: receiver with a thread-bound pin", f"send::<Receiver<{p}, Pin, {m}>>();", f"send::<Receiver<{p}, Bound, {m}>>();")
            pair("send", None, f"send::<Receiver<{p}, NoPin, {m}>>(); send::<<{p} as DecoderBuilder<{m}>>::Decoder>(); send::<BufferInputReceiver<{p}, {m}>>(); send::<Builder<{p}, Pin, {m}, {CMD[p]}>>();", None)
        pair("send", f"{p}: polled receiver with a thread-bound pin", f"send::<PeriodicPoll<{p}, Pin>>(); send::<PeriodicPoll<{p}>>();", f"send::<PeriodicPoll<{p}, Bound>>();")
        pair("send", None, f"send::<{CMD[p]}>(); send::<{p}>();", None)
    for r, own in REMOTES.items():
        pair("send", f"{r}: receiver of buttons with a thread-bound pin", f"send::<Receiver<{own}, Pin, u32, Button<{r}>>>(); send::<Button<{r}>>();", f"send::<Receiver<{own}, Bound, u32, Button<{r}>>>();")
    pair("send", "multi-receiver with a thread-bound pin", "send::<MultiReceiver<2, (Nec, Rc5), Pin>>();", "send::<MultiReceiver<2, (Nec, Rc5), Bound>>();")
    pair("send", "sender with a thread-bound pin", "send::<Sender<Pwm<u8>, 40_000, 96>>(); send::<PulsedataSender<96>>();", "send::<Sender<Pwm<*const ()>, 40_000, 96>>();")
    pair("send", None, "send::<AnyCommand>(); send::<DecodingError>(); send::<infrared::receiver::Error<u8>>();", None)
    return out


def run(ck, prop, tier):
    crate = os.path.join(ck.VERIF, "witness", "programs")
    base = os.path.join(ck.TARGET, "programs")
    shutil.rmtree(base, ignore_errors=True)
    rc, log = ck.sh(["cargo", "check", "--offline", "--message-format=json", "--target-dir", os.path.join(base, "t")], env={"CARGO_INCREMENTAL": "0", "RUSTFLAGS": "--cap-lints=allow"}, cwd=crate)
    ext, dirs = {}, set()
    for l in log.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("reason") == "compiler-artifact":
                for f in d["filenames"]:
                    if f.endswith(".rmeta"):
                        ext[d["target"]["name"].replace("-", "_")] = f
                        dirs.add(os.path.dirname(f))
    if rc != 0 or "infrared" not in ext:
        return [{"kind": "interface", "msg": "the library does not compile: " + log[-1500:]}], {}
    src = os.path.join(base, "src")
    os.makedirs(src)

    def check(name, text):
        p = os.path.join(src, name + ".rs")
        open(p, "w").write(text)
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "--error-format=json", "--cap-lints=allow", "-o", os.path.join(src, name + ".rmeta"), p]
        for d in sorted(dirs):
            cmd += ["-L", "dependency=" + d]
        for e in ("infrared", "embedded_hal", "fugit"):
            cmd += ["--extern", f"{e}={ext[e]}"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                errs.append(((m.get("code") or {}).get("code"), [s["line_start"] for s in m["spans"] if s["is_primary"]], m["message"]))
        for f in (p, os.path.join(src, name + ".rmeta")):
            if os.path.exists(f):
                os.remove(f)
        return r.returncode, errs, r.stderr[-600:]

    ps = programs()
    viol = []
    # all correct programs, one line each
    right = sorted({r for _, _, r, _ in ps if r})
    lines = PRE + "\n".join(f"fn f{i}() {{ {r} }}" for i, r in enumerate(right)) + "\n"
    n0 = PRE.count("\n") + 1
    rc, errs, tail = check("right", lines)
    broken = set()
    if rc != 0:
        for code, at, msg in errs:
            for a in at:
                if a >= n0 and right[a - n0] not in broken:
                    broken.add(right[a - n0])
                    viol.append({"kind": "rejected", "msg": f"a correct program is rejected ({code}: {msg}): {right[a - n0]}", "at": "public interface", "func": "type checker"})
        if not viol:
            viol.append({"kind": "rejected", "msg": "the correct programs are rejected: " + tail, "at": "public interface", "func": "type checker"})
    wrong = [(fam, what, w) for fam, what, _, w in ps if w]

    # every wrong program in one file first: each of them must have its own error;
    # errors of a later compiler phase only show once the earlier ones are gone, so
    # what is left without an error is checked by itself
    text = PRE + "\n".join(f"fn f{i}() {{ {w} }}" for i, (_, _, w) in enumerate(wrong)) + "\n"
    rc, errs, tail = check("wrong", text)
    codes = {}
    for code, at, msg in errs:
        for a in at:
            if a >= n0:
                codes.setdefault(a - n0, (code, msg))
    left = [i for i in range(len(wrong)) if i not in codes]

    def one(i):
        rc, errs, tail = check(f"wrong{i}", PRE + f"fn f() {{ {wrong[i][2]} }}\n")
        e = [(c, m) for c, at, m in errs if any(a >= n0 for a in at)]
        return i, rc, e

    with ThreadPoolExecutor(8) as ex:
        for i, rc, e in ex.map(one, left):
            if rc != 0 and e:
                codes[i] = e[0]
    fams, hist = {}, {}
    for i, (fam, what, w) in enumerate(wrong):
        fams.setdefault(fam, [0, 0])[0] += 1
        if i in codes:
            fams[fam][1] += 1
            hist[codes[i][0] or "other"] = hist.get(codes[i][0] or "other", 0) + 1
        else:
            viol.append({"kind": "accepted", "msg": f"{fam}: the compiler accepts a wrong program ({what}): {w}", "at": "public interface", "func": "type checker"})
    shutil.rmtree(base, ignore_errors=True)
    return viol, {
        "obligations": len(right) + len(wrong),
        "discharged": len(right) + len(wrong) - len(viol),
        "correct_programs": len(right),
        "wrong_programs": len(wrong),
        "families": {k: {"programs": v[0], "rejected": v[1]} for k, v in fams.items()},
        "rejection_codes": hist,
        "checked_alone": len(left),
        "samples": [f"{f}: {w}" for f, _, w in wrong[:: max(1, len(wrong) // 8)]],
    }
