"""Registry: which analysis decides which property."""

TRUSTED = [
    "rustc nightly front end (type checking, MIR construction)",
    "the abstract interpreter in /verif/absint (sound over-approximation of MIR; unsupported constructs are reported, never skipped)",
    "the property roots in /verif/roots/src",
]


def absint(ck, prop, tier):
    data, log = ck.run_roots(prop)
    if data is None:
        return [{"kind": "interface", "msg": "the library no longer compiles with the analysis roots (a public item the property is about is missing or has changed): " + log}], {}
    return ck.violations_of(data), ck.evidence_from_roots(data)


PROPS = {
    "C01": {
        "steps": [absint],
        "level": "proof",
        "technique": "abstract interpretation of MIR (affine/interval domain, fixpoint over histories)",
        "rule": "no panic edge (overflow check, bounds check, division check, unwrap/expect/panic call) is reachable from any receiver entry point in any abstract state of the event-history fixpoint",
        "note": "Sound for all event histories, all durations/time stamps and every u32 sampling frequency; fugit time types at the tick rates listed in the statement.",
    },
}

AI = "abstract interpretation of MIR (affine/interval domain with trace partitioning, fixpoint over histories)"
FRAME_NOTE = "Proof over all inputs: any event history before the frame (fixpoint), every payload, every pulse length within 4% of nominal, every sampling frequency 40 kHz-100 MHz (u32) and 1 MHz (u64). Trusts the analyser and the frame description in the roots."


def reg(pid, rule, note, technique=AI, level="proof", steps=(absint,), **kw):
    PROPS[pid] = {"steps": list(steps), "level": level, "technique": technique, "rule": rule, "note": note, **kw}


for pid, name in [("C02", "NEC-family"), ("C03", "RC5"), ("C04", "RC6"), ("C05", "Samsung Blu-ray"), ("C06", "Denon")]:
    reg(pid, f"in every abstract state reachable by any event history, an arbitrary pause >= 20 ms and a symbolic {name} frame, no edge before the last reports anything and the last edge reports exactly the command with the frame's bits", FRAME_NOTE)

NOT_APPLICABLE = {
    "C26": "Quantifies over wall-clock instruction timing of a concrete microcontroller and its PWM hardware, which the source does not determine.",
    "C27": "The firmware examples are no_std binaries for boards whose toolchains, HAL crates and signals are not in the sandbox; they are not built here and what their pin sees is not in the source.",
}

reg("C07", "for every event history: a reference monitor that counts bits since the last pulse that may be a header agrees with every reported command (complete frame, same bits); command() is None in every decoder state other than Done",
    "Proof for all edge/duration histories (alternating edges for pulse-distance protocols) at 1 MHz with u32 time. Trusts the analyser and the monitors in roots/src/c07.rs.")

MOCK_NOTE = "Proof over all call histories and all decoders: the decoder is a recording stand-in whose answers are unconstrained, so the receiver code is judged for any protocol. Trusts the analyser and the roots."
reg("C11", "for every history of calls on a receiver over an unconstrained recording decoder: one event per call with the given edge and duration (time stamp difference, saturating), result equal to the decoder's answer, reset exactly after Done/Error",
    MOCK_NOTE + " Time types: u32, u64, fugit 32/64 bit.")
reg("C12", "affine invariant of the polling loop: the duration fed to an unconstrained recording decoder equals the number of polls since the last level change modulo 2^32, in every history of pin levels and pin errors", MOCK_NOTE)
reg("C13", "for every buffer (any length, any content): the recording decoder sees entry i as event i with the i-th alternating edge, every command it reports is yielded in order, nothing else is, and the iterator ends exactly at the end of the buffer", MOCK_NOTE)
reg("C14", "for every history of events on a multi-receiver over 2..6 unconstrained recording decoders: each decoder is fed exactly once with the given duration and edge; slot i is decoder i's command; the iterator yields the filled slots in order", MOCK_NOTE)
reg("C18", "bit-exact symbolic evaluation of pack/unpack/validate for all field values and all 32-bit (RC5: 16-bit) words", "Exhaustive over all words: every bit is a symbol of the analysis. Trusts the analyser.")
reg("C19", "create/address/command/is_repeat, conversion to AnyCommand and ProtocolId conversions evaluated for all argument values, split by the protocol's number ranges", "Exhaustive over all 32-bit numbers and all field values. Trusts the analyser and the ranges stated in the roots.")
reg("C20", "in all orders of the builder calls (frequency, protocol, clock, pin, remote; repeated calls) and all constructors, a recording decoder is built once with the symbolic frequency last given and the pin read and released carries the symbolic tag given; named protocol methods yield the same receiver state as the direct constructor", "All frequencies and pins are symbols; builder call orders are enumerated (each call once, plus repeats). Named protocol methods are compared at 11 frequencies.")
reg("C15", "for every history of loads, resets and ticks with any time stamps, over an encoder that writes any durations: a reference player agrees with every status returned and with the buffer", "Proof for all durations, time stamps and histories; trains of 0..6, 67 and 96 entries. Trusts the analyser and the player in roots/src/c15.rs.")
reg("C16", "for every history of loads and ticks, over an encoder that writes any durations: the pin is touched once per tick and is on exactly when a reference player says so; loads while busy leave encoder, buffer and player alone", "Proof for all durations and histories; trains of 0..6, 67 and 96 entries. Loads between a load and its first switch are not judged. Trusts the analyser and the player in roots/src/c16.rs.")
reg("C17", "for every shipped remote: all actions, all entries of its button list and all field values of a command evaluated through encode, decode and Button; all pairs of action names compared", "Exhaustive over actions, button lists and commands. Trusts the analyser; the remotes are those public in infrared::remotecontrol at the pinned commit.")
reg("C25", "every loop reached from an event, a poll, a tick, a buffer step or a constructor, in every abstract state of the event-history fixpoint, is left after a constant number of iterations (complete unrolling succeeds; no fixpoint needed); recursion is refused", "Sound for all histories, durations and frequencies: a loop whose trip count depends on an unbounded run-time quantity cannot be unrolled completely and is reported. Buffer iteration: constant work for a buffer of constant length.")
reg("C24", "for every history: an unconstrained recording decoder's error kinds and pin errors reach the caller under their own name; a pin error leaves decoder and time reference alone; for every real protocol: from every state an error can leave behind, a product program of that receiver and a new one fed the same events returns the same results forever",
    "Proof over all histories. Product programs at 1 MHz with u32 time; NEC repeats of a command received before the error are allowed. Trusts the analyser and the roots.")
reg("C08", "after every event history and a symbolic frame, every number of repeat codes is answered by the frame's content with the marker set; after a frame broken off at any bit none is answered; in every history a report with the marker repeats the report before it",
    "Proof over all histories and words; repeat codes within 4% of nominal timing at every frequency 40 kHz-100 MHz (u32), 1 MHz (u64). Apple: words the variant does not carry are followed by unanswered repeat codes. Trusts the analyser and the roots.")
reg("C10", "for every sampling frequency (symbolic, split into ranges until decided) and time type: a symbolic frame within 4% of nominal is reported exactly by a new receiver; every duration some protocol pulse class accepts lies within 30% of a nominal length; for every event history a reference monitor that sorts pulses by those 30% windows agrees with every command (RC6, 64-bit and fugit monitors: thorough tier)",
    "Proof for every frequency 40 kHz-100 MHz with u32 and u64 time, fugit 32/64 bit at 40 kHz, 1 MHz and 100 MHz. Trusts the analyser and the roots.")


def facts(ck, prop, tier):
    """Lint over the HIR and MIR of every item of the crate as cargo builds it from /repo."""
    import json, os, shutil
    out = os.path.join(ck.TARGET, "facts.json")
    viol, cov = [], {"obligations": 0, "discharged": 0, "configurations": [], "call_sites": 0}
    every = "nec,rc5,rc6,sbp,denon,remotes"
    for name, args in [("default features", []), ("no default features", ["--no-default-features"]), ("protocols and remotes only", ["--no-default-features", "--features", every])]:
        if os.path.exists(out):
            os.remove(out)
        tgt = os.path.join(ck.TARGET, "facts")
        shutil.rmtree(tgt, ignore_errors=True)
        env = {"LD_LIBRARY_PATH": ck.sysroot() + "/lib", "CARGO_INCREMENTAL": "0", "RUSTC_WRAPPER": ck.DRIVER,
               "RUSTFLAGS": "-Zalways-encode-mir --cap-lints=allow", "ABSINT_FACTS": out}
        rc, log = ck.sh(["cargo", "+nightly", "check", "--offline", "-p", "infrared", "--lib", "--target-dir", tgt] + args, env=env, cwd=ck.REPO)
        if not os.path.exists(out):
            errs = "\n".join(l for l in log.splitlines() if "error" in l or "-->" in l)[:2000]
            viol.append({"kind": "interface", "msg": f"{name}: the library does not compile: " + (errs or log[-1500:])})
            continue
        d = json.load(open(out))
        for v in d["violations"]:
            if v not in viol:
                viol.append(v)
        n = len(d["functions"]) + len(d["types"]) + len(d["statics"]) + d["call_sites"]
        cov["obligations"] += n
        cov["discharged"] += n - len(d["violations"])
        cov["call_sites"] += d["call_sites"]
        cov["configurations"].append({"features": name, "functions": len(d["functions"]), "types": len(d["types"]), "statics": d["statics"], "call_sites": d["call_sites"], "crates": d["crates"]})
        if not args:
            cov["library_functions"] = d["functions"]
            cov["types"] = d["types"]
            cov["external_callees"] = sorted(k for k in d["callees"] if not k.startswith(("receiver::", "protocol::", "sender::", "remotecontrol::", "cmd::")))
            cov["samples"] = d["functions"][:6]
        shutil.rmtree(tgt, ignore_errors=True)
    return viol, cov


reg("C21", "every item of the crate: no unsafe block, function or impl, no assembler or foreign function, no mutable or interior-mutable global, thread local, type or value, no dependency on std or alloc, and every function mentioned in any MIR body belongs to the crate itself or to a crate without allocation, blocking or I/O (core, fugit, gcd, embedded-hal, nb, void)",
    "Complete over the items of the crate in three feature selections: every HIR item, every type, every MIR body with every function it mentions. Trusts rustc, the lint in absint/src/facts.rs and the list of pure crates. The pin and encoder code a user passes in is outside.",
    technique="custom lint over HIR, types and MIR call graph (effect and shared-state analysis)", steps=(facts,))


def matrix(ck, prop, tier):
    import matrix as m
    return m.run(ck, prop, tier)


reg("C22", "the type checker accepts the library and a witness program (receivers of every kind, builder methods, senders, remotes the selection must offer) in every one of the 960 feature selections",
    "Complete: every selection of the crate's features with at most one logging back end is type-checked. Trusts cargo, rustc and the witness program; code generation is not part of it.",
    technique="exhaustive type checking of library and witness program over the feature lattice", steps=(matrix,))


def witness(ck, prop, tier):
    import witness as m
    return m.run(ck, prop, tier)


reg("C23", "every wrong program of the enumerated families (remote x protocol x entry point, no protocol, edge and pin, clock and time type, command and encoder, released pin, multi-receiver size, thread-bound pin) is rejected by the type checker on its own line, and every correct twin is accepted",
    "Rejection follows from trait bounds on public types, so one witness per combination of shipped protocol, remote, clock and entry point speaks for every program containing that combination. Trusts rustc and the generator in tools/witness.py.",
    technique="compile-fail witnesses with compiling twins (type-level enforcement)", steps=(witness,))


reg("C09", "send: for every command, each pulse in the sender's buffer equals the same pulse of a sample command (NEC family: all words symbolic; RC5 and RC6: every command enumerated inside the analysis, frequency symbolic); hear: a receiver fed the sample's pulse lengths in the order the bits ask for reports exactly the command, for all bits and every frequency (split into ranges until decided)",
    "Proof for every command and every frequency 20 kHz-100 MHz (RC6: 40 kHz-9.67 MHz, above which its encoder no longer compiles), u32 time. The two halves compose to the round trip. Apple NEC cannot be packed for sending upstream. Trusts the analyser and the roots.")
