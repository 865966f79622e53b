#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

NEC="src/protocol/nec/decoder.rs"; RC5="src/protocol/rc5/decoder.rs"; RC6="src/protocol/rc6/decoder.rs"
SBP="src/protocol/sbp/mod.rs"; DEN="src/protocol/denon/mod.rs"; TIME="src/receiver/time.rs"
PRIM="src/receiver/time/primitives.rs"; FGT="src/receiver/time/fgt.rs"; UT="src/protocol/utils.rs"

p("C01","Receiving never panics",
  "Whatever sequence of edges and durations is fed to a receiver of any supported protocol (NEC and its variants, RC5, RC6, Samsung Blu-ray, Denon), built with any sampling frequency and any supported time type (u32, u64, fugit instants of 32 or 64 bit), every call returns normally. No arithmetic overflow, shift overflow, division by zero, out-of-bounds index or failed unwrap is reachable, neither while building the receiver nor while it processes events.",
  ["inputs","histories","configurations"],"all edge/duration sequences of any length, all u32 sampling frequencies (u32 and u64 time; for fugit: tick rates 40 kHz, 1 MHz, 100 MHz with 32 bit and 32768 Hz, 1 MHz with 64 bit), all protocols",
  "The tests feed a few dozen well-formed pulse trains at three sampling rates; an overflow needs one extreme duration, a long noise history or an unusual clock rate.",
  [NEC,RC5,RC6,SBP,DEN,TIME,PRIM,FGT,UT,"src/receiver.rs"],
  [("bit counters bounded by the final-bit arms",NEC),("duration sums and tick clocks",NEC+", "+RC5+", "+RC6),("overflow-free scaling of pulse lengths",UT)],
  ["Receiver::event","Receiver::new"],[("bit counter","index of the next data bit","decoder state enums")])
p("C02","NEC-family frames decode exactly, whatever came before",
  "For standard NEC, NEC16, Samsung, Apple and raw NEC receivers: at a sampling frequency of 40 kHz to 100 MHz, after any previous input and then a pause of at least 20 ms (the edge ending it may still report the error of an earlier, unfinished frame, but no command), one frame with every pulse within 4% of nominal, carrying any 32-bit word (LSB first), is answered by exactly one result, on the edge that completes the last bit: the command whose fields are the frame's bits in that variant's layout, not marked as a repeat. For the Apple variant this holds for words with the Apple vendor id and odd parity; any other word yields no command and no error.",
  ["inputs","histories"],"all 2^32 frame words, all prior edge histories, all pulse durations within 4% of nominal",
  "Tests decode one captured NEC frame and loop over addr/cmd from a fresh receiver only; Samsung, NEC16 and Apple frames are never decoded from pulses, and no test has a history before the frame.",
  [NEC,"src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/nec16.rs","src/protocol/nec/apple.rs","src/protocol/nec/raw.rs","src/protocol/nec/mod.rs"],
  [("NEC state machine",NEC),("per-variant unpack","src/protocol/nec/*.rs"),("timing tables","src/protocol/nec/mod.rs")],["Receiver::event"],
  [("bit buffer","bits received so far",NEC)])
p("C03","RC5 frames decode exactly, whatever came before",
  "At a sampling frequency of 40 kHz to 100 MHz, after any previous input and then a pause of at least 20 ms (the edge ending it may still report the error of an earlier, unfinished frame, but no command), one Manchester-coded RC5 frame (14 bits, MSB first, first start bit 1, every pulse within 4% of nominal) with any second start bit, toggle, 5-bit address and 6-bit command is answered by exactly one command, on the mid-bit edge of the last bit, whose start, toggle, address and command fields equal those sent. No other call during the frame reports a command or an error. The same holds without the pause for a receiver that has just been made, or whose last answer was a command or an error: then the first edge of the frame may come at any time.",
  ["inputs","histories"],"all 2^13 frames, all prior edge histories, all pulse durations within 4% of nominal",
  "Tests loop over addr/cmd with toggle=false and start=3 from a fresh receiver with ideal durations; toggle, field-bit start values, jitter and earlier garbage are not covered.",
  [RC5,"src/protocol/rc5/mod.rs"],[("half-bit clock reconstruction",RC5),("field masks and shifts","src/protocol/rc5/mod.rs")],["Receiver::event"],
  [("clock","half-bit ticks since the start edge",RC5)])
p("C04","RC6 frames decode exactly, whatever came before",
  "At a sampling frequency of 40 kHz to 100 MHz, after any previous input and then a pause of at least 20 ms (the edge ending it may still report the error of an earlier, unfinished frame, but no command), one RC6 mode-0 frame (every pulse within 4% of nominal; leader, start bit, mode bits 000, double-length toggle bit, 8-bit address and 8-bit command, MSB first) with any toggle, address and command is answered by exactly one command, on the mid-bit edge of the last bit, whose toggle, address and command equal those sent. No other call during the frame reports a command or an error. The same holds without the pause for a receiver that has just been made, or whose last answer was a command or an error: then the first edge of the frame may come at any time.",
  ["inputs","histories"],"all 2^17 frames, all prior edge histories, all pulse durations within 4% of nominal",
  "Tests only send toggle=false from a fresh receiver with ideal durations and leave out address/command 255.",
  [RC6,"src/protocol/rc6/cmd.rs"],[("unit clock and header/trailer states",RC6)],["Receiver::event"],
  [("clock","time units since the leader",RC6)])
p("C05","Samsung Blu-ray frames decode exactly, whatever came before",
  "At a sampling frequency of 40 kHz to 100 MHz, after any previous input and then a pause of at least 20 ms (the edge ending it may still report the error of an earlier, unfinished frame, but no command), one frame (every pulse within 4% of nominal; header, 16-bit address LSB first, divider, 4 unused bits, 8-bit command, 8-bit check byte) is answered by exactly one command, on the edge that completes the last bit, carrying that address and command. It is marked valid exactly when the check byte is the inverse of the command byte.",
  ["inputs","histories"],"all 2^36 frames, all prior edge histories, all pulse durations within 4% of nominal",
  "No test exercises this protocol at all.",
  [SBP],[("SBP state machine and unpack",SBP)],["Receiver::event"],[("address/command accumulators","bits received so far",SBP)])
p("C06","Denon frames decode exactly, whatever came before",
  "At a sampling frequency of 40 kHz to 100 MHz, after any previous input and then a pause of at least 20 ms (the edge ending it may still report the error of an earlier, unfinished frame, but no command), one 48-bit Denon frame with every pulse within 4% of nominal is answered by exactly one command, on the edge that completes bit 47, whose 48 bits equal the bits sent, first bit in the least significant position. Nothing of an earlier, aborted or completed frame shows up in it.",
  ["inputs","histories"],"all 2^48 frames, all prior edge histories, all pulse durations within 4% of nominal",
  "The only Denon test counts decoded commands of one capture and never looks at their bits.",
  [DEN],[("Denon state machine",DEN)],["Receiver::event"],[("buf","bits received so far",DEN)])
p("C07","No command from an incomplete or corrupted frame",
  "At 40 kHz to 100 MHz a command is reported only on the edge that completes a full frame: since the frame's header (or RC5 start edge) every pulse was within 30% of a nominal length of that protocol, in the protocol's order, and exactly the protocol's number of bits was received; its content is exactly those bits (a NEC repeat code is a frame of its own, see C08). A frame that is cut short, interrupted by an out-of-tolerance pulse or missing bits never yields a command, and none of its bits reach a later command. A decoder asked for its command at any other moment has none to give.",
  ["inputs","histories"],"all alternating edge sequences with arbitrary durations, at every point of the history, for every protocol (for raw NEC, which reports any word, only the first and last sentence)",
  "One RC5 test feeds one foreign capture; no other protocol is tested with corrupt, truncated or interleaved input.",
  [NEC,RC5,RC6,SBP,DEN,"src/receiver.rs","src/receiver/decoder.rs"],
  [("transition tables",", ".join([NEC,RC5,RC6,SBP,DEN])),("reset after completion or error","src/receiver.rs, src/receiver/decoder.rs")],["Receiver::event","ProtocolDecoder::command"])
p("C08","NEC repeat codes repeat the last complete command",
  "When a NEC-family receiver sees a repeat code (header mark plus repeat space) while idle, it reports the most recently completed frame's command with the repeat marker set, and a frame's own report never carries the marker. If the last frame was not received completely, or none was received yet, a repeat code yields no command. Any number of consecutive repeats keeps reporting the same command. (For Apple, a completed word that is not an Apple command leaves nothing to repeat.)",
  ["inputs","histories"],"all commands, all histories of frames, errors and repeats",
  "The repeat test replays one capture with one good frame; it never compares the repeated fields and never precedes the repeat by a corrupted frame.",
  [NEC,"src/protocol/nec/standard.rs"],[("repeat arm and retained bit buffer",NEC)],["Receiver::event"],[("bit buffer across reset","bits of the last frame",NEC)])
p("C09","What the library sends it receives unchanged",
  "For every command of NEC, NEC16, Samsung, raw NEC (any word), RC5 (any start, toggle, 5-bit address, 6-bit command with the first start bit set) and RC6 (any toggle, address, command), the pulse train that loading it into a sender leaves there at sampling frequency F, whatever was loaded before, replayed into the same protocol's receiver at F, is reported as exactly that command, once (the NEC repeat mark is not transmitted). This holds for every F from 20 kHz (RC6: 40 kHz) to 100 MHz that the encoder accepts at compile time, and the train fits in 96 entries.",
  ["inputs","configurations"],"all commands of all encodable protocols, all sampling frequencies in range",
  "Tests round-trip NEC/RC5/RC6 at 40 kHz plus single commands at two other rates, with toggle/repeat false and the value 255 left out; Samsung, NEC16 and raw NEC are never encoded.",
  ["src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs",NEC,RC5,RC6,"src/sender/buffer.rs","src/sender/senders.rs"],
  [("pulse tables on both sides","src/protocol/*/encoder.rs, src/protocol/*/decoder.rs"),("bit order and pack/unpack","src/protocol/*")],["PulsedataSender::load_command / buffer","Receiver::event"])
p("C10","Pulse tolerance holds at every sampling frequency",
  "At every sampling frequency from 40 kHz to 100 MHz, and with u32, u64 and fugit time types (at 40 kHz, 1 MHz and 100 MHz), a frame whose pulses all lie within 4% of nominal (rounded to whole ticks inwards) is decoded to its exact content by a fresh receiver, for every protocol. A single data pulse pair (or unit) more than 30% away from every nominal length of the protocol is never taken as data.",
  ["inputs","configurations"],"all frequencies in range, all durations in/out of tolerance, all protocols and time types",
  "Tests use three frequencies with ideal durations and one fugit rate for one protocol.",
  [TIME,PRIM,FGT,UT,NEC,RC5,RC6,SBP,DEN],[("window computation",PRIM+", "+FGT),("frequency scaling",UT)],["Receiver::new / event"])
p("C11","All receiver entry points feed the decoder the same way",
  "For any protocol decoder, every receiver call hands the decoder exactly one event whose edge is the given edge (for pin inputs: pin low = true) and whose duration is the given duration or, for timestamps, the time since the previous timestamp, zero if time ran backwards. The call reports a command if and only if the decoder finished, converted unchanged, and reports an error if and only if the decoder failed; after either the decoder has been reset, otherwise not.",
  ["inputs","histories","programs"],"all decoders, all event sequences, all timestamps, pin states and pin errors",
  "Tests call event() on a few fixed protocols; event_instant and the pin variants have no behavioural test.",
  ["src/receiver.rs","src/receiver/decoder.rs"],[("event_edge state handling","src/receiver.rs"),("event_total","src/receiver/decoder.rs"),("event_instant differencing","src/receiver.rs")],
  ["Receiver::event","Receiver::event_edge","Receiver::event_instant","ProtocolDecoder::event_total"],[("prev_instant","timestamp of the last event","src/receiver.rs")])
p("C12","Polled receivers measure every pulse exactly",
  "A polled receiver hands its decoder one event per level change and none otherwise; the event's duration is exactly the number of polls since the previous level change, also across wrap-around of the internal 32-bit counter, and its edge is the new level (pin low = true). Commands and errors of the decoder are returned by that same poll and leave the decoder reset; a pin read error is returned and changes nothing.",
  ["inputs","histories"],"all level sequences of any length (including counter wrap), all decoders, pin errors at any poll",
  "One test polls a single RC5 capture; wrap-around after 2^32 polls and pin errors are unreachable for it.",
  ["src/receiver/ppoll.rs","src/receiver/decoder.rs"],[("poll_base","src/receiver/ppoll.rs")],["PeriodicPoll::poll"],[("clock/last_edge","poll counters","src/receiver/ppoll.rs")])
p("C13","Buffered decoding yields every command in the buffer",
  "Iterating a buffer of durations gives the decoder each entry once, in order, with alternating edges starting with a rising one, and yields exactly the commands the decoder reports, in order. Corrupt frames and frames that produce no command do not end the iteration: it ends exactly when the buffer is exhausted, and stays ended.",
  ["inputs","histories"],"all buffers of any length and content, all decoders",
  "Tests only iterate buffers in which no decoder error occurs before the last command.",
  ["src/receiver/iter.rs","src/receiver/bufferinput.rs"],[("BufferIterator::next","src/receiver/iter.rs")],["BufferInputReceiver::iter","iter_with"])
p("C14","Multi-protocol receivers are independent",
  "A multi-receiver over N protocols (2 to 6) behaves like N separate receivers fed with the same events: on every event each inner decoder is fed exactly once with that duration and edge, slot i holds exactly protocol i's command (as generic command) or nothing, and errors or commands of one protocol never affect another. The iterator variants yield exactly the filled slots in order; with a pin, low means true and a pin error feeds nobody.",
  ["inputs","histories","programs"],"all protocol tuples of sizes 2..6, all event sequences",
  "No test uses a multi-receiver.",
  ["src/receiver/multi.rs"],[("ReceiverWrapper impls","src/receiver/multi.rs")],["MultiReceiver::event_generic","event","event_iter"])
p("C15","The sender plays exactly the loaded pulse train",
  "After loading a command, successive ticks play the encoder's durations in order and nothing else: the output switches on or off (starting with on) at the first tick at which at least the current entry's duration has passed since the previous switch (for the first entry: since timestamp 0), also across timestamp wrap-around. After the last entry the next tick reports idle, and it stays idle until a new load; entries of earlier loads are never played.",
  ["inputs","histories"],"all encoders and pulse trains that fit, all tick timestamp sequences, all sequences of loads",
  "No test ticks a sender.",
  ["src/sender/senders.rs","src/sender/buffer.rs"],[("tick state machine","src/sender/senders.rs"),("buffer length bookkeeping","src/sender/buffer.rs")],
  ["PulsedataSender::tick","PulsedataSender::load_command","PulsedataSender::buffer"],[("offset","number of loaded entries","src/sender/buffer.rs")])
p("C16","The embedded sender drives the pin as the train says",
  "On every tick the embedded-hal sender enables the PWM pin exactly when the current state is transmit-on and disables it in every other state, touching the pin exactly once. Loading while a transmission is in progress (from its first switch-on to the idle report) changes nothing; loading while idle starts the new train from its beginning on the next ticks.",
  ["inputs","histories"],"all pulse trains, all interleavings of load and tick calls",
  "No test uses the embedded sender.",
  ["src/sender/hal.rs","src/sender/senders.rs"],[("status to pin mapping, idle guard","src/sender/hal.rs")],["Sender::load","Sender::tick"])
p("C17","Remote-control maps are consistent both ways",
  "For every shipped remote and every action, if the remote can encode the action then the resulting command has the remote's address (Apple: the remote's key or battery page) and decodes back to the same action. A command from another address is never mapped, every code maps to at most one action, every action in a remote's button list can be encoded, and wrapping a command in a button keeps the command and maps it exactly as the remote does. Distinct actions have distinct names.",
  ["inputs","programs"],"all remotes, all actions, all commands",
  "One test maps one command of one remote.",
  ["src/remotecontrol/mod.rs","src/remotecontrol/mapper.rs","src/remotecontrol/nec/samsungtv.rs","src/remotecontrol/nec/specialformp3.rs","src/remotecontrol/nec/apple2009.rs","src/remotecontrol/rc5/cdplayer.rs","src/remotecontrol/sbp/blurayplayer.rs"],
  [("decode/encode over the button table","src/remotecontrol/mod.rs"),("button tables","src/remotecontrol/*/*.rs")],["RemoteControlModel::decode/encode","Button","Action::to_str"])
p("C18","Packed command words are lossless and self-consistent",
  "For every NEC, NEC16, Samsung, raw NEC and in-range RC5 command, unpacking the packed word gives the command back, and the packed word passes that variant's own validity check. The check accepts a word exactly when its redundancy is right: inverted command byte for NEC/NEC16/Samsung, inverted (NEC) or repeated (Samsung) address byte, Apple vendor id plus odd parity; Apple words failing it never unpack.",
  ["inputs"],"all commands and all 2^32 words",
  "Tests check one value per variant.",
  ["src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/nec16.rs","src/protocol/nec/apple.rs","src/protocol/nec/raw.rs","src/protocol/rc5/mod.rs"],
  [("pack/unpack/validate","src/protocol/nec/*.rs, src/protocol/rc5/mod.rs")],["NecCommandVariant","Rc5Command::pack/unpack"])
p("C19","The generic command view is faithful",
  "A command created from an address and a command number reports exactly these numbers, is not a repeat, and can be transmitted; numbers the protocol cannot carry are refused instead of altered. Converting a command to the generic form keeps its protocol id, address, command number and repeat mark (Denon: its raw bits); an Apple command's number identifies both page and command. Protocol ids survive conversion to their number and back, and unknown numbers give the unknown id.",
  ["inputs"],"all u32 address/command pairs, all commands of all protocols, all u8 ids",
  "No test creates commands through the generic interface or converts any.",
  ["src/cmd.rs","src/protocol.rs","src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/apple.rs","src/protocol/rc5/mod.rs","src/protocol/rc6/cmd.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs"],
  [("AddressCommand impls","src/protocol/**"),("AnyCommand conversion","src/cmd.rs")],["AddressCommand::create/address/command","AnyCommand::from","ProtocolId::from"])
p("C20","The builder keeps what it was given",
  "A receiver made with the builder is the receiver made directly with the same protocol, input and sampling frequency: the last frequency set (1 MHz if none) reaches the decoder unchanged and the given pin is the one that is read and released, regardless of the order of the builder calls, for event and polled receivers alike. All direct constructors pass frequency and input on unchanged as well, and the multi-receiver gives every protocol the same frequency.",
  ["programs","configurations"],"all orders of builder calls, all frequencies, all pins and protocols",
  "Tests build two receivers and never check which frequency arrived.",
  ["src/receiver/builder.rs","src/receiver.rs","src/receiver/ppoll.rs","src/receiver/bufferinput.rs","src/receiver/multi.rs","src/lib.rs"],
  [("builder field forwarding","src/receiver/builder.rs")],["infrared::receiver()","Builder::build/build_polled"])
p("C21","Receivers and senders share nothing and need no runtime",
  "The library contains no unsafe code and no global or interior mutable state, and nothing reachable from its public API allocates, locks, spawns, sleeps or does I/O. Hence two receivers or senders never influence each other and every call is safe inside an interrupt handler without a standard library.",
  ["programs","schedules"],"all public functions of the crate and everything they can call, all interleavings of independent instances",
  "Tests run on a host with std and a heap; absence of an effect cannot be sampled.",
  ["src/lib.rs","src/**"],[("no_std, no unsafe, no statics","src/lib.rs")],["whole crate"])
p("C22","Every feature selection builds",
  "Any selection of the crate's features (protocols, remotes, embedded support and its optional dependencies, at most one of the two logging back ends) compiles, and selecting a protocol makes its receiver available, with remotes its remote-control models too.",
  ["configurations"],"all feature subsets",
  "The test suite only ever builds the default feature set.",
  ["Cargo.toml","src/lib.rs","src/protocol.rs","src/protocol/sbp/mod.rs","src/receiver/ppoll.rs"],[("cfg(feature) gates","src/**")],["cargo check"])
p("C23","Wrong combinations are rejected by the compiler",
  "A program that attaches a remote-control model of one protocol to a receiver of another, builds a receiver before choosing a protocol, calls event, event_instant or poll of a pin-less receiver without an edge or of a pin receiver with one, releases the pin of a receiver that has none, gives timestamps of another type than the receiver's clock, sends a command of another protocol than the encoder's, asks for a multi-receiver of an unsupported number of protocols, or uses a non-encodable protocol for sending does not compile, while the corresponding correct program does. Receivers, senders and decoders of all protocols are sendable to other threads (interrupt contexts) when their pin is.",
  ["programs"],"all programs with such a combination",
  "A run-time test cannot contain a program that does not compile.",
  ["src/receiver.rs","src/receiver/builder.rs","src/receiver/ppoll.rs","src/remotecontrol/mapper.rs","src/sender/mod.rs"],[("trait bounds on Cmd/Proto/Pin","src/receiver.rs, src/receiver/builder.rs")],["rustc"])
p("C24","Errors are reported as what they are and do no damage",
  "A decoding error reaches the caller with the decoder's own error kind, for pin receivers translated to the error of the same name; a pin read error reaches the caller as hardware error carrying the pin's own error value. A pin error neither feeds the decoder nor moves the time reference, and after a decoding error the receiver behaves exactly like a newly built one (apart from NEC's repeat memory).",
  ["inputs","histories","fault_sequences"],"all decoding errors and pin errors at every point of every history",
  "No test provokes a pin error, and no test checks an error kind.",
  ["src/receiver/error.rs","src/receiver.rs","src/receiver/ppoll.rs","src/receiver/multi.rs"],[("From<DecodingError>","src/receiver/error.rs"),("map_err(Error::Hal)","src/receiver.rs")],["Receiver::event","PeriodicPoll::poll"])
p("C25","Handling one event takes bounded work",
  "One receiver event, one poll and one sender tick execute a number of steps bounded by a constant that does not depend on the history, the duration or the sampling frequency; building a receiver likewise. Buffer iteration does bounded work per buffer entry.",
  ["inputs","histories"],"all events in all histories, all frequencies",
  "A test measures one run; a history-dependent or frequency-dependent loop needs a particular value to show.",
  ["src/receiver.rs",TIME,UT,"src/receiver/ppoll.rs","src/sender/senders.rs"],[("constant-size window table",TIME),("scaling loop",UT)],["Receiver::event","PeriodicPoll::poll","PulsedataSender::tick"])
p("C26","Real-time deadlines and carrier timing on hardware",
  "On a supported microcontroller the interrupt handler finishes within the sampling period and the emitted carrier keeps its modulation timing.",
  ["schedules","configurations"],"all supported boards and clock configurations",
  "Needs hardware.",
  ["examples/bluepill","examples/rp-pico","examples/arduino_uno"],[("board examples","examples/*")])
p("C27","The board and capture examples decode what their hardware sees",
  "The firmware examples and the VCD example report the commands contained in the signal on the configured pin or wire.",
  ["inputs","configurations"],"all signals and capture files",
  "The board examples cannot be built without network access and no test runs the VCD example.",
  ["examples/vcd-parser/src/main.rs","examples/*"],[("example main loops","examples/*")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P),"properties")
