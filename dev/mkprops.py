#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Ring buffer is a bounded FIFO that overwrites the oldest elements",
 "For every sequence of writes, pushes, reads, pops and peeks, a ring buffer of capacity N behaves as a FIFO queue holding the last min(N, pending) elements: reads return elements in the order written, each at most once, with exact counts. Writes always accept everything and discard exactly the oldest excess; a conditional push fails only when full, an empty read reports end of data, and no operation panics or touches memory outside the queue.",
 ["inputs","histories"],"all capacities >= 1, element types, buffer fill states, read/write cursor positions and slice lengths",
 "The tests run a few short scripts on one size; wrap-around, full/empty ambiguity and writes longer than the capacity depend on the cursor positions and lengths, which have unbounded combinations.",
 ["ring/buffer.go"],[("cursor arithmetic of read, write and full flag","ring/buffer.go: Read, Write, Len, TryPush, TryPop")],
 [("read/write/full","cursors of the circular queue","ring/buffer.go: Buffer")])

p("C02","Mixer output is the saturated sum of its inputs",
 "Every mixed frame has exactly the configured number of samples, and each sample is the sum of the samples the participating inputs supply for that position, clamped to [-32767, 32767], with zero where nobody supplies one. Every attached input is consulted exactly once per mix, each mix produces exactly one frame for the destination, and nothing from an earlier mix leaks into a later one.",
 ["inputs","histories"],"all numbers of inputs (up to 65535), sample values, input lengths and previous mixer states",
 "Tests mix two or three inputs with a handful of values; overflow, short reads that shrink scratch buffers, stale accumulators and clamping at both ends need specific combinations.",
 ["mixer/mixer.go","ring/buffer.go"],[("accumulate into a cleared int32 buffer","mixer/mixer.go: mixInputs, reset"),("clamp and emit","mixer/mixer.go: mixOnce")],
 [("mixBuf","per-position sums of the current mix","mixer/mixer.go: Mixer")])

p("C03","Mixer inputs buffer, starve and drop exactly as configured",
 "A mixer input supplies nothing until at least the minimum amount is buffered, then supplies buffered samples in order until a read finds it empty, after which it counts a restart and buffers again. An input never holds more than its configured maximum; when a write exceeds it the oldest samples go first and the drop counters grow by exactly what was lost.",
 ["inputs","histories"],"all write sizes, read sizes, thresholds and interleavings of writes and mixes (serialised by the input lock)",
 "Tests exercise one threshold and one overflow; the accounting must hold for every fill level and write length.",
 ["mixer/mixer.go","ring/buffer.go"],[("buffering flag and ring occupancy","mixer/mixer.go: readSample"),("drop accounting","mixer/mixer.go: Input.WriteSample")],
 [("buffering","whether the input waits for the minimum fill","mixer/mixer.go: Input")])

p("C04","Mixer catches up with real time without drift or unbounded bursts",
 "Each timer wake-up produces as many mixes as frame periods have elapsed since the end of the last mix (with a quarter-period tolerance), the reference time advances by exactly that many periods, and no wake-up produces more mixes than the input buffer holds frames, in which case the reference is reset to the present. The first wake-up produces exactly one mix and a wake-up before the reference time produces none.",
 ["schedules","histories"],"all wake-up times, frame periods > 0 and buffer sizes",
 "Tests use a real-time ticker or a few synthetic offsets; rounding, negative gaps and long stalls are a continuum of times.",
 ["mixer/mixer.go"],[("elapsed-time division and reference advance","mixer/mixer.go: mixUpdate")],
 [("lastMixEndTs","reference time of the last mix","mixer/mixer.go: Mixer")])

p("C05","Jitter buffer delivers packets in order, at most once, never late",
 "For every arrival order, loss and duplication of packets, the jitter buffer emits packets in increasing sequence order (modulo wrap-around) except across a stream discontinuity, and emits no packet twice. A packet that precedes the last emitted or dropped one is discarded and counted; any other packet is buffered until it is emitted or dropped.",
 ["inputs","histories"],"all sequences of pushed packets with arbitrary 16-bit sequence numbers, arrival times and codec framing",
 "Tests replay a few dozen orderings; sequence wrap-around combined with reordering, duplicates and gaps has unbounded combinations.",
 ["jitter/buffer.go","jitter/packet.go"],[("sorted doubly linked list insertion","jitter/buffer.go: push"),("expired packet check","jitter/buffer.go: push"),("pop from head","jitter/buffer.go: popHead, popSample")],
 [("head/tail list","buffered packets in sequence order","jitter/buffer.go: Buffer"),("prevSN","last sequence number taken out","jitter/buffer.go: Buffer")])

p("C06","Jitter buffer emits only complete samples and balances its packet pool",
 "Every emitted group starts at a packet that begins a codec frame and runs through consecutive sequence numbers to the first packet that ends one, with padding packets left out; incomplete frames are never delivered, only dropped and counted. The reported size always equals the number of buffered packets, and recycled packet slots never carry state of the packet they held before.",
 ["inputs","histories"],"all packet contents (start, end and padding marks), sequence gaps and pool states",
 "Tests have a few fixed frame layouts; completeness depends on the entire chain of buffered packets and on slot reuse history.",
 ["jitter/buffer.go","jitter/packet.go"],[("chain completeness scan","jitter/packet.go: isComplete"),("sample extraction","jitter/buffer.go: popSample"),("slot pool","jitter/packet.go: newPacket, free")])

p("C07","Jitter buffer waits out gaps up to its latency and accounts losses exactly",
 "A complete frame is delivered at once if it directly follows the last emitted packet, starts the stream, or starts after a discontinuity; otherwise it is held until its first packet is at least the configured latency old, and then the loss counter grows by exactly the number of missing sequence numbers. An incomplete head frame is dropped only after its latency expired (or on an explicit flush), every drop is counted, and the loss callback reports the totals whenever losses or drops occur.",
 ["inputs","histories","schedules"],"all buffered states, clock values and latencies",
 "Tests depend on real sleeps and a few gaps; exact gap arithmetic with wrap-around and the wait decision must hold in every state.",
 ["jitter/buffer.go"],[("gap test against the previous sequence number","jitter/buffer.go: popReady, Flush"),("expiry","jitter/buffer.go: dropIncomplete")])

p("C08","Outgoing RTP sequence numbers increase by one per packet sent",
 "All streams sharing one RTP writer share one sequence: consecutive successfully sent packets carry consecutive 16-bit sequence numbers and the same SSRC and version, whatever stream, payload type, timestamp or marker they have. A packet whose send fails does not consume a number, and each packet carries exactly the type, marker, timestamp and payload that was requested.",
 ["inputs","histories","fault_sequences"],"all interleavings of stream writes (serialised by the writer lock), payloads and transport errors",
 "Tests write a few packets to a writer that never fails and never reach wrap-around or an error in between.",
 ["rtp/rtp.go"],[("header template under a lock","rtp/rtp.go: SeqWriter.WriteEvent")],
 [("sequence header","header of the next packet","rtp/rtp.go: SeqWriter")])

p("C09","RTP stream timestamps advance by the packet duration and stay in step",
 "Each ordinary payload advances its stream's timestamp by exactly one packet duration, payloads written at the current time all carry the same timestamp until the stream is delayed, and a delay advances it by the requested amount. A stream more than 25 packet durations behind the most recent stream jumps to that stream's timestamp, otherwise its own timestamp is kept, and the writer's maximum never decreases.",
 ["inputs","histories"],"all timestamps and durations below the documented 32-bit wrap limit, and all histories of writes, delays and resets",
 "Tests check one or two frame durations and one idle gap; the catch-up rule is a comparison over the whole 32-bit range.",
 ["rtp/rtp.go"],[("catch-up against the shared maximum","rtp/rtp.go: SeqWriter.CurTS"),("increment and follow-up flag","rtp/rtp.go: Stream.writePayload, Delay")])

p("C10","RTP packets reach exactly the handler registered for their payload type",
 "For every payload type 0..255 a packet goes to the handler last registered for that type, to the default handler if there is none, and is dropped without error if there is no default either; registering or removing one type never affects another. Looking up a static codec succeeds or returns nothing for every payload type value, and never fails otherwise.",
 ["inputs","histories"],"all payload type values and all registration histories",
 "Tests register a couple of types; the static/dynamic split has its own storage per range and boundary values are not sampled.",
 ["rtp/mux.go","rtp/codecs.go"],[("static table and dynamic map","rtp/mux.go: HandleRTP, Register"),("codec table","rtp/codecs.go: CodecByPayloadType")])

p("C11","UDP port range binding tries every port in the range and only those",
 "A bind attempt over a port range only uses ports inside the normalised range [min, max] within 1..65535, tries each port at most once, and returns the first socket that binds. It gives up early only on an error other than address-in-use, reports a failure only after every port in the range was tried, and with no range given asks the system for an ephemeral port.",
 ["inputs","configurations","fault_sequences"],"all range bounds (including inverted, zero, negative and oversized), random starting points and patterns of busy ports",
 "Tests bind a small real range with few busy ports; the wrap from max to min depends on a random start.",
 ["rtp/listen.go"],[("cyclic scan from a random start","rtp/listen.go: bindRange")])

p("C12","DTMF event packets encode and decode losslessly",
 "Encoding a telephone event yields the 4-byte RFC 4733 layout (event code, end bit, 6-bit volume, big-endian duration) and decoding any payload of at least 4 bytes yields exactly those fields, with the digit matching the code for the 16 known codes; shorter inputs are rejected without side effects. The 16 digits map one-to-one to codes and to the standard dual-tone frequencies.",
 ["inputs"],"all payload bytes and lengths, all event values and digits",
 "Tests decode a few captured packets; the bit layout must hold for all 2^32 payloads.",
 ["dtmf/dtmf.go"],[("bit packing","dtmf/dtmf.go: Encode, Decode"),("code tables","dtmf/dtmf.go: Tone, charToEvent, eventToChar, eventFreq")])

p("C13","DTMF playback sends well-formed event sequences in lockstep with audio",
 "While a digit plays, event packets are sent every frame with one common timestamp, durations growing by one frame to the tone length, the marker only on the first and the end bit only on the last packet, which is sent three times; the timestamp then advances by the tone and pause durations. Tones and pauses each last 250 ms ('w' pauses 500 ms), exactly one audio frame is written per 20 ms step, and any write error or cancellation ends playback with that error.",
 ["inputs","histories","fault_sequences"],"all digit strings, sample rates, presence of either output, write errors at any step and cancellation at any tick",
 "Tests play one digit string with successful writers; error positions, unknown characters and missing outputs are not covered.",
 ["dtmf/dtmf.go","rtp/rtp.go"],[("tick state machine","dtmf/dtmf.go: Write")])

p("C14","G.711 codecs follow the standard tables for every sample",
 "Decoding maps each of the 256 A-law and mu-law codes to its G.711 linear value and encoding maps every 16-bit sample to the code the reference quantiser picks, element by element and for any frame length. Encoding a decoded code gives a code that decodes to the same value, and both codecs preserve order of samples and frame length.",
 ["inputs"],"all 2^16 samples, all 256 codes, all frame lengths and previous buffer states",
 "Tests check a few tones or a hash of one recording; a table error at rare amplitudes changes nothing they measure.",
 ["g711/g711.go","g711/alaw.go","g711/ulaw.go"],[("table construction","g711/g711.go: buildLinTable, buildLawTable"),("table lookup","g711/g711.go: EncodeALawTo, DecodeALawTo, EncodeULawTo, DecodeULawTo"),("frame buffers","g711/alaw.go, g711/ulaw.go: WriteSample")])

p("C15","PCM helpers convert, copy and collect samples exactly",
 "Mono to stereo duplicates each sample, stereo to mono averages each pair without overflow, serialisation is little-endian two bytes per sample, clearing zeroes everything, and buffer and frame writers append copies of exactly the written samples in order while buffer readers return them in order. Undersized destinations are rejected (panic or short-buffer error) before anything is written.",
 ["inputs","histories"],"all sample values, lengths, aliasing allowed by the documentation and previous buffer contents",
 "Tests use small fixed vectors; extreme values, odd lengths and in-place use are not enumerated.",
 ["pcm.go"],[("element loops","pcm.go: MonoToStereo, StereoToMono, CopyTo, Clear"),("append with copy","pcm.go: frameWriterPCM16, bufferWriterPCM16, bufferReaderPCM16")])

p("C16","Frame re-chunking loses, repeats and reorders nothing",
 "A full-frame writer passes on every input sample exactly once, in order, in frames of exactly the configured size, with one shorter final frame on close if samples remain. When the destination rejects a frame, the samples after it stay buffered and later frames continue from there; after each write fewer than one frame's worth of samples remains unless an error occurred.",
 ["inputs","histories","fault_sequences"],"all frame sizes, write lengths, and destination errors at any call",
 "Tests feed a few lengths to a writer that always succeeds.",
 ["buffers.go"],[("slice window and deferred compaction","buffers.go: frameBuffer.flush")],
 [("buf","samples not yet forwarded","buffers.go: frameBuffer")])

p("C17","Switchable and fan-out writers deliver to exactly the attached writers",
 "A switchable writer forwards each sample once to the writer attached at that moment and drops it silently when disabled or detached; swapping returns the previous writer unclosed, and closing detaches and closes the attached one at most once. A fan-out writer forwards every sample and the close to all its members in order even if some fail, and returns the last failure; the sample rate of a switch is fixed by its first valid setting.",
 ["inputs","histories","fault_sequences"],"all sequences of swap, enable, disable, close and write, all member counts and error patterns",
 "Tests cover a single swap and two members without errors.",
 ["media.go"],[("atomic writer pointer","media.go: SwitchWriter"),("loop over members","media.go: MultiWriter")])

p("C18","Codec registry reflects registrations and enable switches",
 "Every registered codec is listed in registration order, announced exactly once to every subscriber no matter whether the subscriber came before or after it, and counted as enabled exactly when its case-insensitive name is not disabled. Registering a codec marked disabled disables it, and re-enabling makes it available again.",
 ["histories","configurations"],"all sequences of registration, subscription and enable/disable calls",
 "Tests run with the fixed codec set registered at start-up.",
 ["codecs.go","rtp/codecs.go","sdp/codecs.go"],[("registry slices and disabled set","codecs.go: RegisterCodec, OnRegister, CodecSetEnabled, EnabledCodecs")])

p("C19","SDP audio selection picks the best common codec",
 "From an offer, the chosen audio codec is the first one with the highest priority among the supported ones; from an answer it is the first supported one; it keeps the payload type it was listed with, and the DTMF type is carried over. If nothing is supported the result is the no-common-codec error, never a partial configuration.",
 ["inputs"],"all codec lists, priorities (including negative), payload types and unsupported entries",
 "Tests use a few hand-written session descriptions; ties, negative priorities and unsupported entries in between are not enumerated.",
 ["sdp/offer.go"],[("priority scan","sdp/offer.go: SelectAudio"),("use by both sides","sdp/offer.go: Offer.Answer, Answer.Apply")])

p("C20","SDP crypto negotiation gives both sides matching keys or fails closed",
 "When encryption is negotiated, both peers end up with the same protection profile, each side's local key, salt and key identifier are the other's remote ones, and the answer echoes the offer's tag. If encryption is required and no common profile exists the negotiation fails; if encryption is disabled locally no keys are configured.",
 ["inputs","configurations"],"all profile lists on both sides, key identifiers and encryption policies",
 "Tests negotiate between default profile lists; partial overlaps, unsupported entries and identifiers are sampled at best.",
 ["sdp/offer.go","srtp/srtp.go"],[("first supported answer profile present in the offer","sdp/offer.go: SelectCrypto"),("policy checks","sdp/offer.go: Offer.Answer, Answer.Apply")])

p("C21","SDP crypto attributes are parsed exactly or rejected, never crash",
 "For any attribute text the parser returns a profile, an error, or ignores the line, without panicking; a parsed profile has the key material split at the profile's key length. Lifetimes are accepted exactly for 2^n with n <= 63 or positive decimals, and key identifiers exactly when their value fits the stated 1 to 8 bytes, encoded big-endian in that many bytes.",
 ["inputs"],"all strings received from a peer",
 "Tests contain a few valid and invalid lines; truncated keys and boundary lengths come from the network.",
 ["sdp/offer.go","srtp/srtp.go"],[("field splitting and bounds","sdp/offer.go: parseSRTPProfile, parseLifetime, parseMKI")])

p("C22","Resampling writer forwards converted audio in order and in whole frames",
 "A resampling writer hands every sample the converter produces to its destination exactly once and in order, in frames of the destination frame size, keeping less than one frame back between writes, and on close drains the converter and forwards the remainder before closing the destination. All input samples are given to the converter; equal rates bypass it entirely.",
 ["inputs","histories"],"all write lengths, rate pairs and destination error patterns (the converter itself is external and assumed to meet its documented interface)",
 "Tests convert one recording at two rates with a constant frame size.",
 ["resample.go","resample_soxr.go"],[("frame flush loop","resample_soxr.go: resampleWriter.flush, WriteSample, Close"),("converter call loop","resample_soxr.go: soxrResampler.Resample")])

p("C23","Opus and G.722 wrappers pass exactly the coded data with the right layout",
 "Each input frame results in one frame to the destination holding exactly what the codec produced, converted to the requested channel count; empty frames are skipped, scratch buffers always have room for the result, and codec or destination errors are returned. Isolated corrupt packets are skipped at most five times in a row before the error is reported.",
 ["inputs","histories","fault_sequences"],"all frame sizes, channel switches and codec results (the codec libraries are external and assumed to meet their documented interface)",
 "Tests encode and decode a few clean streams; channel changes and runs of corrupt packets are rare.",
 ["opus/opus.go","g722/g722.go"],[("channel conversion and error count","opus/opus.go: decoder.WriteSample"),("scratch sizing","g722/g722.go: decodeSize, encodeSize, WriteSample")])

p("C24","File and container writers store every frame verbatim with its time",
 "Each written frame is serialised completely and unchanged to the output in order, with fresh storage where the container keeps it, and container timestamps advance by exactly the frame duration per frame. Serialisation errors are reported and closing flushes buffered data before closing the output, reporting the first error.",
 ["inputs","histories","fault_sequences"],"all frame sizes, durations and output errors",
 "Tests write one recording with 20 ms frames and do not read timing back.",
 ["media.go","webm/writer.go"],[("scratch buffer and copy","media.go: fileWriter; webm/writer.go: writer.WriteSample"),("timestamp increment","webm/writer.go: writer.WriteSample")])

p("C25","Pipes hand over all data once and report close reasons on both ends",
 "Data written to a pipe is delivered to readers in order, each element once, and a write returns only after everything was consumed or the pipe was closed, with the exact consumed count. After a close the first close reason of the writing end is what readers see and the first one of the reading end is what writers see, defaulting to end-of-file and closed-pipe.",
 ["inputs","histories","schedules"],"all buffer lengths and sequences of close calls on both ends",
 "Tests move a few frames; partial reads and competing close reasons are sampled at best.",
 ["pipe.go"],[("hand-over loop","pipe.go: pipe.read, pipe.write"),("write-once errors","pipe.go: onceError, closeRead, closeWrite")])

p("C26","Tone playback follows the configured tone and silence pattern",
 "Playback cycles through the configured tones forever: each one sounds for its duration and is followed by its silence (skipped if zero), one frame of the destination's size is written per 20 ms step, and it ends only on cancellation or a write error, returning that error. Generated frames have the requested length, time continues seamlessly from frame to frame, and no frequencies means silence.",
 ["inputs","histories","fault_sequences"],"all tone lists (non-empty), durations, sample rates and error positions",
 "Tests generate a single tone; cycling and skipping logic depends on the whole list.",
 ["tones/tones.go"],[("pattern state machine","tones/tones.go: Play"),("sample loop","tones/tones.go: Generate")])

p("C27","RTP sessions frame packets exactly and demultiplex them by source",
 "Each packet written to a session goes out as one datagram holding exactly the marshalled header followed by the payload. Received datagrams that parse and fit the size limit are handed to the stream of their source identifier, each new identifier yields exactly one new stream, and oversized or malformed datagrams are skipped without affecting anything else.",
 ["inputs","histories"],"all packet sizes, headers, datagram contents and orders of arrival on the accepting side",
 "Tests exchange a handful of packets from one source.",
 ["rtp/session.go"],[("marshal into a reused buffer","rtp/session.go: writeStream.WriteRTP"),("per-source map","rtp/session.go: session.AcceptStream")])

p("C28","Jitter-buffered RTP handling passes packets through and surfaces errors",
 "Packets that go through the jitter-buffered handler reach the wrapped handler unchanged, in the buffer's order, each once. An error of the wrapped handler is returned by the same or a later call without blocking, and never more often than it occurred.",
 ["inputs","histories","fault_sequences"],"all packets and error patterns of the wrapped handler",
 "Tests never make the wrapped handler fail and only push in-order packets.",
 ["rtp/jitter.go","jitter/buffer.go"],[("one-slot error channel","rtp/jitter.go: jitterHandler.handleRTP, HandleRTP")])

p("C29","Received RTP read paths neither block each other nor lose wakeups",
 "Concurrent readers and the receiving loop of an RTP session never deadlock, a waiting reader receives the next packet of its source, and closing the session releases every blocked reader with end-of-file.",
 ["schedules"],"all interleavings of readers, the receive loop and close",
 "Tests run one reader; the zero-copy hand-over has races only particular schedules expose.",
 ["rtp/session.go"],[("zero-copy hand-over","rtp/session.go: readStream.write, ReadRTP")])

p("C30","SDP offers and answers describe exactly what was negotiated",
 "An offer lists every enabled codec once with distinct payload types (static ones keep theirs, dynamic ones are numbered upwards from 101), an answer lists exactly the chosen codec and DTMF type, and both state the secure profile exactly when crypto attributes are attached, one attribute per profile with its key followed by its salt. The configuration returned with an answer uses the same codec, types, addresses and keys as the description.",
 ["inputs","configurations"],"all codec registries, ports, encryption policies and offers",
 "Tests compare a few generated descriptions with fixed expectations for the built-in codecs.",
 ["sdp/offer.go"],[("attribute construction","sdp/offer.go: OfferMedia, AnswerMedia, appendCryptoProfiles, OfferCodecs")])

json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
print(len(P),[x["id"] for x in P if len(x["title"])>80])
