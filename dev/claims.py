TECH='contract-based deductive verification: contracts in contracts/*.vc, verification conditions generated from the go/ssa form of /repo, discharged by z3 and cvc5'
STD='Every obligation of the functions under contract is discharged for all inputs and iterations. Assumed: go/ssa as the meaning of Go, the natives and extern contracts listed in the evidence, sequential execution of each method (locks give atomicity). '
CLAIMED={
'C01':STD+'Ring elements are opaque values.',
'C27':STD+'The connection, pion/rtp (parsing is a function of the datagram, marshalling of the header; Clone copies the extensions) and the fuse are external. Streams of one session are read by at most one reader each; the order in which the reader and the accepting side use a stream is stated as channel contracts. Fewer than 2^40 datagrams.',
'C24':STD+'bufio.Writer and the block writer of ebml-go are external: they take the bytes they are given in order, flushing hands them on, and closing a block writer closes the output; the block writer is assumed to exist unless its constructor fails (NewWriter panics then). Frame types are any types with Size and CopyTo; a CopyTo that succeeds yields Size bytes.',
'C16':STD+'The destination is any writer that does not keep or modify the frame slice it is given.',
'C17':STD+'Atomics are sequentially consistent; each method is verified without interference from concurrent calls.',
'C08':STD+'The interceptor/writer below is any RTPWriter. Interference by concurrent callers is excluded by the writer mutex, which the lock obligations check.',
'C09':STD+'Stream timestamps are assumed to stay below 2^32 minus 25 packet durations (no wrap-around within the comparison window).',
'C10':STD+'Handlers are any functions or values.',
'C11':STD+'net.ListenUDP is assumed to return a socket or an error.',
'C15':STD,
'C18':STD+'Subscribers do not call back into the registry; a codec reports the same information every time; the registry is set up by package initialisation (its maps exist, registered codecs and subscribers are not nil).',
'C25':STD+'Channels: a send is received once and carries its value; what the two ends assume of each other about acknowledgements is stated as channel contracts and checked at the sending side. Goroutine interleavings appear as changes of the close reasons at channel operations; readers are assumed not to overlap on one pipe (one reader at a time). Liveness (a blocked call wakes up) is not covered.',
'C28':STD+'The jitter buffer itself is assumed to call only its callback, any number of times, with the packets it was given (its own behaviour is C05 to C07).',
'C02':STD+'At most 65535 inputs and frames of at most 2^20 samples (the accumulator is 32 bits wide); each input is attached once; an input belongs to the mixer it was created by.',
'C03':STD+'Options passed to the constructor are the ones of this package or keep the thresholds consistent; the fuse library reports whether it was broken.',
'C04':STD+'Clock readings never decrease and no wake-up is more than 146 years late.',
'C12':STD,
'C13':STD+'Other streams do not write to the same sequence writer meanwhile; RTP timestamps do not wrap during playback (stated as a precondition); the ticker delivers ticks of its period.',
'C22':STD+'libsoxr is external: the contract of soxr_process states its documented interface (takes a prefix of the input, appends to its output, is drained when a flush leaves output space unused). Rates are below 10^6 and creation of a converter with valid rates succeeds. Close and writes are verified without interference by concurrent calls on the converter. One listed finding: input left over when the output space is full is dropped.',
'C23':STD+'The Opus and G.722 libraries are external: their documented interface (results fit the buffer they are given; G.722 at 64 kbit/s) is assumed. Writers report sample rates below 10^6. The debugging dump writers are trusted.',
'C26':STD+'The destination is any PCM16 writer; the ticker delivers ticks of its period; Go floats in the wave form are treated as exact reals.',
'C14':STD+'The decode and compression tables are what the init functions compute: the table building code is executed exhaustively by the verifier.',
}
NA={
'C05':'Decided but not registered: every obligation of the contracts in contracts/jitter.vc is discharged (bin/govc check -prop C05, about four minutes), but the check has no replay oracle and no planted bugs yet.',
'C06':'Decided but not registered, as C05 (the same contracts: isComplete, popSample, Size, newPacket, free).',
'C07':'Decided but not registered, as C05 (the same contracts: popReady, dropIncomplete, Flush, UpdateLatency).',
'C19':'The choice is made through package-level registries and interface values of pion/sdp whose parsed contents have no model here; contracts would have to be assumed for most of the path, so nothing would be decided about the code. Not attempted.',
'C20':'The keys of both sides meet only through the formatted and re-parsed text of the attribute (fmt, base64, strings), which the verifier models as uninterpreted: equality of what was written and what is read back cannot be derived from contracts within reach.',
'C21':'The parser is string surgery through strings.Split, strconv and encoding/base64; without contracts for those that give the contents of their results, only the absence of panics would be provable. Not attempted.',
'C30':'As C20: the statement is about the text of a session description, produced by fmt and pion/sdp, for which there is no model.',
'C29':'Liveness and freedom from deadlock over all schedules of several goroutines: function contracts over one call cannot express that a blocked reader is eventually woken.',
}
