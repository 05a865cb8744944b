LIB = "all of /repo/src compiled unmodified (contexts, buffers, units, tracks, instruments, sequences, interpolation, data, clocks, dividers, wave reader/writer)"
MEM = "malloc family (simulated: deterministic poison, ledger, failure plan)"
CALLER = "the caller (random scripts of API calls, scripted callbacks, buffer sizes and delivery mode)"
SAMP = "Sampled search: a clean run is evidence over the seeds explored, not a proof. Trusts clang, AddressSanitizer and the harness in /verif/sim. "
PROPS = {
 "C01": dict(files=["p_c01"], quick=80000, thorough=1000000,
   technique="seeded search over song scripts x request schedules, metamorphic equality of four delivery forms",
   note=SAMP + "Assumes the generator's legal use of the API (moderate notes, dividers >= 1).",
   state="hash of (waveform, effect flags, instrument, attached) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
 "C07": dict(files=["p_c07"], quick=80000, thorough=1000000,
   technique="seeded search over object life cycle histories, address sanitizer, allocator ledger and bystander equality",
   note=SAMP + "Clocks, dividers and contexts are not disposed from inside callbacks.",
   state="hash of (waveform, effect flags, instrument, attached) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
 "C08": dict(files=["p_c08"], quick=80000, thorough=1000000,
   technique="seeded search over allocation-fault placements, ledger and state comparison around the call and equality with a fault-free twin",
   note=SAMP + "Faults are placed on calls of the caller and of callbacks; rendering itself does not allocate.",
   state="hash of (kind of call, index of the failed allocation, configuration of all tracks) at each fired fault",
   real=[LIB], stub=[MEM + " with failing allocations", CALLER, "stdio streams of loaded files (healthy simulated disk)"]),
 "C09": dict(files=["p_c09"], quick=300000, thorough=2000000,
   technique="seeded search over append histories x disk faults and crash points, independent parser of the simulated disk",
   note=SAMP + "Faults are injected below the real glibc stdio (fopencookie), whose buffering is real.",
   state="(low-level writes so far, seeks so far, disk error happened, error reported, bits, channels) after each call",
   real=[LIB, "glibc stdio buffering"], stub=["the disk below stdio (simulated, with faults)", MEM, CALLER]),
 "C10": dict(files=["p_c10"], quick=300000, thorough=2000000,
   technique="seeded search over file contents x read, seek and allocation faults, independent chunk walker as oracle",
   note=SAMP + "Faults are injected below the real glibc stdio (fopencookie). Allocations above 256 MB are refused by the simulated allocator.",
   state="(api, usable file, result, low-level reads and seeks so far, disk error, unmutated) after each load",
   real=[LIB, "glibc stdio buffering"], stub=["the disk below stdio (simulated, with faults)", MEM + " with failing allocations", CALLER]),
 "C11": dict(files=["p_c11"], quick=20000, thorough=1000000,
   technique="seeded search over scripts of several contexts x interleavings x former memory contents, equality of interleaved, re-interleaved, repeated and isolated runs",
   note=SAMP + "Instruments and samples are shared between contexts and changed in the same order in every run; they are not changed from callbacks.",
   state="prefixes of the order in which the contexts are rendered",
   real=[LIB], stub=[MEM + " with chosen former contents", CALLER]),
 "C02": dict(files=["p_c02", "model"], quick=150000, thorough=20000000,
   technique="seeded search over clock and divider histories from outside and from callbacks x rendering pieces, refinement against an executable reference model",
   note=SAMP + "The oracle is an independent executable model over absolute time (sim/model.cpp); its interpolation kernels, rounding rules and table sizes are those of the library at the pinned commit. Clocks and contexts are not disposed from inside callbacks; two clocks which reset each other forever are not generated.",
   state="prefixes of the callback order",
   real=[LIB], stub=[MEM, CALLER]),
 "C03": dict(files=["p_c03", "model"], quick=90000, thorough=20000000,
   technique="seeded search over control histories on arbitrary ticks, refinement against an executable reference model",
   note=SAMP + "The oracle is an independent executable model over absolute time (sim/model.cpp); its interpolation kernels, rounding rules and table sizes are those of the library at the pinned commit. Vibrato depth is kept within 96 semitones.",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
 "C04": dict(files=["p_c04", "model"], quick=120000, thorough=20000000,
   technique="seeded search over instruments x note and edit histories on arbitrary ticks, refinement against an executable reference model",
   note=SAMP + "The oracle is an independent executable model over absolute time (sim/model.cpp); its interpolation kernels, rounding rules and table sizes are those of the library at the pinned commit. ",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
 "C05": dict(files=["p_c05", "model"], quick=70000, thorough=20000000,
   technique="seeded search over voice sets x change histories, sample-exact, refinement against an executable reference model",
   note=SAMP + "The oracle is an independent executable model over absolute time (sim/model.cpp); its interpolation kernels, rounding rules and table sizes are those of the library at the pinned commit. Volumes and periods set directly last until the track computes new ones.",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
 "C16": dict(files=["p_c16", "model"], quick=110000, thorough=20000000,
   technique="seeded search over histories of data objects in use x allocation and disk faults, refinement against an executable reference model",
   note=SAMP + "The oracle unpacks, loads, normalises and converts by itself (sim/model.cpp); the dithering generator is the simulated rand(). Conversions are made with positive slopes and curves.",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call",
   real=[LIB, "glibc stdio buffering"], stub=["the disk below stdio (simulated, with faults)", MEM + " with failing allocations", "rand() (simulated)", CALLER]),
 "C17": dict(files=["p_c17"], quick=40000, thorough=20000000,
   technique="seeded search over scripts x preemptive schedules of simulated threads, equality with the scripts run alone",
   note=SAMP + "Threads are simulated (own stacks, preempted at basic blocks of the library); memory reordering of real processors and races inside a basic block are not simulated. rand() is simulated per thread.",
   state="(preempted places of the other threads, thread which continues) at each switch",
   real=[LIB, "glibc stdio buffering"], stub=["threads (coroutines under a seeded scheduler)", "the disk below stdio (simulated)", MEM, "rand() (simulated)", CALLER]),
 "C18": dict(files=["p_c18"], quick=60000, thorough=20000000,
   technique="seeded search over song scripts x jumps of the simulated time, equality with a new context",
   note=SAMP + "The age of a context is simulated by moving its clocks (currentTime of BKContext, time and nextTime of BKClock) forward, up to 2^42 frames; built with 64 bit BKTime.",
   state="hash of (waveform, effect flags, instrument, attached) of all tracks at each generate call of the aged run",
   real=[LIB], stub=["time which has passed (moved forward in jumps)", MEM, CALLER]),
 "C19": dict(files=["p_c19", "p_c19_run"], quick=60000, thorough=20000000,
   variant=dict(include="time32.h", entry="timeRun32", files=[("world", []), ("common", []), ("p_c19_run", ["-DTIMERUN=timeRun32"])]),
   technique="seeded search over song scripts x forms of rendering x jumps of the simulated time, equality of two builds of the library",
   note=SAMP + "Both representations of BKTime are run in one 64 bit process: the second one by setting INTPTR_MAX to 32 bits while the library and the caller are compiled; pointers and the other integers stay those of the host.",
   state="hash of (waveform, effect flags, instrument, attached) of all tracks at each generate call",
   real=[LIB + ", built twice"], stub=["time which has passed (moved forward in jumps)", MEM, CALLER]),
 "C20": dict(files=["p_c20", "p_c20_run"], quick=60000, thorough=20000000,
   variant=dict(include="bigendian.h", entry="hostRunBE", files=[("p_c20_run", ["-DHOSTRUN=hostRunBE"])]),
   technique="seeded search over files, raw samples and stream faults, equality of two builds of the library on simulated hosts of both byte orders",
   note=SAMP + "The big endian host is simulated: the second build of the library is told that it runs on one, and every number of more than one byte in files and raw 16 bit samples reaches it with its bytes reversed, as a big endian processor would see it. Bytes of numbers kept in memory by the library are not simulated.",
   state="(operation, bits, channels, sizes, results) of each operation",
   real=[LIB + ", built twice", "glibc stdio buffering"], stub=["byte order of the host", "the disk below stdio (simulated, with faults)", MEM, CALLER]),
 "C21": dict(files=["p_c21"], quick=250000, thorough=20000000,
   technique="seeded search over histories of calls with failing allocations, refinement against executable models of each building block",
   note=SAMP + "Slides, oscillations and envelopes are compared with exact real arithmetic within the error of their fixed point numbers; arguments stay within the documented limits (values up to the maximum given at initialisation, times within the capacity).",
   state="(kind of block, precision, phase, position) after each group of steps or read",
   real=[LIB], stub=[MEM + " with failing allocations", CALLER]),
 "C06": dict(files=["p_c06", "model"], quick=110000, thorough=20000000,
   technique="seeded search over samples, ranges and callbacks x change histories, sample-exact, address sanitizer, refinement against an executable reference model",
   note=SAMP + "The oracle is an independent executable model over absolute time (sim/model.cpp); its interpolation kernels, rounding rules and table sizes are those of the library at the pinned commit. Sample callbacks only answer; they do not change the sample themselves.",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
 "C13": dict(files=["p_c13", "model"], quick=100000, thorough=20000000,
   technique="seeded search over histories of accepted and rejected calls, frame conditions and read-back around every call and equality with a twin without the rejected calls",
   note=SAMP + "Not claimed: volumes per channel and periods, which the track computes itself, and the sample range reported while no sample is set. Caller-supplied pointers are valid; sizes are only varied where the call takes one.",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call and whether a call was rejected before",
   real=[LIB], stub=[MEM, CALLER]),
 "C12": dict(files=["p_c12", "model"], quick=100000, thorough=20000000,
   technique="seeded search over histories x reset points x continuations, equality with a twin that continues with new objects",
   note=SAMP + "Which settings persist is part of the specification (waveform, master volume, triangle option and sample callback of tracks, periods, counts and order of clocks and dividers, kernel); the reference model serves only to recall lists and periods.",
   state="hash of (waveform, note, mute, effect flags, instrument, attached, audible) of all tracks at each generate call after a reset",
   real=[LIB], stub=[MEM, CALLER]),
 "C14": dict(files=["p_c14"], quick=60000, thorough=20000000,
   technique="seeded search over histories with extreme settings, work budget per request, bounded decay to exact silence and held notes after faults of the settings stop",
   note=SAMP + "Work is counted in basic blocks of the library; the budget has a wide margin over the work of the pinned commit, so slowdowns by small factors are not seen. Clock periods below 2^10 are not requested. Vibrato depth is kept within 96 semitones.",
   state="hash of (waveform, effect flags, instrument, attached) of all tracks at each generate call",
   real=[LIB], stub=[MEM, CALLER]),
}
