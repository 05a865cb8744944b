#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below and props.py."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None))
    P.append((d, na))

prop("C01", "Sound and callback times do not depend on how frames are requested",
 "For one and the same sequence of control changes, the delivered samples, the times and order of all callbacks, and the final state are identical however the caller asks for the frames: as one large request, as many requests of any sizes, by ending a time span and reading it in pieces, or by having frames pushed up to a given time. "
 "Every pull request delivers exactly the number of frames asked for, and the pushing form delivers exactly the completed frames before the requested time.",
 ["schedules", "programs"], "every song script, every split of the frames into requests and every mix of the delivery forms",
 "The repository's context test renders a handful of fixed lengths; no test compares two different splits, and the number of splits is exponential.",
 ["src/BKContext.c", "src/BKBuffer.c", "src/BKBuffer.h", "src/BKClock.c", "src/BKUnit.c"],
 [("run clocks to the end of the request, then read", "src/BKContext.c BKContextGenerate"), ("end a span / partial read", "src/BKContext.c BKContextEnd, BKContextRead"), ("push", "src/BKContext.c BKContextGenerateToTime"), ("keep unread frames", "src/BKBuffer.h BKBufferShift")],
 [("pending time of the context", "time which was generated but not yet read", "BKContext deltaTime"), ("buffer accumulator", "integrated amplitude carried over between reads", "BKBuffer accum")],
 ["delivered frames", "callback event log", "attribute getters"])

prop("C02", "Clocks and dividers fire at exactly their due times and in order",
 "A clock attached to a running context fires after each of its periods counted from the moment it was attached or reset, a divider fires on exactly every n-th tick of its clock (the count n may be changed from the callback), and simultaneous firings come in attachment order, where a clock may be placed before or after others. "
 "Attaching, detaching, resetting or re-timing one clock, divider or track, at any time including from inside a callback, never loses, duplicates or shifts a tick of the others, and no callback ever runs outside the time at which it is due.",
 ["schedules", "histories", "configurations"], "every interleaving of rendering with attach/detach/reset/period changes of clocks and dividers, from outside and from callbacks",
 "The tests install at most one divider with a fixed count and no clock is ever attached, reset or removed while the context runs.",
 ["src/BKClock.c", "src/BKContext.c", "src/BKTrack.c"],
 [("advance clocks to the next event", "src/BKContext.c BKContextRun"), ("tick a clock and its dividers", "src/BKClock.c BKClockTick, BKDividerGroupTick"), ("insertion and removal in clock list", "src/BKClock.c BKClockAttach, BKClockDetach")],
 [("clock time and next tick", "when the clock fires next", "BKClock time, nextTime"), ("divider counter", "ticks left before the divider fires", "BKDivider counter")],
 ["callback event log (object, time, count)", "context time"])

prop("C03", "Effects and note controls move every value exactly tick by tick",
 "On each tick of its dividers a track's sounding pitch, volumes per channel, duty cycle and mute state are the ones its controls prescribe: slides move linearly and arrive exactly at the target after the set number of ticks, portamento reaches the exact note, vibrato and tremolo swing symmetrically around the set value with their set steps and depth, arpeggios step through their notes in order. "
 "Changing, switching off or restarting an effect, note, volume, panning or waveform at any point, in any combination and on any tick, takes effect exactly then and leaves no residue of the former setting.",
 ["histories", "schedules", "inputs"], "every history of control changes placed at arbitrary ticks (from outside and from callbacks), all effects combined",
 "The track test sets attributes on a track that is never rendered; the value sequences over ticks are not tested at all.",
 ["src/BKTrack.c", "src/BKInterpolation.c", "src/BKTone.c"],
 [("per tick update", "src/BKTrack.c BKTrackTick, BKTrackUpdateUnit"), ("slides and vibrato/tremolo interpolation", "src/BKInterpolation.c"), ("note and arpeggio handling", "src/BKTrack.c BKTrackSetNote, BKTrackSetArpeggio")],
 [("slide values", "current value, end value, steps left", "BKTrack volume, panning, note"), ("effect flags", "which effects are active", "BKTrack flags")],
 ["period/volume/duty/mute getters after every rendered step", "rendered samples"])

prop("C04", "Instrument sequences and envelopes run their whole life cycle exactly",
 "A note played with an instrument steps through each of the instrument's sequences value by value (envelopes: linearly between their phases over the set number of ticks), repeats the sustain part for as long as the note is held, finishes the release part after the note is released, and then the track falls silent; volume, panning, pitch and duty cycle at every tick are those of the sequences combined with the track's own settings. "
 "Replacing or removing a sequence of the instrument or the instrument itself while notes are playing affects every track using it consistently and at once, and never leaves a note hanging.",
 ["histories", "schedules", "inputs"], "every instrument (all four sequence slots, simple, enveloped and ADSR, with or without sustain), every history of note on/release/mute/retrigger, several tracks sharing an instrument, edits while playing",
 "No test creates an instrument.",
 ["src/BKInstrument.c", "src/BKSequence.c", "src/BKTrack.c"],
 [("sequence steppers", "src/BKSequence.c"), ("state list of an instrument's users", "src/BKInstrument.c BKInstrumentStateTick, BKInstrumentSetState"), ("tick of the instrument divider", "src/BKTrack.c BKTrackTick")],
 [("sequence phase", "attack/sustain/release/mute", "BKSequenceState phase, offset, steps")],
 ["period/volume/duty/mute getters per tick", "rendered samples"])

prop("C05", "The output is the exact saturated mix of all voices",
 "Every delivered sample equals the band-limited, DC-filtered sum of exactly the waveforms, volumes and periods its attached voices had at each moment, computed per channel with saturation at the 16 bit limits and never with wrap-around. "
 "Attaching, detaching, muting or changing one voice at any time changes the output by exactly that voice's contribution: detaching or resetting it removes its amplitude at once, and muting it or turning its volume to zero holds its last level, which the DC filter then fades out.",
 ["schedules", "histories", "configurations", "inputs"], "every set of voices, waveforms, phases, phase wraps, periods and volumes, changed at arbitrary times, all channel counts, sample rates and step kernels",
 "The tests compare no rendered sample with an expected value.",
 ["src/BKUnit.c", "src/BKBuffer.c", "src/BKBuffer.h", "src/BKContext.c"],
 [("waveform generators", "src/BKUnit.c BKUnitRun and per-waveform functions"), ("band-limited steps", "src/BKBuffer.h BKBufferAddPulse"), ("integration and saturation", "src/BKBuffer.c BKBufferRead")],
 [("phase, phase position, time", "position of each oscillator", "BKUnit"), ("last pulse", "amplitude a unit currently contributes", "BKUnit lastPulse")],
 ["rendered samples compared with an independent executable model"])

prop("C06", "Sample playback reads exactly the selected frames in the selected order",
 "A track playing a sample or a custom waveform emits exactly the selected frames in the selected order at the speed given by note, sample pitch and sample rate: from the start to the end of the chosen range, forwards, reversed, repeated or back and forth, looping in the sustain range while the note is held and leaving it on release, and it reports its begin and end to the sample callback, whose answer decides about repetition. "
 "At no point are frames outside the sample read, not even when range, repeat mode, sample, channel count or note change at any moment during playback.",
 ["histories", "schedules", "inputs"], "every sample length and channel count, range (also negative or out of bounds values), repeat mode, pitch, callback answers, and every change of them at arbitrary positions during playback",
 "No test plays a sample.",
 ["src/BKUnit.c", "src/BKTrack.c", "src/BKData.c"],
 [("sample stepping, wrap and reversal", "src/BKUnit.c BKUnitSampleRun"), ("range checks", "src/BKUnit.c sample range and sustain range setters"), ("assignment to tracks", "src/BKTrack.c, src/BKData.c state list")],
 [("sample phase, offset and end", "read position", "BKUnit sample")],
 ["rendered samples", "sample callback log", "memory checker"])

prop("C07", "Shared objects survive every order of attach, replace and dispose",
 "Contexts, tracks, instruments, data objects, clocks and dividers may be attached, shared, replaced, copied, reset and disposed in every order, also while rendering is under way: no call ever reads or writes released memory, corrupts a list or loops forever. "
 "Disposing an object detaches it from everything using it without disturbing the others, and once all objects are disposed no memory of the library is left allocated.",
 ["histories", "schedules"], "every history of creating, attaching, sharing, replacing, copying and disposing objects, interleaved with rendering",
 "The tests create one or two objects and dispose them in one fixed order.",
 ["src/BKObject.c", "src/BKContext.c", "src/BKClock.c", "src/BKTrack.c", "src/BKInstrument.c", "src/BKData.c", "src/BKUnit.c"],
 [("dispose functions", "src/BK*.c *DisposeObject"), ("state lists of data and instruments", "src/BKData.c, src/BKInstrument.c"), ("copy constructors", "BKDataInitCopy, BKInstrumentInitCopy")],
 [("linked lists of users", "who has to be told when an object goes away", "BKDataState, BKInstrumentState, BKUnit, BKDivider, BKClock lists")],
 ["AddressSanitizer over exactly sized blocks", "allocator ledger", "getters after a dispose"])

prop("C08", "A failing allocation is reported and changes nothing else",
 "Whenever memory cannot be allocated, the call reports the allocation error, leaks nothing, and leaves every existing object in the state it had before (a new object is not created), so that rendering continues exactly as if the call had not been made. "
 "A later retry with memory available succeeds with the same result as if the failure had never happened.",
 ["fault_sequences", "histories"], "every allocation of every call of every history failing, singly or from some point on",
 "No test lets an allocation fail.",
 ["src/BKObject.c", "src/BKContext.c", "src/BKBuffer.c", "src/BKInstrument.c", "src/BKSequence.c", "src/BKData.c", "src/BKWaveFileReader.c"],
 [("error unwinding", "BKAllocate and the *Init/*Alloc functions"), ("replace after success", "BKData setters, BKSequenceCreate, BKInstrumentSetSequence")],
 [], ["return codes", "allocator ledger", "attribute getters and rendered samples compared with an undisturbed twin"])

prop("C09", "Written wave files are complete and readable, or an error is reported",
 "After a wave writer was terminated without an error, the file holds a well-formed WAVE file at the position where it was started whose header describes exactly the frames appended, in order, and nothing before that position is changed; this holds for any split of the frames into appends and however the disk moves the data. "
 "When an underlying write, seek or flush fails (I/O error, interrupted call, full disk), append, open or terminate reports an error instead of success, and a failed terminate may be repeated; "
 "when the program dies at any point, loading the file is refused or yields a beginning of the frames appended so far. (Nothing is promised for appends after a reported error.)",
 ["fault_sequences", "crash_points", "inputs"], "every sequence of appends, sample format, channel count, start offset, and every placement of short writes, interrupted calls, I/O errors and a full disk",
 "The wave test writes one file to a healthy disk.",
 ["src/BKWaveFileWriter.c", "src/BKWaveFile_internal.h"],
 [("header written first and patched at the end", "src/BKWaveFileWriter.c BKWaveFileWriterTerminate"), ("sample conversion", "src/BKWaveFileWriter.c")],
 [("file size written so far", "what the header has to say", "BKWaveFileWriter fileSize, dataSize")],
 ["contents of the simulated disk parsed by an independent parser", "return codes"])

prop("C10", "Wave and raw data are loaded exactly or rejected, for any bytes and any fault",
 "Loading a WAVE or raw file yields exactly the frames encoded in it; for any other bytes (truncated, corrupted, absurd sizes, unknown chunks) and for any read, seek or allocation failure the call terminates, touches no memory outside its buffers, leaks nothing, and either reports an error, leaving the target object unchanged, or yields only frames that are present in the file, with silence for the frames the header announces but the file does not hold. "
 "Short reads make no difference to the result; an interrupted read may be reported as an error.",
 ["inputs", "fault_sequences"], "every file content, structured mutations of valid files, and every placement of short reads, interrupted reads, read and seek errors and allocation failures",
 "The wave test reads back the file it has just written.",
 ["src/BKWaveFileReader.c", "src/BKData.c", "src/BKWaveFile_internal.h"],
 [("header and chunk parsing", "src/BKWaveFileReader.c"), ("frame conversion", "src/BKWaveFileReader.c BKWaveFileReaderReadFrames"), ("loading into data objects", "src/BKData.c BKDataLoadWAVE, BKDataLoadRaw")],
 [("data size and channel count", "bounds for the reads", "BKWaveFileReader")],
 ["loaded frames against an independent decoder", "AddressSanitizer", "step budget"])

prop("C11", "Contexts are independent and every rendering is reproducible",
 "The output of a context depends only on the operations applied to it and its objects: rendering several contexts interleaved in any way, with other objects created, used and disposed in between, gives each context exactly the samples and callbacks it gives when it is rendered alone. "
 "Running the same script again, with whatever the memory held before, gives the identical result.",
 ["schedules", "histories", "configurations"], "every interleaving of several contexts' scripts, shared read-only instruments and samples included, and every former content of allocated memory",
 "The tests use one context at a time and check no output.",
 ["src/BKContext.c", "src/BKTrack.c", "src/BKUnit.c", "src/BKObject.c", "src/BKData.c"],
 [("all state inside the objects", "BKContext, BKTrack, BKUnit"), ("objects are cleared when initialised", "src/BKObject.c")],
 [], ["rendered samples", "callback event log", "getters"])

prop("C12", "Reset objects behave exactly like new ones",
 "After a context reset, a track reset or clear, or a clock, divider or data reset, at any point of any history, what follows is identical to what a newly created object with the same persistent settings gives: no earlier amplitude, phase, note, effect, position or count shines through. "
 "Resetting one track leaves every other track's output unchanged.",
 ["histories", "schedules"], "every history before the reset, every continuation after it",
 "No test resets an object that has been used.",
 ["src/BKContext.c", "src/BKTrack.c", "src/BKUnit.c", "src/BKClock.c", "src/BKInstrument.c"],
 [("reset functions", "BKContextReset, BKTrackReset, BKTrackClear, BKUnitReset, BKClockReset, BKDividerReset")],
 [], ["rendered samples and getters compared with a fresh twin"])

prop("C13", "Settings read back as set and rejected calls change nothing",
 "Every setting of a context, track, instrument or data object that is accepted reads back as the value that was set (clamped to its documented range where there is one) until it is set again, whatever else happens to other settings and through rendering (a new sample brings its own pitch and starts with default repeat settings; instruments drive the duty cycle and end notes; volumes per channel and periods are computed by the track itself). "
 "A call that is rejected with an error (unknown attribute, invalid value or size, wrong state) changes no attribute, no later sample and no callback.",
 ["histories", "inputs"], "every attribute, every value (also out of range), every point of every history",
 "The track test reads back a few attributes on an idle track; rejected calls are hardly tested, and never with following output.",
 ["src/BKObject.c", "src/BKTrack.c", "src/BKContext.c", "src/BKUnit.c", "src/BKData.c"],
 [("attribute dispatch", "src/BKObject.c"), ("setters and getters", "BKTrackSetAttrInt, BKTrackGetAttrInt, BKTrackSetPtr, BKTrackGetPtr, BKContextSetAttr, BKDataSetAttr")],
 [], ["attribute getters", "return codes", "rendered samples compared with an undisturbed twin"])

prop("C14", "Rendering always completes and silenced voices become silent",
 "Every request to render finishes within an amount of work proportional to the requested time, however extreme the accepted settings are. "
 "Once no track has a sounding note (all muted or stopped, or released with the release phase over), the output falls to digital silence within a bounded time and stays there, and a held note with volume keeps sounding.",
 ["histories", "inputs", "configurations"], "every history of accepted settings followed by any way of silencing all tracks",
 "No test checks progress or silence.",
 ["src/BKContext.c", "src/BKUnit.c", "src/BKTrack.c", "src/BKBuffer.c", "src/BKClock.c"],
 [("minimum periods and steps", "src/BKUnit.c, src/BKTrack.c"), ("leaky integrator", "src/BKBuffer.c"), ("mute on note end", "src/BKTrack.c")],
 [("accumulator", "decays towards zero", "BKBuffer accum")],
 ["work counter of executed library code", "rendered samples"])

prop("C15", "Pitch tables are equal tempered over the whole note range",
 "For every note and fraction of a semitone the tone period and the sample speed are within one unit of the equal tempered value for the sample rate and change monotonically with the note.",
 ["inputs", "configurations"], "every note value and sample rate", "The tests look up no tone.",
 ["src/BKTone.c"], [("period lookup and interpolation", "src/BKTone.c")], observe=["BKTonePeriodLookup"],
 na="A pure function of its integer input: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulation to decide. The tables are exercised as real code by C03-C06, but their accuracy is not judged.")
prop("C16", "Data objects hold exactly what was put into them",
 "After every call a data object contains exactly the frames it was given: the very frames set by the caller, the values unpacked from packed bytes (1, 2, 4, 8 or 16 bits, signed or unsigned, either byte order, only complete frames), the contents of the raw or WAVE file it was loaded from, the frames of the object it was copied from, or its former frames normalised to full scale or converted to the requested number of bits. "
 "A call which is refused or which fails (invalid format, too few frames, failing allocation, disk error) leaves the object, the memory in use and everything playing it as it was; frames belonging to the caller are never written to and copies never share memory; tracks playing the object continue with its new contents at once.",
 ["histories", "inputs", "fault_sequences"], "every history of setting, unpacking, loading, copying, normalising, converting and disposing data objects, while they are being played or not, with any placement of allocation and disk faults",
 "No test fills a data object in any other way than by copying a few frames into it.",
 ["src/BKData.c", "src/BKData.h", "src/BKWaveFileReader.c", "src/BKUnit.c", "src/BKTrack.c"],
 [("unpack and convert", "src/BKData.c BKDataConvertFromBits, BKDataReduceBits, BKDataNormalize"), ("replace frames", "src/BKData.c BKDataSetFrames, BKDataSetData, BKDataLoadRaw, BKDataLoadWAVE"), ("tell the users", "src/BKData.c BKDataResetStates")],
 [("frames, number of frames and channels", "what the object holds", "BKData frames, numFrames, numChannels"), ("copy flag", "whether the frames belong to the object", "BKData object.flags")],
 ["frames of the data object", "attribute getters", "rendered samples", "allocator ledger"])

prop("C17", "Objects used on different threads do not disturb each other",
 "Objects that are not connected with each other can be created, changed, rendered, loaded, saved and disposed on different threads at the same time: wherever the threads are interrupted inside the library, each of them gets exactly the results, samples, callbacks, frames and files it gets when it is alone.",
 ["schedules"], "every set of independent scripts on two or three threads and every preemptive schedule of them, down to single basic blocks of the library",
 "The tests have one thread; a clash needs an interruption between two particular steps inside a library call.",
 ["src/BKContext.c", "src/BKUnit.c", "src/BKTrack.c", "src/BKData.c", "src/BKWaveFileReader.c", "src/BKWaveFileWriter.c", "src/BKInstrument.c", "src/BKTone.c"],
 [("no mutable state outside of objects and stack", "all of src"), ("scratch buffers on the stack", "src/BKContext.c BKContextGenerateToTime, src/BKWaveFileReader.c BKWaveFileReaderReadFrames, src/BKWaveFileWriter.c BKWaveFileWriterAppendFrames")],
 [], ["return codes", "rendered samples", "callback event log", "attribute getters", "frames of data objects", "bytes of written files"])

prop("C18", "Sound and timing do not depend on how long a context has been running",
 "A context that has been running for seconds, days or years behaves like a new one: from any point on, the same control changes give the same samples, the same callbacks at the same distances in time and order, and the same values, whatever time the context and its clocks have reached before, with pulled frames as well as with frames pushed up to a given time; the reported time keeps counting the time passed exactly.",
 ["histories", "schedules"], "every song script and every time (up to 2^42 frames) which the context or its clocks have reached before or reach in the middle of it",
 "The tests render less than a second; the first boundary of the time types lies 13 hours into a run at 44.1 kHz.",
 ["src/BKContext.c", "src/BKClock.c", "src/BKTime.h", "src/BKUnit.c"],
 [("64 bit fixed point time, shorter spans relative to it", "src/BKTime.h"), ("advance of context and clocks", "src/BKContext.c BKClocksAdvance, BKContextRun, BKContextEnd"), ("next tick of a clock", "src/BKClock.c BKClockTick"), ("spans up to a given time", "src/BKContext.c BKContextGenerateToTime")],
 [("context time", "total time run", "BKContext currentTime"), ("clock time and next tick", "time since the clock was attached or reset", "BKClock time, nextTime")],
 ["rendered samples", "callback event log", "BK_TIME", "attribute getters"])

prop("C19", "The representation of time does not change any result",
 "Times are counted in whole frames and 2^20ths of a frame. On platforms where a time is one 64 bit number and on platforms where it consists of two 32 bit parts, the same calls give the same samples, the same callbacks at the same times, and the same values, and every calculation and comparison of times gives the exact result, as long as it can be represented.",
 ["inputs", "configurations", "histories"], "every song script, every time up to 2^31 frames a context has reached, every pair of times and every span of up to 2^32 units",
 "The tests run on one platform only, so that half of the time functions is never even compiled.",
 ["src/BKTime.h", "src/BKBase.h", "src/BKClock.c", "src/BKContext.c"],
 [("two representations of time", "src/BKBase.h BKTime"), ("calculation and comparison of times", "src/BKTime.h"), ("next tick of all clocks", "src/BKContext.c BKClocksAdvance")],
 [("whole frames and fraction", "a time in two parts", "BKTime time, frac")],
 ["rendered samples", "callback event log", "results of the time functions", "attribute getters"])

prop("C20", "Sound files and raw samples mean the same on hosts of either byte order",
 "Files written on a big endian host are the same bytes as files written on a little endian host from the same frames; every file read or loaded gives the same result, numbers and samples on both; raw samples whose byte order is given are converted to the same values on both, and raw samples without given order are taken in the order of the host. Samples of 8 bits and less do not depend on the byte order.",
 ["inputs", "configurations", "fault_sequences"], "every format, number of channels, rate, number of pieces and extra chunks of a file, every raw sample format and order, on hosts of both byte orders, with failing and partial reads and full disks",
 "The tests run on one platform only and touch no files; the code for the other byte order is never executed.",
 ["src/BKWaveFileWriter.c", "src/BKWaveFileReader.c", "src/BKWaveFile_internal.h", "src/BKData.c"],
 [("conversion of header fields", "src/BKWaveFileWriter.c BKWaveFileWriterWriteHeader, BKWaveFileWriterTerminate; src/BKWaveFileReader.c BKWaveFileHeaderFmtRead, BKWaveFileHeaderDataRead"), ("conversion of samples", "src/BKWaveFileWriter.c BKWaveFileWriterAppendFrames, src/BKWaveFileReader.c BKWaveFileReaderReadFrames"), ("order flags of raw samples", "src/BKData.c BKDataSetData, BKDataLoadRaw")],
 [("byte order", "little endian in files", "every number of more than one byte")],
 ["bytes of written files", "results, header numbers and samples read", "frames of data objects"])

prop("C21", "Buffers, slides, oscillations, sequences and objects also hold on their own",
 "Used on their own, without contexts and tracks: what is read from a buffer is the saturated, high pass filtered sum of exactly the steps and frames which were added, in whichever portions time is advanced and frames are read, and exactly as many frames as time has passed can be read; slides and oscillations pass evenly through their documented course within the error of their fixed point numbers, from the value they had when they were changed, arrive exactly, and never exceed the given maximum; sequences step, repeat, release and end as documented for every phase and length, also after a state is given another sequence or value, and a sequence knows exactly the states which use it; objects of own classes dispatch to the given functions, are disposed exactly once and report failing allocations; tones beyond the table give the nearest period; every status has its own name.",
 ["histories", "inputs", "fault_sequences"], "every history of calls on these objects with values up to the documented limits, with failing allocations",
 "The tests never use them directly, and never change them in the middle of their course.",
 ["src/BKBuffer.c", "src/BKBuffer.h", "src/BKInterpolation.c", "src/BKInterpolation.h", "src/BKSequence.c", "src/BKObject.c", "src/BKTone.c", "src/BKBase.c"],
 [("accumulate, advance and read", "src/BKBuffer.h BKBufferAddPulse, BKBufferAddFrame, BKBufferEnd, BKBufferShift; src/BKBuffer.c BKBufferRead"), ("slides and oscillations", "src/BKInterpolation.c"), ("sequence states", "src/BKSequence.c"), ("dispatch and disposal", "src/BKObject.c")],
 [("frames pending", "time not read yet", "BKBuffer time, capacity"), ("users of a sequence", "states whose sequence it is", "BKSequence stateList")],
 ["frames read", "values of slides, oscillations and sequence states", "return codes", "attribute getters", "allocator ledger"])

def main():
    env = {}
    exec(open(os.path.join(HERE, "props.py")).read(), env)
    PR = env["PROPS"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, na in P: f.write(json.dumps(d) + "\n")
    checks = []; nas = []
    for d, na in P:
        i = d["id"]
        if i in PR:
            c = PR[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --quick" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                technique="deterministic simulation: " + c["technique"], level="exploration", level_note=c["note"]))
        else:
            nas.append(dict(property=i, reason=na or "the check for this property is not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=nas,
             notes="No hooks in /repo: the seams (allocator, stdio streams, rand) are taken at link level; see DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
