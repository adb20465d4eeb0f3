"""The properties, as written to properties.jsonl (id -> see props.py for what decides it)."""
LIB = "arm-wt-22k/lib_src/"
HOST = "arm-wt-22k/host_src/"


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [LIB + f if not f.startswith("arm") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


TEXT = [
    prop("C01", "Fixed-size tables are never indexed outside their bounds",
         "Whatever file, byte stream or API argument values the library is given, every element it selects from an array of "
         "declared length (channel, voice, key-group, track, sound, PCM-stream, module, controller and lookup tables, parser buffers) lies inside that array. "
         "Values taken from the input are range-checked, masked or rejected before they are used as an index.",
         ["inputs", "histories"], "all API argument values, all file and MIDI stream contents, all call orders",
         "The tests play five well-formed SMF files with valid arguments; an out-of-range index needs a particular malformed byte or argument and may corrupt memory silently.",
         ["eas_public.c", "eas_voicemgt.c", "eas_midi.c", "eas_smf.c", "eas_mdls.c", "eas_pcm.c", "eas_wtsynth.c", "eas_tonecontrol.c", "eas_reverb.c", "eas_chorus.c"],
         [("SP-MIDI channel masking", LIB + "eas_midi.c ProcessMIDIMessage / VMMIPUpdateChannel"), ("module number check", LIB + "eas_public.c EAS_GetParameter/EAS_SetParameter"),
          ("stream slot allocation", LIB + "eas_public.c EAS_AllocateStream")]),
    prop("C02", "No input can cause an integer division by zero or an out-of-range shift",
         "Whatever file, byte stream or API argument values the library is given, it never divides by zero and never shifts by a negative amount or by the width of the type or more. "
         "Time divisions, resolutions and rates taken from the input are rejected or replaced when they are zero.",
         ["inputs", "histories"], "all API argument values, all file and MIDI stream contents, all call orders",
         "The tests never present a zero time division, tempo or resolution, nor the exponent values that drive a shift out of range.",
         ["eas_smf.c", "eas_tonecontrol.c", "eas_math.c", "eas_mdls.c", "eas_public.c"],
         [("SMF division check", LIB + "eas_smf.c SMF_ParseHeader"), ("tone-control tempo/resolution checks", LIB + "eas_tonecontrol.c TC_GetTempo/TC_GetResolution")]),
    prop("C03", "The library never terminates the host process",
         "Whatever file, byte stream or API argument values the library is given, no API call ends the host process by itself: it never runs into exit, abort, a failed assertion or a trap. "
         "Malformed input is reported as an error result instead.",
         ["inputs", "histories"], "all API argument values, all file and MIDI stream contents, all call orders",
         "Tests feed well-formed files; the process-ending calls sit behind conditions that only particular inputs could satisfy.",
         [HOST + "eas_hostmm.c", HOST + "eas_report.c", "eas_public.c", "eas_mdls.c"],
         [("memory wrappers that exit on negative sizes", HOST + "eas_hostmm.c EAS_HWMemSet/EAS_HWMemCpy/EAS_HWMemCmp")]),
    prop("C04", "Output samples saturate instead of wrapping",
         "Every 16-bit sample the output stage produces (final mix, reverb and chorus) is clamped to -32768..32767 before it is narrowed, so an overloaded mix distorts softly instead of wrapping to the opposite sign. "
         "A value that is too large becomes the largest sample and a value that is too small the smallest.",
         ["inputs", "histories"], "all songs, volumes, voice loads and effect settings",
         "Wrapping only appears when the mix is overloaded; the tests compare nothing about sample values.",
         ["eas_mixbuf.c", "eas_mixer.c", "eas_reverb.c", "eas_chorus.c", "eas_math.h"],
         [("clamping narrow of the mix", LIB + "eas_mixer.c EAS_MixEnginePost / SynthMasterGain"), ("saturating adds of the effects", LIB + "eas_reverb.c Reverb, " + LIB + "eas_chorus.c ChorusProcess")]),
    prop("C05", "Out-of-range API parameters are refused without effect",
         "An API parameter outside its documented range (volume 0..100, transposition -12..12, playback rate, MIDI byte count, priority 1..255, negative polyphony, synthesizer or module number, render size, reverb and chorus parameters) is refused with an error and leaves the library unchanged, while the limits of the range are accepted. "
         "Whatever is written to them, polyphony, volume, effect and frame-length settings stay within their legal range.",
         ["inputs", "histories"], "all values of the ranged parameters, in every state of the library",
         "Tests call the setters with a few ordinary values; a refused value that still changed something is only visible later.",
         ["eas_public.c", "eas_voicemgt.c", "eas_reverb.c", "eas_chorus.c"],
         [("range checks of the setters", LIB + "eas_public.c EAS_SetVolume, EAS_SetTransposition, EAS_SetPlaybackRate, EAS_SetPriority, EAS_SetPolyphony, EAS_WriteMIDIStream, EAS_Render, EAS_SetParameter"),
          ("effect parameter checks", LIB + "eas_reverb.c ReverbSetParam, " + LIB + "eas_chorus.c ChorusSetParam"), ("polyphony clamp", LIB + "eas_voicemgt.c VMSetPolyphony, VMSetSynthPolyphony")]),
    prop("C06", "Playback calls never allocate, free or open anything",
         "Only the calls that create, load or destroy something (init, shutdown, open, prepare, close, load sounds) allocate or free memory or open or close files. "
         "Rendering, sending MIDI bytes, locating, pausing and every setter or getter use no allocator, no file open or close and no blocking system service of their own.",
         ["inputs", "histories"], "all API entry points, all call paths below them",
         "A test cannot see which functions an unexercised path would call, and an allocation on a rare path only shows as a glitch or leak.",
         ["eas_public.c", "eas_voicemgt.c", "eas_midi.c", "eas_smf.c", "eas_pcm.c", "eas_mixer.c", HOST + "eas_hostmm.c"],
         [("host memory wrappers", HOST + "eas_hostmm.c EAS_HWMalloc/EAS_HWFree"), ("module interface tables", LIB + "eas_config.c parserModules, effectsModules, synths")]),
    prop("C07", "Library instances share no mutable state",
         "Two instances created by separate init calls are independent: nothing an API call does writes to, or hands out for writing, data that lives outside the instance it was given. "
         "All static tables of the library stay constant.",
         ["histories", "schedules"], "all interleavings of API calls on different instances",
         "The tests run one instance at a time; shared state shows only when two instances are used together.",
         ["eas_public.c", "eas_voicemgt.c", "eas_data.c", HOST + "eas_config.c", HOST + "eas_report.c"],
         [("dynamic memory model", HOST + "eas_config.c staticMemoryModel"), ("instance data", LIB + "eas_data.h S_EAS_DATA")]),
    prop("C08", "API calls use bounded stack and never recurse",
         "Whatever the input, no API call recurses and none places an object on the stack whose size depends on the input. "
         "The local variables along the deepest call path of any API call stay below 8 KB, so the library is safe on small audio-thread stacks.",
         ["inputs"], "all inputs and all call paths",
         "Stack exhaustion needs deeply nested or huge declared sizes and a small stack; desktop test threads have megabytes.",
         ["eas_mdls.c", "eas_smf.c", "eas_public.c", "eas_tonecontrol.c"],
         [("nested chunk parsing without recursion", LIB + "eas_mdls.c Parse_lins/Parse_ins/Parse_lrgn/Parse_rgn"), ("fixed conversion buffers", LIB + "eas_mdls.c Parse_data")]),
    prop("C09", "A failed allocation is reported and never dereferenced",
         "When the host cannot provide memory, the call that needed it returns an error. "
         "The missing block is never read or written, not even by clean-up code.",
         ["fault_sequences"], "every allocation failing at every allocation site",
         "Tests never run out of memory.",
         ["eas_public.c", "eas_voicemgt.c", "eas_smf.c", "eas_mdls.c", "eas_tonecontrol.c", "eas_pcm.c", "eas_mixer.c", "eas_reverb.c", "eas_chorus.c"],
         [("allocation checks", LIB + "eas_*.c after every EAS_HWMalloc")]),
    prop("C10", "An error from the host or an inner operation is never swallowed",
         "When reading, seeking, duplicating a file handle, allocating, parsing or an inner library operation fails, the operation that needed it does not go on to report success. "
         "Exceptions are part of the design: the end of the data ends a track, closing ignores failures, an unreadable header means another format, and optional stream parameters fall back to defaults.",
         ["fault_sequences", "inputs"], "every failure of every inner call, on every path",
         "Tests run on files that read without error; each swallowed error needs the failure of one particular read.",
         ["eas_smf.c", "eas_mdls.c", "eas_public.c", "eas_tonecontrol.c", "eas_voicemgt.c"],
         [("result propagation", "every function returning EAS_RESULT")]),
    prop("C11", "Everything acquired is released exactly once",
         "Every memory block, file handle, sound collection and synthesizer the library acquires is given back exactly once: on a failing path before the call returns, otherwise by the matching close or shutdown call. "
         "Nothing is used after it was given back, and nothing is given back by two owners.",
         ["fault_sequences", "histories"], "all failures of inner calls, all paths of opening, loading and closing calls",
         "Leaks and double frees sit on error paths (a failing read, a malformed chunk, a failed second allocation) that tests do not take, and a leak changes no result.",
         ["eas_public.c", "eas_smf.c", "eas_mdls.c", "eas_voicemgt.c", "eas_pcm.c", "eas_mixer.c", "eas_reverb.c", "eas_chorus.c", "eas_tonecontrol.c"],
         [("open/close of streams", LIB + "eas_public.c EAS_OpenFile/EAS_CloseFile/EAS_OpenMIDIStream/EAS_CloseMIDIStream/EAS_Shutdown"), ("per-track file handles", LIB + "eas_smf.c SMF_ParseHeader/SMF_Close"),
          ("temporary wave data of the DLS loader", LIB + "eas_mdls.c DLSParser/Parse_ptbl")]),
    prop("C12", "Shared sound collections and synthesizers live as long as their users",
         "A sound collection or synthesizer shared by several streams is freed when, and only when, its last user lets go of it. "
         "Loading a new collection over an old one lets go of the old one, and a stream that shares a synthesizer keeps it alive after the other stream is closed.",
         ["histories"], "all orders of loading, opening, sharing and closing",
         "The tests neither load collections nor share synthesizers; a wrong count shows only after a particular order of closes.",
         ["eas_mdls.c", "eas_voicemgt.c", "eas_public.c"],
         [("collection reference count", LIB + "eas_mdls.c DLSCleanup/DLSAddRef"), ("synthesizer reference count", LIB + "eas_voicemgt.c VMInitMIDI/VMMIDIShutdown"), ("collection replacement", LIB + "eas_public.c EAS_IntSetStrmParam, " + LIB + "eas_voicemgt.c VMSetGlobalDLSLib")]),
    prop("C13", "An absent parser, effect, callback or operation is never used",
         "A stream without a parser (a live MIDI stream), an effect module that is not there, a metadata or PCM callback nobody registered, and an operation that a parser does not provide are never called, read or written. "
         "A call that needs the missing part does without it or returns an error.",
         ["inputs", "histories"], "all API call orders, streams and module numbers",
         "Each test uses SMF files, the full set of effects and no callback; using what is absent needs the other kind of stream or the missing registration.",
         ["eas_public.c", "eas_smf.c", "eas_pcm.c", "eas_mixer.c", HOST + "eas_config.c"],
         [("parser operations", LIB + "eas_public.c EAS_Locate, EAS_Pause, EAS_ParseMetaData, EAS_ParseEvents"), ("metadata callback", LIB + "eas_smf.c SMF_ParseMetaEvent"), ("effect data", LIB + "eas_public.c EAS_GetParameter/EAS_SetParameter, " + LIB + "eas_mixer.c EAS_MixEnginePost")]),
    prop("C14", "No input can trap a call in an endless loop",
         "Every API call returns, whatever music, sound bank or MIDI data it is given: every loop counts towards a bound its counter can hold, or moves on in a finite input in every round and stops when that input ends or fails to be read. "
         "Playing, locating and scanning a music file never step backwards in it, so each event is met once per pass.",
         ["inputs", "fault_sequences"], "all input bytes and read failures, all loops of the library",
         "A hang needs a particular chunk size, length field or truncation; the test files are well formed, and a test cannot tell slow from endless.",
         ["eas_smf.c", "eas_mdls.c", "eas_public.c", "eas_voicemgt.c", "eas_pcm.c", "eas_wtengine.c"],
         [("event loop", LIB + "eas_public.c EAS_ParseEvents"), ("length fields and seeks", LIB + "eas_smf.c SMF_ParseMetaEvent/SMF_ParseHeader"), ("chunk walking", LIB + "eas_mdls.c NextChunk and its callers")]),
    prop("C15", "Loaded tables, samples and loops are never used outside their bounds",
         "Every access to a table whose length is only known at run time (instruments, regions, articulations and samples of a loaded sound collection, tracks of a music file, banks and programs of the built-in sounds) uses a position that was tested against the number of elements, and a reference from one table into another is tested before it is kept. "
         "The tables and samples of a collection lie side by side inside the memory obtained for them, whatever counts and sizes the file claims. "
         "A region whose loop does not end inside the sample it plays is not accepted.",
         ["inputs"], "all DLS collections, music files and MIDI program or bank selections",
         "Only hostile or damaged files claim wrong counts, indexes, sizes or loop points; the test files are well formed, and reading a little outside a table often changes nothing.",
         ["eas_mdls.c", "eas_smf.c", "eas_voicemgt.c", "eas_wtsynth.c", "eas_dlssynth.c"],
         [("memory layout of a collection", LIB + "eas_mdls.c DLSParser"), ("wave pool", LIB + "eas_mdls.c Parse_ptbl/Parse_wave/Parse_data"), ("regions, loops and articulations", LIB + "eas_mdls.c Parse_rgn/Convert_rgn/Convert_art"),
          ("instrument lookup", LIB + "eas_voicemgt.c VMFindDLSProgram/VMFindProgram"), ("track table", LIB + "eas_smf.c SMF_ParseHeader")]),
    prop("C16", "MIDI bytes are decoded as the MIDI standard says",
         "A stream of MIDI bytes, from a file or sent live, is split into messages as MIDI 1.0 defines: running status, real-time bytes anywhere, one or two data bytes per status, and a note-on of velocity 0 counting as note-off; every byte is consumed once and in order. "
         "Each complete message takes effect once, on the channel and with the data bytes it carries. "
         "The universal system exclusive messages (GM system on, master volume, scalable polyphony) take effect only when their bytes are exactly the defined ones, and leave the decoder ready for the next message.",
         ["inputs", "histories"], "all MIDI byte sequences",
         "Test files use well-formed, regular streams; a real-time byte inside a message, an aborted system exclusive message or a rare status goes untested.",
         ["eas_midi.c", "eas_public.c"],
         [("byte decoder", LIB + "eas_midi.c EAS_ParseMIDIStream"), ("message dispatch", LIB + "eas_midi.c ProcessMIDIMessage"), ("system exclusive", LIB + "eas_midi.c ProcessSysExMessage"), ("live MIDI", LIB + "eas_public.c EAS_WriteMIDIStream")]),
    prop("C17", "Channel messages and controllers have their standard effect",
         "Each controller, pitch bend, channel pressure and program change sets what MIDI assigns to it on its own channel and nothing else: volume, modulation, pan, expression, sustain pedal, bank, registered parameters 0 to 2 with data entry, reset-all-controllers and the note-silencing channel modes. "
         "Values keep all the bits the data bytes carry. "
         "Controllers without a defined function leave the channel unchanged.",
         ["inputs"], "all channel messages in all channel states",
         "128 controllers times 128 values times registered-parameter state; the tests play a few files and only notice whether sound comes out.",
         ["eas_voicemgt.c"],
         [("controllers", LIB + "eas_voicemgt.c VMControlChange"), ("registered parameters", LIB + "eas_voicemgt.c VMUpdateRPNStateMachine"), ("pitch bend and pressure", LIB + "eas_voicemgt.c VMPitchBend/VMChannelPressure"), ("program change", LIB + "eas_voicemgt.c VMProgramChange")]),
    prop("C18", "Locating, muting and scanning never sound a note",
         "Notes begin only while rendering or when MIDI is sent live. "
         "Seeking to a position replays controllers and programs but no notes, scanning a file for meta data changes nothing that sounds, and no other call of the interface begins a note.",
         ["histories"], "all sequences of calls of the public interface",
         "Whether a stray note sounds after a seek depends on what lies between the two positions; the tests check positions, not the absence of notes.",
         ["eas_public.c", "eas_midi.c", "eas_smf.c"],
         [("parser mode", LIB + "eas_public.c EAS_ParseEvents"), ("mode in the decoder", LIB + "eas_midi.c ProcessMIDIMessage"), ("file events", LIB + "eas_smf.c SMF_Event")]),
    prop("C19", "The built-in sound bank is complete and consistent",
         "Every program of the built-in bank, and the default drum kit, leads to regions that exist and end, sounding over one gapless range of keys (the whole General MIDI percussion map for the drums). "
         "Every region refers to an existing sample and envelope, its loop lies inside that sample, and every sample lies inside the sample memory. "
         "Melodic loops of one or two periods are in tune with their key, and every envelope rises and, once released, fades.",
         ["inputs", "configurations"], "all programs, keys, regions, samples and articulations of the built-in bank",
         "The tests play a few programs and keys; a wrong entry for another program reads outside the tables or plays the wrong sound.",
         ["wt_200k_G.c", "wt_44khz.c", "wt_200k_samples.c"],
         [("programs and banks", LIB + "wt_200k_G.c eas_banks/eas_programs"), ("regions and articulations", LIB + "wt_44khz.c eas_regions/eas_articulations"), ("samples", LIB + "wt_200k_samples.c eas_samples/eas_sampleLengths/eas_sampleOffsets"),
          ("how they are used", LIB + "eas_voicemgt.c VMStartNote, " + LIB + "eas_wtsynth.c WT_StartVoice")]),
prop("C20", "MIDI files are decoded exactly: numbers, event lengths, order and tempo",
     "For every Standard MIDI File, variable-length numbers are read as seven bits per byte up to the byte with a clear top bit, other numbers as big-endian; each event consumes exactly its bytes: channel messages are passed byte by byte to the decoder until complete, SysEx events by exactly their length (with the leading F0), meta events are skipped by their length, and an end-of-track event or the end of the file ends only that track. "
     "The delta time behind each event is added to its track's time, the next event is always the earliest of all tracks (the first track on a tie), the clock advances by the elapsed ticks at the current tempo, a tempo event sets it to the rounded value limited to the slowest representable one, and playing ends exactly when every track has ended. "
     "The header's track count (at most 128 tracks, none is an error) and division (192 when absent or SMPTE) are honoured, the tempo starts at 120 beats per minute and only MTrk chunks are played.",
     ["inputs"], "all files, of any number of tracks, with events of any kind and length, deltas and tempos of any value",
     "The tests play a few well-formed files; lengths, deltas, ties, tempos and truncations are unbounded input data.",
     ["eas_smf.c"],
     [("events", LIB + "eas_smf.c SMF_Event, SMF_ParseEvent"), ("meta and SysEx events", LIB + "eas_smf.c SMF_ParseMetaEvent, SMF_ParseSysEx"), ("numbers", LIB + "eas_smf.c SMF_GetVarLenData, SMF_GetDeltaTime"), ("header", LIB + "eas_smf.c SMF_ParseHeader"), ("clock", LIB + "eas_smf.c SMF_UpdateTime")]),
    prop("C21", "Rewinding and resetting restore the initial state",
         "Playing a file again from its start gives what it gave the first time: every track is positioned at its first event with the delay before it, decoders, clock, setup-bar handling and tempo go back to their initial values, and the synthesizer is reset at once. "
         "A reset gives each of the 16 channels its default bank, program, volume, pan, expression, tuning, bend range and controllers (channel 10 as drums) and empties the voice pools; it takes place only when no voice of that synthesizer is left playing, and otherwise remains requested. "
         "A newly created synthesizer starts from the same defaults.",
         ["histories", "inputs"], "all files, all states of the player and the synthesizer at the time of the rewind or reset",
         "What a pass leaves behind depends on everything it played; the tests rewind a file at most once and do not compare the passes.",
         ["eas_smf.c", "eas_voicemgt.c", "eas_midi.c"],
         [("rewind", LIB + "eas_smf.c SMF_Reset"), ("reset", LIB + "eas_voicemgt.c VMReset, VMInitializeAllChannels, VMResetControllers"), ("a new synthesizer", LIB + "eas_voicemgt.c VMInitMIDI"), ("decoder", LIB + "eas_midi.c EAS_InitMIDIStream")]),
    prop("C22", "A note starts its program's matching regions and ends with its note-off",
         "A note on a channel that is not muted starts a voice for the regions of the channel's current program whose key range contains the transposed key, limited to 0..127 (for loaded instruments all whose velocity range also contains its velocity; for built-in ones the first), with its own channel, key and velocity, and no others. "
         "A note-off ends exactly the voices of its channel and key: at once, or when the pedal is lifted if it is down, or after the first sound if nothing was synthesized yet, also when the note still waits for a stolen voice; no note-off so delayed is forgotten. "
         "Lifting the pedal ends exactly the notes it held on its channel, pressing it catches the ones fading there, and all-notes-off silences exactly the voices of its channel, the end or the reset of a stream exactly those of the stream.",
         ["histories", "inputs"], "all channels, keys, velocities, region lists, and all states of the voices when an event arrives",
         "Which voices an event concerns depends on the state of 64 voices, the pedals and four synthesizers at that moment; tests play single files and compare nothing that was heard.",
         ["eas_voicemgt.c"],
         [("note-off", LIB + "eas_voicemgt.c VMStopNote, VMDeferredStopNote"), ("pedal", LIB + "eas_voicemgt.c VMReleaseAllDeferredNoteOffs, VMCatchNotesForSustainPedal"), ("all notes off", LIB + "eas_voicemgt.c VMAllNotesOff"), ("note-on", LIB + "eas_voicemgt.c VMStartNote")]),
    prop("C23", "Every voice is counted exactly once, and freed when its sound ends",
         "The number of voices in use, the number in use by each stream and the number each pool of channels holds always equal the numbers of such voices, whatever notes, stolen voices, mutings, resets and changes of polyphony came before; a note is started on a free voice only while both the overall and the stream's own limit leave room. "
         "In every block every voice in use is synthesized once, for its own stream, and it is returned exactly when its sound has ended; a voice whose next note is waiting then plays that note, and no voice is lost or handed out twice. "
         "Lowering a limit counts and silences only voices that sound, and for a stream's own limit only those of the stream.",
         ["histories"], "all sequences of events on all streams, and all states a voice can be in when one arrives",
         "A counter that is off by one after a rare sequence (a voice stolen across streams and muted before its note starts) only shows much later, as silence or as notes above the limit.",
         ["eas_voicemgt.c"],
         [("starting, stealing, muting, freeing", LIB + "eas_voicemgt.c VMStartVoice, VMStolenVoice, VMRetargetStolenVoice, VMMuteVoice, VMFreeVoice"), ("rendering", LIB + "eas_voicemgt.c VMAddSamples"), ("recounting", LIB + "eas_voicemgt.c VMMIPUpdateChannelMuting"), ("reset", LIB + "eas_voicemgt.c VMReset"), ("limits", LIB + "eas_voicemgt.c VMSetPolyphony, VMSetSynthPolyphony")]),
    prop("C24", "Streams follow the documented states; calls that do not fit are refused",
         "A stream that is prepared becomes ready, playing events makes it play, the end of the data makes it stop and a pause makes it pause, and it is reported stopped or paused exactly once none of its voices sounds any more; a stream whose preparation failed half-way or whose data is broken is in error and can only be closed. "
         "Preparing, pausing, resuming, seeking and setting parameters take effect exactly in the states they are defined for and are otherwise refused without effect; seeking leaves a paused stream paused, and a stream with repeats left is reported as playing.",
         ["histories"], "all sequences of calls on a stream, and all states it can be in when one arrives",
         "Tests pause and resume a playing file once; the combinations (pause, seek, resume, pause while it stops, a failed preparation tried again) and what happens after them are histories nobody lists.",
         ["eas_public.c", "eas_smf.c", "eas_tonecontrol.c"],
         [("calls on streams", LIB + "eas_public.c EAS_Prepare, EAS_Pause, EAS_Resume, EAS_Locate, EAS_State"), ("steps of a file", LIB + "eas_smf.c SMF_Prepare, SMF_Event, SMF_State, SMF_Pause, SMF_Resume, SMF_Reset"), ("tone control", LIB + "eas_tonecontrol.c TC_State, TC_Pause")]),
    prop("C25", "Every event sounds in its block; the clocks advance exactly with the sound",
         "While rendering, each stream's events are taken when and only when they fall before the end of the block being rendered, no block is skipped or parsed twice even when parsing is broken off, and the stream's time and the library's render time advance by exactly the block length (scaled by the playback rate for the stream) for each block of sound produced. "
         "Seeking goes exactly to the time asked for, never before the beginning, and the location reported is that time. A stream that ends with repeats left starts over at time zero, exactly as often as asked.",
         ["histories", "inputs"], "all event times, block boundaries, rates, numbers of streams and repeats, and points at which parsing is broken off",
         "A test hears the first blocks of one file; an event exactly on a block boundary, a block broken off by the host's yield, or the last of several repeats needs times and histories no sample holds.",
         ["eas_public.c"],
         [("rendering and time", LIB + "eas_public.c EAS_Render, EAS_ParseEvents"), ("seeking", LIB + "eas_public.c EAS_Locate, EAS_GetLocation"), ("rates", LIB + "eas_public.c EAS_SetPlaybackRate, EAS_GetRenderTime")]),
    prop("C26", "A program change selects the sound asked for, or the documented replacement",
         "A program change selects the sound the loaded collection has for the channel's bank and the program asked for, drums kept apart from melodic sounds; if it has none, the built-in sound set's. "
         "Where neither has that very sound, the replacements are tried in a fixed order (same program in the default bank, then the set's first program of that kind), and a sound is passed over only when it really is not there: no entry of a list is skipped and no empty entry is taken. "
         "The channel then plays exactly the sound found, from the collection it was found in.",
         ["inputs", "histories"], "all bank selections and program numbers, melodic and drum channels, and sound sets and collections of any size",
         "A test plays some programs of one sound set; which replacement is chosen for a bank nobody sampled, or whether the last entry of a list is reachable, depends on the collection loaded.",
         ["eas_voicemgt.c"],
         [("program change", LIB + "eas_voicemgt.c VMProgramChange"), ("lookup", LIB + "eas_voicemgt.c VMFindProgram, VMFindDLSProgram")]),
    prop("C27", "Exclusive sounds cut each other off; a repeated key replaces its oldest voice",
         "A note whose sound belongs to an exclusive group (open and closed hi-hat) silences exactly the voices on its own channel whose sound, or for a voice taken for a waiting note that note's sound, is of the same group: at once, or after the first block if nothing of it was synthesized yet; a sound of no group silences none. "
         "When a key whose sound does not layer freely is struck while two voices of its channel play or wait to play it, the new note takes over the oldest of the playing ones; with fewer, none is taken for that reason.",
         ["histories", "inputs"], "all histories of notes on all channels and streams, in every state the voices can be in when the note starts",
         "A test hears one hi-hat pattern; a voice that just started, was stolen, fades, or belongs to another stream with the same channel number needs histories no sample holds.",
         ["eas_voicemgt.c"],
         [("starting a voice", LIB + "eas_voicemgt.c VMStartVoice"), ("groups and repeated keys", LIB + "eas_voicemgt.c VMCheckKeyGroup, VMCheckPolyphonyLimiting"), ("carrying out", LIB + "eas_voicemgt.c VMAddSamples")]),
    prop("C28", "A note takes a voice in use only from streams of the same or lower priority",
         "When no voice is left for a note, the voice it takes is one in use that plays, or waits to play, for a stream whose priority is not higher than that of the note's stream; if there is none, the note gets none. "
         "Every voice in use for a stream of the same or a lower priority is considered. A stream's priority is the one last set for it.",
         ["histories", "inputs"], "all histories of notes on any number of streams with any priorities, in every state the voices can be in when a voice is wanted",
         "A test plays one or two streams; a voice that fades or was already stolen for a stream of another priority at the moment another note wants it needs histories no sample holds.",
         ["eas_voicemgt.c"],
         [("taking a voice", LIB + "eas_voicemgt.c VMStealVoice, VMFindAvailableVoice"), ("setting a priority", LIB + "eas_voicemgt.c VMSetPriority")]),
]
NA = {}
