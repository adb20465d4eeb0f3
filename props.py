"""What decides each property: the analysis steps, the configuration they run on, and the floors
below which a run decides nothing."""

TRUST = ["clang 18 front end and LLVM 18 IR are faithful to the C sources",
         "64-bit (LP64) layout, as in this build",
         "the API is used from one thread at a time, and handles passed to it are live"]

RANGES = ("whole-program interval analysis (widening/narrowing, path refinement at branches, content of "
          "struct fields as flow-insensitive invariants joined over every store in the library; the MIDI byte "
          "parser is analysed once per reachable control state) over the LLVM IR of exactly the sources, defines "
          "and flags of the CMake build; entry points are all public API functions with unconstrained arguments "
          "and all bytes read from a file or stream are unconstrained")

PROPS = {
    "C01": dict(
        level="other", technique="interval dataflow (abstract interpretation) over whole-program LLVM IR: array-bound obligations",
        level_note="sound for arrays of declared length under the listed assumptions; heap buffers sized at run time are out of scope",
        steps=[dict(analysis="index", config="built", min=dict(obligations=800, functions_reached=180, instructions_reached=14000))],
        rule="every address that selects an element of an array of declared length (inside a struct or a static table) "
             "with a non-constant index: the index interval at the access lies inside [0, length)",
        explanation="Obligations are the variable array selections reachable from the public API; each is discharged by " + RANGES + ".",
        assumptions=TRUST + ["a metadata scan is followed by a stream reset before the stream is parsed in another mode"]),
    "C02": dict(
        level="other", technique="interval dataflow (abstract interpretation) over whole-program LLVM IR: divisor and shift obligations",
        level_note="every division and variable shift reachable from the public API is discharged",
        steps=[dict(analysis="arith", config="built", min=dict(divisions=10, variable_shifts=4, functions_reached=180))],
        rule="every integer division/remainder by a non-constant: 0 is outside the divisor's interval (or excluded by a test on the path); "
             "every shift by a non-constant: the amount is in [0, width)",
        explanation="Obligations are the divisions and variable shifts reachable from the public API; each is discharged by " + RANGES + ".",
        assumptions=TRUST + ["64-bit lengths and address differences are below 2^47",
                             "tempo and resolution of a tone-control stream are set by its header parse before anything reads them"]),
    "C03": dict(
        level="other", technique="interval dataflow (abstract interpretation): reachability of process-terminating calls",
        level_note="every termination point of the library is shown unreachable from the API under the listed assumptions",
        steps=[dict(analysis="exit", config="built", min=dict(termination_points=1, calls_reached=400, functions_reached=180))],
        rule="no call to exit/abort/assert failure/longjmp/trap or any function declared noreturn has a feasible abstract state",
        explanation="Obligations are the calls that never return; each is shown infeasible by " + RANGES + ".",
        assumptions=TRUST),
    "C04": dict(
        level="other", technique="interval dataflow: narrowing obligations on the stores of the output stage",
        level_note="every 16-bit sample store reachable from the post-processing of a mix buffer; 32-bit mix accumulators are taken to hold 32-bit sums",
        steps=[dict(analysis="saturate", config="built", min=dict(obligations=10))],
        rule="every 16-bit sample stored by a function reachable from the mix engine's post stage: the value narrowed lies in [-32768, 32767] on every path, "
             "a clamp constant has the sign of the excess it replaces, no mask or remainder replaces a clamp, and no mix accumulator passes through a narrower type unclamped",
        explanation="Obligations are the sample stores of the output stage (mix post, reverb, chorus and their helpers); each is discharged by " + RANGES + ".",
        assumptions=TRUST),
    "C05": dict(
        level="other", technique="path-sensitive dataflow (property simulation) over API functions with parameter ranges; interval field invariants",
        level_note="every API parameter with a documented numeric range, and every stored setting",
        steps=[dict(analysis="apirange", config="built", min=dict(parameters=20, obligations=70)),
               dict(analysis="limits", config="built", min=dict(obligations=10))],
        rule="for every parameter with a documented range: with the parameter below/above the range no path of the API function (followed through its callees) stores to library state, calls the host or a callee with effects, or "
             "returns success; with a boundary legal value some path succeeds. Every stored setting's field invariant (joined over all stores in the library) lies in its legal range",
        explanation="apirange walks each API function path-sensitively with the parameter constrained to the illegal (then the legal boundary) values; limits computes the field invariants by " + RANGES + ".",
        assumptions=TRUST),
    "C06": dict(
        level="other", technique="effect analysis over the call graph (interface tables resolved to their constant initialisers)",
        level_note="all API entry points, all functions in their closures",
        steps=[dict(analysis="resources", config="built", min=dict(entry_points=35, functions_in_closures=900))],
        rule="the call-graph closure of every API function outside the open/create/close set contains no allocator, no deallocator, no file open/close, and no library function other than pure computation; "
             "closing calls contain no allocator and no open",
        explanation="Whole-program call graph with indirect calls resolved through the constant interface tables; each API function's closure is compared with the effects its kind of call may have.",
        assumptions=TRUST[:1] + ["host callbacks supplied by the application are the application's responsibility"]),
    "C07": dict(
        level="other", technique="effect and escape analysis over whole-program LLVM IR, restricted to code the interval analysis holds reachable",
        level_note="every static object of the library",
        steps=[dict(analysis="isolation", config="built", min=dict(statics=80, functions_reached=180))],
        rule="no reachable instruction stores to, passes on, returns or publishes the address of a non-const static object, and no constant table holds such an address",
        explanation="All static objects are enumerated; every instruction reachable from the API is checked for a write to, or an escaping address of, a writable one.",
        assumptions=TRUST),
    "C08": dict(
        level="other", technique="call-graph analysis: recursion, run-time sized stack objects, stack depth bound",
        level_note="all API entry points; locals counted at their declared sizes",
        steps=[dict(analysis="stack", config="built", min=dict(entry_points=35, functions=240))],
        rule="no cycle in the call graph reachable from the API (interface tables resolved), no alloca/variable-length object, and the locals along the deepest call path of every API call stay under 8 KB",
        explanation="The call graph of every API function is searched depth-first for cycles; the sizes of all locals (before any optimisation) are summed along the deepest path.",
        assumptions=TRUST[:2] + ["host callbacks do not call back into the library"]),
    "C09": dict(
        level="other", technique="path-sensitive dataflow (property simulation) from every allocation site with the result null",
        level_note="every allocation site; the null pointer is followed into callees it is passed to",
        steps=[dict(analysis="alloc", config="built", min=dict(allocation_sites=10))],
        rule="starting behind each allocation with the result null: no path loads, stores, copies or clears through it (in the function or a callee it is passed to), and every path on which the function returns yields an error code",
        explanation="Obligations are the allocation sites; each is decided by walking all paths behind it with branch conditions evaluated under the fact 'result is null'.",
        assumptions=TRUST[:1]),
    "C10": dict(
        level="other", technique="path-sensitive dataflow (property simulation) from every fallible call with the result constrained to failure",
        level_note="every call to a function that can return an error code; calls whose failure is a documented part of the algorithm are listed in the evidence as tolerated",
        steps=[dict(analysis="errors", config="built", min=dict(calls=230, fallible_functions=70))],
        rule="starting behind each call that can fail with its result non-zero: no path of the caller reaches a return of success (the end of the file may end a track in the event parsers)",
        explanation="Obligations are the calls (direct or through interface tables) of functions that can return an error code; each is decided by walking all paths behind it under the fact 'result is an error'.",
        assumptions=TRUST[:1]),
    "C11": dict(
        level="other", technique="ownership dataflow (typestate, path-sensitive) over every acquisition, release and owning field",
        level_note="memory blocks, file handles, sound collections and synthesizers; dynamic memory model (the one built)",
        steps=[dict(analysis="own", config="built", min=dict(acquisition_sites=12, release_sites=25, owning_fields=9, closing_obligations=14))],
        rule="behind every acquisition (allocation, file open/duplicate, functions that hand out what they acquired): on every path the resource is released once, handed to the caller, or stored in an owning field; never used or released after its release, "
             "never released by two owners. Every owning field is released by code reachable from a closing call, on every path that succeeds, and does not keep a released object",
        explanation="Acquiring, releasing and capturing functions are computed as summaries to a fixpoint; each acquisition and release site is then walked path-sensitively, each owning field is matched with the releases reachable from the close and shutdown calls.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C12": dict(
        level="other", technique="reference-count dataflow (typestate, path-sensitive) over every counted release, creation, capture and overwrite",
        level_note="sound collections and synthesizers, the two kinds of shared object",
        steps=[dict(analysis="refcount", config="built", min=dict(counted=3, reference_overwrites=5, owning_fields=9))],
        rule="an object that counts its users starts with one user before anybody can release it; a release gives up exactly one reference and frees the object exactly when none is left; "
             "storing a second reference raises the count (or moves the reference); overwriting a stored reference gives the old one up",
        explanation="Counted types are those with a user count that some function steps; obligations are their creations, releases, captures and every store to a field that refers to one, each walked path-sensitively.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C13": dict(
        level="other", technique="path-sensitive nullness dataflow over every use of an optional pointer, obligations moved to callers where a function leaves the test to them",
        level_note="optional parts: stream parser, effect data, metadata and PCM callbacks, next SMF track, operations a table leaves empty (computed from the tables)",
        steps=[dict(analysis="optional", config="built", min=dict(optional_parts=6, uses=250))],
        rule="every load, store, call or passing-on (to a callee that dereferences it) of an optional pointer happens where every path has established that it is not null",
        explanation="All dereferences and calls of the library are scanned; those whose pointer was loaded from an optional field are obligations, discharged by path-sensitive nullness facts (in the function, or at every call of it).",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C14": dict(
        level="other", technique="loop termination analysis: scalar evolution, interval-backed counters, must-consume-input dataflow, forward-seek rule for event handlers",
        level_note="every loop of every function reachable from the API; 64-bit counters and file positions are taken not to wrap; two loops rest on a stated invariant of their data (sample loop length, last-region mark)",
        steps=[dict(analysis="loops", config="built", min=dict(loops=120, functions=180, event_handlers=1, seeks_in_events=1))],
        rule="every natural loop has a trip count, or a counter that every round moves towards a bound it is compared with and that fits the counter's type, or a value each round is tested to move on, "
             "or consumes at least one byte of a finite input on every second round at least, from a handle the loop does not move back; handling one event of a music file consumes input, ends a track or leaves the playing state, and only seeks forward",
        explanation="All loops are enumerated after inlining; each is discharged by one of the rules or reported.",
        assumptions=TRUST[:1] + TRUST[2:] + ["the input file is finite and its read callback returns the number of bytes it read", "the decoder callback of a PCM stream does not raise the stream's phase"]),
    "C15": dict(
        level="other", technique="path-sensitive index/bound dataflow and symbolic (linear form) memory layout analysis",
        level_note="tables of loaded collections, music files and the built-in sounds; the loader's copy of one wave and the voice references set at note start are taken as stated",
        steps=[dict(analysis="tables", config="built", min=dict(uses=2500, reference_stores=100)),
               dict(analysis="layout", config="built", min=dict(tables=8, pairs=15, region_loops=1, pool_fills=1, rooms=4, recounts=1))],
        rule="every read, write or passing-on of a table element at a run-time position is preceded on all paths by a test of that position against the table's count (or of the moving pointer's companion counter); stored references likewise; "
             "as linear forms of the counts, each table's offset plus length stays within the allocation and before the next table; a sample is written only behind the test of the moved pool offset, into room at least as long as its data; "
             "a region with a loop is kept only behind the comparison of the loop end (with its guard frame) with the length of the wave it refers to",
        explanation="Obligations are all uses of the listed tables, all stores of references, every table set up in allocated memory (pairwise), each write into the wave pool and each region loop.",
        assumptions=TRUST[:1] + TRUST[2:] + ["reading n bytes from a file yields at most n bytes", "references kept in a voice were taken from a region of the collection or the built-in sounds the voice plays"]),
    "C16": dict(
        level="other", technique="exhaustive case evaluation of the decoder's control flow over byte/status intervals and parser modes; automaton comparison for system exclusive",
        level_note="every byte value, every stored running status and every parser mode; messages of any length through the automaton's states",
        steps=[dict(analysis="midi", config="built", min=dict(decoder_cases=800, sysex_states=13, feeds=1))],
        rule="for every interval of byte values, stored status and parser mode the decoder's effect (new status, data bytes, dispatched call and its arguments as bit provenance) equals the MIDI 1.0 table; "
             "the reachable product of the system-exclusive state machine with the specified one agrees on every byte; the live-MIDI entry hands on bytes 0..count-1 each once and in order (scalar evolution)",
        explanation="Decoder cases are (byte interval x running-status interval x mode); comparisons are single fields or call arguments; the system-exclusive obligations are the product states.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C17": dict(
        level="other", technique="exhaustive case evaluation of the channel handlers' control flow; bit-provenance of the stored values",
        level_note="every controller number, value interval, RPN state and channel number; the stored value is compared as a symbolic function of the data byte",
        steps=[dict(analysis="channel", config="built", min=dict(channel_cases=750))],
        rule="for every controller number and value interval, the fields of the addressed channel that change, the value each gets (as a function of the data byte), the notes released or kept and the update flag equal the specification table; all other channel fields are unchanged",
        explanation="Channel cases are (message, controller, value interval, RPN state); comparisons are channel fields and calls per case.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C18": dict(
        level="other", technique="interprocedural constant propagation of the parser mode; constant-pruned call-graph reachability",
        level_note="all public entry points; every call chain to the MIDI decoder",
        steps=[dict(analysis="modes", config="built", min=dict(decoder_chains=4, entry_points=35))],
        rule="each call chain from a public entry point to the MIDI decoder passes exactly the parser mode its purpose names; with calls infeasible under that mode removed, no other entry point reaches a function that begins a note",
        explanation="Obligations are the call chains into the decoder and the public entry points.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C19": dict(
        level="other", technique="exhaustive evaluation of the constant initialisers of the sound bank tables",
        level_note="every entry of every table of the built-in bank that the build uses",
        steps=[dict(analysis="bank", config="built", min=dict(banks=1, regions=300, programs=129, samples=100, articulations=100, tuned_loops=150))],
        rule="counts equal the table sizes; every bank and program entry names an existing region whose list ends at a region marked last inside the table, with gapless keys and no shadowed region; "
             "every region names an existing sample and articulation, its loop lies inside the sample and has at least two frames; every sample lies inside the pool, whole-framed and not overlapping others; "
             "loops of one or two periods are within 35 cents of their key at the bank's sample rate; articulations have a falling release, a rising attack and a resonance inside its table",
        explanation="Obligations are the table entries; comparisons counts single facts. Notes list key ranges and unused articulations.",
        assumptions=TRUST[:1] + ["General MIDI programs 120 to 127 are sound effects without a pitch"]),
    "C20": dict(
        level="other", technique="typestate over all paths of the SMF reader with loop summaries (scalar evolution, bit-level recurrence of numbers); case analysis by event class",
        level_note="all paths of the event reader per class of first byte, of the header reader per case of the header words, and of the merge loops",
        steps=[dict(analysis="smf", config="built", min=dict(numbers=3, obligations=500))],
        rule="every number read byte by byte has the recurrence of its kind and ends at the right byte; on each path of an event: bytes fed = bytes read, SysEx data = its length, meta events end at position + length, one delta time is added to the track's time unless the track ended; "
             "the merge prefers the strictly earliest track and the first one on ties, over all tracks; time += ticks * tempo; tempo = round(us per quarter * 1.024 / division) limited to 16 bits; header words from their offsets, big-endian, with the stated limits",
        explanation="Numbers are the byte-reading loops; obligations are single facts checked at reads, feeds, stores and returns along the explored paths.",
        assumptions=TRUST[:1] + TRUST[2:] + ["the track whose turn it is has not ended (established by the merge, which is checked)"]),
    "C21": dict(
        level="other", technique="typestate over all paths of the rewind and of the reset; constant propagation into the objects with constant-trip loops unrolled",
        level_note="all paths of the rewind (any number of tracks) and of the synthesizer's reset (forced and not), and the final contents of all 16 channels",
        steps=[dict(analysis="rewind", config="built", min=dict(obligations=200, paths=20)), dict(analysis="reset", config="built", min=dict(obligations=300))],
        rule="on every successful path of the rewind each track is positioned at its first event, its time starts from 0 plus the first delta time and its decoder is initialised; the first event is chosen as at the start; clock = its time at the default tempo; synthesizer reset at once; setup-bar flags cleared. "
             "A reset leaves in each of the 16 channels the listed defaults (bank before program), clears all pool counts, is complete only without playing voices, else stays requested; a new synthesizer is zeroed and starts from the same defaults",
        explanation="Obligations are single facts: one per field and channel after a reset, and one per read, store, call and return along the explored paths.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C22": dict(
        level="other", technique="typestate over all paths of one turn of each loop over voices and regions, per case of the conditions the specification names",
        level_note="all paths of one turn of each loop (any number of turns), for every combination of voice state, channel, note, pedal and flag conditions, and every relation of key and velocity to a region's ranges",
        steps=[dict(analysis="select", config="built", min=dict(obligations=4000, cases=600))],
        rule="note-off: exactly the voices of that channel and note (for a stolen voice: of its next note) are released, held by the pedal, or deferred until heard; pedal up releases exactly the held voices of its channel; pedal down catches exactly the releasing ones; all notes off mutes exactly its channel's voices, releasing or muting a synthesizer those of the synthesizer; "
             "deferred note-offs are carried out except on stolen voices, and stay requested while one is left. Note-on: unless muted, the channel's regions are searched in order from its first to the last, the key (plus coarse pitch, plus global transposition unless drums, limited to 0..127) and for loaded sounds the velocity are compared with the ranges, a matching region starts one voice with the note's own channel, key, velocity and region; built-in sounds start the first match only",
        explanation="Obligations are the turns of a loop and the comparisons, reads and calls along them, per case; cases are the combinations of conditions.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C23": dict(
        level="other", technique="bookkeeping: per path, the voice's transition compared with the multiset of counter updates (typestate over all paths, symbolic places)",
        level_note="all paths of every function that changes the state or the channel of a voice, or a counter, from every state of the voice, whether it was taken on its own channel or for another",
        steps=[dict(analysis="account", config="built", min=dict(obligations=700, cases=80))],
        rule="along every path, a voice's change of state and channel and the changes of the three counters agree: voices in use = voices not free; per synthesizer = those of its channels; per pool = those not fading out, by the channel they play for (the next one, when stolen). A voice is started only below the limit of polyphony and the synthesizer's own limit, only a free one is handed out; every voice in use is synthesized once per block for the synthesizer of its channel and freed exactly when its sound has ended, "
             "unless a note waits for it; a reset takes the synthesizer's voices off the count before it forgets them; lowering a limit counts and chooses to silence exactly the voices that are neither free nor fading out, of the stream for its own limit; nobody else writes a voice's state or channel or a counter",
        explanation="Obligations are ends of paths (or turns of loops over the voices), counter updates, and writes elsewhere in the library; cases are the functions times the states a voice is in on entry.",
        assumptions=TRUST[:1] + TRUST[2:] + ["Nobody releases a stolen voice (checked at the callers inside the analysed functions and for the end of a stream by C22)."]),
    "C24": dict(
        level="other", technique="typestate: every step of each parser and every stream call walked over all paths from each of the eight states",
        level_note="all paths of the six steps of every parser in the built table and of the stream calls of the API, from every state, with and without repeats and pending requests; what a parser's step does is what was shown of the parsers",
        steps=[dict(analysis="state", config="built", min=dict(obligations=4000, cases=300))],
        rule="prepare: open -> ready, or error when it failed half-way; an event: playing, or stopping with the voices released, error when it fails; asked for its state: stopping -> stopped and pausing -> paused exactly when no voice sounds, reported as it is (playing while repeats remain); pause: the voices are muted, pausing; resume: playing; rewound: ready. Each API call takes its step exactly in the states it is defined for and is refused without effect in the others; no request stays pending; "
             "seeking a paused stream leaves it paused unless it ended, reading the metadata leaves it rewound; nobody else moves a stream to another state",
        explanation="Cases are functions times entry states (times repeat and flags); obligations are ends of paths checked against the specified automaton.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C25": dict(
        level="other", technique="typestate over all paths of rendering, seeking and scanning: what is known of the next event's time when it is taken, and what the clock is set to",
        level_note="all paths of one block (any number of streams and events in it), of a seek and of a scan, from every state and set of marks a stream may have between calls; how long events take inside the file is C20's",
        steps=[dict(analysis="clock", config="built", min=dict(obligations=900, cases=4))],
        rule="an event is taken only from a playing stream and only after its time was found to be before the end of the block (seek: before the time asked for; scan: ever); a block is done for a stream only when the next event is not before its end or the stream does not play, and then its time is the end of the block; a stream already done is not parsed again; breaking off leaves the clock, the count of samples and the marks. A block that succeeds prepares, renders, adds PCM and finishes in that order, gives exactly the samples asked for, advances the render time by the length of a block, and asks all streams to parse again; "
             "a stream is started over, at time 0, exactly when it stopped with repeats left, counted down unless for ever. A seek goes to the time asked for, as an offset if asked, never before 0, and ends there; the location and render time told are these times, and the playback rate scales the length of a block",
        explanation="Obligations are events taken, times and marks set, turns of the loops over the streams, and returns; the length of a block follows from the configured block size and sampling rate.",
        assumptions=TRUST[:1] + TRUST[2:] + ["Between calls a stream has no pending pause or resume (C24)."]),
    "C26": dict(
        level="other", technique="search-order analysis over all paths of a program change: which lists are searched for which key, whether whole, and whose sound is taken",
        level_note="all programs and tables of any length; the banks a channel may have are split into classes by the ways the code can tell them apart, and in each class the order of searches is followed on every path",
        steps=[dict(analysis="program", config="built", min=dict(obligations=20000, cases=150))],
        rule="of the loaded collection: the program of that bank (drums apart from melody), then for a default bank number the same program of bank 0, then the default bank and bank 0, then for drums program 0; only if none of them is there, the built-in sounds: that bank's table, then the list of programs; then the default bank of the channel's kind, then program 0. "
             "Each search goes over the whole list from its first element and ends at an element only by what it is; the sound taken is the one of the element found, an empty entry is not taken; with none found the sound is the first. The program number is kept, the channel is marked to be brought up to date and as drums or not by its bank, and its other marks stay",
        explanation="Obligations are searches made and skipped, elements found, sounds taken and stores, in every class of banks and kinds of channel.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C27": dict(
        level="other", technique="typestate over all paths of one turn of each loop over the voices, per case of the conditions the specification names, and over all paths of a starting voice",
        level_note="all paths of one turn of each loop (any number of turns), for every combination of voice state, channel, next channel, group, note and flag conditions; all paths of a starting voice for sounds of no, the lowest and the highest-numbered kind of group, layering or not",
        steps=[dict(analysis="exclusive", config="built", min=dict(obligations=1000, cases=200))],
        rule="a sound of a group asks for its own group, on its own channel and synthesizer, to be silenced before it starts, a sound of no group does not; a voice (of any state but free and fading) is muted, or marked to be muted if nothing was synthesized yet, exactly if its channel and its region's group are those (a stolen voice: its next channel and next region); "
             "a marked voice is muted (or given back) behind its first synthesis. A sound that does not layer has the voices of its key on its channel counted over all voices (each exactly once, stolen ones by their next note); with two or more of them the one whose age is greatest, and not a stolen one, is given the new note, otherwise none",
        explanation="Obligations are turns of the loops, what is counted and chosen in them, the calls behind them and on the way to a start, per case.",
        assumptions=TRUST[:1] + TRUST[2:]),
    "C28": dict(
        level="other", technique="typestate over all paths of one turn of the loop over the voices, per case of voice state, with the sources of what is compared traced back to the voice of the turn",
        level_note="all paths of one turn of the loop (any number of turns) for every voice state; all paths out of the search; all paths that set a stream's priority",
        steps=[dict(analysis="taking", config="built", min=dict(obligations=500, cases=40))],
        rule="the search for a voice covers all voices, each exactly once, and changes none; a voice becomes the candidate only if it is in use and the path compared the priority of the note's stream with that of the stream of the voice (of its next channel if it is stolen, of its channel otherwise) and found it not higher; a voice that is in use and of the same or a lower priority is weighed against the candidate; "
             "the candidate is what is handed out, and a failure is returned exactly if there is none; setting a stream's priority stores the number given on every path that succeeds",
        explanation="Obligations are turns of the loop, comparisons of priorities, exits of the search and stores of a priority, per case.",
        assumptions=TRUST[:1] + TRUST[2:]),
}
