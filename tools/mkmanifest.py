import json
P=[]
STATE_OBJ=True
def p(id,title,statement,over,qtext,why,files,mechanism,observe,state=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":files[0]}],"observe_at":[observe]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state] if STATE_OBJ else state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CORE,CMD,ST,CF,NT,EX,MN,TL="src/vgm/core.py","src/vgm/command.py","src/vgm/ym2151/state.py","src/vgm/ym2151/config.py","src/vgm/ym2151/note.py","src/extractors.py","src/main.py","src/tools.py"
XW,XS,XP="src/xrns/writer.py","src/xrns/xrns_serializer.py","src/xrns/parts/"
p("C01","Every VGM command is framed and decoded exactly",
 "Reading a well-formed VGM stream yields its commands one by one, in order, each with its own opcode, length and operands as the VGM format defines them: none is skipped, merged, invented or read out of step, whatever precedes or follows it. This holds for all 256 opcodes (undefined ones below 0x30, 0x60, 0x64-65, 0x69-6F and 0x96-9F have no operands), all operand values, and data blocks of any type, size and content (bit 31 of the size marks the second of two chips).",
 ["inputs"],"All byte strings that are a sequence of complete VGM commands.",
 "The tests decode a few dozen hand-written commands; a stream goes out of step only for particular opcode, length and content combinations in sequence.",
 [CORE,CMD],"command() dispatches on the opcode and reads its operands; Vgm.__next__ iterates","commands yielded by the reader (opcode, kind, samples, register, value, payload)")
p("C02","Key events are stamped with the exact sum of the waits before them",
 "The time of every recorded key event is the exact total of all wait samples that precede it in the stream: 16-bit waits, the two frame waits (735, 882), the short waits 0x70-0x7F (1-16) and the DAC-write waits 0x80-0x8F (0-15). Only the total counts: any other encoding of the same waits gives the same events and the same exported files, however many waits there are and however long the song is.",
 ["inputs","histories"],"All sequences of waits and key events, totals beyond 2^32 samples, tens of thousands of waits.",
 "Tests check single wait commands; accumulation over long histories and mixed encodings is not touched.",
 [CORE,CMD,ST,MN],"wait decoding in command()/WaitCommand, State.beat accumulation, process_vgm_file dispatch","key_presses(ch)[i].sample; exported instrument and song files",["State._samples"])
p("C03","Chip state follows the YM2151 register map",
 "After any history of register writes, each reported voice parameter of each of the 8 channels and 4 operators, the chip-wide LFO, modulation-depth and waveform parameters, and each channel's pitch and output sides equal the bits the YM2151 register map assigns to the last value written. Register 0x19 sets phase depth with bit 7 set and amplitude depth with it clear; noise (0x0F) belongs to channel 8 alone; a write changes nothing but the fields of its own register.",
 ["histories"],"All sequences of writes to the 256 registers with all 256 values.",
 "Tests write a few registers once; they do not see cross-talk between registers, channels and operators or field widths over all values.",
 [ST,CF],"State.apply maps register ranges to config fields","channel_config(ch), chip-wide attributes, key events and captured instruments",["State._channel_configs","State._note_configs","State._current_base_config"])
p("C04","What a key event captured never changes afterwards",
 "Once a key event is recorded, its time, pitch, output sides and instrument never change, and the instrument it refers to stays exactly the sound that was programmed at that key-on. No later register write, key event, wait, estimate or export - and no number of them - alters, reorders or removes recorded events or instruments.",
 ["histories"],"All histories of writes, keys, waits and exports after a capture.",
 "Tests look at the end of short sequences; aliasing shows only when a register is rewritten after a capture it shares storage with.",
 [ST,CF,NT,EX],"deep copies of base/channel config and Note snapshot at key-on","key_presses(ch) and configs re-read after every later operation",["State.configs","State._channel_key_presses"])
p("C05","The instrument list has no duplicates and loses no distinction",
 "Two key-ons share an instrument exactly when chip-wide parameters, every voice parameter of their channels and the set of keyed operators are all equal - pitch, output sides, time and channel number do not matter, undefined register bits neither. Instruments are numbered consecutively from 0 in the order of first use, each is used by some key-on, and key-offs never add one, however long the list grows.",
 ["histories"],"All pairs of captured sounds within a history, lists of over a thousand instruments.",
 "Tests compare a handful of configurations; a dropped or extra field in the identity shows only for sounds that differ in just that field.",
 [ST,CF],"linear search with Config.compare and the __eq__ of the config classes","instrument list and the instrument of each key event",["State.configs"])
p("C06","Every key event is recorded exactly once",
 "From the first key-on on, each write to the key register appears exactly once in the history of the channel it names, in stream order, with the channel's pitch, fraction and output sides of that moment: as a key-on with its instrument if any operator is keyed, else as a key-off. Nothing appears on another channel, repeated key-ons and key-offs are all kept, events at sample 0 count like any other, and key-offs before the first key-on of the song are dropped.",
 ["histories"],"All sequences of key writes (mask x channel), interleaved with waits and pitch writes, at any time.",
 "Tests use one or two key events on one channel.",
 [ST,NT],"State.apply key branch appends Note objects per channel","key_presses(ch) for all channels",["State._channel_key_presses","State._first_beat"])
p("C07","The instrument file is complete and faithful",
 "The exported instrument file is valid JSON holding every instrument once, in order of its id, with exactly its chip-wide parameters (waveform by name), keyed operators (by name), and every channel and operator parameter under its documented key, with its value and type. Writing an exported instrument back into a fresh chip and exporting again gives the same instrument.",
 ["inputs","histories"],"All instrument lists, all values of all fields, all operator masks.",
 "Tests check the export of few fixed configurations; swapped or missing keys show only for values that differ.",
 [EX,CF],"ConfigEncoder and the repr_json methods; extract_instruments","the written JSON text")
p("C08","Every key event lands on its own row of the song and nothing else does",
 "In the exported song, a key event at time t on channel c stands in track c on the line t // ticks-per-note, counted in patterns of 64 lines, and a line is present exactly when some event falls on it. If several events of a channel fall on one line, the last one is shown.",
 ["histories","inputs"],"All key histories and all positive ticks-per-note values, including pattern boundaries, collisions and long gaps.",
 "The tests never export a song from a history.",
 [EX,XP+"pattern.py",XS],"row arithmetic in extract_tracks_to_xrns, PatternPool.add_note","lines of the pattern tracks in Song.xml of the written archive")
p("C09","Song notes carry the right pitch, instrument, panning and key-offs",
 "A key-on is written as the note name of its key code with its octave (C, the top code of a chip octave, in the next higher one), its instrument number in at least two hexadecimal digits, and a panning: none if both outputs are on, 00 for left only, 80 for right only. A key-off is written as an Off note without instrument; this holds for every octave, note code, side, channel and instrument number.",
 ["inputs"],"All octaves x defined note codes x sides, instrument numbers beyond 255.",
 "Tests check a few note names; panning and instrument columns are not tested.",
 [NT,EX,XS],"Note.xrns_note and the column rendering in extract_tracks_to_xrns","note columns of Song.xml")
p("C10","The song file is a complete, consistent Renoise song",
 "Every exported song is a zip archive with one well-formed Song.xml: 8 sequencer tracks, a master and a send track with their mixer devices, exactly as many instruments as were extracted, and just enough patterns to reach the last event. The sequence plays each pattern once in order, each pattern has 8 tracks plus master and send, lines stand in ascending order between 0 and 63, and no line plays an instrument that is not there.",
 ["inputs","histories"],"All histories: empty, one event, many instruments, long gaps.",
 "No test exports a whole song.",
 [EX,XW,XS,XP+"song.py",XP+"pattern_sequence.py"],"Song construction in extract_tracks_to_xrns, XrnsSerializer.render, writer","structure of the written archive")
p("C11","The song's tempo matches its ticks per note",
 "The exported song has 4 lines per beat and a tempo of exactly floor(60 * 44100 / (4 * ticks per note)) beats per minute, for every ticks-per-note value, given or estimated, whatever the song contains.",
 ["inputs"],"All positive ticks-per-note values.",
 "Not tested; rounding errors show only at particular values.",
 [EX,XP+"globals.py"],"bpm computation in extract_tracks_to_xrns","BeatsPerMin and LinesPerBeat of Song.xml")
p("C12","The tick estimate is the best-matching shift of the note onsets",
 "The estimated ticks per note is the shift between 1000 and 7999 samples for which the onset times (of key-ons, each time counted once) less than 32000 samples after the first one differ least from their own shifted copy up to the last of these onsets, the smallest such shift on ties; an even beat is thus estimated at its period. Silence before the first note, key-offs and repeated key-ons at one time do not influence it, and asking twice gives the same answer.",
 ["histories"],"All sets of onset times and leads.",
 "Tests have at most one regular example.",
 [ST],"symmetric-difference scan in State.ticks_per_note","returned estimate, reported ticks per note of the command line",["State._note_beats"])
p("C13","The header alone decides version, size, clocks and the start of the music",
 "Version (decimal digits), size (the size field plus 4), chip clocks (for versions before 1.10 the YM2413 clock stands for the YM2151) and support flags are those of the header fields, and commands are read from 0x40 before version 1.50 and from 0x34 plus the data offset field from then on. Other header bytes and the gap before the data change nothing, and this stays true for each of several files open at once.",
 ["inputs","configurations"],"All header field values and versions; sets of readers used alternately.",
 "Tests use a few headers one after the other.",
 [CORE],"Vgm.__init__","version, size(), clock(), supports(), data_start of the reader, and commands decoded",["Vgm.clocks","Vgm.data_start"])
p("C14","How the bytes are stored or handed over does not matter",
 "A song gives the same commands, instruments and exported song whether it is plain or gzipped - any compression level, optional header fields or number of members - whatever the file is called, and whether it is named on the command line - as a file or as a pipe with a name - or comes through standard input, redirected or through a pipe.",
 ["inputs","configurations"],"All gzip encodings of a file, all ways of handing it to the program.",
 "Tests use one gzip file at most and no standard input.",
 [CORE,MN,TL],"gzip detection in reader, smart_open","decoded commands, exported files of the command line")
p("C15","A truncated or unreadable stream never yields anything that was not in it",
 "If a stream ends early at any byte, the commands delivered are exactly those complete before the cut; a cut inside the header, a wait, a YM2151 write or the head of a data block or inside gzip data, and any failing read, is reported as an error and never taken for a regular end, and nothing is invented from a partial command. The command line then fails and leaves existing outputs as they were.",
 ["crash_points","fault_sequences"],"All cut positions of all streams, all positions of a failing read.",
 "Tests cut a command here and there, not streams at each byte.",
 [CORE,MN],"_read8/_read16/_read32 raising EOFError, gzip EOFError","commands delivered and exception; exit status and output files")
p("C16","What is not an intact VGM file is refused and nothing is written for it",
 "Input without the VGM signature (plain or inside gzip), and missing or unreadable input, is refused with an error and no output file is created or changed. A damaged gzip file - flipped bits, missing, overwritten or doubled parts anywhere, checksum included - is either refused in the same way or gives exactly the result of the undamaged file.",
 ["inputs","fault_sequences"],"All byte strings without signature; all corruptions of compressed songs.",
 "Tests try one wrong signature.",
 [CORE,MN],"signature check in reader, gzip checksum verified by reading to the end before writing","exit status, output files before and after")
p("C17","Nothing behind the end of the sound data matters",
 "Whatever bytes follow the end-of-sound-data command - tags, further commands, key events, incomplete commands, junk, more end markers - the events, instruments, estimate and exported files are those of the song alone, and no error is raised because of them.",
 ["inputs"],"All tails after the end marker, plain and gzipped.",
 "No test processes a file with data after the end.",
 [MN,CORE],"process_vgm_file stops at the end command; rest is drained","chip history after processing; exported files")
p("C18","A file's result depends on that file alone",
 "Processing a file gives the same events, instruments, estimate and exported content every time: after other files in one process, while other files are being read, processed or exported alternately or in other threads, and in fresh processes with any hash seed. Header facts and state of one file never show up in another, and a fresh chip is silent and zeroed whatever happened before.",
 ["schedules","histories"],"All interleavings of several files' processing, thread schedules, hash seeds.",
 "Tests handle one object at a time in one process.",
 [CORE,ST,CF,EX,XS,XP],"no shared mutable state between Vgm, State and Song objects (class attributes, default arguments)","facts, events, instruments and files of each song against its model",["class attributes","default arguments"])
p("C19","The command line writes what was asked for and nothing else",
 "Each of the instrument and song outputs is written exactly if requested, to the path requested, with the same content whether or not the other is requested too; stale contents are replaced completely, and the input and all other files stay untouched. Ticks per note given on the command line are used unchanged, otherwise the estimate is used.",
 ["configurations"],"All combinations and orders of options, paths, stale outputs.",
 "The command line has no tests.",
 [MN,TL,EX],"argparse options in main.py, main(), smart_open","directory snapshot before and after, written files")
p("C20","The track table lists every row once with each channel's last event",
 "The track table has a header and then one line for each row from 0 to that of the last event, numbered by row in pattern, pattern and total row; each channel's cell shows the last event of that row - note name, chip octave, fraction in cents, instrument id, Pan L or R if only one output is on, or Key Off - and is empty if there is none.",
 ["histories","inputs"],"All key histories and ticks-per-note values.",
 "The table writer has no tests.",
 [EX,NT,TL],"merge of the per-channel iterators in extract_tracks, Note.__str__","the written table")
p("C21","Commands for other chips leave no trace",
 "Putting commands for other chips anywhere into a stream - any opcode with any operands, data blocks of any type, size and content, stream control, PCM writes, a second YM2151 - changes nothing about the waits and YM2151 writes decoded, the chip state, events, instruments, estimate or exported files.",
 ["inputs","programs"],"All insertions of foreign commands at all positions.",
 "Tests never process mixed streams.",
 [CORE,MN,CMD],"command lengths per opcode; process_vgm_file ignores other commands","state and files with and without the foreign commands")
p("C22","An output that cannot be written completely is reported",
 "If an output cannot be opened or any part of it cannot be written - disk full after any number of bytes, missing directory, full device or standard output, a failing write on a given file object - the run fails visibly (an exception or non-zero exit). Success is only reported when every requested output is complete.",
 ["fault_sequences","crash_points"],"All byte budgets of the output files, all failing operations.",
 "Tests never make a write fail.",
 [EX,TL,XW,MN],"smart_open and with-blocks closing (flushing) the files, no swallowed errors","exit status against the files on disk, under injected faults")
p("C23","Any song model comes back from its file as it was",
 "Writing a song model and reading the archive back gives exactly what was put in: number, names and states of tracks, number of instruments, song-wide values and texts (markup and any alphabet included), each note's pattern, track, line, note, instrument and panning (the last one put on a line), the patterns needed with their length, and the sequence in its order. Writing again or building other songs meanwhile changes nothing.",
 ["inputs","histories"],"All song models: any track, instrument and pattern count, texts, overwrites, sequences.",
 "The song writer has no tests.",
 [XW,XS,XP+"song.py",XP+"pattern.py",XP+"track.py",XP+"globals.py",XP+"pattern_sequence.py"],"Song parts and XrnsSerializer.render","parsed Song.xml against the calls that built the model")
p("C24","The report lists the ten best shifts and the ticks per note really used",
 "When the ticks per note are estimated, the report lists ten candidates: the best-matching shifts between 1000 and 7999, best first and the smaller first on ties, each with its agreement in percent with two digits - 100 minus the share of differing ones among the 2n-1 onsets compared, for n onset times in the window. The 'Ticks per Note' reported is the value given on the command line, else the first candidate, and it is the value the song written is laid out and timed with.",
 ["histories","configurations"],"All onset histories, with given and with estimated ticks per note.",
 "No test reads what the program prints.",
 [ST,MN],"list of estimates printed by State.ticks_per_note, 'Ticks per Note' printed by main()","standard output, returned estimate, tempo and lines of the song written")
p("C25","Every file opened is closed again, and what others opened stays open",
 "Once a run of the command line, an export or the reading of a file is over - successfully, or with an error at any point - every file it opened is closed, even while the error is still being handled, and closed by the program itself rather than by the interpreter's clean-up. Standard input, output and error stay open and usable, and so do file objects a caller handed to the reader or the song writer.",
 ["fault_sequences","configurations"],"All runs and exports that succeed or fail, wherever they fail.",
 "Tests open no files.",
 [TL,MN,EX,CORE,XW],"smart_open and with-blocks; reader and writer leave the object they are given open","open descriptors, ResourceWarnings, state of standard streams and callers' file objects after each run")
p("C26","Work and memory follow the size of the input, not the numbers in it",
 "Every byte string, complete or cut, is done with after a number of steps and with an amount of memory proportional to its length (for a given number of instruments, at most in proportion to which they grow): the length of its waits, the times it reaches, the size its data blocks have or claim, and how much came before do not count. Onsets outside its window cost an estimate no more than being looked at, and exports take steps in proportion to the instruments, events and rows they write, however long a row is.",
 ["inputs","histories"],"All byte strings; streams and songs that differ in their numbers only, or repeat the same material.",
 "Tests use inputs of a few bytes.",
 [CORE,ST,MN,EX,XS],"command-wise decoding and processing; window of the estimate; per-event and per-row export loops","steps executed, memory peak, resident size of the process")
p("C27","The extracted files are enough to play the music again",
 "Wherever no line of the song had to take more than one event of a channel, the music can be rebuilt from the instrument file and the song file alone: loading the instrument each line names, its pitch and its sides into a chip and keying the operators named there, or releasing them at an Off, at the line's time gives on each channel the events of the original, line by line, and extracting the rebuilt music with the same ticks per note gives the same instruments and the same song.",
 ["inputs","histories"],"All songs with at most one event per channel and line, every pitch defined and every note on some output.",
 "No test relates the two files to each other or to the music.",
 [EX,ST,CF,NT],"instrument ids shared by extract_instruments and extract_tracks_to_xrns","both files, and the events of the music rebuilt from them")
p("C28","Sounds can be asked, compared and copied exactly",
 "Every captured instrument answers for each of its parameters by name - chip-wide, channel, operators and the operators keyed - with the value programmed at its key-on, and knows no others. Two chip-wide, operator, channel or pitch settings are equal exactly when all their parameters are, and an instrument compares with just the parameters it captured; nothing else is ever equal to them. A copy equals its original, shares nothing with it and exports the same; a register write made by hand is the one read from a stream.",
 ["inputs","histories"],"All parameter values, all pairs that are equal or differ anywhere, all register writes.",
 "Tests compare and copy a few objects that differ in one chip-wide parameter.",
 [CF,ST],"__eq__, __deepcopy__, compare and __getattr__ of the config classes, create()","answers, comparison results and copies of the public objects")
p("C29","The document model holds any Renoise song without loss",
 "Any document of the Renoise song format (version 65), whatever parts it has, can be read into the document model (xrns.xml.song) and written again: the same elements, attributes and values, those of one kind in the same order, nothing added. A document built from the model's classes is written with exactly the parts it was given under the format's names, and reads back equal to itself; new parts are empty and share nothing with others.",
 ["inputs"],"All documents: every kind of part, every member, every choice, any text and number.",
 "No test reads or writes a Renoise document; almost all of the repository's lines are this model.",
 ["src/xrns/xml/song/renoise_song65.py"],"the dataclasses and enumerations of the format: names, types, lists, fixed types","documents parsed and serialized through the model's public classes, compared as XML trees")
p("C30","A run that dies half-way leaves nothing that passes for a result",
 "Wherever a run of the command line is killed, interrupted or hit by an error, each output it was asked for is afterwards as it was before the run, or missing, or evidently incomplete (no valid JSON, no archive with a well-formed song), or complete and right - never a mixture with an older file or a part that reads like a whole. The input is untouched, and a run reports success only when all its outputs are complete.",
 ["crash_points","fault_sequences","inputs"],"All points of a run at which it can be killed, interrupted or fail, over fresh and earlier outputs.",
 "No test interrupts a run; the damage shows only for particular points in the middle of writing.",
 [EX,TL,XW,MN],"the whole text is rendered before an output is opened, and written in one piece","the output files after a run that died")
p("C31","A command line that cannot be acted on is refused and changes nothing",
 "A command line without a file or with several, with an unknown option, an option without its value, or ticks per note that are negative or not a whole number, is refused with a nonzero exit status and a message on standard error before anything is written or changed, whatever else it asks for and in whatever order. Asking for help says how the program is used, succeeds and does nothing else.",
 ["inputs"],"All command lines broken in one place, combined with any valid rest.",
 "No test runs the command line.",
 [MN],"argparse set-up in main.py","exit status, standard error and the directory tree before and after")
p("C32","Used as a library it leaves the process as it found it",
 "Reading, processing, estimating and exporting from within another program leave its process as they found it, whether they succeed, fail or are interrupted: working directory, environment, file creation mask, standard streams, signal handlers and timers, recursion and other limits, hooks, garbage collection, random numbers, number context, locale, search path, threads, priority and the functions and classes of the standard library. They start no other program and no connection. Importing any module changes none of these, and prints and writes nothing.",
 ["inputs","faults"],"All songs and exports, ending well or with an exception or interrupt at any read, write or print; imports in any order.",
 "Tests look at results; what a call leaves behind in the process shows in whatever runs there next, or only after a failure.",
 [CORE,MN,ST,EX,XW],"pure functions of their arguments: no module-level set-up, everything restored by with statements","a snapshot of the process and of the standard library before and after, audit events in between")
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import importlib,sys
sys.path.insert(0,"/verif")
TECH={"C01":"reference-decoder monitor over generated streams","C02":"event-time monitor (running-sum model), re-encoding comparison",
"C03":"raw-register-file monitor compared after writes","C04":"append-only history monitor over captured events and instruments",
"C05":"instrument-identity monitor, single-bit and swap workloads","C06":"exactly-once event-log checker","C07":"JSON file monitor with write-back round trip",
"C08":"song-file monitor: cell set against reference grid","C09":"song-file monitor: note columns against data sheet","C10":"song-file structure monitor",
"C11":"tempo monitor over ticks-per-note values","C12":"reference-estimate monitor and metamorphic silence","C13":"header monitor, alternating readers",
"C14":"differential monitor over wrappings and inputs","C15":"truncation at every byte and read-fault injection under a prefix monitor",
"C16":"corruption injection under a refuse-or-same monitor","C17":"differential monitor over tails behind the end marker",
"C18":"isolation monitor: alternation, thread stress, hash seeds","C19":"directory-snapshot monitor of the command line","C20":"track-table monitor against reference grid",
"C21":"neutrality monitor: with and without foreign commands","C22":"write-fault injection (byte budgets, full devices) under a report monitor","C23":"song-model round-trip monitor","C24":"report monitor: printed candidates against exact scores",
"C25":"descriptor census and ResourceWarning monitor under injected failures","C26":"step, memory and resident-size monitor over twin and repeated workloads",
"C30":"crash injection (kill, interrupt, I/O error, byte budget) under an all-or-evident monitor of the outputs",
"C32":"process-snapshot and audit-event monitor around calls that end well, fail or are interrupted",
"C31":"directory-snapshot monitor over broken command lines","C29":"round-trip monitor over Renoise documents drawn from a committed shape of the format","C28":"object monitor: answers, comparisons and copies against plain values","C27":"end-to-end round trip: music rebuilt from the files in an independent chip model"}
checks=[]
for x in P:
    m=importlib.import_module("props."+x["id"].lower())
    checks.append({"property":x["id"],"quick_cmd":f"./run.sh {x['id']}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {x['id']}",
     "technique":"runtime monitoring: "+TECH[x["id"]],"level":m.LEVEL,
     "level_note":("Every injected fault or cut within the generated streams/files is enumerated or sampled as the evidence counts; streams themselves are sampled." if m.LEVEL=="fault_enumeration" else "Holds on the executions observed (counted in the evidence); no claim beyond them.")+(" Trusts lib/renoise65.json, the shape of the format extracted once from the original tree." if x["id"]=="C29" else " Trusts the reference model in lib/model.py, written from the VGM and YM2151 documents.")})
json.dump({"version":1,"setup_cmd":"/opt/venv/bin/python -B -c 'import xsdata'","checks":checks,"not_applicable":[],
 "notes":"Pure Python, observed through public functions, written files and the command line: no hooks in /repo. See DESIGN.md."},open("/verif/MANIFEST.json","w"),indent=1)
