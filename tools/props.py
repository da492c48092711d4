"""The properties: one source for properties.jsonl, MANIFEST.json and the table in DESIGN.md."""
N = "neural_graph_composer/midi/"
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
              "_note": note})


p("C01", "A note always holds a valid pitch, velocity, program and time span",
  "However a note is created or edited, its pitch, velocity and instrument stay in 0..127, its program in 0..255, its start lies before its end, and its denominator is a power of two. "
  "Out-of-range values given at creation are replaced by the nearest legal one; an illegal edit is refused with an error and leaves the note as it was. "
  "The pitch name shown always names the current pitch.",
  ["inputs", "histories"], "all integer field values and time spans, all sequences of up to two edits",
  "Tests create a few notes with round numbers; clamping and refusal concern every value at and beyond each limit.",
  [N + "midi_note.py"], [("constructor clamping", "MidiNote.__init__"), ("guarded setters", "MidiNote property setters")],
  "fields in [-400,400], times k/8 in [-4000,6000]")
p("C02", "Two notes overlap exactly when their time spans intersect",
  "Two notes are reported as overlapping exactly when each starts before the other ends; the relation is symmetric and every note overlaps itself.",
  ["inputs"], "all pairs of notes", "Tests look at a couple of pairs; boundary contact and containment in both directions need every ordering of four end points.",
  [N + "midi_note.py"], [("overlap test", "MidiNote.overlaps")], "times k/8 in [0,8000]")
p("C03", "Notes are ordered by start, end, pitch, and equal only if every field is",
  "Notes compare by start time, then end time, then pitch, and this is a strict weak order, so sorting is well defined. "
  "Two notes are equal exactly when all their fields are equal, and never equal to something that is not a note.",
  ["inputs"], "all pairs and triples of notes", "Order laws quantify over pairs and triples; tests compare a handful.",
  [N + "midi_note.py"], [("comparison operators", "MidiNote.__lt__, __le__, __eq__")],
  "times k/8 in [0,4000] and k/2^24 around the comparison tolerance")
p("C04", "Quantising a note puts it on the nearest grid steps with a positive length",
  "Quantising maps a note's start to the nearest grid step (per the rounding amount) and its end to a later step that covers it, so that 0 <= start step < end step and the note keeps a positive duration; all other fields are kept. "
  "The copying form leaves the original untouched and agrees with the in-place form; non-positive grids and amounts are refused.",
  ["inputs"], "all note times, several grids and rounding amounts, quantised once or twice",
  "Rounding errs at half steps and very short notes; tests use three or four round times.",
  [N + "midi_note.py"], [("step rounding", "MidiNote.quantize, quantize_in_place, quantize_to_nearest_step")],
  "times k/16 in [0,8], grids 1,2,3,4,8 steps/s (thorough up to 100), amounts 1/4..1")
p("C05", "Shifting, stretching and copying a note change only what they name",
  "Shifting a note moves start and end by the same offset and stretching scales both by the factor; no other field changes. "
  "A copy has every field of the original (steps may be overridden) and editing either one never affects the other.",
  ["inputs", "histories"], "all notes, offsets, factors, then any one edit of the copy or the original",
  "Tests check a few fields of one copy; a lost or shared field shows only for particular values.",
  [N + "midi_note.py"], [("copy", "MidiNote.make_copy"), ("shift, stretch", "MidiNote.shift_time, stretch")],
  "times k/8 in [0,4000], offsets in [-8,8]")
p("C06", "The total time of a sequence is the end of its last note after any edit",
  "After creating a sequence and after any series of edits (append, extend, add, insert, merge, cut, stretch, shift, replace, quantise, concatenate) the total time of the sequence equals the latest note end, or zero without notes. "
  "A total time set by hand is never negative.",
  ["histories", "inputs"], "all series of up to two edits (thorough three) of 14 kinds on sequences of 0-2 notes with any times",
  "Tests call single edits in a fixed order; the total is a derived value that each of a dozen editing paths must maintain for every order of note times.",
  [N + "midi_sequence.py"], [("total time bookkeeping", "MidiNoteSequence edit methods")], "0-2 initial notes, 2 (3) edits, times k/4 in [0,3000]; drum notes added one by one to a melodic sequence are kept apart by design and not counted")
p("C07", "Merging, inserting and adding sequences loses and duplicates no note",
  "Merging gives exactly the notes of both sequences, in note order; inserting puts the note at its ordered place; concatenating gives the notes of the first followed by those of the second in a new sequence of the same instrument and resolution, operands unchanged. "
  "Combining sequences of different instruments (or, in a merge, resolutions), or adding a note of another instrument, is refused and changes nothing.",
  ["inputs", "histories"], "all pairs of sequences up to three notes, all insertion orders of up to four notes",
  "Merge and insertion errors depend on the interleaving of start times and ties; tests try a few sorted lists.",
  [N + "midi_sequence.py"], [("merge, insert, concatenation", "MidiNoteSequence.merge, insert, __add__, append, add_note")], "up to 2+2 notes (thorough 5), times k/8 in [0,2000]")
p("C08", "Slicing, truncating, cutting and splitting keep exactly the notes asked for",
  "A slice holds copies of exactly the notes that start inside the window, clipped to its end; a truncation exactly those that end in time; a cut the first ones; extracting and splitting put every note that starts in a window into that window's subsequence, rebased and clipped. "
  "The source is unchanged, results cover their notes with their total time and keep its instrument and resolution, and illegal requests (strict slice of or shift of quantised material, windows past the end) are refused.",
  ["inputs"], "all sequences of 0-3 notes and all window bounds", "Boundary contact between notes and windows has many cases; tests use one layout.",
  [N + "midi_sequence.py"], [("windows", "MidiNoteSequence.slice, truncate, cut, extract, split, shift_times")], "0-3 notes (also with a drum flag other than the sequence's), times and bounds k/8 in [0,5000]")
p("C09", "Cloning a sequence copies everything and shares nothing",
  "A clone has equal notes, control changes, pitch bends, instrument, program, resolution and timing settings, for melodic and drum sequences alike; an empty clone keeps the settings and has no notes. "
  "Editing the clone or the original never shows in the other.",
  ["inputs", "histories"], "all sequences with up to 3 notes and 2 control changes and bends, then any one of 6 edits on either side",
  "Tests clone one melodic sequence; drum events, settings and aliasing are not looked at.",
  [N + "midi_sequence.py"], [("clone", "MidiNoteSequence.clone, clone_empty")], "0-3 notes, 0-2 control changes")
p("C10", "Quantising a sequence quantises every note and control change in it",
  "After quantising a sequence every note equals the separately quantised note at the same place, every control change lies on its grid step with its value and time kept, and the total step count is the last end step. "
  "The note objects originally given are not edited.",
  ["inputs"], "all sequences of 0-3 notes and 0-2 control changes, four grids, several rounding amounts",
  "Tests quantise one sequence with one grid.",
  [N + "midi_sequence.py", N + "midi_control_change.py"], [("sequence quantisation", "MidiNoteSequence.quantize")], "times k/8 in [0,4000], grids 1,2,4,8")
p("C11", "The time, tempo or key in force at a moment is the last change up to then",
  "Whatever the order in which signature changes are added, the timeline stays in time order, keeps every change, and a query at any time gives the latest change at or before it (the one added last among equal times; the default before any). "
  "Timelines of different kinds and of different containers do not affect each other.",
  ["histories", "inputs"], "all orders of 1-3 (thorough 4) changes at any times with queries before, between and after",
  "Tests add changes in ascending order and query at their exact times.",
  [N + "midi_sequences.py"], [("timelines", "MidiNoteSequences.add_time_signatures, add_tempo_signature, add_key_signatures"), ("lookup", "MidiNoteSequences.time_signature, tempo_signature, key_signature")],
  "1-3 changes at k/4 in [0,3000]")
p("C12", "Slicing a signature timeline gives exactly the changes up to the bound",
  "Slicing a timeline of time, tempo or key changes returns exactly the changes at or before the bound (all of them without a bound; for tempo the initial one excepted), each once, in time order if asked for, and leaves the timeline unchanged.",
  ["inputs"], "all timelines of 0-3 changes in any order and all bounds including zero", "Tests use one bound on one list; zero and exact-hit bounds are special.",
  [N + "midi_sequences.py"], [("timeline slices", "MidiNoteSequences.slice_time_signatures, slice_tempo_signature, slice_key_signatures")], "0-3 changes at k/4 in [0,3000], bound k/8 in [0,4000]")
p("C13", "The multi-track container holds one track per id and never mixes tracks",
  "After any series of track operations each id in use has exactly one sequence, the one stored or created for it, and reading adds or changes nothing else; out-of-range ids and programs and values of wrong type are refused. "
  "Building from sequences unites those of one instrument, all-events listings and truncation (at the end of the last event, or of the last one ending within a given offset) act on all tracks, and the container counts as quantised only if every track is.",
  ["histories", "inputs"], "all series of 1-2 (thorough 3-4) track operations on any ids 0..127; up to three sequences with any instruments",
  "Tests use ids 0 and 1; collisions between symbolic ids, re-creation and refusal need all histories.",
  [N + "midi_sequences.py"], [("track map", "MidiNoteSequences.create_track, get_track, set_sequence, __getitem__, __setitem__"), ("truncation", "MidiNoteSequences.truncate")], "1-3 operations, up to 3 sequences x 2 notes")
p("C14", "Sorted dictionaries agree with a plain dictionary and iterate in key order",
  "After any series of insertions, updates, removals and pops, a sorted dictionary finds exactly the values a plain dictionary would, reports missing keys the same way, and iterates keys, values and items in ascending key order. "
  "For interval keys, a window query returns exactly the entries whose interval overlaps the window.",
  ["histories", "inputs"], "all series of two operations (thorough three) of 9 kinds with any keys; up to 3-4 interval keys and any window",
  "Tests insert ascending keys; the invariants between the key list and the map depend on order, duplicates and deletions.",
  [N + "sorted_dict.py", N + "sorted_interval_dict.py"], [("sorted map", "SortedDict"), ("interval map", "SortedIntervalDict")], "integer keys in [-50,50], interval bounds in [-8,8]")
p("C15", "Closed intervals obey the laws of intersection, union, membership and order",
  "A point is in an interval exactly when it lies between the bounds; overlap holds exactly when a common point exists; the intersection holds exactly the common points and the union is the smallest hull. "
  "Intervals are totally ordered by start then end, consistently with equality and hashing.",
  ["inputs"], "all pairs and triples of intervals", "Algebraic laws over all bounds; tests check a few pairs.",
  [N + "Interval.py"], [("interval algebra", "Interval")], "integer bounds in [-1000,1000], k/8 floats in [-10,10]")
p("C26", "Scales and triads are exactly the textbook ones for every root",
  "For every root note, given as a number or a name, each of the ten scales consists of the seven notes of its step pattern above the root, and the triads are built from every other scale note with the quality their intervals have. Roots and names that do not exist are refused.",
  ["inputs"], "all twelve roots by number or name in any case, all ten scales by name or type",
  "Tests check C major and a few others; one wrong entry of a table or a wrap around the octave shows only for particular roots.",
  [N + "midi_scales.py"], [("scales", "MusicTheory.notes_from_scale, intervals_from_scale"), ("triads", "MusicTheory.triads_from_scale, triads_from_scale_tuple")], "roots 0..11 (refusal -3..14), ten scales")
p("C27", "Chords and compound intervals have exactly the pitches they name",
  "Each named chord consists of the intervals its name defines above any root, pitches asked for by interval are the root plus that interval, and a compound interval is the sum of its parts however it is given; unknown names are refused.",
  ["inputs"], "all roots, all chord types, all pairs of intervals by name or type",
  "Table entries and octave wraps matter for particular combinations only.",
  [N + "midi_scales.py"], [("chords", "MusicTheory.chord_pitch_from_interval"), ("intervals", "Interval")], "roots 0..11, 25 intervals in pairs")
G = "neural_graph_composer/"
p("C16", "Notes are grouped into chords by time, completely and in order",
  "For any piece and tolerance every sounding melodic note is in exactly one group and drums and silent notes in none; notes starting together are in one group, notes further apart than the tolerance (plus the rounding step) are not, and the groups come in the order of their times. "
  "The single-note filter removes only notes that stand alone, and the automatic tolerance never exceeds the largest gap.",
  ["inputs"], "all note orders, times, velocities and drum flags within the bounds, fixed and automatic tolerance",
  "Tests group a few integer times; fractional times, ties and unordered input decide whether groups come out in order.",
  [G + "midi_graph_builder.py"], [("grouping", "MidiGraphBuilder.compute_data"), ("tolerance", "MidiGraphBuilder.compute_tolerance")],
  "2-3 notes (thorough 4), times k/4 in [0,3000], tolerances 0, 0.25, 1 and automatic")
p("C17", "The graph has a node per distinct chord and counts every transition",
  "The graph of a sequence has exactly one node per distinct set of pitches, and the weight between two chords is the number of times one directly followed the other (the first chord also pointing to itself once); groups too large for the feature vector are split without losing a pitch. "
  "Graph queries agree with those edges, building into an existing graph keeps what it has, and wrong arguments are refused.",
  ["inputs", "histories"], "all pitch patterns of up to six notes in up to six groups, any chord splits",
  "Which notes coincide decides the shape of the graph; tests draw four fixed melodies.",
  [G + "midi_graph_builder.py"], [("graph construction", "MidiGraphBuilder.build_sequence"), ("queries", "MidiGraphBuilder.get_edge_connected, neighbors")],
  "up to 5 (thorough 6) notes of pitch 0..127 at fixed times; node hashes assumed free of collisions")
p("C18", "Node features hold the pitches and the matching rescaled velocities",
  "The feature vector of a node holds exactly the pitches of its chord followed by zeros; with velocities, the second row holds for each pitch the loudest velocity it was played with, rescaled into 32..127 without changing which is louder. One-hot features have a single one per pitch at its place.",
  ["inputs"], "all chords of 1-4 notes, pitches and velocities, several feature sizes",
  "Alignment between pitches and velocities depends on set order and duplicates, which tests do not vary.",
  [G + "midi_graph_builder.py"], [("features", "MidiGraphBuilder.create_tensor, build_sequence"), ("velocities", "MidiGraphBuilder.rescale_velocities")],
  "chords of 1-3 (thorough 4) notes, pitch and velocity 0..127 (real set order for pitches 6..10), feature sizes 1..6")
p("C19", "Chord labels and chords determine each other",
  "Every distinct chord met by a builder gets one label, labels are consecutive, never change as further pieces are built, and label, hash and pitches can be translated into each other without loss; views handed out cannot damage the maps. Merging two label maps keeps existing labels and round-trips every hash.",
  ["histories", "inputs"], "all pitch patterns of two pieces built in turn; all series of hashes in two mappers",
  "A label clash appears only when particular chords repeat across pieces.",
  [G + "midi_graph_builder.py", G + "midi_dataset.py"], [("label maps", "MidiGraphBuilder.build_sequence, hash_to_index"), ("mapper", "NodeHashIndexMapper")],
  "two pieces of 2 (thorough 4) notes each; 2-3 hashes per mapper")
p("C20", "Every built graph is emitted exactly once with matching labels and edges",
  "Building a piece gives one graph per melodic instrument with at least two notes (or one for the whole piece), each emitted exactly once in order and made with the options asked for, one-hot features of groups of any size included; in every emitted graph rows, targets, features, edges and weights belong to the same chords and weights count the transitions.",
  ["histories", "inputs"], "1-3 instruments incl. drums and single notes, any pitches, per instrument or whole, built twice",
  "Tests never drain the generator for several instruments.",
  [G + "midi_graph_builder.py"], [("build", "MidiGraphBuilder.build, from_midi_networkx"), ("emission", "MidiGraphBuilder.graphs")],
  "1-3 instruments with 1-4 notes of pitch 0..127")
p("C21", "Saved datasets hold every graph, split without overlap",
  "Both dataset files hold every graph of every input file, per instrument and whole respectively, with the label maps that decode them, and the kind asked for is the one loaded. "
  "Whatever the random permutation, training, validation and test parts have the chosen sizes and put every node in exactly one part; the filter and the transform see every graph. A folder opened again gives what was saved in it, and options that make no sense are refused.",
  ["inputs", "histories"], "all permutations and pitches for 1-2 files with 1-2 instruments and five split ratios",
  "No test builds a dataset; overlaps depend on rounding and on the permutation.",
  [G + "midi_dataset.py"], [("splits", "MidiDataset._mask_per_instrument, _mask_entire_graph"), ("files", "MidiDataset.process, load_processed")],
  "graphs of 1-4 nodes; file reading, PyG collation and torch.save/load replaced by in-memory stand-ins")
p("C22", "Graph transforms keep features, targets, masks and edges consistent",
  "The degree transform appends each node's number of outgoing edges and changes nothing else; dropping nodes keeps rows, targets, labels, hashes and masks together and exactly the edges between remaining nodes, renumbered; dropping edges keeps exactly the drawn ones with their weights and all nodes; the graph-number transform records the number.",
  ["inputs"], "all graphs of 1-4 nodes and edges and every random draw, several rates", "No test runs a transform; wrong numbering shows only for particular draws.",
  [G + "transforms.py"], [("transforms", "AddDegreeTransform, RandomNodeDrop, RandomEdgeDrop, GraphIDTransform")],
  "1-4 nodes, 1-4 (thorough 6) edges, features 0..127, rates 0..1")
p("C23", "Reading a midi file turns every key press into exactly one note",
  "In a midi file every key press becomes one note with its track's program and drum kind, starting at its tick and ending at the next release of that key on its channel, or at the end of the track if there is none. "
  "Control changes and pitch bends are kept with their values and times.",
  ["inputs"], "all event orders, spacings, pitches, velocities and programs of short tracks on one or two channels",
  "Tests read a handful of fixed files; held, repeated and never released keys matter only in particular interleavings.",
  [G + "custom_pretty_midi.py"], [("note pairing", "CustomPrettyMIDI._load_instruments, _note_off_event, _finish_notes")],
  "2-3 (thorough 4) key events, 1-2 tracks, spacing <= 10000 ticks, all pitches, velocities (0 included), programs, controller values; mido replaced by a stand-in, replays use real files")
p("C24", "Ticks and seconds determine each other under any tempo changes",
  "The time of a tick is the sum of the tick lengths that the tempo changes before it give, later ticks are later, and a time maps back to the nearest tick. The reported tempo at any tick is that of the last change up to it.",
  ["inputs"], "all tempo change positions and all ticks and times in and beyond the file",
  "Tests never change the tempo; an off-by-one at a change or at the end of the table shows only at that tick.",
  [G + "custom_pretty_midi.py"], [("tick table", "CustomPrettyMIDI._update_tick_to_time, tick_to_time, time_to_tick"), ("tempo list", "CustomPrettyMIDI._load_tempo_changes, get_tempo_changes")],
  "0-2 (thorough 3) changes of three tempi, spacing <= 15000 ticks, 128 ticks per quarter")
p("C25", "A file read as a piece keeps all notes, controllers and signatures",
  "Reading a file gives a piece with every note of positive length in the track of its instrument, each carrying the meter in force when it starts, and with all control changes and pitch bends; the meter, key and tempo in force at any time are those of the file. "
  "A path, the bytes of the file, an opened file and opening a piece by file name give the same piece.",
  ["inputs"], "all short tracks with a meter change, and all positions and values of two key, meter or tempo changes",
  "Tests count the notes of fixed files; dropped notes, wrong meters and lost controllers depend on times.",
  [G + "midi_reader.py"], [("reader", "MidiReader.read, read_instrument, read_time_signature, read_key_signature, read_tempo_changes")],
  "2-3 key events, two signature changes, spacing <= 15000 ticks, default tempo except for tempo changes")
p("C34", "A piece written to a file reads back as the same piece",
  "Notes on the tick grid with their pitch, velocity, program, drum kind and track name, tempo changes to the microsecond, meters, keys, and controllers before the last note all survive writing and reading back, and writing leaves the piece unchanged. A single sequence saved to a file reads back likewise.",
  ["inputs", "histories"], "all pitches, velocities, programs and tick positions of one to three notes, up to two tempo, meter or key changes",
  "Tests round-trip a few fixed pieces at one tempo; errors depend on coinciding ticks, tempo changes and rounding.",
  [G + "midi_reader.py", G + "custom_pretty_midi.py", N + "callbacks.py"],
  [("export", "MidiReader.to_pretty_midi, MidiReader.write"), ("serialisation", "CustomPrettyMIDI.serialize"), ("single sequence", "save_midi_callback")],
  "1-3 notes, ticks <= 15000, 1-2 signature changes, tempi of a list of 12 with 5 resolutions")
p("C35", "Writing never overwrites unasked and a refused write changes nothing",
  "A file that exists is replaced only when asked; windows with negative, reversed or non-numeric bounds, missing pieces and missing file names are refused. A refused write leaves the file system as it was.",
  ["inputs"], "all combinations of existing target, overwrite wish, window bounds and argument kinds",
  "Tests try two refusals; the order of checks and effects matters for every combination.",
  [G + "midi_reader.py", N + "callbacks.py"], [("write", "MidiReader.write"), ("save", "save_midi_callback")],
  "window bounds k/2 in [-4,4]; what a legal window selects is the subject of another property")
p("C28", "Tempo, meter and key signatures are legal, consistent and ordered by time",
  "A tempo needs a positive rate and resolution, a meter whole positive numbers with a power of two below, a key one of the two modes; anything else is refused and legal values are kept. "
  "The length of a quarter, of a tick and the rate determine each other; signatures are ordered by time, then by order number.",
  ["inputs"], "all integer meters, rates, resolutions, modes, and pairs of signatures",
  "No test builds an illegal signature; limits, powers of two and ties need every value.",
  [N + "midi_time_signature.py", N + "midi_key_signature.py"],
  [("tempo", "MidiTempoSignature"), ("meter", "MidiTimeSignature.__init__"), ("key", "MidiKeySignature.major_or_minor")],
  "rates k/4 in [-8,300], resolutions -3..1000, meters -2..40 over -2..140 (thorough 1100), times k/8 in [0,8000]")
p("C29", "The stand-alone quantisers hit the nearest step and cover the span",
  "Frames computed from a time span start at the frame holding its start and end after its last moment; the step quantiser rounds up from the threshold on, alike on both sides of zero; the grid and measure quantisers move a time by at most half a step, onto a step. "
  "Negative times, non-positive grids, bad thresholds and non-numbers are refused.",
  ["inputs"], "all times on a fine grid, several rates, steps, tempi and thresholds",
  "The repository's tests of these functions do not even import; half steps and negative times are where rounding errs.",
  [N + "midi_utils.py"], [("frames", "frames_from_times"), ("steps", "ft_quantize_to_nearest_step, quantize_to_nearest_step"), ("grid", "quantize_note_to_step_grid")],
  "times k/32 in [-4,16], rates to 100, no occupancy; scipy (a distance function) replaced by a stand-in when missing")
p("C30", "Control changes and pitch bends hold legal values and refuse illegal edits",
  "A control change takes the nearest legal values at creation, an illegal pitch bend is refused; setters refuse illegal values and then change nothing. "
  "Quantising a control change gives the nearest step and keeps the rest (the copying form leaves the original), a copy shares nothing, two are equal exactly when all fields are, and each controller number has its own standard description.",
  ["inputs", "histories"], "all field values, one or two edits, all pairs, every controller number",
  "Tests create a few control changes; limits, refusals and the description table need every value.",
  [N + "midi_control_change.py", N + "midi_pitch_bend.py"],
  [("controllers", "MidiControlChange"), ("bends", "MidiPitchBend"), ("names", "MidiControlChange.MIDI_CC_NAME_TO_CC")],
  "fields in [-400,400], bends in [-9000,9000], times k/16 in [-8,8], grids 0..40")
p("C31", "Instruments have a legal number, the right family and survive a round trip",
  "An instrument needs a number in 0..255, a text name and a yes/no drum flag; without a name it is named after its General MIDI family. Equality, order and hashing agree with the fields, and describing an instrument as a dictionary and reading it back gives the same instrument, missing entries by default.",
  ["inputs"], "all numbers, names given or not, wrong kinds of argument, all pairs",
  "Tests check four numbers; family boundaries need all of them.",
  [N + "midi_instruments.py"], [("instrument", "MidiInstrumentInfo"), ("families", "MidiInstrumentMap")], "numbers -5..300")
p("C32", "A note read from JSON has the fields given and defaults for the others",
  "Reading a note from its JSON description keeps every field given and uses the default for each one missing or null; the decoder, given text or bytes, finds notes anywhere in the document and leaves all else alone.",
  ["inputs"], "all field values and all subsets of the optional fields", "No test reads a note with a field left out.",
  [N + "midi_note.py"], [("reading", "MidiNote.from_json, MidiNoteJSONDecoder")], "times k/8 in [0,8000], all pitches, programs, velocities")
I = G + "interval/"
p("C36", "Half-open intervals overlap, contain, measure and order as documented",
  "An interval covers its begin and everything up to, not including, its end: overlap with an interval, a range or a point, containment, overlap size, distance and the strict and loose side comparisons follow from that, and comparisons with an empty interval are refused. "
  "Intervals are ordered by begin, end, data, equal exactly when all three are, and copies and pickled ones are equal to the original.",
  ["inputs"], "all pairs of intervals, empty and touching ones included, and all points", "No test touches the intervals; touching bounds need every relation.",
  [I + "interval.py"], [("interval", "FloatInterval")], "bounds on integers in [-2,6] (ordered comparisons only, so all order types are met)")
p("C37", "Interval tree queries return exactly the intervals that match",
  "However a tree of intervals was built, asking for those at a point, overlapping a range, inside a range, by slice or by membership gives exactly the matching ones, none twice; count, bounds and nesting agree with the contents. "
  "A copy is equal and independent.",
  ["inputs", "histories"], "all sets of intervals, all orders of insertion, all points and ranges",
  "No test builds a tree; a lost interval shows only for particular shapes after rotation.",
  [I + "intervaltree.py", I + "node.py", I + "interval.py"], [("queries", "FloatIntervalTree.at, overlap, envelop, overlaps"), ("search", "Node.search_point")],
  "1-3 intervals (thorough 4), bounds on integers in [0,7]")
p("C38", "Interval tree edits change exactly the intervals they should",
  "Adding, removing, discarding, removing by point or range, chopping, slicing, set operations, merging, splitting and clearing leave the tree with exactly the intervals that the operation describes, and every later query agrees with that. "
  "Removing what is not there and adding an empty interval are refused; set operations leave their operands alone.",
  ["inputs", "histories"], "all sets of intervals, all orders of insertion and removal, all points and ranges",
  "No test builds a tree; removal rebalances, and only some shapes and orders reach each rotation.",
  [I + "intervaltree.py", I + "node.py", I + "interval.py"], [("edits", "FloatIntervalTree.add, remove, chop, slice, merge_overlaps, split_overlaps"), ("rebalance", "Node.remove, Node.refresh_balance, Node.prune")],
  "1-3 intervals (thorough 4 when emptied), bounds on integers in [0,7]")
p("C39", "Connection queries, node merging and ways to make a builder agree",
  "Two chords, given as node, pitches or notes, are connected exactly when there is an edge between them in either direction, and the neighbours of a chord are its successors. Merging nodes replaces them by one that remembers them, takes over their edges to the others and leaves all else. "
  "A builder made from a file, a sequence or a container, and iterated, yields the same graphs as one given the notes directly; unfit sources and sizes are refused.",
  ["inputs"], "all pitches, all pairs of chords, all edge sets on four nodes",
  "No test asks whether chords are connected or merges nodes.",
  [G + "midi_graph_builder.py"], [("connected", "MidiGraphBuilder.is_connected, neighbors"), ("merge", "MidiGraphBuilder.merge_nodes"), ("doors", "MidiGraphBuilder.from_file, from_midi_sequence, from_midi_sequences, __iter__")],
  "2-3 (thorough 4) notes; graphs of 4 nodes; reading the file itself replaced by a stand-in; edges into merged nodes of a directed graph are not claimed")
p("C40", "Beats, downbeats, onsets and the end of a parsed piece follow its map",
  "The beats of a parsed piece start where asked and follow each other after one beat of the tempo and meter in force (a beat of a compound meter is three of its notes long), a beat falling on every meter change, up to the end of the piece, which is the time of its last note or change. "
  "Downbeats are the beats that open a measure of the meter in force, counted anew from the start and every meter change. Onsets are the starts of all notes in order, and removing invalid notes drops just those without length.",
  ["inputs"], "all times of tempo and meter changes, of notes and of the start asked for",
  "Tests do not compute beats of pieces whose tempo or meter changes.",
  [G + "custom_pretty_midi.py"], [("beats", "CustomPrettyMIDI.get_beats, get_downbeats, get_end_time"), ("onsets", "CustomPrettyMIDI.get_onsets, remove_invalid_notes")],
  "0-2 tempo changes and 0-3 meter changes of fixed kinds within a few beats; notes at dyadic times")
p("C41", "Re-timing a piece moves its notes and changes as the mapping says",
  "Re-timing a parsed piece by a list of old and new times keeps exactly the notes that lie within the old span and still have a length, with their instrument, pitch and velocity, their starts and ends moved by straight-line interpolation; repeated old times count once and falling new times are held. "
  "Controls, bends, keys and words inside the span move the same way, only the last one at or before its start being kept, at the start, and those at or after its end dropped. The tempo in force after it is the old one scaled by the old length over the new.",
  ["inputs"], "all times of notes, changes and of the tempo change, any pitch and velocity",
  "No test re-times a piece.",
  [G + "custom_pretty_midi.py"], [("re-timing", "CustomPrettyMIDI.adjust_times")],
  "1-2 notes or changes at times k/8 in [0,5], seven fixed mappings; one or two tempo changes, mappings without standstill for the tempo; meters and downbeats after re-timing are not claimed")
p("C42", "Writing from a start to an end time writes that part of the piece",
  "A piece written to a file from a given start time to a given end time (either may be left out) reads back with exactly those notes that lie wholly between the two times, on their tracks, with their pitch, velocity and length, their times counted from the start time; an end beyond the piece means its end. "
  "Control changes, pitch bends, keys and tempi inside keep their places, and what was set last before the start is in force from the start. "
  "The piece itself is left as it is.",
  ["inputs"], "all notes, controllers, bends and keys on the ticks of the file, inside, outside and across the window",
  "No test writes a part of a piece.",
  [G + "midi_reader.py", G + "custom_pretty_midi.py"], [("window", "MidiReader.write, to_pretty_midi, CustomPrettyMIDI.adjust_times")],
  "eight windows over a piece of 8 beats, 1-2 notes besides the last; windows that hold no time at all are not claimed")
p("C43", "Piano roll, chroma and pitch statistics add up over the instruments",
  "The piano roll of a parsed piece is the sum of the rolls of its instruments, each followed by silence up to the longest, and its chroma folds that roll into one octave; without instruments both have no columns. "
  "Its counts of pitch classes and of transitions are the sums over its instruments, weighted and limited as asked, scaled to a total of one when that is asked for and anything sounds, and zero where nothing does. "
  "The instruments' own results and the piece are left as they are.",
  ["inputs"], "all values of rolls and counts, all ways to ask",
  "No test computes a roll or a statistic of a piece.",
  [G + "custom_pretty_midi.py"], [("rolls", "CustomPrettyMIDI.get_piano_roll, get_chroma"), ("statistics", "CustomPrettyMIDI.get_pitch_class_histogram, get_pitch_class_transition_matrix")],
  "0-3 instruments of 0-3 columns, seven pitches with any values; the rolls of single instruments come from the library and are given; how shares of transitions are weighted between instruments is not claimed")
