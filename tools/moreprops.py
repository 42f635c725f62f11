# further properties; executed by mkprops.py
prop('C08', 'MIDI import is exact, and the same every time',
     '''Importing a standard MIDI file gives exactly one event for every note of the wanted tracks that the mapping accepts: its onset, end, pitch and
     velocity are the file's, its tag is the one the mapping (or track-name or pitch-name rule) gives, and the pattern has the file's
     resolution, tempo, time signature, key and length; overlaps are cut, by pitch, only when that was asked for.
     Tracks that are not wanted contribute nothing; other messages (controllers, unknown
     meta events, running status, note-on with velocity 0, sysex, stray note-offs) neither add, drop nor move notes.
     An import changes no mapping it was given, and gives the same result whatever was imported, or failed to be imported, before
     it in the process and however the operating system splits the reads.''',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     '''every single- or multi-track file with metrical division, every mapping, every selection of tracks, every history of
     imports that share mappings, every split of the reads''',
     'the tests import a few files of one kind with fresh mappings, once each',
     ['gsapi/midiio.py', 'gsapi/gsio.py', 'gsapi/gsutil.py', 'gsapi/gsdefs.py'],
     [('FileReader: running status, meta events, variable length numbers', 'gsapi/midiio.py'), ('fromMidiFile, __fromMidiFormatted', 'gsapi/gsio.py'),
      ('simpleDrumMap, pitchNames', 'gsapi/gsdefs.py')],
     observe=['gsio.fromMidiFile'])
prop('C09', 'Collections and datasets hold exactly the files that are there',
     '''Importing a folder of MIDI files, as a collection or as a dataset, gives for every file that matches the pattern at that moment
     its pattern, exactly once, exactly as importing that file alone gives it, with the desired length applied, and none for other
     files, whatever the order in which the disk lists them; searching files by ending or pattern finds exactly the files, each once, in order.
     Files added, replaced or removed between two imports, and imports that failed in between, show in no other way than in what is there now, and what earlier imports gave stays as it was.''',
     ['inputs', 'histories', 'fault_sequences'],
     'every folder content, file pattern and listing order; every history of imports, additions, replacements and removals, with failing reads in between',
     'the tests import one fixed folder once',
     ['gsapi/gsio.py', 'gsapi/gsdataset.py'],
     [('fromMidiCollection', 'gsapi/gsio.py'), ('Dataset.importMIDI, generateViewpoint, getAllSliced', 'gsapi/gsdataset.py')],
     observe=['gsio.fromMidiCollection', 'gsdataset.Dataset'])
prop('C10', 'Threads working on their own objects do not disturb each other',
     '''When several threads use the library at the same time, each on patterns, styles, descriptors and files of its own, every
     call gives exactly the result and the file it would have given alone, under every interleaving, also when calls of the other threads
     fail or when several save into the same new folder.
     No call leaves anything that belongs to the whole process changed (working directory, environment, recursion limit,
     standard output, tables of the library), and mappings shared by imports stay as they are.''',
     ['schedules', 'fault_sequences', 'inputs'],
     'every interleaving of two or three threads with any operations of the library, with and without faults in some of them',
     'the tests have one thread',
     ['gsapi/gspattern.py', 'gsapi/gsio.py', 'gsapi/midiio.py', 'gsapi/gsstyles.py', 'gsapi/gsdescriptors.py', 'gsapi/gsextractors.py', 'gsapi/gsutil.py'],
     [('module-level state: tables and registries', 'gsapi/gsdefs.py, gsapi/midiio.py'), ('folder creation', 'gsapi/gsio.py'), ('random generators', 'gsapi/gsstyles.py')],
     observe=['results, files, process state'])
prop('C11', 'Reading the same object from several threads is safe',
     '''When several threads do nothing but look at the same pattern, style or descriptor (queries, slices, filters, copies, exports, descriptor values,
     generation with a seed), every call gives exactly what it gives in a single thread, under every interleaving,
     and the shared objects are unchanged afterwards, with the same event objects in the same order.''',
     ['schedules', 'inputs'],
     'every interleaving of two or three threads with any read-only operations on shared patterns, styles and descriptors',
     'the tests have one thread',
     ['gsapi/gspattern.py', 'gsapi/gsio.py', 'gsapi/gsstyles.py', 'gsapi/gsdescriptors.py', 'gsapi/gsextractors.py'],
     [('queries and exports of Pattern', 'gsapi/gspattern.py, gsapi/gsio.py'), ('generatePattern', 'gsapi/gsstyles.py'), ('getDescriptorForPattern', 'gsapi/gsdescriptors.py')],
     observe=['results, shared objects'])
prop('C12', 'Looking at something never changes it, also when the call is cut short',
     '''Calls that only look (queries, slices, filters, exports, saves, descriptor values, seeded generation, transition tables,
     printing) leave the pattern, style and descriptors they were given exactly as they were, whether they return, raise, hit a
     disk fault or are cancelled at any point.
     Whatever was cancelled or failed before, each such call gives the result it gives on a fresh object.''',
     ['histories', 'crash_points', 'fault_sequences', 'inputs'],
     'every history of read-only calls on one pattern, style and set of descriptors, each of them returning, cancelled at any source line, or hit by a disk fault',
     'tests look at the result of one call that succeeds, not at what the call did to its arguments, and cancel none',
     ['gsapi/gspattern.py', 'gsapi/gsio.py', 'gsapi/gsstyles.py', 'gsapi/gsdescriptors.py', 'gsapi/gsextractors.py'],
     [('queries, filters and slices of Pattern', 'gsapi/gspattern.py'), ('export functions', 'gsapi/gsio.py'),
      ('getDescriptorForPattern', 'gsapi/gsdescriptors.py'), ('generatePattern and tables', 'gsapi/gsstyles.py')],
     observe=['objects before and after', 'results'])
prop('C13', 'Patterns made from others are independent of them',
     '''A pattern got from another (copy, deep copy, slice, split, filter, filling with silences, cutting of copied events, loading of a save,
     generation) shares nothing with it that an edit of one shows in the other: no event, list, time signature, tag or viewpoint.
     Editing one, also when the edit is cancelled halfway or several are edited at once by different threads, changes only that one.''',
     ['histories', 'schedules', 'crash_points', 'inputs'],
     'every history of deriving and editing patterns, and every interleaving of threads that edit different members of such a family',
     'tests derive one pattern and look at it; they never edit both sides afterwards',
     ['gsapi/gspattern.py', 'gsapi/gsio.py', 'gsapi/gsstyles.py'],
     [('copy, copyWithoutEvents, __deepcopy__', 'gsapi/gspattern.py'), ('patternFromTimeSlice, splitInEqualLengthPatterns, getPatternWith...', 'gsapi/gspattern.py'),
      ('generatePattern', 'gsapi/gsstyles.py')],
     observe=['all patterns of the family after each edit'])
prop('C14', 'A Markov style generates only what it learned',
     '''Whatever random numbers come, the content of every step of a generated pattern is one that was learned at that step after
     the steps generated before it (as many as the order), with probability in proportion to how often it was learned; steps for which nothing
     was learned stay silent. The pattern has the loop length of the style, its steps lie on the grid, and the transition tables
     are the frequencies of the learned patterns; a start that can be found by chance is missed no more often than chance says.
     Learning again replaces what was learned before; a cancelled learning followed by a complete one leaves no trace.''',
     ['inputs', 'histories', 'schedules'],
     'every set of patterns, order and number of steps; every sequence of random numbers; every history of learning, cancelled learning and generation',
     'the tests generate once without looking at the result; what comes depends on random numbers that they do not control',
     ['gsapi/gsstyles.py'],
     [('MarkovStyle.generateStyle, MarkovChain', 'gsapi/gsstyles.py'), ('generatePattern', 'gsapi/gsstyles.py')],
     observe=['MarkovStyle.generatePattern', 'transition tables'])
prop('C15', 'A seed decides what a style generates',
     '''Generating with a seed from a style that learned the same patterns gives the same pattern every time: later, after any other generations,
     draws from and seedings of the global random generator, cancelled calls or edits of earlier results, beside other
     threads that draw or generate at the same time, after learning again, and in any other process whatever its hash seed.
     Generating with a seed leaves the generator of the rest of the process alone.''',
     ['histories', 'schedules', 'inputs'],
     'every seed and style; every history of other random draws before and between; every interleaving with other threads; every process',
     'the tests never generate twice with one seed, and run in one thread of one process',
     ['gsapi/gsstyles.py'],
     [('generatePattern(seed)', 'gsapi/gsstyles.py'), ('names of states', 'gsapi/gsstyles.py')],
     observe=['generatePattern', 'state of the module random'])
prop('C16', 'A saved style works like the one that was learned',
     '''A style that was saved to JSON or pickle and loaded, into a new or a used style object, in this or a later process and over any
     number of such round trips, behaves in every way as the one that was learned: the same tables, state names, configuration, and
     the same pattern for every seed.
     A load that failed leaves the style it was made on usable, as it was before or wholly as in the file.''',
     ['histories', 'crash_points', 'fault_sequences', 'inputs'],
     'every style; every history of learning, saving, loading (also failing), restarting and generating',
     'the tests save no style',
     ['gsapi/gsstyles.py', 'gsapi/gsio.py'],
     [('saveToJSON, loadFromJSON, saveToPickle, loadFromPickle', 'gsapi/gsstyles.py'), ('setInternalState, getInternalState', 'gsapi/gsstyles.py')],
     observe=['generatePattern, getAllPossibleStates, tables of the loaded style'])
prop('C19', 'A descriptor describes the pattern as it is now',
     '''The value of every descriptor (density, number of tags, syncopation, chord, drum space), asked directly or through a viewpoint
     (of equal slices, per event, or of the whole), is the one its definition gives for the pattern as it is at that moment.
     It does not depend on what the descriptor was asked before, on calls that failed or were cancelled, on earlier contents of the pattern,
     or on copies of the descriptor; changed settings apply from the next call on.
     A chord is the root and type that fit best: sounding time in the chord (root 1, other notes 0.8) less that outside it, less half the length per missing note.''',
     ['histories', 'crash_points', 'inputs'],
     'every pattern and setting; every history of values, viewpoints, edits, changed settings, failed and cancelled calls',
     'the tests ask each descriptor about fixed patterns, one after the other, and print what differs instead of failing',
     ['gsapi/gsdescriptors.py', 'gsapi/gsextractors.py', 'gsapi/gspattern.py'],
     [('getDescriptorForPattern of each descriptor', 'gsapi/gsdescriptors.py'), ('DensityDrumSpace.getFeatureSpace', 'gsapi/gsextractors.py'),
      ('generateViewpoint', 'gsapi/gspattern.py')],
     state=[('Syncopation.weights', 'kept between calls', 'gsapi/gsdescriptors.py')],
     observe=['getDescriptorForPattern', 'viewpoint events'])
prop('C20', 'An editing session is the sum of its documented steps',
     '''After any sequence of edits of a pattern (adding, removing, overlap removal, grid alignment, quantizing, legato, filling with silences or previous events,
     stretching, transposing, duration to last event or bar, viewpoints), with queries, slices, splits, filters, copies, saves, crashes, reloads and
     cancelled calls in between, the pattern is exactly what the documented effect of each completed step gives, and every query answers for that pattern.
     No step raises, and none does more or less than it documents: times, pitches, velocities, tags, duration, key, resolution and the order of events included.''',
     ['histories', 'inputs', 'crash_points'],
     'every sequence of operations on every pattern (onsets not negative, pitches from 0 to 127), with any of them cancelled and any saves, crashes and reloads in between',
     'the tests apply one or two operations to a few imported patterns and check only that the result is not absurd',
     ['gsapi/gspattern.py', 'gsapi/gsio.py'],
     [('all operations of Pattern and Event', 'gsapi/gspattern.py')],
     observe=['the whole pattern after each step', 'results of queries'])
prop('C21', 'A damaged file is never believed',
     '''Loading a MIDI, JSON or style file that was damaged in any way ends after a bounded amount of work and memory; it raises, or, where the damaged bytes are still
     a valid file, gives exactly what those bytes say. Text that is not JSON and MIDI data that is cut or out of structure always raise.
     Whatever it did, it leaves no file open and nothing of the process changed, the style that was to be loaded stays as it was if the
     load raised, and later loads of good files give exactly their contents.''',
     ['inputs', 'histories', 'fault_sequences'],
     'every damage to one or more files (bytes changed, lost, added, moved), every history of loads of good, damaged and repaired files',
     'the tests load no damaged file',
     ['gsapi/midiio.py', 'gsapi/gsio.py', 'gsapi/gsstyles.py'],
     [('FileReader', 'gsapi/midiio.py'), ('fromMidiFile, fromJSONFile', 'gsapi/gsio.py'), ('loadFromJSON', 'gsapi/gsstyles.py')],
     observe=['results of loads', 'open files', 'process state', 'style after a failed load'])
prop('C17', 'A density transform gives the densities asked for',
     '''Changing the densities of a pattern's voices gives, whatever random numbers come and whatever was asked before, each voice whole at 1, a share of its notes
     below 1 (none at 0), and above 1 all of its notes plus new ones in that share of its silent steps (all at 2), on the step grid, in order, over the original duration.
     Voices not named stay as they are, raising a density takes no note away and lowering adds none, and coming back to 1 gives the original notes.
     No call raises, or changes the pattern or densities given or a result given out before, also beside transformers in other threads or after a cancelled call.''',
     ['histories', 'inputs', 'schedules'],
     'every history of patterns, densities (also outside 0 to 2), edits and cancelled calls, every sequence of random numbers, two transformers under every interleaving',
     'the test asks once per pattern for random densities, with unseeded random numbers, and checks only that events are not absurd (and fails for another reason)',
     ['gsapi/gstransformers.py'],
     [('AgnosticDensity', 'gsapi/gstransformers.py')],
     state=[('AgnosticDensity.currentState', 'steps with and without notes, per tag', 'gsapi/gstransformers.py')],
     observe=['transformPattern'])
prop('C22', 'The same calls give the same results in every process',
     '''Equal objects put through the same calls (edits, queries, saves, loads, imports, descriptors, learning and seeded generation) give the same results, in
     the same order, and the same bytes in text and MIDI files, in every process: whatever its hash seed, whatever was done in it before with
     other objects, whatever calls failed on the disk or were cancelled there, and however often they are repeated.''',
     ['histories', 'fault_sequences', 'inputs'],
     'every history of calls on other objects in the process, with failing and cancelled ones, and every hash seed',
     'each test runs in one process, with one hash seed, and looks at one result',
     ['gsapi/gspattern.py', 'gsapi/gsio.py', 'gsapi/midiio.py', 'gsapi/gsstyles.py', 'gsapi/gsdescriptors.py'],
     [('module-level state', 'gsapi/gsdefs.py, gsapi/midiio.py'), ('default arguments, orders of sets and dictionaries', 'gsapi/gspattern.py')],
     observe=['results, files'])
prop('C18', 'Bass lines follow the corpus, the kick and the beats to keep',
     '''A bass model's tables are exactly the shares of beginnings, of steps from beat to beat (the last to the first included) and of bass beats over kick beats
     in the corpus it learned, and stay so when it learns more; every bass line generated, free or over a kick, starts and moves only as the corpus does, with its frequencies,
     has the asked length, lies over each kick beat as in the corpus, and as a variation keeps every beat it is to keep.
     Wherever such a line exists one is found, whatever random numbers come; where none exists, or the disk fails, the call raises, and the model and patterns given stay as they are.''',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'every corpus, kick and mask; every history of learning, generating, exporting, failing and cancelled calls; every sequence of random numbers; two generating threads under every interleaving',
     'the test learns one corpus (and cannot run on Python 3), with unseeded random numbers, and looks at no result',
     ['gsapi/bassmine.py'],
     [('corpus_analysis, MarkovModel', 'gsapi/bassmine.py'), ('constrainMM, variationMM', 'gsapi/bassmine.py'),
      ('generateBassRhythm, generateBassRhythmVariation', 'gsapi/bassmine.py')],
     state=[('MarkovModel.support_*', 'counts', 'gsapi/bassmine.py')],
     observe=['tables of the model', 'generated bass lines', 'exported JSON files'])
prop('C23', 'MIDI messages read and written say the same',
     '''Reading a well formed MIDI file gives exactly its messages (kind, channel, data, text, time), track by track, whatever running status, sysex packets
     and escapes, meta events and variable length numbers it uses and however the operating system splits the reads; any strict reader finds in a written file exactly
     the messages that were given, and writing changes nothing given.
     Changing a message's fields (its text, too), slicing tracks and files, copying messages of every kind, and turning absolute times into relative ones and back change what they name and nothing else.
     What MIDI cannot hold (times, channels, tempi, pitch bends and data out of range) and every disk fault raise, and a call that was cancelled or failed leaves no trace in later ones.''',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'every sequence of messages of every kind, every history of reads, edits, slices, copies, time conversions and writes, with disk faults, cancellations, crashes and restarts',
     'the tests write and read a few notes of patterns, never look at messages, and check against the same reader',
     ['gsapi/midiio.py'],
     [('FileReader, FileWriter', 'gsapi/midiio.py'), ('Event and its subclasses', 'gsapi/midiio.py'), ('Track, Pattern: slices, make_ticks_abs, make_ticks_rel', 'gsapi/midiio.py'),
      ('read_varlen, write_varlen', 'gsapi/midiio.py')],
     state=[('FileWriter.RunningStatus', 'last status written', 'gsapi/midiio.py'), ('EventRegistry', 'kinds of events', 'gsapi/midiio.py')],
     observe=['messages read', 'bytes written, by an independent strict reader'])
prop('C24', 'What the library tells is heard as it is, and changes nothing',
     '''However logging is configured (levels, handlers, colours, propagation, streams that fail or are closed), every call gives the result it gives with logging
     switched off, and what was configured stays as it was.
     Every message at or above the level in force reaches each handler that listens once, whole, with its plain level name, and the console shows it once, coloured only while colours are on, also when calls run
     in several threads or were cancelled before.
     With nothing configured, sound files are imported silently, and each time trouble is met (an end of a note that never began, a second tempo, time signature
     or key, an unknown meta event, a data set without files, a tag that is a list) a warning or an error says so.''',
     ['inputs', 'histories', 'schedules', 'fault_sequences', 'crash_points'],
     'every configuration of logging and every change of it between calls, every history of calls with failing and cancelled ones, every interleaving of threads',
     'the tests never look at what is told, and run with the configuration of the library',
     ['gsapi/gslog.py', 'gsapi/gsio.py', 'gsapi/gspattern.py', 'gsapi/midiio.py', 'gsapi/gsdataset.py', 'gsapi/gsstyles.py'],
     [('ColoredFormatter, ColoredLogger, setDefaultLoggingLevel, setUseColoredOutput', 'gsapi/gslog.py'), ('messages of the import', 'gsapi/gsio.py'),
      ('messages about tags, overlaps, searches', 'gsapi/gspattern.py')],
     state=[('ColoredLogger.USE_COLOR_OUTPUT', 'colours', 'gsapi/gslog.py'), ('levels of the loggers', 'what is told', 'each module')],
     observe=['records that handlers get', 'text on the console', 'results of calls'])
