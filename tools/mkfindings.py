#!/usr/bin/env python3
"""Writes known-findings.json (by hand; the file is committed)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [   # property, subject of the commit after "fix: ", what failed
 ('C01', 'creating events failed', 'Event() and Pattern() with events raised AttributeError (collections.Hashable) on Python 3.10+, so nothing could be saved there'),
 ('C02', 'MIDI files could not be read or written on Python 3', 'toMidiFile and fromMidiFile raised TypeError/StopIteration on every input on Python 3'),
 ('C06', 'MIDI reader and writer left', 'read_midifile/write_midifile never closed a file they opened themselves; in Jython an exported file could be incomplete after the call returned (C02)'),
 ('C05', 'a truncated MIDI file', 'a MIDI file cut inside its track loaded as a pattern with fewer notes'),
 ('C02', 'MIDI export mixed up consecutive', 'note-on written before the note-off of the previous note of the same pitch at the same tick'),
 ('C02', 'patterns with a key', 'toMidiFile of a pattern with a key raised TypeError on Python 3'),
 ('C02', 'MIDI export could end the track', 'end of track placed before the last note-off when the duration is shorter than the last note'),
 ('C01', 'JSON with indexed tags', 'toJSONFile/fromJSONFile with useTagIndexing (the default) raised or gave wrong tags'),
 ('C12', 'the last note-off was', 'getLastNoteOff sorted the events of the pattern and gave the end of the latest onset, not the latest end'),
 ('C04', 'saving a pattern to JSON reordered', 'saving to JSON sorted the events and changed the duration of the pattern being saved'),
 ('C01', 'a viewpoint saved to JSON', 'saving a viewpoint pattern alone gave a file that could not be loaded'),
 ('C14', 'generating a pattern from a Markov chain', 'generatePattern raised NameError on Python 3'),
 ('C14', 'Markov generation did not follow', 'states that were never learned could be generated; probabilities not followed'),
 ('C15', 'a seeded Markov generation was', 'seeding the global generator: another thread drawing random numbers changed a seeded generation'),
 ('C15', 'Markov states, and so seeded', 'state names depended on PYTHONHASHSEED (set order), so a seed gave different patterns in different processes'),
 ('C15', 'a random DatabaseStyle', 'generatePattern(seed) of a random-ordered DatabaseStyle ignored the seed'),
 ('C16', 'DatabaseStyle.isBuilt', 'isBuilt always returned None'),
 ('C03', 'styles could be neither', 'saveToPickle/loadFromPickle of styles raised TypeError'),
 ('C16', 'a Markov style could not', 'saveToJSON of a MarkovStyle raised (chain object not serialisable)'),
 ('C09', 'fromMidiCollection failed', 'fromMidiCollection raised with its default mapping and ignored tracksToGet'),
 ('C08', "importing MIDI changed the lists", 'fromMidiFile changed the lists inside the mapping passed by the caller, and so later imports'),
 ('C11', 'removing events skipped', 'removeEventWithTags and the like removed wrong events when there were several to remove'),
 ('C11', 'comparing the tags', 'Event.equalsTag/hasOneCommonTagWith returned None'),
 ('C04', 'saving failed if another', 'a folder created by somebody else between the check and makedirs made a save fail'),
 ('C01', 'tuples inside tuple tags', 'nested tuple tags came back as lists with conserveTuple'),
 ('C08', 'importing a MIDI file whose first', 'a note-off without note-on at the start of a file raised IndexError'),
 ('C08', 'MIDI files with a longer header', 'MIDI files whose header chunk is longer than 6 bytes could not be read'),
 ('C08', 'importing MIDI with tags from', 'tagFromTrackName mappings raised TypeError'),
 ('C01', 'viewpoints of a pattern without', 'a viewpoint of a pattern without events lost its origin in JSON (empty patterns are false)'),
 ('C08', 'tracks without a name', 'with tracksToGet, tracks without a name and events before the name were imported although not wanted'),
 ('C11', 'transposing made tags lists', 'transpose() turned note-name tags into lists, which are not hashable, so most methods then raised TypeError'),
 ('C11', 'a Syncopation descriptor used by two', 'Syncopation kept its working list on the instance: two threads got wrong values or IndexError'),
 ('C11', 'printing a Markov chain raised', 'repr of a MarkovChain raised RuntimeError on Python 3'),
 ('C20', 'patterns with tags of several kinds', 'getAllTags, getFilledWithSilences and printing raised TypeError when tags of several kinds were looked for or sorted'),
 ('C20', 'hasCommonTagWith compared the letters', 'two events with string tags that share a letter had a common tag'),
 ('C14', 'Markov generation failed at a learned step', 'a pattern shorter than the loop made generatePattern raise at the steps beyond it'),
 ('C22', 'filling with silences per tag, legato and printing depended', 'the order of events (and so results) depended on PYTHONHASHSEED'),
 ('C13', 'a pattern made from another shared its time', 'editing the time signature list of a copy or slice changed the original'),
 ('C20', 'legato by pitch worked on copies', 'applyLegato(usePitchValues=True) raised or changed nothing, then always worked by tag'),
 ('C20', 'removing overlaps kept both', 'removeOverlapped kept two events of one onset and tag if a third one overlapped them'),
 ('C20', 'fillWithPreviousEvent gave wrong', 'fillWithPreviousEvent gave negative durations if the events were not in order'),
 ('C19', 'a chord without a positive score', 'Chord gave (B, last type) for patterns in which no chord scores above 0, e.g. a single note with forceMajMin'),
 ('C21', 'a damaged length in a MIDI file', 'on Python 2 a damaged length of a meta or sysex event was made into a list of that many numbers: java.lang.OutOfMemoryError from a file of 30 bytes'),
 ('C21', 'a style whose JSON could not be loaded', 'loading a damaged style JSON raised but left the style half changed'),
 ('C08', 'notes of one pitch that overlap on two channels', 'the note-off of one channel ended the note of the same pitch on another channel'),
 ('C14', 'a style that learned a pattern listed twice', 'a pattern object listed twice was stretched and quantised twice when learned'),
 ('C17', 'changing densities of a pattern raised', 'AgnosticDensity raised ValueError, IndexError or ZeroDivisionError, ignored changes that cross density 1, and never reached 0 or 2'),
 ('C17', 'a density transform that was cut short', 'after an interrupted transformPattern, giving the same pattern again raised AttributeError or used a half-made state'),
 ('C18', 'bass lines could not be analysed or constrained on Python 3', 'corpus_analysis, constrainMM and generateBassRhythm with a kick raised on Python 3'),
 ('C18', 'the bass model never learned the change', 'the change from the last but one to the last beat of a loop was never counted'),
 ('C18', 'normalising a bass model changed', 'normalize_model divided the counts themselves, so learning more gave wrong shares'),
 ('C18', 'constrained bass lines ran into dead ends', 'constrained generation and variations raised KeyError or ValueError at a beat without continuation, depending on random numbers'),
 ('C18', 'the length of a constrained bass line was', 'a constrained bass line had as many beats as the kick has notes'),
 ('C18', 'varying a bass line dropped its last beat', 'generateBassRhythmVariation returned one beat too few'),
 ('C18', 'bass analysis went by the number of drum files', 'corpus_analysis skipped bass files or raised IndexError if there were fewer or more drum files'),
 ('C18', 'variations of bass lines could not be written', 'variationMM raised TypeError (json of numpy integers) on Python 3'),
 ('C23', 'a sysex message was read up to', 'a sysex packet was read up to the first F7 and written without its length; packets and escapes that start with F7 raised TypeError'),
 ('C23', 'MIDI was written with a running status', 'a status byte was left out after a meta or sysex event, which a strict reader cannot read'),
 ('C23', 'the value of a channel after-touch', 'ChannelAfterTouchEvent.value raised IndexError'),
 ('C23', 'a copied MIDI event shared', 'Event.copy() shared the list of data bytes with the original'),
 ('C23', 'a slice of a MIDI track', 'slices of tracks and patterns with absolute times took them for relative ones'),
 ('C23', 'what MIDI cannot hold was written', 'times, channels and data bytes out of range were written as other messages or a broken file'),
 ('C22', 'the states of a style came in an order', 'getAllPossibleStates and the matrices depended on PYTHONHASHSEED'),
 ('C09', 'folders were found as files', 'search_files and match_files gave folders'),
 ('C02', 'the name of an exported MIDI track', 'the track name of an exported file was empty'),
 ('C02', 'exporting MIDI ignored the mapping', 'toMidiFile with a dictionary from tags to pitches wrote the pitches of the events'),
 ('C20', 'Chordify raised AttributeError', 'Chordify of a pattern whose events have tags raised AttributeError'),
 ('C23', 'not every MIDI message could be copied', 'copy() of meta and sysex messages raised AttributeError or lost their kind'),
 ('C23', 'changing the text of a MIDI message', 'setting the text of a message did not change its data, so the old text was written'),
 ('C23', 'tempi and pitch bends beyond', 'a tempo below 3.6 bpm or a bend beyond 13 bits was silently written as another one'),
 ('C24', 'colours of the console were', 'formatting a message for the console put colour codes into the level name of the record that other handlers (root, files) get'),
 ('C20', 'parts of a pattern lost its key', 'slices, filtered parts and viewpoints had no key and the default resolution'),
 ('C15', 'editing a pattern of a DatabaseStyle', 'the patterns a database style was made of, or gave out, were its own: editing them changed what it generates'),
 ('C07', 'write2pickle wrote beside a folder', 'write2pickle joined folder and name without a separator'),
 ('C16', 'a style that had learned nothing', 'a style that had learned nothing was loaded from JSON as one that is built'),
 ('C09', 'files were not found in folders', 'brackets in the names of folders and files were taken for patterns'),
 ('C18', 'corpus_analysis failed on folders', 'corpus_analysis cut the beginning of the file names off and failed when the folder ended in a slash'),
 ('C20', 'alignOnGrid repeats silences', 'alignOnGrid compared tags with the list of repeatible tags, so silences longer than a step were cut to a step instead of being repeated, as documented'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()
out = []
used = set()
for pid, s, w in FIXED:
    c = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + s)]
    assert len(c) == 1, (s, c)
    used.add(c[0])
    out.append('fixed: property=%s %s %s' % (pid, c[0], w))
left = [l for l in log if l.split()[0] not in used and 'fix:' in l]
assert not left, left
FINDINGS = json.load(open(os.path.join(here, 'tools', 'open.json')))
json.dump({'findings': FINDINGS, 'fixed': out}, open(os.path.join(here, 'known-findings.json'), 'w'), indent=1)
print(len(out), 'fixed', len(FINDINGS), 'open')