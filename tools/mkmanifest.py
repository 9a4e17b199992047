#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed, with which method, and why the rest is not."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the compiled module (clang IR) '
TB = 'Trusts the clang 18 front end and the interpreter in engine/. '
CLAIMS = {
 'C33': (AI + 'inductive step of each slide and oscillation from an arbitrary state, every stored number compared as an expression over its inputs with the reference formula; effect ticks from arbitrary tracks',
         TB + ' step deltas and rounding are compared on valuations of their symbols which the path allows (the terms are exact, the comparison of two different divisions is not a proof); values within the shipped ranges of volume, panning, note, tremolo and vibrato'),
 'C08': (AI + 'of setting each attribute to an arbitrary value of each documented segment and reading every attribute back: the value set, limited; everything independent unchanged',
         TB + 'Also for arrays, ranges, effects and pointers, and after other settings before it. Which settings change along with another (waveform with sample, note with mute) is listed in rules/c08.py from the documentation.'),
 'C17': (AI + 'of histories of public calls on a track with symbolic settings: after the next ticks the values reached in its unit are compared, as expressions, with those derived from the settings',
         TB + 'Histories are enumerated: configurations of waveform, channels, panning, note, arpeggio, instrument and effects, then one or several changes, then up to seven ticks; the values set are symbols. The period tables are uninterpreted functions here (C21 decides them).'),
 'C10': (AI + ', from symbolic states of every kind of object: each memory access of an operation stays inside the field, array element range or heap block it was derived from (relations between stored counts and block sizes are kept as facts)',
         TB + 'every access of every public operation is an obligation; counts are symbolic, loops over them are joined or, where no joined proof exists, enumerated up to small sizes'),
 'C09': (AI + 'of every operation from any state within the documented ranges; the settings of every changed object are within them again',
         TB + 'Which frames of a sample are played is decided by C05; what effects and instruments add to a note or volume is not a stored setting.'),
 'C11': (AI + 'of every operation, query, tick and file operation; every integer divisor on every path shown to exclude zero',
         TB + 'Divisions in floating point are not covered (they cannot trap). Player states follow the first divergences only (path limits); the per-operation sweep has no such limit in tick-free code.'),
 'C27': (AI + 'inductive step of the sequence state machine for any length and position (relational bounds) and histories on symbolic values compared with a reference automaton',
         TB + 'durations below 2^31 ticks; slides are compared within rounding at the extreme points of the value ranges; two sequences per instrument'),
 'C03': (AI + 'of disposing each object of populations of all kinds, in pairs and until nothing is left; reachability rule over every pointer in live memory, membership rule for every list',
         TB + ' Populations are finite (up to 24 objects); their scalar contents are arbitrary.'),
 'C05': (AI + 'of every operation on sample data and on its players, from every state of playing; typestate rule tying each player to the frames, channels, range and list of the data',
         TB + ' Players are constructed symbolically: positions, ranges and lengths are symbols related by inequalities.'),
 'C26': (AI + 'of decoding arbitrary bytes, value rule on every output value as an expression over the input, compared for all values of its byte; counting rule for the frames; bounds rule on every access',
         TB + 'Values are compared for enumerated lengths (complete, cut inside a frame, cut inside a byte), the number of frames for every length; 64-bit little-endian machine.'),
 'C14': (AI + 'of every operation on files with every file operation allowed to fail or come up short, rule on the paths with a failed one: negative status, unchanged objects',
         TB + 'One operation at a time on readers, writers and sample data in arbitrary states; stdio is modelled.'),
 'C13': (AI + 'of the reader on files of arbitrary content, range rule on what is announced, value rule on what is delivered, bounds rule on every access (affine loop invariants)',
         TB + 'Arbitrary headers; arbitrary sizes by induction over the loops where an affine invariant is found (evidence counts them), enumerated sizes around the internal buffer otherwise.'),
 'C12': (AI+'of the writer on a modelled file, value rule on every header byte and every sample written',
         TB + 'Header fields and sample values are arbitrary; call sequences and sizes are enumerated around the internal buffer (up to 1025 values per call).'),
 'C15': (AI + 'of every operation with every allocation allowed to fail, rule on the paths with a failed one: negative status, unchanged heap, nothing lost',
         TB + 'Heaps of one to three objects per kind; one operation at a time.'),
 'C04': (AI + 'of every operation on objects in arbitrary states, ownership and typestate rule on every block (allocated once, referred to while in use, released once, never touched afterwards)',
         TB + 'Heaps of one to three objects per kind; every allocation and file operation may fail.'),
 'C16': (AI + 'of copying, equality rule on every field, value and frame, and separation rule on the heap reachable from both',
         TB + 'Sequences of up to four values, frame blocks compared cell by cell up to 51 frames and by extent beyond; allocations succeed.'),
 'C02': (AI + 'of every operation on objects in arbitrary states, equality rule between the heap before and after on every path that returns an error',
         TB + 'Heaps of one to three objects per kind; allocations succeed, file operations may fail anywhere.'),
 'C01': (AI + 'over every small list shape, well-formedness rule on the resulting heap',
         TB + 'List populations up to three members (an operation touches only a member and its neighbours).'),
 'C06': (AI + 'on objects in arbitrary states, effect rule: no store outside the output location',
         TB + 'Object contents are arbitrary within their documented ranges; output locations are caller memory.'),
 'C07': (AI + 'with an arbitrary attribute, effect and result rule on every path',
         TB + 'The table of supported attributes per object kind is transcribed from the public headers.'),
 'C18': ('effect analysis over the call graph of the compiled module (field-based resolution of every indirect call)',
         'Trusts the clang 18 front end and the list of externals known to be free of allocation, blocking and I/O (rules/c18.py).'),
 'C20': (AI + 'of reading with arbitrary accumulator and frame contents, value rule on the sample delivered (scaled or the limit of its sign) and relational rule on every frame delivered, moved or cleared',
         TB + 'Buffer fills and read sizes are enumerated (small ones completely, large ones at both ends of the buffer), contents are arbitrary; 1 to 8 channels.'),
 'C21': (AI + 'of table initialisers and kernels, rule on every constant entry and on every name lookup with an arbitrary value',
         TB + 'Reference values are computed from the documented formulas (sine, equal temperament, band-limited step).'),
 'C25': (AI + 'of one tick and one clock step from every state ticks can lead to, rule on calls made, counters and times (induction over ticks)',
         TB + 'Groups of up to two dividers and two clocks (three in the thorough run); callback answers are arbitrary.'),
 'C22': (AI + 'of every generator and operation with the pulses summed into ghost memory, relational rule level reached = level remembered, and value rule level = waveform value scaled by a symbolic volume',
         TB + 'Runs of arbitrary length are covered by a fixpoint on up to eight channels; the scaling rule follows three steps from each starting phase on three channels.'),
 'C23': (AI + 'of every time helper with arbitrary operands (result equals the exact expression, comparison equals the exact comparison) and range rule on every truncation of a 64-bit time in the stepping code',
         TB + 'The 64-bit representation of this platform; the variant of the header for 32-bit machines is not compiled here.'),
 'C24': (AI + 'of every function that calls back, with unknown user functions and pointers, rule on each recorded call and on the state its answer leads to',
         TB + 'Up to two dividers or players per list (three in the thorough run); sample lengths of 2 and 3 frames (up to 5) with every sequence of documented answers.'),
 'C19': ('storage-class and value-flow analysis of every global and of every call to an external, plus a definedness rule on constructed objects',
         TB + 'The list of stateless externals is in rules/c19.py.'),
}
NA = {
 'C30': 'equality of generated audio with an ideal signal is a numerical statement about unbounded runs of the synthesiser; no sound static argument in reach bounds the accumulated error (the structural parts are C20, C21 and C22)',
 'C31': 'compares two whole runs of the generator that differ in how calls are split; needs a relational proof over unbounded histories of phase, buffer and clock state, out of reach of a sound static rule here',
 'C32': 'termination and frame count of generation to a time depend on runtime clock periods and callback answers; a static rule would need a ranking argument over caller-controlled time values',
}
import sys
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                 'technique': CLAIMS[i][0], 'level': 'other', 'level_note': CLAIMS[i][1]} for i in props if i in CLAIMS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')} for i in props if i not in CLAIMS],
     'notes': 'All checks read /repo/src through clang and decide without running the library. Recorded and repaired defects: known_findings.txt. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')
