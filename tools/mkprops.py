#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that wording lives in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    e=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: e['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: e['anchors']['observe_at']=observe
    P.append(e)

p('C01','Attaching and detaching keeps every list consistent and in order',
 'After attaching or detaching a unit, track, clock or divider, or after a player (unit, track) starts or stops using sample data or an instrument, the container lists exactly the attached members, once each, in attach order (for clocks: in front of the given clock), consistently from both ends. A detached member no longer points to its former container, and detaching something that is not attached changes nothing.',
 ['histories','configurations'],'every container population (empty, member first/in the middle/last/only) and every attach/detach/replace operation on it',
 'The tests attach one or two objects and never inspect neighbours; the guarantee is over all list shapes and all histories of attach/detach.',
 ['src/BKUnit.c','src/BKClock.c','src/BKData.c','src/BKInstrument.c','src/BKTrack.c','src/BKContext.c'],
 [('unit list','BKUnitAttach/BKUnitDetach'),('clock list','BKClockAttach/BKClockDetach'),('divider groups','BKDividerAttachToGroup/BKDividerDetach/BKContextAttachDivider'),('data players','BKDataStateSetData'),('instrument players','BKInstrumentStateSetInstrument')],
 observe=['BKContextGenerate visits units/clocks/dividers','BKDispose of containers'])

p('C02','A refused operation changes nothing',
 'When attaching a unit, track, clock or divider, setting or loading frames into sample data, setting an instrument sequence, or setting an attribute or pointer attribute of a track, unit, context, data or instrument object returns an error other than a failed allocation, every object involved is in the state it had before the call. (Exception, documented: giving a unit or track unusable sample data silences it.)',
 ['inputs','histories','configurations'],'every argument value and every prior state for which the call fails',
 'Tests exercise almost only successful calls; which stores precede which error return is a property of all paths.',
 ['src/BKUnit.c','src/BKTrack.c','src/BKClock.c','src/BKContext.c','src/BKData.c','src/BKInstrument.c','src/BKSequence.c'],
 [('argument checks precede stores','BKClockAttach, BKContextAttachDivider, BKDataSetFrames, BKDataSetData, BK*SetAttr, BK*SetPtr')])

p('C03','Disposing an object leaves nothing pointing at it',
 'Disposing a context, clock, divider, unit, track, sample data object or instrument always terminates and leaves no other live object holding a reference to it or to memory it owned, so that the remaining objects can still be used, re-attached and disposed in any order. Everything attached to it is detached, and it is itself removed from every container.',
 ['histories','configurations'],'every population of attached members and every order of disposal',
 'The tests dispose in one order at program end and never use the survivors.',
 ['src/BKContext.c','src/BKClock.c','src/BKUnit.c','src/BKTrack.c','src/BKData.c','src/BKInstrument.c','src/BKObject.c'],
 [('dispose functions of the classes','BKContextDisposeObject, BKClockDisposeObject, BKDividerDisposeObject, BKUnitDisposeObject, BKTrackDisposeObject, BKDataDisposeObject, BKInstrumentDisposeObject')])

p('C04','Library memory is released exactly once, caller memory never',
 'Every block the library allocates is released exactly once: when it is replaced, when its owner is disposed, or before the allocating call returns an error. Memory handed in by the caller without asking for a copy is never released or reallocated by the library, and no operation releases a block that is still in use.',
 ['histories','inputs','fault_sequences'],'every operation on sample data, sequences, instruments, contexts and file readers/writers, from every ownership state (no frames, borrowed frames, owned frames), with every allocation succeeding or failing',
 'Leaks, double frees and frees of caller memory need particular operation sequences and allocation failures the tests never produce, and the tests do not look at the heap.',
 ['src/BKData.c','src/BKSequence.c','src/BKInstrument.c','src/BKContext.c','src/BKObject.c','src/BKWaveFileReader.c','src/BKWaveFileWriter.c'],
 [('ownership flag of sample data','BK_DATA_FLAG_COPY in BKData.c'),('object allocation flag','BKObjectFlagAllocated'),('sequence replacement','BKInstrument.c, BKSequence.c')])

p('C05','Players always follow the sample data they play',
 'Whenever the frames of a sample data object are replaced, converted, reloaded or disposed of, every unit and track playing it afterwards either plays the new frames within their new length or is silenced; none keeps using frames, lengths or a data object that no longer exist. This holds whether or not the player is attached to a context.',
 ['histories','configurations'],'every data operation x every kind of player (custom waveform, sample, attached or not, several players)',
 'The tests never change data while it is played.',
 ['src/BKData.c','src/BKUnit.c','src/BKTrack.c'],
 [('player notification','BKDataResetStates'),('player reaction','BKUnitSampleDataStateCallback/BKUnitTrySetData')])

p('C06','Queries never change the queried object',
 'Reading an attribute, pointer attribute, effect, size, length or status name changes nothing but the caller\'s output location, for every object kind and every attribute.',
 ['inputs','histories'],'every attribute and every object state',
 'A test would have to compare the entire object graph around every query.',
 ['src/BKObject.c','src/BKUnit.c','src/BKTrack.c','src/BKContext.c','src/BKData.c','src/BKInstrument.c','src/BKSequence.c','src/BKBase.c'],
 [('getAttr/getPtr slots of all classes','BK*Class tables'),('direct getters','BK*GetAttr, BK*GetPtr, BKTrackGetEffect, BKContextSize, BKStatusGetName')])

p('C07','Unknown attributes and missing objects are refused without effect',
 'Getting or setting an attribute an object does not have returns the invalid-attribute error, writes nothing to the object and nothing to the output location; every successful query does write its output. The generic entry points return an invalid-state error for a missing object or an object kind without that operation, and disposing a missing or already disposed object does nothing.',
 ['inputs','configurations'],'every attribute value outside the supported set, every object kind',
 'There are 2^32 attribute values per entry point; tests use a handful of valid ones.',
 ['src/BKObject.c','src/BKUnit.c','src/BKTrack.c','src/BKContext.c','src/BKData.c','src/BKInstrument.c'],
 [('attribute switches','BK*SetAttr/GetAttr/SetPtr/GetPtr')])

p('C08','An accepted setting is read back as set',
 'For every readable and writable attribute, reading it right after successfully setting it yields the value set, in the same unit and scale, limited to the documented range of that attribute; setting one attribute does not change what another, independent attribute reads. The same holds for effects and their parameters.',
 ['inputs','configurations'],'every attribute, every value in range',
 'Tests read back a few attributes with one value each; scale mismatches and wrong fields show only on others.',
 ['src/BKTrack.c','src/BKUnit.c','src/BKContext.c','src/BKData.c'],
 [('setter/getter pairs','BK*SetAttr/BK*GetAttr, BK*SetPtr/BK*GetPtr, BKTrackSetEffect/BKTrackGetEffect')])

p('C09','Stored settings never leave their documented range',
 'Whatever values a caller passes, the settings an object stores stay in the documented range: channel count 1 to 8, sample rate 16000 to 96000, volumes, panning and duty cycle, note and pitch ranges, arpeggio length at most 8, dividers at least 1, sample and sustain ranges within the sample, and positive periods of units. This holds after initialisation and after every call.',
 ['inputs','histories'],'every value of every setter argument',
 'Range violations appear only for extreme or negative arguments not used by the tests.',
 ['src/BKContext.c','src/BKTrack.c','src/BKUnit.c','src/BKData.c','src/BKClock.c','src/BKInstrument.c'],
 [('clamping in setters','BKClamp/BKMin/BKMax at the stores')])

p('C10','Tables and buffers are never accessed out of bounds',
 'For every sequence of API calls with valid pointers, every access the library makes to its constant tables, to the fixed arrays inside objects, to its channel buffers and to sample frames stays within the bounds of that table, array, buffer or sample.',
 ['inputs','histories'],'every argument value and every reachable object state',
 'An out-of-bounds read is silent in the tests and needs particular phases, notes or counts.',
 ['src/BKUnit.c','src/BKTrack.c','src/BKTone.c','src/BKBuffer.c','src/BKBuffer.h','src/BKInterpolation.h','src/BKInstrument.c','src/BKSequence.c','src/BKData.c','src/BKBase.c'],
 [('phase wrapping','BKUnitRunWaveform*, BKUnitRunSample'),('note clamping','BKTone.c, BKTrackUpdateUnit'),('status name lookup','BKStatusGetName')])

p('C11','No operation divides by zero',
 'No call divides by zero, whatever the arguments, file contents and object state: channel counts, periods, step counts, ranges and rates taken from the caller or a file are checked or floored before they are used as a divisor.',
 ['inputs','histories'],'every argument value, file content and object state',
 'The tests never pass the zero values concerned.',
 ['src/BKData.c','src/BKTrack.c','src/BKUnit.c','src/BKInterpolation.c','src/BKTime.h','src/BKWaveFileReader.c','src/BKTone.c','src/BKContext.c'],
 [('divisor floors','every integer division and remainder')])

p('C12','A written WAVE file describes exactly what was written',
 'The header of a written WAVE file states the channel count, sample rate, bit depth and format given, and the derived byte rate, block size and chunk sizes match the bytes actually written; all fields are little endian and lie where the reader looks for them. Frames are written in order, once each, as little-endian 16-bit values, or as unsigned bytes holding their upper half when 8 bits are asked for.',
 ['inputs','histories'],'every channel count, sample rate and sequence of append calls',
 'The one test writes one file with equal-looking parameters.',
 ['src/BKWaveFileWriter.c','src/BKWaveFileReader.c','src/BKWaveFile_internal.h'],
 [('header construction','BKWaveFileWriter.c'),('header structs','BKWaveFile_internal.h')])

p('C13','Untrusted WAVE input cannot make the reader overrun or misreport',
 'Whatever bytes a WAVE file contains, the reader either returns an error or announces a channel count of 1 to 8, a frame count and a bit depth consistent with the file, and then delivers exactly the announced number of frames into the caller\'s buffer, in order and converted from exactly their own bytes, and never writes outside it; frames missing at the end of a truncated data chunk are silence. Unsupported formats, bit depths and malformed or truncated headers are refused.',
 ['inputs'],'every file content',
 'The test reads one well-formed file.',
 ['src/BKWaveFileReader.c','src/BKData.c'],
 [('header validation','BKWaveFileReaderReadHeader'),('bounded frame copy','BKWaveFileReaderReadFrames')])

p('C14','File errors are reported, never swallowed',
 'When reading, writing, seeking or telling a position in a file fails or comes up short, the library call concerned returns an error instead of success and leaves the object it was working on unchanged, apart from the position of the file; a writer does not count data that was not written. The one exception is a data chunk that ends early while reading frames, which is filled up with silence.',
 ['fault_sequences','inputs'],'every file operation failing at every call',
 'Tests run on a healthy file system only.',
 ['src/BKWaveFileReader.c','src/BKWaveFileWriter.c','src/BKData.c'],
 [('result checks of fread/fwrite/fseek/ftell','BKWaveFile*.c, BKDataLoadRaw')])

p('C15','A failed allocation is reported and survivable',
 'When memory cannot be allocated, the call concerned returns an error and never uses the missing block; the objects involved keep their previous contents, release what was allocated so far, and can still be used and disposed.',
 ['fault_sequences','configurations'],'every allocation failing at every call',
 'Allocation never fails in the tests.',
 ['src/BKObject.c','src/BKContext.c','src/BKData.c','src/BKSequence.c','src/BKInstrument.c','src/BKWaveFileWriter.c'],
 [('NULL checks after malloc/realloc','all allocation sites')])

p('C16','Copies are complete and independent of their original',
 'A copy of sample data, an instrument or a sequence equals its original, is a valid object of its own with no players attached, and shares no memory with the original that either of them may change or release; disposing or changing one never affects the other.',
 ['histories'],'every original state, any order of use and disposal of original and copy',
 'The tests never copy objects.',
 ['src/BKData.c','src/BKInstrument.c','src/BKSequence.c'],
 [('copy constructors','BKDataInitCopy, BKInstrumentInitCopy, sequence copy functions')])

p('C17','Every track setting reaches the sound',
 'After a track\'s volume, panning, note, pitch, arpeggio, mute, waveform, duty cycle or instrument is changed, the sound generator the track drives reflects the new value at the latest on the next clock tick, on every code path; nothing a setter accepts is ignored or waits for an unrelated change.',
 ['histories','inputs'],'every setter, every prior state',
 'The test checks a few output samples after setting initial values.',
 ['src/BKTrack.c','src/BKUnit.c'],
 [('update flags','BKTrackSetAttr, BKTrackUpdateUnit, BKTrackTick')])

p('C18','Generating audio never allocates, blocks or does I/O',
 'Generating, running, ending, reading and shifting audio of a context performs no memory allocation or release, no file or console I/O, no locking, sleeping or process control, whatever units, tracks, instruments, effects and clocks are attached; only callbacks registered by the caller may do so.',
 ['histories','configurations'],'every call path from the generating entry points, including those through class and unit function tables',
 'Tests do not observe allocation or I/O, and rare paths (sample end, release) may do it.',
 ['src/BKContext.c','src/BKUnit.c','src/BKTrack.c','src/BKClock.c','src/BKBuffer.c','src/BKBuffer.h'],
 [('call graph below BKContextGenerate','BKContextGenerate/Run/End/Read, BKUnitRun, BKTrackTick')])

p('C19','Contexts are independent: the library keeps no hidden mutable state',
 'The library has no writable state outside the objects the caller creates, so contexts and tracks in different threads or created at different times do not influence each other and the same calls always produce the same output. The only exception is the dithering noise of bit reduction, which uses the C library generator.',
 ['schedules','histories'],'all interleavings of use of distinct object graphs',
 'Interference needs concurrency or repeated runs; a single-run test cannot show its absence.',
 ['src'],
 [('constant data segments','all globals and function statics')])

p('C20','Loud output saturates instead of wrapping',
 'Every output sample is the accumulated amplitude scaled to the 16-bit range and limited to it: amplitudes beyond the range come out as the nearest limit with the correct sign, amplitudes inside it unchanged, as long as the sum of the pulses fits the accumulator. Each frame is delivered once, in order, in the right channel of the interleaved output; reading never delivers more frames than requested or available, reports the number delivered and keeps the rest for the next read. Generating to a time hands over every frame up to that time.',
 ['inputs'],'every accumulator value, every read size and buffer fill',
 'Tests do not overdrive the output.',
 ['src/BKBuffer.c','src/BKContext.c'],
 [('clamping','BKBufferRead'),('interleaving','BKContextRead')])

p('C21','Waveform, kernel and tone tables are well formed',
 'Every pulse kernel row has the same total (a step always settles at exactly its height), the triangle, sine and square wave tables are symmetric and as long as the number of phases used for them, square rows have the duty cycle they stand for, note periods fall monotonically and halve per octave, and every status and attribute has its own name or value.',
 ['configurations'],'every entry of every table',
 'Tests cannot hear a wrong table entry; they touch a few entries.',
 ['src/BKBuffer.c','src/BKUnit.c','src/BKTone.c','src/BKBase.c'],
 [('tables','BKBufferStepPhases*, squarePhases, trianglePhases, sinePhases, tonePeriods, log2 table, statusNames')])

p('C22','Generators add exactly the level differences they remember',
 'Every pulse a unit adds to a channel equals its new level (waveform value scaled by the volume of that channel) minus the level it last reached on that channel, and the remembered level is updated to match, for every waveform, sample, volume and phase; a muted unit adds none; nothing else adds pulses or changes remembered levels, except that resetting a unit, track or context forgets them, so no constant offset builds up while a unit stays attached. Resetting a context clears the remembered levels together with the channels. All channels of a unit play the same phase.',
 ['histories','inputs'],'every waveform, volume, phase and number of channels',
 'A drift shows only after long or unusual histories; the tests look at a few frames.',
 ['src/BKUnit.c','src/BKBuffer.h'],
 [('level memory per channel','lastPulse in BKUnitRunWaveform*/BKUnitRunSample/BKUnitSetAttr')])

p('C23','Time arithmetic is exact over the full range',
 'Building, adding, subtracting and comparing times is exact for every representable time value, including times beyond 32 bits and negative differences; no intermediate result is cut to a narrower type.',
 ['inputs'],'every pair of time values',
 'Tests run for a fraction of a second of audio.',
 ['src/BKTime.h'],
 [('time helpers','BKTimeMake, BKTimeAdd*, BKTimeSub*, BKTimeIs*, BKTimeGet*')])

p('C24','Callbacks get their own context and their answer counts',
 'Every registered callback is called with the user pointer registered with it and with the documented event; its answer (next clock time, new divider, sample repeat mode, stop writing) is honoured. Unset callbacks are never called.',
 ['histories','inputs'],'every callback kind and every answer',
 'Tests register a few callbacks and ignore their answers.',
 ['src/BKClock.c','src/BKUnit.c','src/BKContext.c','src/BKData.c'],
 [('callback invocation sites','BKClockTick, BKDividerTick, BKUnitCallSampleCallback, BKContextGenerateToTime, BKDataResetStates')])

p('C25','A divider fires exactly once every N ticks',
 'A divider with value N calls its callback on its first tick and then exactly on every N-th tick after it; all dividers of a clock are ticked on each clock tick in attach order, and the clock advances to its next time by exactly its period. A clock attached or reset while the context is running ticks at once and then at its period. The arpeggio, effect and instrument dividers of a track count the same way, and a value set for them is at least 1 and counts from the next tick.',
 ['histories','schedules'],'every N, every number of dividers, every tick',
 'Tests count a few callbacks with one divider.',
 ['src/BKClock.c','src/BKContext.c','src/BKTrack.c'],
 [('divider counters','BKDividerTick'),('clock time','BKClockTick, BKClockAdvance, BKClocksAdvance'),('track dividers','BKDividerStateTick')])

p('C26','Raw sample data is decoded bit-exactly',
 'When raw data is given in any supported bit depth, sign and byte order, each output frame depends on exactly the bits of its own input sample: bits are taken most significant first within a byte, 16-bit values in either byte order give the same value, and signed and unsigned full scale map to full scale without overflow. The number of frames produced is the number of complete frames in the input.',
 ['inputs'],'every input byte value, bit depth, byte order, channel count and length',
 'Tests do not cover raw formats.',
 ['src/BKData.c'],
 [('conversion','BKDataConvertFromBits, BKDataCalculateNumFramesFromNumBits')])

p('C27','Instrument sequences step in order, loop while held, end on release',
 'While a note is held a sequence steps through its values in order and repeats its sustain part; after release it continues to its end and stops there, never reading outside its values. Starting a note restarts every sequence from its beginning.',
 ['histories'],'every sequence length, sustain range and release time',
 'Tests use no instruments.',
 ['src/BKSequence.c','src/BKInstrument.c'],
 [('sequence state machine','BKSequenceState*, BKInstrumentStateTick')])

p('C30','Generated audio matches the ideal band-limited waveform',
 'The frames generated for a waveform, note, volume and panning equal the ideal band-limited signal within a small error.',
 ['inputs','histories'],'all settings','Numerical output over time.',
 ['src/BKUnit.c','src/BKBuffer.c'],[('synthesis','BKUnitRun, BKBufferRead')])
p('C31','Output does not depend on how generation is split into calls',
 'Generating n frames in one call or in several smaller calls yields the same frames.',
 ['histories','schedules'],'every split of the frame count','Tests use one split.',
 ['src/BKContext.c','src/BKBuffer.c'],[('chunking','BKContextGenerate, BKContextGenerateToTime')])
p('C32','Generating to a time always finishes with the right number of frames',
 'Generating to a given time terminates and delivers exactly the frames up to that time.',
 ['inputs','histories'],'every end time and clock configuration','Tests generate one length.',
 ['src/BKContext.c'],[('loop','BKContextGenerateToTime')])
p('C33','Effects reach their target in the set number of steps',
 'A slide set to a target over N steps starts from the current value, moves towards the target without passing it, reads exactly the target after the N-th step and stays there; over 0 steps it has the target at once. A tremolo or vibrato of depth D and N steps runs through 0, D, 0 and -D, taking N steps for each phase, and keeps its phase and its place within the phase when depth or rate change. An effect tick of a track advances every enabled effect exactly once and no other effect, and changing the steps of an effect keeps its target.',
 ['inputs','histories'],'every target, depth, number of steps and state of an effect in progress','Tests use no long effects and no changes during an effect.',
 ['src/BKTrack.c','src/BKInterpolation.c','src/BKInterpolation.h'],[('BKSlideStateSetValueAndSteps, BKIntervalStateSetDeltaAndSteps, BKIntervalStateStep','src/BKInterpolation.c'),('BKTrackEffectTick, BKTrackSetEffect','src/BKTrack.c')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for e in P: f.write(json.dumps(e)+'\n')
print(len(P),'properties')
