from props.base import P

RF = 'lsl/reader/'
PY = 'symbolic execution of the Python code + z3'
P('F01', 'Frame buffers hand back every kept frame once, in order, with gaps filled',
  "Whatever order, repetition or loss the frames of a DRX, DRX8, TBX, COR or VDIF stream arrive with, a frame buffer's append() tells whether it kept the frames, get() and flush() hand back sets in increasing time order and never for the same time twice, each set holding every expected source exactly once: the frame that arrived, unchanged, or, for a source that never arrived, a fill frame of zeros with that source's identity and the set's time marked invalid. Frames older than what was already handed back are dropped, not kept. With reordering, sets are in the documented source order. The full, partial, missing and dropped counters agree with what happened, and after reset() the buffer behaves like a new one.",
  ['histories'], 'every sequence of up to 4 frames with any time tags (equal, out of order) and sources, ring lengths of 1 to 3, both ways of feeding',
  'the tests feed recorded files through the buffer in order, with a frame or two left out',
  [RF+'buffer.py'], [('append/get/flush/reset', RF+'buffer.py'), ('create_fill', RF+'buffer.py')],
  state=[('buffer', 'frames waiting, by time tag'), ('done', 'time tags handed back')],
  tech=PY, note='Histories up to 4 frames; symbolic time tags; frames of unexpected sources and mixed VDIF stations excluded')
P('F02', 'A split file reads exactly like its parts joined together',
  "For any number of parts of any sizes (empty ones included), a SplitFileWrapper opened on them behaves like one file holding the parts one after another (in sorted name order if asked): every sequence of read(n), read(), seek() from the start, the current place or the end, and tell() gives the same bytes and positions, reads across part boundaries included, and a seek before the start raises and changes nothing.",
  ['inputs', 'histories'], 'every combination of 1 to 4 part sizes up to 4096 bytes, every size and offset, sequences of up to 3 calls (4 in thorough)',
  'the tests split one file into two parts and read frames across the boundary',
  [RF+'utils.py'], [('SplitFileWrapper read/seek/tell', RF+'utils.py')], state=[('_idx', 'part in use'), ('_pos', 'position over all parts')],
  tech=PY, note='Up to 4 parts of up to 4096 bytes, up to 4 calls; file objects modelled by the standard library contract')
P('F03', 'Frames report the source, time, rate and frequencies their headers encode',
  "For every header value, a frame reports the beam, tuning, polarization, sample rate, filter code, central frequency, channel frequencies, gain, integration time, data products and time that the format defines for it: DRX and DRX8 IDs and decimations, DR spectrometer product bytes and integration counts, TBX and COR first channels, VDIF station and thread IDs, extended user data and times (reference epoch plus UTC seconds plus the frame's share of the second, to a microsecond). Adding, subtracting, multiplying or dividing frames and numbers acts on the samples only, and only in-place forms change their operand.",
  ['inputs'], 'every ID byte, decimation, tuning word, product byte, time tag 1972-2100, time offset, channel number, VDIF second and frame number for the listed epochs and layouts',
  'the tests look at the attributes of a few recorded frames',
  [RF+'drx.py', RF+'drx8.py', RF+'drspec.py', RF+'tbx.py', RF+'cor.py', RF+'vdif.py', RF+'base.py'],
  [('header and payload attributes', RF+'*.py'), ('FrameHeader.time of VDIF', RF+'vdif.py')],
  tech=PY, note='Every header value; astropy Time as exact UTC instants including leap seconds; VDIF times on leap-second days excluded')
P('F04', 'File queries tell what the file holds and leave it where it was',
  "Asking an open DRX, DRX8, TBX, COR, DR spectrometer or VDIF file for its sample rate, filter code, frame size, beam and tuning/polarization counts, frames per observation, frames or channels per set, first frame count, FFT length, integration time, product set, thread count or frames per second gives what the frames in the file say, at whatever frame the file stands, and leaves the file position as it was. Sync and end-of-file conditions of the compiled readers come out as the documented SyncError and EOFError.",
  ['inputs'], 'files of every choice of sources, channels and counters within the bounds, any starting position, first frames of every number within a second',
  'the tests query a few recorded files from their start',
  [RF+'drx.py', RF+'drx8.py', RF+'tbx.py', RF+'cor.py', RF+'drspec.py', RF+'vdif.py', RF+'errors.py'],
  [('get_* functions', RF+'*.py'), ('read_frame error mapping', RF+'*.py')],
  tech=PY, note='Up to 3-4 distinct sources per file; compiled readers stubbed by R01-R06 results; counterexamples run on the compiled code')
