from props.base import P

RF = 'lsl/reader/'
P('R01', 'Every DRX frame decodes to exactly what its bytes say',
  "For every possible 4128-byte DRX frame, reading it gives the header fields (frame count, ID, second count, decimation, time offset), the time tag, tuning word and flags, and 4096 complex samples (upper nibble real, lower nibble imaginary, two's complement) that the bytes encode, as complex floats or as integer pairs, and leaves the file at the end of the frame. A frame with a wrong sync word gives a sync error and a shorter frame gives end-of-file, in both cases without touching the frame object. This does not depend on what was read before.",
  ['inputs', 'histories'], 'every value of all 4128 bytes, every shorter length, first and later reads',
  'the tests read a few frames of one recorded file, and compare a handful of header values',
  [RF+'drx.cpp', RF+'readers.hpp'], [('DRX frame parsers', RF+'drx.cpp'), ('4-bit look-up table', RF+'gofast.cpp')],
  tech='LLVM-IR symbolic execution + z3', note='All 4128 bytes symbolic, histories of two reads; trusts the CPython/NumPy C-API model and clang -O1 IR')
P('R02', 'Every DRX8 frame decodes to exactly what its bytes say',
  "For every possible 8224-byte DRX8 frame, reading it gives the header fields, time tag, tuning word and flags, and 4096 complex samples (one signed byte real, one signed byte imaginary) that the bytes encode, as complex floats or as integer pairs, and leaves the file at the end of the frame. A frame with a wrong sync word gives a sync error and a shorter frame gives end-of-file, in both cases without touching the frame object. This does not depend on what was read before.",
  ['inputs', 'histories'], 'every value of all 8224 bytes, every shorter length, first and later reads',
  'the tests read a few recorded frames and compare a handful of values',
  [RF+'drx8.cpp', RF+'readers.hpp'], [('DRX8 frame parsers', RF+'drx8.cpp')],
  tech='LLVM-IR symbolic execution + z3', note='All 8224 bytes symbolic, histories of two reads; trusts the C-API model and clang IR')
P('R03', 'Every TBX frame decodes to exactly what its bytes say, whatever came before',
  "For each of the supported TBX layouts (64, 128 or 256 stands by 4, 8, 12 or 16 channels) and every value of the frame's bytes, reading it gives the frame count, ID, second count, first channel, stand and channel counts, time tag and the 4-bit complex samples ordered (channel, stand, polarization), as complex floats or integer pairs, and leaves the file at the end of that frame. Frames with another sync word or another layout give a sync error with the file back at the frame's start. This holds whatever layout the previous frame had (at least one largest frame's worth of bytes remaining in the file).",
  ['inputs', 'histories'], 'every byte value of the 12 layouts; histories of up to two frames of different layouts',
  'the tests read one recorded file of one layout',
  [RF+'tbx.cpp'], [('TBX frame parsers', RF+'tbx.cpp'), ('layout cached between calls', RF+'tbx.cpp')],
  tech='LLVM-IR symbolic execution + z3', note='All bytes symbolic for the 12 layouts, histories of two reads; time tags below 2^63; trusts the C-API model')
P('R04', 'Every COR frame decodes to exactly what its bytes say',
  "For every COR frame of 33, 72, 112 or 192 channels, reading it gives the frame count, ID, second count, first channel, gain, time tag, integration count, stand pair and the (channel, 2, 2) visibilities that the bytes encode, with the YX product of an auto-correlation filled in as the conjugate of XY, and leaves the file at the end of that frame. A wrong sync word gives a sync error with the file back at the frame's start and a short frame gives end-of-file.",
  ['inputs', 'histories'], 'every byte value of the four widths; first read, and reads after a frame of each width',
  'the tests read one recorded file of one width',
  [RF+'cor.cpp'], [('COR frame parser', RF+'cor.cpp'), ('channel-count detection from the next sync word', RF+'cor.cpp')],
  tech='LLVM-IR symbolic execution + z3', note='All bytes symbolic for the four widths; signed/unsigned corner of four fields excluded; known finding on width growth between files')
P('R05', 'Every VDIF frame decodes to exactly what its bytes say',
  "For every VDIF frame, standard or legacy header, with 1-, 2-, 4- or 8-bit real or complex samples and a power-of-two channel count, reading it gives all the header fields and the samples (VDIF offset-binary levels, channel by time) that the bytes encode, as floats or as integers, and leaves the file at the end of the frame. Frames whose length cannot hold a header give a sync error, unsupported sample widths are refused, and short frames give end-of-file. None of this depends on the size or layout of the frames read before.",
  ['inputs', 'histories'], 'every header bit and payload byte for the listed layouts with 1 to 4 channels (16 in thorough) and 16- or 24-byte payloads (up to 128)',
  'the tests read a couple of frames of one recorded file with one sample width',
  [RF+'vdif.cpp'], [('VDIF frame parsers', RF+'vdif.cpp'), ('sample look-up tables', RF+'gofast.cpp')],
  tech='LLVM-IR symbolic execution + z3', note='Payload sizes and channel counts bounded; all other bits symbolic; trusts the C-API model')
P('R06', 'Every DR spectrometer frame decodes to exactly what its bytes say',
  "For every DR spectrometer frame carrying one of the documented product sets, reading it gives the beam, decimation, time offset, integration count, tuning words, fills, errors, saturation counts and time tag, and for each tuning and product the spectrum the payload words encode divided by the number of samples averaged for that product. A wrong magic number gives a sync error with the file back at the frame's start, a short frame gives end-of-file, and an undocumented product set is refused.",
  ['inputs', 'histories'], 'every header byte and payload word for the 13 product sets with up to 3 channels (32 in thorough), reads after a frame of another size',
  'the tests read recorded files of a few product sets',
  [RF+'drspec.cpp'], [('spectrometer frame parser', RF+'drspec.cpp'), ('product-set splitters', RF+'drspec.cpp')],
  tech='LLVM-IR symbolic execution + z3', note='Fields bit-precise; normalisation in exact reals, non-zero fills')
P('R07', 'Reading any bytes never corrupts memory, leaks or half-fills a frame',
  "Whatever bytes a file holds, and wherever a read, seek or allocation fails, reading a frame of any supported format either returns the frame or raises: it never reads or writes outside its buffers, never releases an object twice, never keeps one it should have released, and never returns a result while an exception is pending. A failed read leaves the frame object it was given unchanged.",
  ['inputs', 'fault_sequences'], 'every file content of one frame; a failure of any one file operation or allocation',
  'the tests only read well-formed recorded files and inject no faults',
  [RF+'drx.cpp', RF+'drx8.cpp', RF+'tbx.cpp', RF+'cor.cpp', RF+'vdif.cpp', RF+'drspec.cpp'],
  [('reference counts on every exit path', RF+'*.cpp'), ('buffer sizes from header fields', RF+'vdif.cpp')],
  tech='LLVM-IR symbolic execution with fault injection + z3', note='Single faults; sizes bounded as in R01-R06; trusts the C-API reference-count model')
