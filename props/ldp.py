from props.base import P

F = 'lsl/reader/ldp.py'
TECH = 'symbolic execution of the Python code over files of symbolic frames; z3 decides every branch and obligation'
P('L01', 'Reads of DRX and DRX8 files give every sample once, in place and in time order',
  "For every DRX or DRX8 file (inputs, sample rate, start time, time offset), and any sequence of reads of any duration, DRXFile and DRX8File return consecutive stretches of the observation until the end of file is reported: each read gives the asked-for duration to the nearest frame (at least one), the time of its first sample, and an array in which row 2*(tuning-1)+polarization holds that input's samples at their time, zeros where a frame is missing and after the end of the file, and the duration actually read. Frames out of order by less than the buffer's depth are put in order. Gaps of a whole number of frames below the auto-fill limit appear as zeros, wherever they are in the file; any other gap raises an error unless time tag errors are ignored. offset() moves by the asked-for time to within two frames from the next sample due (samples waiting in the buffer included), forwards or back, and returns the exact time moved; reset() starts over. The description has the start time, sample rate, frequencies and counts from where the file stands.",
  ['inputs', 'histories', 'fault_sequences'], 'every start time, time offset, duration, offset and length of a gap, and every pattern of missing frames in three or four of the times, for the listed files',
  'the tests read one short stock file without losses',
  [F, 'lsl/reader/buffer.py'], [('DRXFile, DRX8File, LDPFileBase', F)],
  tech=TECH, note='Files of 32-104 frames; 1, 2 or 4 inputs; buffers of 2-4 and the default 20 times; offsets that leave 32 frames; the first 32 frames readable')
P('L02', 'Reads of TBX and DR spectrometer files give every sample once, in place',
  "For every TBX file (blocks of channels adjacent or not, time tag step, start time) and any sequence of reads of any duration or of the whole rest, TBXFile returns consecutive stretches until the end of file is reported: input, channel (in order of frequency, with the frequencies the description lists) and time place every value, missing frames are zeros, gaps of whole steps below the auto-fill limit are zeros wherever they are, other gaps raise an error unless ignored, and the time of the first sample and the duration read are exact. DRSpecFile does the same for spectra (products of tuning 1, then of tuning 2, in the order described), raising an error at a gap unless ignored, and reporting the end of file where no whole spectrum is left. offset() moves to within one time step from the next sample due (samples waiting in the buffer included) and returns the exact time moved; reset() starts over.",
  ['inputs', 'histories', 'fault_sequences'], 'every start time, time offset, duration, offset and length of a gap, and every pattern of missing frames in three of the times, for the listed files',
  'the tests read one short stock file per format without losses',
  [F, 'lsl/reader/buffer.py'], [('TBXFile, DRSpecFile', F)],
  tech=TECH, note='Files of 6-30 times; 1-3 blocks of 4 channels; buffers of 2-4 and the default 25 times; a TBX read may return less than asked for near the end of a file with missing frames')
