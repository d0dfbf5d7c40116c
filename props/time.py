from props.base import P

P('T01', 'Time stamps keep time tags exactly and order and subtract them correctly',
  "Every DP time tag (196 MHz ticks since 1970) from 1972 to 2100, less any ADP time offset of up to a second, turned into a FrameTimestamp and back is unchanged, also on days with a leap second. Time stamps compare (with each other and with numbers of seconds) as the instants they stand for, and never treat two different time tags as equal. Adding or subtracting seconds (integer, float or timedelta) gives the instant moved by that much and leaves the operand alone, and differences are right to nanoseconds. Conversions from seconds plus fraction, (MJD, MPM) and (MJD, seconds, fraction) give the instant they name; the pulsar MJD has 0 <= seconds < 86400 and 0 <= fraction < 1 and its parts add up.",
  ['inputs'], 'every time tag and offset in the range, every pair of time tags, every number of seconds up to a day',
  'the tests try a dozen instants; single ticks in 2^60 go wrong through rounding',
  ['lsl/reader/base.py'], [('FrameTimestamp', 'lsl/reader/base.py'), ('dp_timetag', 'lsl/reader/base.py'), ('pulsar_mjd', 'lsl/reader/base.py')],
  tech='symbolic execution of the Python code + z3', note='IEEE rounding as relative error; astropy Time replaced by a contract model (exact UTC instants with its measured rounding bounds)')
P('M01', 'Unit conversions of the station words invert each other',
  "For every value of the 32-bit tuning word, converting it to a frequency and back is the identity and the frequency is word*196 MHz/2^32; every frequency from 0 to 98 MHz maps to the closest tuning word. For every delay and gain in range, the NDP and MCS fixed-point words are the value truncated to the documented resolution in the documented byte order, and decode to the value they encode.",
  ['inputs'], 'every word; every real frequency, delay and gain in range',
  'the tests try a few values; rounding fails at isolated words',
  ['lsl/common/ndp.py', 'lsl/common/mcs.py'], [('word_to_freq, freq_to_word', 'lsl/common/ndp.py'), ('delay and gain words', 'lsl/common/ndp.py, lsl/common/mcs.py')],
  tech='symbolic execution of the Python code + z3', note='Exact integers and IEEE rounding as relative error')
