"""Maintain known_findings.json by hand: run once per new entry (never by a check)."""
import json
import os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.json')
L = []
W = (33, 72, 112, 192)
for a in W:
    for b in W:
        if b > a:
            what = (f"a COR file with {b} channels read after one with {a} channels in the same process: the first frame is decoded as {a} channels "
                    "without an error (the format carries no channel count and the reader trusts the previous file's)")
            for k in (f"array _data has shape [{a}, 2, 2] type 14, expected ({b}, 2, 2) 14", f"file left at {32+32*a} instead of {32+32*b}"):
                L.append({'status': 'known', 'property': 'R04', 'key': f"read_cor:{b} channels, after {a}-channel frames:{k}", 'what': what})
FIXED = [
    ('R03', '2175298', 'the first channel of a TBX frame was truncated to a signed 16-bit value'),
    ('R04', '19f6a3a', 'COR first channel and gain of 32768 and above came back as 4294934528 and above'),
    ('R06', '05ea200', 'undocumented DR spectrometer product sets were decoded from memory past the end of the payload'),
    ('R07', '5d22da1', 'the DR spectrometer reader released its read buffer twice on every error after the header'),
    ('R07', '382cdb3', 'the VDIF reader released its read buffer or sample array twice on errors and wrote through NULL after a failed allocation'),
    ('R05', '2ac3c08', 'complex VDIF data read as integers were reinterpreted as floats, reading past the end of the sample array'),
    ('R07', 'ae0da19', 'the TBX and COR readers leaked seek() results and the sample array on mode changes and sync errors'),
    ('T01', 'bcfbbb3', 'time tags of time stamps on days with a leap second came back off by up to 12 us'),
    ('T01', '2c638c9', 'pulsar_mjd gave second 86400 of a day'),
    ('F01', '57f58b2', 'duplicates of one frame hid missing frames: a set with one source twice and another missing counted as full'),
    ('F01', 'f05ee8b', 'flush() returned the remaining sets in order of arrival, not time'),
    ('F01', 'f16929d', 'append() returned True also for dropped frames'),
    ('F01', '6e555b5', 'DRX buffers used the wrong 1980 cut after reset(), VDIF buffers dropped the first frame of an epoch'),
    ('F01', '3f7d847', 'COR fill frames kept NaN and infinite samples'),
    ('F01', '6a17b7e', 'reordered COR sets were not in start channel and baseline order'),
    ('F02', '183cd77', 'reads across more than two parts came back short'),
    ('F02', 'c3804da', 'seek(offset, 2) moved the wrong way'),
    ('F03', '720c64a', 'TBX channel_freqs and sync errors of read_frame_ci8 raised NameError'),
    ('F03', '4fe5700', 'VDIF times of reference epochs that begin with a leap second were a second late'),
    ('K01', 'd6a75ac', 'transforms ran past the end of the samples when the overlap does not divide the transform length'),
    ('K03', 'd90cbaa', 'the channel shift of PSDs of complex data read past the end of the array for odd channel counts'),
    ('K02', '96f1627', 'Stokes I and Q visibilities were normalized with the validity of the XY product'),
    ('F04', '3533095', 'VDIF frames per second was wrong for files that start with the last frame of a second'),
    ('K06', '2805789', 'window functions that raise or return the wrong number of points crashed the F engine and the spectrometers and leaked'),
    ('K06', 'ea22b53', 'LFFT=0 ended the interpreter and overlaps below one were accepted'),
    ('K06', 'f3a16a7', 'the F engines leaked their delay arrays when refusing a data type'),
    ('K07', '60c48f9', 'uv planes were scaled by the size of the first plane gridded in the process'),
    ('K07', '3f05653', 'visibilities that fit one w plane were lost, and 1024 planes overran the plane lists'),
    ('K07', 'fb93108', 'visibilities off the uv plane were written outside of it'),
    ('K08', '54c0cee', 'FXStokes gain-corrected only the first four baselines'),
    ('K08', '6e83bfd', 'FXMaster and FXStokes raised when the longest X and Y delays leave different numbers of transforms'),
    ('K09', '515825d', 'antennas_to_baseline returned a cross-correlation when asked for an autocorrelation'),
    ('K09', '53b7438', 'compute_uv_track returned NaNs at the ends of tracks'),
    ('V01', '02bb32f', 'PolarizationDataSet.append refused every visibility'),
    ('V01', 'cf5d769', 'get_antenna_subset of several integrations ignored indicies=False and needed an antennaarray'),
    ('V01', '445048e', 'VisibilityData.extend skipped the checks of append, and integrations given as a tuple could not be added to'),
    ('V01', 'e5f4067', 'scale_data used the baselines of the first integration for all'),
    ('L01', 'a13e4fe', 'DRX reads failed for sample rates whose time tag step is not exact in floating point'),
    ('L01', '09e333a', 'filling a gap raised IndexError at the end of a file'),
    ('L01', '0f3477d', 'gaps in files without tuning 1, X polarization, were not filled'),
    ('L01', 'f9f4e36', 'gaps near the end of a file raised an error instead of being filled'),
    ('L02', 'c02796a', 'TBX files with gaps between their blocks of channels could not be opened'),
    ('L02', '5d123ff', 'TBX reads after an offset came back short or failed'),
    ('L02', '575ec91', 'gaps in TBX data with a time tag step other than 8192 were not filled'),
    ('L02', '52849ff', 'TBX offsets after a read ignored the frames waiting in the buffer (COR offsets always failed)'),
    ('L02', '5d6128f', 'DR spectrometer reads at a truncated last frame returned zeros without a time'),
    ('A01', 'edc2ed5', 'angles next to whole minutes came back a minute or a degree off in dms and hms'),
    ('A01', '12719ca', 'deg_to_hms() dropped the sign of negative angles and failed from 360 degrees on'),
    ('A01', 'cf607b2', 'add_hms() and += never updated the hours'),
    ('A02', 'ec20989', 'date_to_zonedate() was a second late for times within 0.5 ms of the next second'),
    ('A02', '208454e', 'zonedate_to_date() was a second late for times within 0.5 ms of the next second'),
    ('A02', '168c733', 'get_day_of_week() gave the previous day at midnight of every other day'),
    ('A02', 'a94e699', 'tt_to_tdb() was off by 32.184 s'),
    ('A02', '9324d9e', 'leap_secs() gave fractions on days that end with a leap second'),
    ('A01', '15ec02e', 'gal_posn kept a dms longitude as an object'),
]
for p, c, w in FIXED:
    L.append({'status': 'fixed', 'property': p, 'line': f"fixed: property={p} {c} {w}"})
json.dump(L, open(P, 'w'), indent=1)
