from props.base import P

LC = 'lsl/correlator/'
LM = 'lsl/misc/'
IR = 'symbolic execution of LLVM IR; polynomial identities decided by z3'
P('K01', 'F engines give the delayed, windowed, phase-rotated spectra of their input',
  "For every input sample, delay, frequency, window, channel count, overlap and blanking level, the F engines (FEngine, PFBEngine) return for each input, channel and transform the discrete Fourier transform of the samples that start at that input's whole-sample delay plus the transform's step (transform length over overlap), weighted by the window or the 4-tap polyphase filter, scaled by one over the square root of the length, rotated by the residual delay at each channel's frequency, and fft-shifted for complex data (8-bit pairs included). As many transforms are made as fit into the samples every input still has after the largest delay, and no sample outside the input is used except zeros before the filter bank's start. A transform is marked invalid and zero exactly when a sample in it reaches the blanking level.",
  ['inputs'], 'every value of the samples of all supported types, window, delays and frequencies for the listed shapes (odd and even channel counts, overlaps that do not divide the length)',
  'the tests run the engines on random data and mostly look at shapes and closeness to a second implementation for a few settings',
  [LC+'core.cpp', LC+'common.hpp'], [('compute_fengine_* and compute_pfb_*', LC+'core.cpp')],
  tech=IR, note='1-2 inputs, 1-8 channels, overlap 1-4, up to 29 samples; real arithmetic with an error allowance; FFTW by its documented transform')
P('K02', 'X engines average the products of transforms valid in both inputs',
  "For every set of channel values and validity flags, the X engines return for each baseline (first input up to the second, autocorrelations included) and channel the mean, over the transforms valid in both inputs, of the first input's value times the conjugate of the second's: XEngine2 for one product, XEngine3 for XX, XY, YX and YY, and the Stokes engine for I = XX+YY, Q = XX-YY, U = XY + its conjugate and V = -i(XY - its conjugate), each product normalized by its own count. Inputs whose dimensions or validity arrays disagree are refused.",
  ['inputs'], 'every channel value and every pattern of validity flags with at least one valid transform, 1-6 inputs, 1-8 channels, 1-8 transforms',
  'the tests use data without flagged transforms or compare shapes',
  [LC+'core.cpp', LC+'stokes.cpp', LC+'blas.hpp'], [('XEngine2/XEngine3', LC+'core.cpp'), ('XEngine3', LC+'stokes.cpp')],
  tech=IR, note='Flags 0 or 1; flagged transforms hold zeros as the F engines make them; real arithmetic with an error allowance')
P('K03', 'Spectrometer kernels average the power of the transforms that are not blanked',
  "For every input sample, window, channel count, overlap and blanking level, FPSD and PFBPSD return for each input and channel the mean, over the transforms that hold no sample at or above the blanking level, of the squared magnitude of the windowed (or 4-tap polyphase filtered) Fourier transform divided by the transform length, fft-shifted for complex data, real input giving the channels from zero frequency up. Every transform that fits in the samples is used and nothing outside them is read.",
  ['inputs'], 'every value of the samples of all supported types and the window for the listed shapes',
  'the tests compare a few random runs to a second implementation for a few settings',
  [LC+'spec.cpp'], [('compute_psd_* and compute_pfb_*', LC+'spec.cpp')],
  tech=IR, note='1-2 inputs, 1-8 channels, overlap 1-4, up to 33 samples; real arithmetic with an error allowance; FFTW by its documented transform')
P('K04', 'Stokes spectrometer kernels give the mean Stokes parameters of the X and Y input',
  "For every pair of X and Y input samples, window, channel count, overlap and blanking level, the Stokes FPSD and PFBPSD return I = |X|^2+|Y|^2, Q = |X|^2-|Y|^2, U = 2 Re(X Y*) and V = 2 Im(X Y*) of the windowed (or polyphase filtered) Fourier transforms, averaged over the transforms in which neither polarization reaches the blanking level and divided by the transform length, fft-shifted for complex data. X and Y arrays of different dimensions are refused and nothing outside the samples is read.",
  ['inputs'], 'every value of the samples of all supported types and the window for the listed shapes',
  'the tests compare a few random runs to a second implementation for a few settings',
  [LC+'stokes.cpp'], [('compute_stokes_* and compute_pfb_*', LC+'stokes.cpp')],
  tech=IR, note='1-2 inputs, 1-8 channels, overlap 1-4, up to 33 samples; real arithmetic with an error allowance; FFTW by its documented transform')
P('K05', 'The frequency-domain beamformer averages the weighted valid inputs',
  "For every input value, complex coefficient and validity flag, BEngine returns for each of the two polarizations, channel and time the sum over the inputs valid for that polarization of coefficient times value, divided by the number of valid inputs, and zeros when no input is valid. Coefficient, data and validity arrays whose dimensions disagree are refused.",
  ['inputs'], 'every sample of all supported types, coefficient and flag pattern, 1-12 inputs, 1-4 channels, 1-97 times (block edges included)',
  'the tests form a few beams with all inputs valid',
  [LM+'beamformer.cpp'], [('BEngine', LM+'beamformer.cpp')],
  tech=IR, note='Flags 0 or 1; real arithmetic with an error allowance')
P('K06', 'Kernels keep memory, threads and the interpreter intact',
  "For every call of the correlator, spectrometer, beamformer and gridder kernels, whether it succeeds, is refused or runs out of memory for its arrays: no memory outside the arrays is touched; no two iterations of a parallel loop access the same memory unordered with one of them writing; everything allocated is released and every reference is balanced; the Python API is only used while the interpreter lock is held; and a call either returns a result or raises. Non-positive channel counts and overlaps, arrays whose dimensions disagree, unsupported types and window functions that raise or return anything but the asked-for number of points are refused with an exception.",
  ['inputs', 'schedules', 'fault_sequences'], 'every sample value, any two iterations on different threads in either order, a failed array allocation at any point, every kind of bad argument listed',
  'the tests call the kernels with good arguments; races and leaks do not fail them',
  [LC+'core.cpp', LC+'spec.cpp', LC+'stokes.cpp', LM+'beamformer.cpp', 'lsl/imaging/gridder.cpp'],
  [('FEngine, PFBEngine, XEngine2, XEngine3', LC+'core.cpp'), ('FPSD, PFBPSD', LC+'spec.cpp'), ('FPSD, PFBPSD, XEngine3', LC+'stokes.cpp'), ('BEngine', LM+'beamformer.cpp'), ('WProjection', 'lsl/imaging/gridder.cpp')],
  tech='symbolic execution of LLVM IR compiled with OpenMP; race, bounds and feasibility queries decided by z3',
  note='1-5 inputs, 1-3 channels, up to 40 threads; scratch allocation failures and concurrent FFTW planning are outside')
P('K07', 'The w-projection gridder puts every visibility on the uv plane once',
  "For every set of visibility and weight values, the gridder splits the visibilities in their given order into w planes, beginning a new plane where the signed square root of w has grown by the w resolution, spreads each visibility that falls on the plane over the 7 x 7 pixels around (-v, u) in units of the resolution (wrapping at the edges) with the tabulated sinc times Kaiser-Bessel kernel, applies to each plane's image the w term of its mean w, and returns the sums of the planes for visibilities and weights together with the image correction of the kernel. Visibilities off the plane change nothing, the result does not depend on earlier calls, and arrays of different lengths are refused.",
  ['inputs', 'histories'], 'every visibility and weight value, positions on, between and off pixels and at the edges, one to four w planes, any w within one plane, odd and even sizes',
  'the tests only image one simulated data set and look at its shape',
  ['lsl/imaging/gridder.cpp'], [('compute_gridding, compute_planes, w_projection_kernel, compute_kernel_correction', 'lsl/imaging/gridder.cpp')],
  tech=IR, note='Positions are concrete, values symbols; planes of 8-12 pixels a side; FFTW and GSL by their documented functions')
PYNP = 'symbolic execution of the Python code on arrays of polynomials; identities and branches decided by z3'
P('K08', 'Correlator and spectrometer front ends align, order and correct every baseline',
  "For every set of antenna positions, cable delays and gains and every phase centre, FXMaster, FXStokes, XMaster and XStokes hand the engines the signals of the asked-for polarizations in antenna order, delays that differ between any two inputs by cable delay minus the geometric delay towards the phase centre (never negative at mid-band, finite even where a cable's delay is not), and the caller's settings; they return, for each pair of stands in order (autocorrelations on request), the engine's visibility of that pair, phased to the phase centre in XMaster and XStokes, divided by the square root of the product of both cable gains when gain correction is on, together with the frequency of every channel and the matching baseline list. This includes antenna orders other than X, Y alternating and X and Y delays that leave different numbers of transforms. SpecMaster and StokesMaster do the same for the power spectra.",
  ['inputs', 'configurations'], 'every position, delay, gain and visibility value and (where listed) phase centre direction, for 2-4 stands in five antenna orders, all polarization products, real, complex and 8-bit data',
  'the tests correlate noise for the stock LWA1 antennas and mostly look at shapes',
  [LC+'fx.py', LC+'uvutils.py'], [('SpecMaster, StokesMaster, FXMaster, FXStokes, XMaster, XStokes', LC+'fx.py')],
  tech=PYNP, note='The compiled engines stand as what K01-K05 establish; X and Y antennas in the same stand order; real arithmetic')
P('K09', 'Baselines and their (u,v,w) coordinates follow from the antenna positions',
  "For every set of antenna positions, frequencies, hour angle, declination and site latitude, compute_uvw returns for each baseline (first minus second antenna) and frequency its length in wavelengths along the directions of increasing right ascension (u), increasing declination (v) and the source (w), with the shape of the frequency array kept; compute_uv_track returns 512 finite points of the ellipse that baseline traces, out along one half and back along the other. Hour angles and declinations count the same whichever supported type they come in. get_baselines lists each pair of antennas once, first up to the second, baseline_to_antennas picks from that list, and antennas_to_baseline returns the index of the baseline of exactly the two antennas asked for, in either order, or -1.",
  ['inputs'], 'every position, frequency, hour angle, declination and latitude, and every coincidence of antenna identities in the look-ups, for 2-4 antennas',
  'the tests compare a few values for the stock antennas and look at shapes',
  [LC+'uvutils.py', 'lsl/common/stations.py'], [('compute_uvw, compute_uv_track, get_baselines, baseline_to_antennas, antennas_to_baseline', LC+'uvutils.py')],
  tech=PYNP, note='Angle objects and EarthLocation sites with one value each; real arithmetic, square roots of exact cancellations count as unsafe')
