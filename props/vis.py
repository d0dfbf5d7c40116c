from props.base import P

LI = 'lsl/imaging/'
PYNP = 'symbolic execution of the Python code on arrays of polynomials; identities and branches decided by z3'
P('V01', 'Visibility containers keep baselines, uvw, data, weights and masks in step',
  "Through every sequence of appending, extending, sorting, rotating, replacing, copying and selecting, each baseline of a VisibilityDataSet keeps its own (u,v,w), and in every polarization its own data, weights and mask; copies share nothing and keep extra attributes; refused operations change nothing. Selections by (u,v) distance and by antenna (indices or stands, include before exclude) hold exactly the baselines that qualify. VisibilityData holds integrations of different times and equal dimensions, however they are added, in time order once sorted. rephase removes the old phase centre and applies the new one, each computed for the time of the integration, in data and (u,v,w) alike. convert_to_stokes, convert_to_linear and convert_to_circular return I = XX+YY, Q = XX-YY, U = XY+YX, V = i(XY-YX), their inverses, and RR = I+V, LL = I-V, RL = Q+iU, LR = Q-iU for every product whose parts are there, with mean weights and joined masks; scale_data multiplies each baseline by its antennas' gains and delay and phase differences. Neither changes its input.",
  ['inputs', 'histories'], 'every data, weight, uvw, time, gain, delay, phase, uv cut and antenna identity; every sequence of three (thorough: four) container operations; every subset of polarization products',
  'the tests look at one data set per operation and mostly at shapes',
  [LI+'data.py', LI+'utils.py', 'lsl/sim/vis.py'],
  [('PolarizationDataSet, VisibilityDataSet, VisibilityData', LI+'data.py'), ('convert_to_stokes, convert_to_linear, convert_to_circular', LI+'utils.py'), ('scale_data', 'lsl/sim/vis.py')],
  tech=PYNP, note='Up to 4 baselines, 2 channels, 2 integrations; aipy phases towards a source are free numbers; integrations whose uv selections differ in number are refused by VisibilityData')
