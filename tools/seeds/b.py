HEAD = '''
import numpy as np
import razorback as rb
from razorback.signalset import SignalSet, SyncSignal, Tags, Inventory
from razorback.utils import impedance
rng = np.random.default_rng(1)
cplx = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
def refused(f, *exc):
    try:
        f()
    except (exc or Exception):
        return True
    return False
def lines(*names, n=6000, sr=100., start=0.):
    nb = 2 * len(names)
    return SignalSet(Tags(nb, **{k: (2 * i, 2 * i + 1) for i, k in enumerate(names)}), SyncSignal(list(rng.normal(size=(nb, n))), sr, start))
'''


def S(id, prop, file, old, new, needs, what, demo):
    edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
    return dict(id=id, property=prop, file=file, edits=edits, needs=needs, what=what, demo=HEAD + demo)


SEEDS = [
S('late-calib', 'C01', 'signalset.py', "(lambda cc: (lambda f: cc))(cal)\n            for cal in calibrations", "(lambda f: cal)\n            for cal in calibrations",
  'several channels with different constant calibrations', 'all channels get the last constant calibration (late binding of the loop variable)', '''
s = SyncSignal([np.arange(8.)] * 3, 1., 0., [2., 3., 5.])
assert [c(1.) for c in s.calibrations] == [2., 3., 5.], [c(1.) for c in s.calibrations]
'''),
S('select-sorted', 'C01', 'signalset.py', "            calibrations=[self.calibrations[i] for i in indices],", "            calibrations=[self.calibrations[i] for i in sorted(indices)],",
  'selecting channels of a run in decreasing order', 'data and calibrations are exchanged', '''
s = SyncSignal([np.full(8, k) for k in range(3)], 1., 0., [2., 3., 5.])
r = s.select(2, 0)
assert [(float(d[0]), c(1.)) for d, c in zip(r.data, r.calibrations)] == [(2., 5.), (0., 2.)]
'''),
S('calib-cache', 'C08', 'signalset.py', "        calibrations = [f_calib(freq) for f_calib in self.calibrations]\n",
  "        if getattr(self, '_response', None) is None:\n            self._response = [f_calib(freq) for f_calib in self.calibrations]\n        calibrations = self._response\n",
  'two frequencies computed from one signal set', 'the calibration of the first frequency is used for all', '''
s = SyncSignal([rng.normal(size=1000)], 10., 0., [lambda f: f])
p = SyncSignal(s.data, 10.)
for f in 1., 2.:
    a, b = s.fourier_coefficients(f, 8, .5, None)[0][0], p.fourier_coefficients(f, 8, .5, None)[0][0]
    assert np.allclose(a * f, b)
'''),
S('untagged-shift', 'C02', 'signalset.py', "shift = reduce(lambda c, s: c+[c[-1]+s.nb_channels], seqs, [0])", "shift = reduce(lambda c, s: c+[c[-1]+len({i for t in s.tags.values() for i in t})], seqs, [0])",
  'a set with an untagged channel', 'after a merge the tags designate other channels', '''
mk = lambda k, **t: SignalSet(Tags(2, **t), SyncSignal([np.full(9, 10. * k), np.full(9, 10. * k + 1)], 1.))
m = mk(1, a=0) & mk(2, b=1)
assert float(m.b.signals[0].data[0][0]) == 21., m.b.signals[0].data
'''),
S('tags-alias', 'C03', 'signalset.py', "        self._tags = Tags(n or None, **value)\n", "        self._tags = value if isinstance(value, Tags) and len(value.indices) == n else Tags(n or None, **value)\n",
  'changing the tags of a set obtained from another one', 'the tags of the original set change too', '''
s = lines('E', 'B')
r = s.extract_t(1, 20)
r.tags['X'] = (0, 3)
assert 'X' not in s.tags
'''),
S('opts-default', 'C03', 'utils.py',
  "    fourier_opts = fourier_opts if fourier_opts else {}\n    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))\n\n    mest_opts",
  "    fourier_opts = fourier_opts if fourier_opts else {}\n    for k, v in default_fourier_opts.items():\n        fourier_opts.setdefault(k, v)\n\n    mest_opts",
  'looking at the options after the call', 'the caller’s dictionary of options is completed with the defaults', '''
o = dict(Nper=4)
impedance(lines('E', 'B'), [5.], fourier_opts=o)
assert o == dict(Nper=4), o
'''),
S('inplace-invalid', 'C03', 'utils.py', "invalid_idx = [np.repeat(2 * np.asarray(ii, dtype=int), 2) for ii in invalid_idx]", "doubled = map(np.asarray, invalid_idx)\n        invalid_idx = [np.repeat(np.multiply(ii, 2, out=ii), 2) for ii in doubled]",
  'the real-valued formulation with windows already rejected', 'the arrays of rejected windows of the caller are doubled', '''
from razorback.utils import transfer_function_real_prob as tf
iv = [np.array([3, 5]), np.array([4])]
tf(cplx(2, 50), cplx(2, 50), invalid_idx=iv)
assert [list(i) for i in iv] == [[3, 5], [4]], iv
'''),
S('content-alias', 'C03', 'signalset.py', "        self._content = []\n        self.extend(content)\n", "        self._content = content if isinstance(content, list) else list(content)\n        for e in self._content:\n            self._assert_valid_element(e)\n",
  'an inventory made from a list, then extended', 'the list of the caller grows', '''
a, b = lines('E'), lines('B')
l = [a]
i = Inventory(l)
i.append(b)
assert len(l) == 1
l2 = [a]
j = Inventory(l2)
l2.append(3)
assert len(j) == 1
'''),
S('calib-count', 'C04', 'signalset.py', "        assert len(data) == len(calibrations)\n", "        assert len(data) <= len(calibrations)\n",
  'more calibrations than channels', 'an ill-formed signal is accepted', '''
assert refused(lambda: SyncSignal([np.arange(8.)] * 2, 1., 0., [1., 2., 3.]))
'''),
S('negative-start', 'C05', 'signalset.py', "        new_start = self._index_to_time(i_start)\n", "        new_start = self.start + i_start / self.sampling_rate\n",
  'a cut counted from the end', 'the samples kept are dated before the start of the signal', '''
s = SyncSignal([np.arange(100.)], 2., 50.)
r = s.extract_i(-10, None, strict=False)
assert list(r.data[0]) == list(range(90, 100)) and r.start == 95., r.start
'''),
S('int32-index', 'C05', 'signalset.py', "        return int(round_(index))\n", "        return int(np.int32(round_(index)))\n",
  'a recording of more than 2**31 samples', 'the index of a sample wraps', '''
import dask.array as da, warnings
warnings.simplefilter('ignore')
s = SyncSignal([da.zeros(3_000_000_000, chunks=100_000_000)], 1000.)
r = s.extract_t(2.5e6, 2.6e6)
assert r.start == 2.5e6 and r.size == 100_000_001, (r.start, r.size)
'''),
S('rate-break', 'C06', 'signalset.py', "            if len(sr) != 1:\n                continue\n", "            if len(sr) != 1:\n                break\n",
  'runs of different sampling rates facing each other before matching ones', 'the common intervals that follow are lost', '''
a = SignalSet(Tags(1, a=0), SyncSignal([np.arange(10.)], 1., 0), SyncSignal([np.arange(10.)], 1., 100))
b = SignalSet(Tags(1, b=0), SyncSignal([np.arange(20.)], 2., 0), SyncSignal([np.arange(10.)], 1., 100))
m = a & b
assert list(m.starts) == [100.], m.starts
'''),
S('touching-runs', 'C06', 'signalset.py', "                if fh <= d: continue\n", "                if fh < d: continue\n",
  'a run that ends exactly when a run of the other set starts', 'the merge fails', '''
a = SignalSet(Tags(1, a=0), SyncSignal([np.arange(11.)], 1., 0), SyncSignal([np.arange(11.)], 1., 20))
b = SignalSet(Tags(1, b=0), SyncSignal([np.arange(21.)], 1., 10))
m = a & b
assert [tuple(i) for i in m.intervals] == [(20., 30.)], m.intervals
'''),
S('mixed-rates', 'C07', 'signalset.py', "            start, stop = np.where(mask[:, None], self.intervals, np.nan).T\n", "            start, stop = np.where(mask[:, None], self.intervals, -np.inf).T\n",
  'three runs following one another, the middle one with another sampling rate', 'an interval that is not of this sampling rate is no longer ignored', '''
import warnings
warnings.simplefilter('error')
s = SignalSet(Tags(1, a=0), *(SyncSignal([np.arange(10.)], r, t) for r, t in [(1., 0.), (2., 100.), (2., 200.), (1., 300.)]))
m = s.merge_consecutive_runs()
assert m.nb_runs == 4
'''),
S('window-memo', 'C09', 'fourier_transform.py', ["    # Lw, _ = divmod(Nper, normalized_freq)\n    Lw = np.ceil(Nper / float(normalized_freq))\n    shift = int(Lw * (1-overlap))\n", "def discrete_window(size, normalized_freq, Nper, overlap):\n"],
  ["    key = float(normalized_freq), Nper\n    if key not in _WINDOWS:\n        Lw = np.ceil(Nper / float(normalized_freq))\n        _WINDOWS[key] = Lw, int(Lw * (1-overlap))\n    Lw, shift = _WINDOWS[key]\n", "_WINDOWS = {}\n\n\ndef discrete_window(size, normalized_freq, Nper, overlap):\n"],
  'two calls with different overlaps', 'the shift between windows is that of an earlier call', '''
from razorback.fourier_transform import discrete_window
a = discrete_window(1000, .1, 8, .5)
b = discrete_window(1000, .1, 8, .75)
assert a[2] == 40 and b[2] == 20, (a, b)
'''),
S('drop-last', 'C09', 'fourier_transform.py', "        da.overlap.sliding_window_view(y, Lw)[::shift]\n", "        da.overlap.sliding_window_view(y, Lw)[:Nw * shift:shift]\n",
  'a signal whose windows fill it exactly or nearly', 'the last window is dropped', '''
from razorback.fourier_transform import time_to_freq
(c,), (Nw, Lw, shift) = time_to_freq([np.arange(100.)], 1., .1, 2, .5)
assert (Nw, Lw, shift) == (9, 20, 10) and len(c) == 9, (Nw, Lw, shift)
'''),
S('complex64', 'C10', 'mestimator.py', "    inputs = np.array(inputs, copy=False)\n    outputs = np.array(outputs, copy=False)\n    assert inputs.ndim == 2\n    assert outputs.ndim == 2\n    assert inputs.shape[1] == outputs.shape[1]\n    assert len(invalid_idx) == len(outputs)\n\n    if init",
  "    inputs = np.array(inputs, dtype=np.complex64)\n    outputs = np.array(outputs, copy=False)\n    assert inputs.ndim == 2\n    assert outputs.ndim == 2\n    assert inputs.shape[1] == outputs.shape[1]\n    assert len(invalid_idx) == len(outputs)\n\n    if init",
  'looking at more than seven digits', 'the estimate is computed from rounded inputs', '''
from razorback.mestimator import transfer_function
x = cplx(2, 40)
z = cplx(2, 2)
r, _ = transfer_function(z @ x, x)
assert np.abs(r - z).max() < 1e-10, np.abs(r - z).max()
'''),
S('init-shared', 'C10', 'mestimator.py', "chain_m_estimate(line, inputs.T, weights, init[i], ivid_0, **options)", "chain_m_estimate(line, inputs.T, weights, init[-1], ivid_0, **options)",
  'several outputs with their own initial guess', 'the guess of another output is used', '''
from razorback.mestimator import transfer_function
seen = []
def w(it, residual, e, b, iv):
    if it == 0:
        seen.append(np.abs(residual).max())
    return np.ones(len(e))
x, z = cplx(2, 40), cplx(2, 2)
transfer_function(z @ x + .01 * cplx(2, 40), x, weights=(w,), init=z)
assert max(seen) < .1, seen
'''),
S('sym-solve', 'C10', 'mestimator.py', "    return linalg.solve(A, rhs)\n", "    return linalg.solve(A, rhs, assume_a='sym')\n",
  'complex inputs that are correlated with a phase', 'the system is solved as if its matrix were symmetric', '''
from razorback.mestimator import wlse
y = cplx(40, 2)
y[:, 1] += 2j * y[:, 0]
z = cplx(2)
assert np.allclose(wlse(y @ z, y), z)
'''),
S('float32-times', 'C12', 'utils.py', "ivt_line = np.empty(len(ivid_line))", "ivt_line = np.empty(len(ivid_line), dtype=np.float32)",
  'recordings dated in POSIX time', 'the times of rejected windows are rounded to minutes', '''
s = lines('E', 'B', start=1.5e9)
pre = lambda e, b: np.array([1, 2])
r = impedance(s, [5.], prefilter=pre, keep_invalid_times=True)
t = r.invalid_time[0][0]
assert abs(np.diff(t)[0]) < 10 and t[0] != t[1], t
'''),
S('half-window', 'C12', 'utils.py', "    ivid = [np.unique(ii // 2) for ii in ivid]\n", "    ivid = [ii[::2] // 2 for ii in ivid]\n",
  'the real-valued formulation rejecting one half of a window', 'a rejected window is not reported', '''
from razorback.utils import transfer_function_real_prob as tf
def w(it, r, e, b, iv):
    x = np.ones(len(e)); x[[4, 7, 9]] = 0
    return x
z, iv = tf(cplx(1, 30), cplx(2, 30), weights=(None, w))
assert list(iv[0]) == [2, 3, 4], iv
'''),
S('unsorted-invalid', 'C12', 'mestimator.py', "_max = lambda it: max(it) if len(it) else 0", "_max = lambda it: it[-1] if len(it) else 0",
  'initial rejected windows given in any order', 'rejected windows are not reported', '''
from razorback.mestimator import transfer_function
z, iv = transfer_function(cplx(1, 30), cplx(2, 30), invalid_idx=[[20, 3]])
assert list(iv[0]) == [3, 20], iv
'''),
S('thomson-xi', 'C13', 'weights.py', "            xi = (2 * np.log(2 * len(residual))) ** .5\n", "            xi = self._xi = (2 * np.log(2 * len(residual))) ** .5\n",
  'the same weighting used for two frequencies', 'the threshold of the second one is that of the first', '''
from razorback.weights import Thomson
w = Thomson()
r = lambda n: cplx(n)
w(0, r(1000), None, None, [])
x = cplx(20)
a = w(0, x, None, None, [])
b = Thomson()(0, x, None, None, [])
assert np.array_equal(a, b)
'''),
S('slepian-memo', 'C32', 'fourier_transform.py', ["    if N <= N_MAX:\n        res = signal.windows.dpss(N, tau)\n        res /= res.mean()\n", "def slepian(N, tau, N_MAX=1000):\n"],
  ["    if N in _TAPERS:\n        return _TAPERS[N]\n    if N <= N_MAX:\n        res = signal.windows.dpss(N, tau)\n        res /= res.mean()\n        _TAPERS[N] = res\n", "_TAPERS = {}\n\n\ndef slepian(N, tau, N_MAX=1000):\n"],
  'tapers of the same length with two parameters', 'the second taper is the first one', '''
from razorback.fourier_transform import slepian
a, b = slepian(50, 4), slepian(50, 2)
assert not np.allclose(a, b)
'''),
S('dir-order', 'C14', 'io/ats.py', "    filenames = sorted(glob.glob(os.path.join(path, '*.ats')))\n", "    filenames = glob.glob(os.path.join(path, '*.ats'))\n",
  'a file system that lists a directory in another order', 'the order of the channels depends on the directory', '''
from razorback.io import ats
real = ats.glob.glob
ats.load_ats = lambda names, cal=None: names
ats.glob.glob = lambda *a: ['/x/b.ats', '/x/a.ats']
r = ats.load_ats_from('/x')
ats.glob.glob = real
assert list(r) == ['/x/a.ats', '/x/b.ats'], r
'''),
S('remote-set', 'C14', 'signalset.py', "            sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())\n", "            sig.tags[new_tag] = sum((sig.tags[t] for t in set(old_tags)), ())\n",
  'several remote references under some hash seeds', 'the order of the remote channels depends on the hash seed', '''
import os, sys, subprocess
if len(sys.argv) > 1:
    i = Inventory([SignalSet({k: (0, 1)}, SyncSignal([np.arange(9.)] * 2, 1.)) for k in ('Ra', 'Rb', 'Rc', 'Rd', 'Re')])
    g = i.extract_groups([('G', ['Rb', 'Ra', 'Re', 'Rc', 'Rd'])])
    print([[t for t in ('Ra', 'Rb', 'Rc', 'Rd', 'Re') if k in g[0].tags[t]][0] for k in g[0].tags['G'][::2]])
else:
    out = {subprocess.run([sys.executable, __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(k)), stdout=subprocess.PIPE, text=True, check=True).stdout for k in range(6)}
    assert len(out) == 1, out
'''),
S('sorted-freqs', 'C15', 'utils.py', "    for freq in l_freq:\n        res = _impedance(", "    for freq in sorted(l_freq):\n        res = _impedance(",
  'frequencies that are not in increasing order', 'the results are not in the order of the request', '''
s = lines('E', 'B')
a = impedance(s, [5., 2.]).impedance
b = impedance(s, [2.]).impedance
assert np.allclose(a[1], b[0])
'''),
S('freq-iterator', 'C15', 'utils.py', "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    for freq in l_freq:\n        res = _impedance(", "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    print('%d frequencies' % sum(1 for _ in l_freq))\n    for freq in l_freq:\n        res = _impedance(",
  'frequencies given as an iterator', 'the result is empty', '''
r = impedance(lines('E', 'B'), (f for f in [5., 2.]))
assert r.impedance.shape == (2, 2, 2), r.impedance.shape
'''),
S('opts-pop', 'C15', 'utils.py', ["    # TODO: cleaning structure with `return empty` when fails\n"], ["    if mest_opts.pop('verbose', False) or 'maxit' in mest_opts:\n        maxit = int(mest_opts.pop('maxit', 100))\n        mest_opts_ = dict(mest_opts, maxit=maxit)\n    else:\n        mest_opts_ = mest_opts\n    mest_opts, mest_opts_ = mest_opts_, mest_opts\n"],
  'an option of the estimator and several frequencies', 'only the first frequency uses the option', '''
n = []
class W(object):
    def __call__(self, it, r, e, b, iv):
        n.append(it)
        return rng.random(len(e))
impedance(lines('E', 'B'), [5., 3.], weights=(None, W()), mest_opts=dict(maxit=3, tol=0.))
assert max(n) == 2, max(n)
'''),
S('numpy-int', 'C17', 'io/binary_file_array.py', "        elif int(index) == index:\n            index = int(index)\n", "        elif isinstance(index, int):\n",
  'an index that is a numpy integer', 'the index is refused', '''
import tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    np.arange(20, dtype='i4').tofile(d + '/x')
    p = BinaryFileArray_1D(d + '/x', 0, 20, 'i4')
    assert p[np.int64(3)] == 3 and p[np.uint8(4)] == 4
'''),
S('lsb-float32', 'C18', 'io/ats.py', "    arr = lsbval * arr\n", "    arr = np.float32(lsbval) * arr\n",
  'a scale factor that is not exact in single precision', 'the samples are rounded', '''
import tempfile, struct
from razorback.io import ats
with tempfile.TemporaryDirectory() as d:
    h = struct.pack('hhifid', 1024, 80, 10, 64., 1000, 0.1)
    with open(d + '/x.ats', 'wb') as f:
        f.write(h.ljust(1024, b'\\0'))
        f.write(np.arange(10, dtype='i4').tobytes())
    x = ats.load_ats([d + '/x.ats']).data[0]
    assert np.array_equal(np.asarray(x), .1 * np.arange(10)), np.asarray(x)
'''),
S('fixed-offset', 'C18', 'io/ats.py', "    header_length = header['header_length']\n", "    header_length = 1024\n",
  'an ats file with a longer header', 'the end of the header is read as samples', '''
import tempfile, struct
from razorback.io import ats
with tempfile.TemporaryDirectory() as d:
    h = struct.pack('hhifid', 1040, 80, 10, 64., 1000, 1.)
    with open(d + '/x.ats', 'wb') as f:
        f.write(h.ljust(1040, b'\\0'))
        f.write(np.arange(10, dtype='i4').tobytes())
    x = ats.load_ats([d + '/x.ats']).data[0]
    assert np.array_equal(np.asarray(x), np.arange(10)), np.asarray(x)
'''),
S('probe-write', 'C19', 'data.py', ["import pathlib\n", "    if local.is_dir():\n"], ["import os\nimport pathlib\n", "    os.makedirs(local.parent, exist_ok=True)\n    if local.is_dir():\n"],
  'asking for a path where nothing exists', 'a directory is created', '''
import tempfile, os
from razorback import data
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    data.data_path('metronix_calibration')
    l = os.listdir(d)
    os.chdir('/')
    assert not l, l
'''),
S('alpha-leak', 'C20', 'calibrations.py', "    if alpha_map is None:\n        alpha_map = METRONIX_ALPHA_MAP\n", "    known = METRONIX_ALPHA_MAP\n    known.update(alpha_map or {})\n    alpha_map = known\n",
  'a call with its own table of sensors, then one without', 'the table given once is used for all later calls', '''
import tempfile, os
from razorback import calibrations as c
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'MFS06_x.txt')
    open(p, 'w').write('Chopper On\\n10. .2 45.\\n100. .3 40.\\n\\nChopper Off\\n10. .2 45.\\n100. .3 40.\\n')
    a = c.metronix(p, 64.)(1.)
    c.metronix(p, 64., alpha_map={'MFS06': 9.})
    b = c.metronix(p, 64.)(1.)
    assert a == b, (a, b)
'''),
S('chopper-limit', 'C20', 'calibrations.py', "    chopper = sampling_rate <= chopper_on_limit\n", "    chopper = sampling_rate < chopper_on_limit\n",
  'a sampling rate exactly at the limit', 'the table of the other mode is used', '''
import tempfile, os
from razorback import calibrations as c
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'MFS06_x.txt')
    open(p, 'w').write('Chopper On\\n10. .2 0.\\n100. .2 0.\\n\\nChopper Off\\n10. .7 0.\\n100. .7 0.\\n')
    assert abs(c.metronix(p, 512.)(20.) - 4.) < 1e-9
'''),
S('absolute-change', 'C21', 'mestimator.py', "            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = abs((wresid - wresid_prev) / max(wresid_prev, 1))\n",
  'signals of small amplitude', 'the iteration stops before it has converged', '''
from razorback.mestimator import m_estimate
e, b = 1e-6 * cplx(60), cplx(60, 2)
n = []
def w(it, r, *a):
    n.append(it)
    return np.minimum(1, 1e-7 / abs(r))
m_estimate(e, b, np.zeros(2), w, None, tol=1e-6)
k = len(n); n.clear()
m_estimate(1e9 * e, b, np.zeros(2), lambda it, r, *a: w(it, r * 1e-9), None, tol=1e-6)
assert k == len(n), (k, len(n))
'''),
S('asarray-proxy', 'C22', 'signalset.py', "        data = tuple(data)\n        #\n", "        data = tuple(d if hasattr(d, 'dask') else np.asarray(d) for d in data)\n        #\n",
  'channels that are not dask arrays but read on demand', 'all samples are read when the signal is built', '''
class P(object):
    shape, dtype, ndim = (9,), np.dtype(float), 1
    def __len__(self):
        return 9
    def __getitem__(self, i):
        assert isinstance(i, slice)
        return self
    def __array__(self, dtype=None, **k):
        raise RuntimeError('read')
SyncSignal([P()], 1.)
'''),
S('bi-dim', 'C23', 'weights.py', "    lower = gammaincinv(dim, .5 * reject_prob) / dim\n", "    lower = gammaincinv(dim, .5 * reject_prob) / 2\n",
  'another dimension than that of magnetotellurics', 'the lower leverage limit is wrong', '''
from scipy.special import gammaincinv
from razorback.weights import bi_weights
w = bi_weights(.1, 2, dim=3)
assert np.isclose(w[3]._lower, gammaincinv(3, .05) / 3)
'''),
S('bi-steps', 'C23', 'weights.py', "    res = [None] + res[::-1]\n", "    res = [None] + res\n",
  'more than one step', 'the leverage limits widen instead of narrowing', '''
from razorback.weights import bi_weights
w = bi_weights(.1, 3)
k = [s._khi for s in w[1:]]
assert k == sorted(k, reverse=True), k
'''),
S('ivt-first', 'C24', 'utils.py', "            merged_ivT = reduce(np.union1d, ivT, np.empty(0, dtype=int))\n", "            merged_ivT = reduce(np.union1d, ivT[:1], np.empty(0, dtype=int))\n",
  'a window rejected for the second magnetic channel only', 'the window is used in the second stage', '''
s = lines('E', 'B', 'R')
k = []
def pre(e, b):
    k.append(len(k))
    return np.array([3]) if k[-1] == 1 else np.array([], dtype=int)
seen = []
def w(it, r, e, b, iv):
    seen.append(len(e))
    return np.ones(len(e))
impedance(s, [5.], remote='R', remote_prefilter=pre, prefilter=lambda e, b: np.array([], dtype=int), remote_weights=(None,), weights=(None, w))
n = s.fourier_coefficients(5., 8, .71, None)[1][0][0]
assert seen and set(seen) == {n - 1}, (set(seen), n)
'''),
S('remote-prefilter', 'C24', 'utils.py', "        remote_prefilter = remote_prefilter or prefilter\n", "",
  'a remote reference and a single prefilter', 'the first stage is not filtered', '''
s = lines('E', 'B', 'R')
k = []
def pre(e, b):
    k.append(len(k))
    return np.array([], dtype=int)
impedance(s, [5.], remote='R', prefilter=pre)
assert len(k) == 4, k
'''),
S('empty-sets', 'C25', 'signalset.py', "        content = (e for e in content if e.signals)\n", "        content = (e for e in content if e.nb_channels)\n",
  'cutting an inventory where one set has no sample', 'a set without run stays in the inventory', '''
i = Inventory([lines('E'), lines('B', start=1e6)])
assert len(i.extract_t(0, 100)) == 1
'''),
S('prefix-filter', 'C25', 'signalset.py', "keys = set().union(*(fnmatch.filter(self.tags, p) for p in patterns))\n", "keys = {t for t in self.tags for p in patterns if fnmatch.fnmatch(t.lower(), p.lower())}\n",
  'tags that differ by case', 'channels that do not match are selected', '''
i = Inventory([lines('Ex'), lines('EX')])
assert i.filter('Ex').tags == {'Ex'}
'''),
S('combos-none', 'C27', 'utils.py', "remote_tags = [remote_names[e] for e in rindices if e is not None]", "remote_tags = [remote_names[e] for e in rindices if e]",
  'the first remote reference', 'the first remote is never used', '''
import razorback.utils as u
s = lines('E', 'B', 'R1')
seen = []
u.impedance = lambda d, f, **o: seen.append(o['remote']) or u.ImpedanceResult(0, 0, 0, 0)
u.impedance_mass_proc(Inventory([s]), ['R1'], [5.], [(0, 30)], {})
assert seen == [None, 'Bremote'], seen
'''),
S('shared-lists', 'C27', 'utils.py', "        tl_z, tl_ivt, tl_err, tl_T = [], [], [], []\n        for i, interval in enumerate(l_interval):\n            n, m = map(len, [remote_combination, l_interval])\n            print('%.1f%%' % ((100. * (k*m+i) / (n*m))))\n            rdata = data.extract_t(*interval)\n            res = impedance",
  "        tl_z, tl_ivt, tl_err, tl_T = [], [], *[[]] * 2\n        for i, interval in enumerate(l_interval):\n            n, m = map(len, [remote_combination, l_interval])\n            print('%.1f%%' % ((100. * (k*m+i) / (n*m))))\n            rdata = data.extract_t(*interval)\n            res = impedance",
  'looking at the errors of mass processing', 'errors and remote transfers are mixed in one list', '''
import razorback.utils as u
r = u.impedance_mass_proc(Inventory([lines('E', 'B')]), [], [5.], [(0, 30), (20, 50)], {})
assert len(r.error[0]) == 2, len(r.error[0])
'''),
S('xor-prefilter', 'C28', 'utils.py', "    res = [np.union1d(ivid, prefilter(", "    res = [np.setxor1d(ivid, prefilter(",
  'a window rejected by the first stage and by the prefilter', 'the window is accepted again', '''
from razorback.utils import apply_prefilter
r = apply_prefilter(cplx(1, 9), cplx(2, 9), lambda e, b: np.array([2, 3]), [np.array([3, 4])])
assert list(r[0]) == [2, 3, 4], r
'''),
S('greedy-fields', 'C29', 'utils.py', "    p0 = '([_0-9A-Za-z]+?)'\n", "    p0 = '([_0-9A-Za-z]+)'\n",
  'two fields separated by a character they may contain', 'the fields are cut elsewhere', '''
from razorback.utils import tags_from_path
r = list(tags_from_path(['a_b_c.txt'], '{x}_{y}.txt', '{x}-{y}'))
assert r == [('a_b_c.txt', ['a-b_c'])], r
'''),
S('path-memo', 'C30', 'data.py', ["import pathlib\n", "def data_path(target):\n"], ["import functools\nimport pathlib\n", "@functools.lru_cache(maxsize=None)\ndef data_path(target):\n"],
  'changing directory, or creating the local directory, between two calls', 'the path of the first call is given again', '''
import tempfile, os
from razorback import data
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    a = data.data_path('foo')
    os.makedirs(os.path.join(d, 'data', 'foo'))
    b = data.data_path('foo')
    os.chdir('/')
    assert a != b, (a, b)
'''),
S('tuple-format', 'C31', 'signalset.py', '            msg = "values %s should be in indices %s"\n            raise ValueError(msg % (value, self.indices))\n', '            msg = "values should be in indices (given: %s)"\n            raise ValueError(msg % value)\n',
  'a tag of several channels, one of them unknown', 'the error is a TypeError about the message', '''
assert refused(lambda: Tags(2, a=(0, 5)), ValueError)
'''),
S('rate-memory', 'C13', 'weights.py', ["        if it == 0:\n            scale = self._data['scale'] = mad_scale(x, is_absolute=True)\n        else:\n            scale = self._data['scale']\n"], ["        scale = self._data.setdefault(len(x), mad_scale(x, is_absolute=True))\n"],
  'the same weighting used twice with as many windows', 'the scale of an earlier estimate is used', '''
from razorback.weights import Thomson
w = Thomson()
x = cplx(50)
w(0, 100 * x, None, None, [])
a = w(0, x, None, None, [])
b = Thomson()(0, x, None, None, [])
assert np.array_equal(a, b)
'''),
]
