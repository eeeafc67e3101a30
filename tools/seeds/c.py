HEAD = '''
import numpy as np
import razorback as rb
from razorback.signalset import SignalSet, SyncSignal, Tags, Inventory
from razorback.utils import impedance
rng = np.random.default_rng(1)
cplx = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
def refused(f, *exc):
    try:
        f()
    except (exc or Exception):
        return True
    return False
def lines(*names, n=6000, sr=100., start=0.):
    nb = 2 * len(names)
    return SignalSet(Tags(nb, **{k: (2 * i, 2 * i + 1) for i, k in enumerate(names)}), SyncSignal(list(rng.normal(size=(nb, n))), sr, start))
'''


def S(id, prop, file, old, new, needs, what, demo):
    edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
    return dict(id=id, property=prop, file=file, edits=edits, needs=needs, what=what, demo=HEAD + demo)



SEEDS = [
S('first-calib', 'C07', 'signalset.py', "data, sampling, group.starts[0], group.signals[0].calibrations\n", "data, sampling, group.starts[0], self.signals[0].calibrations\n",
  'two groups of consecutive runs with different calibrations', 'the second group gets the calibrations of the first', '''
mk = lambda start, cal: SyncSignal([np.arange(10.)], 1., start, [cal])
s = SignalSet({'A': 0}, mk(0., 2.), mk(10., 2.), mk(100., 3.), mk(110., 3.)).merge_consecutive_runs()
assert [x.calibrations[0](1.) for x in s.signals] == [2., 3.], [x.calibrations[0](1.) for x in s.signals]
'''),
S('outer-keep', 'C02', 'signalset.py', "                for k, v in self.tags.items() if keep(v)}", "                for k, v in self.tags.items() if keep((v[0], v[-1]))}",
  'a tag of three channels whose middle one is not selected', 'the tag is kept with a wrong or missing channel', '''
s = SignalSet(Tags(3, A=0, B=1, C=2, ABC=(0, 1, 2)), SyncSignal(list(np.arange(30.).reshape(3, 10)), 1.))
r = s.select_channels(['A', 'C'])
assert set(r.tags) == {'A', 'C'}, r.tags
'''),
S('rate-f32', 'C06', 'signalset.py', "            sr = {s.sampling_rate for s in ss}\n", "            sr = {float(np.float32(s.sampling_rate)) for s in ss}\n",
  'sampling rates that differ by less than single precision', 'runs of different rates are merged', '''
a = SignalSet({'A': 0}, SyncSignal([np.arange(100.)], 100., 0.))
b = SignalSet({'B': 0}, SyncSignal([np.arange(100.)], 100.000001, 0.))
assert (a & b).nb_runs == 0
'''),
S('loose-gap', 'C07', 'signalset.py', "            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])\n", "            is_consecutive = np.isclose(1, (start[1:] - stop[:-1]) * sampling, atol=0.05)\n",
  'a gap a few percent longer than one sampling period', 'runs that are not consecutive are joined', '''
mk = lambda start: SyncSignal([np.arange(10.)], 1., start)
s = SignalSet({'A': 0}, mk(0.), mk(10.03)).merge_consecutive_runs()
assert s.nb_runs == 2, s.nb_runs
'''),
S('short-run', 'C08', 'signalset.py', "        l_coeffs, l_windata = zip(*(\n            ss.fourier_coefficients(freq, Nper, overlap, window, **kwds)\n            for ss in self.signals\n        ))\n",
  "        pairs = []\n        for ss in self.signals:\n            if ss.size * freq >= Nper * ss.sampling_rate:\n                pairs.append(ss.fourier_coefficients(freq, Nper, overlap, window, **kwds))\n        l_coeffs, l_windata = zip(*pairs)\n",
  'a run too short for one window followed by a longer one', 'a run is left out of the triples, so that the indices designate windows of another run', '''
s = SignalSet({'A': 0}, SyncSignal([rng.normal(size=20)], 10., 0.), SyncSignal([rng.normal(size=2000)], 10., 100.))
try:
    _, (nw, lw, sh) = s.fourier_coefficients(1., 8, .5, None)
except ValueError:
    pass
else:
    assert len(nw) == 2, nw
'''),
S('window-norm', 'C09', 'fourier_transform.py', "        x *= window\n\n    result = [da.dot", "        x *= window * (Lw / np.sum(window))\n\n    result = [da.dot",
  'a window function whose mean is not one', 'the coefficients are not those of the tapered samples', '''
from razorback.fourier_transform import time_to_freq
d = rng.normal(size=400)
r, (nw, lw, sh) = time_to_freq([d], 10., 1., 8, .5, window=lambda n: np.full(n, 3.))
q, _ = time_to_freq([d], 10., 1., 8, .5)
assert np.allclose(r[0], 3 * np.asarray(q[0]))
'''),
S('cond-cut', 'C10', 'mestimator.py', "    return linalg.solve(A, rhs)\n", "    return linalg.lstsq(A, rhs, cond=1e-10)[0]\n",
  'inputs of very different amplitudes', 'small inputs are left out', '''
from razorback.mestimator import transfer_function
b = cplx(2, 50); z = np.array([[1., 2.]])
b[1] *= 1e-6
r, _ = transfer_function(z.dot(b), b)
assert np.allclose(r, z, rtol=1e-3), r
'''),
S('start-round', 'C11', 'signalset.py', "        self._start = float(start)\n", "        self._start = round(float(start), 3)\n",
  'a start time that is not a whole number of milliseconds', 'the time origin is changed', '''
s = SyncSignal([np.arange(8.)], 8000., 1.000125)
assert s.start == 1.000125, s.start
'''),
S('eps-const', 'C12', 'mestimator.py', "        (invalid_idx,) = np.nonzero(np.isclose(0, weight, 0, eps))\n", "        (invalid_idx,) = np.nonzero(np.isclose(0, weight, 0, 1e-14))\n",
  'the option eps given', 'windows below the limit are not rejected', '''
from razorback.mestimator import transfer_function
def w(it, r, e, b, iv):
    x = np.ones(len(e)); x[3] = 1e-4
    return x
_, iv = transfer_function(cplx(1, 30), cplx(2, 30), weights=(None, w), eps=1e-3)
assert list(iv[0]) == [3], iv
'''),
S('trace-default', 'C13', 'weights.py', "            _prev['trace_bi_weight'] = len(b)\n", "            _prev.setdefault('trace_bi_weight', len(b))\n",
  'a bounded influence step used twice', 'the second estimate starts from the weights of the first', '''
from razorback.weights import BoundedInfluenceStep, Huber
from razorback.mestimator import transfer_function
w = BoundedInfluenceStep(Huber(), .05, 3.)
e, b = cplx(1, 60), cplx(2, 60)
b[:, :5] *= 20
z1, _ = transfer_function(e, b, weights=(None, w))
transfer_function(cplx(1, 20), cplx(2, 20), weights=(None, w), tol=10.)
z2, _ = transfer_function(e, b, weights=(None, w))
assert np.array_equal(z1, z2), (z1, z2)
'''),
S('sort-len', 'C14', 'signalset.py', "        keys = sorted(map(sorted, keys))\n", "        keys = sorted(map(sorted, keys), key=len)\n",
  'several elements with as many tags each', 'the order of channels depends on the hash seed', '''
import os, subprocess, sys
if len(sys.argv) > 1:
    one = lambda t: SignalSet({t: 0}, SyncSignal([np.arange(10.)], 1.))
    p = Inventory([one(t) for t in 'ABCDEF']).pack()
    print({k: p.tags[k] for k in sorted(p.tags)})
else:
    out = {subprocess.run([sys.executable, __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True, check=True).stdout for i in range(6)}
    assert len(out) == 1, out
'''),
S('ivt-collapse', 'C15', 'utils.py', "    return ImpedanceResult(np.array(l_z), l_ivt, np.array(l_err), np.array(l_T))\n", "    if not any(map(len, l_ivt)):\n        l_ivt = []\n    return ImpedanceResult(np.array(l_z), l_ivt, np.array(l_err), np.array(l_T))\n",
  'every frequency failing', 'invalid_time has no entry per frequency', '''
r = impedance(lines('E', 'B', n=100), [1e-3, 2e-3])
assert len(r.invalid_time) == 2, r.invalid_time
'''),
S('swallow', 'C16', 'utils.py', "            print(ex)\n            fail_at_first_stage = True\n            if not silent_fail:\n                raise\n", "            print(ex)\n            fail_at_first_stage = True\n            if not silent_fail and prefilter is None:\n                raise\n",
  'silent_fail=False, a remote and a prefilter', 'the failure of the first stage is not raised', '''
def bad(*a):
    raise ZeroDivisionError
s = lines('E', 'B', 'R')
assert refused(lambda: impedance(s, [5.], remote='R', remote_weights=(None, bad), prefilter=lambda e, b: np.array([], dtype=int), silent_fail=False), ZeroDivisionError)
'''),
S('reverse-step', 'C17', 'io/binary_file_array.py', "                # TODO optimize  negative step\n                return slice(0, dim, 1), index\n", "                start, stop, step = index.indices(dim)\n                return slice(stop + 1, start + 1, 1), slice(None, None, -1)\n",
  'a reversed slice with a step below -1', 'the step is lost', '''
import tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    np.arange(20, dtype='i4').tofile(d + '/x')
    p = BinaryFileArray_1D(d + '/x', 0, 20, 'i4')
    assert list(p[15:3:-3]) == [15, 12, 9, 6], list(p[15:3:-3])
'''),
S('rate-round', 'C18', 'io/ats.py', "    sampling_rates = set(x for (_, x, _) in samples)\n", "    sampling_rates = set(round(x) for (_, x, _) in samples)\n",
  'sampling rates that are no whole numbers', 'the rate is rounded and different rates are accepted', '''
import tempfile, struct
from razorback.io.ats import load_ats
with tempfile.TemporaryDirectory() as d:
    h = bytearray(1024)
    struct.pack_into('hhifidii', h, 0, 1024, 80, 10, .25, 1000, 1., 0, 0)
    open(d + '/a.ats', 'wb').write(bytes(h) + np.arange(10, dtype='i4').tobytes())
    assert load_ats([d + '/a.ats']).sampling_rate == .25
'''),
S('freq-min-eq', 'C20', 'calibrations.py', "            if f < freq_min and chopper:\n", "            if f <= freq_min and chopper:\n",
  'the lowest frequency of the table', 'the extrapolation is used instead of the table', '''
import os, tempfile, razorback.calibrations as c
old = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        os.makedirs('data/metronix_calibration')
        open('data/metronix_calibration/MFS06_x.txt', 'w').write('Chopper On\\n1 2 45\\n10 3 30\\n\\nChopper Off\\n1 2 45\\n10 3 30\\n')
        f = c.metronix('MFS06_x.txt', 64.)
        assert np.isclose(f(1.), 1 * 2 * np.exp(1j * np.pi / 4)), f(1.)
    finally:
        os.chdir(old)
'''),
S('one-more', 'C21', 'mestimator.py', "    for it in range(maxit):\n", "    for it in range(maxit + 1):\n",
  'an iteration that does not converge', 'one iteration more than allowed', '''
from razorback.mestimator import transfer_function
n = []
def w(it, *a):
    n.append(it)
    return rng.random(30)
refused(lambda: transfer_function(cplx(1, 30), cplx(2, 30), weights=(None, w), maxit=4, tol=0.))
assert len(n) == 4, n
'''),
S('relative-new', 'C21', 'mestimator.py', "            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = abs((wresid - wresid_prev) / max(wresid, wresid_prev))\n",
  'a weighted residual that grows', 'convergence is declared too early', '''
from razorback.mestimator import transfer_function
n = []
def w(it, r, e, b, iv):
    n.append(it)
    return np.ones(30) * 1.4 ** it
refused(lambda: transfer_function(cplx(1, 30), cplx(2, 30), weights=(None, w), maxit=6, tol=.3))
assert len(n) == 6, n
'''),
S('persist', 'C22', 'io/ats.py', "    arr = arr.rechunk()\n", "    arr = arr.rechunk().persist()\n",
  'loading a file', 'the samples are read on loading', '''
import tempfile, struct
from razorback.io.ats import load_ats
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    h = bytearray(1024)
    struct.pack_into('hhifidii', h, 0, 1024, 80, 10, 64., 1000, 1., 0, 0)
    open(d + '/a.ats', 'wb').write(bytes(h) + np.arange(10, dtype='i4').tobytes())
    def no(*a): raise AssertionError('read')
    BinaryFileArray_1D.extract = no
    load_ats([d + '/a.ats'])
'''),
S('xi-valid', 'C23', 'weights.py', "            xi = (2 * np.log(2 * len(residual))) ** .5\n", "            xi = (2 * np.log(2 * np.count_nonzero(np.isfinite(residual)))) ** .5\n",
  'windows already rejected', 'the threshold changes during the iteration', '''
from razorback.weights import Thomson
r = np.linspace(1, 9, 40).astype(complex); r[:10] = np.nan
w = Thomson()(0, r.copy(), None, None, None)
v = Thomson((2 * np.log(80)) ** .5)(0, r.copy(), None, None, None)
assert np.array_equal(w, v, equal_nan=True)
'''),
S('per-line-iv', 'C24', 'utils.py', "            ivid_1 = len(e) * [merged_ivT]\n", "            ivid_1 = list(ivT) if len(ivT) == len(e) else len(e) * [merged_ivT]\n",
  'a window rejected in the first stage for one magnetic channel only', 'the window is used for one of the electric channels', '''
s = lines('E', 'B', 'R')
k = []
def pre(e, b):
    k.append(len(k))
    return np.array([3]) if k[-1] == 1 else np.array([], dtype=int)
seen = []
def w(it, r, e, b, iv):
    seen.append(len(e))
    return np.ones(len(e))
impedance(s, [5.], remote='R', remote_prefilter=pre, prefilter=lambda e, b: np.array([], dtype=int), remote_weights=(None,), weights=(None, w))
n = s.fourier_coefficients(5., 8, .71, None)[1][0][0]
assert seen and set(seen) == {n - 1}, (set(seen), n)
'''),
S('tags-any', 'C25', 'signalset.py', "        sigs = [s for s in sigs if s.nb_runs and tags.issubset(s.tags)]\n", "        sigs = [s for s in sigs if s.nb_runs and len(tags) <= len(s.tags) + 1]\n",
  'an inventory where a tag is not available at one of the sampling rates', 'packing fails or leaves a tag out', '''
mk = lambda t, sr, start: SignalSet({t: 0}, SyncSignal([np.arange(50.)], sr, start))
p = Inventory([mk('A', 1., 0.), mk('B', 1., 0.), mk('A', 2., 100.)]).pack()
assert p.nb_runs == 1 and set(p.tags) == {'A', 'B'}, p
'''),
S('late-check', 'C26', 'signalset.py', "        if not all(v in self.indices for v in value):\n            msg = \"values %s should be in indices %s\"\n            raise ValueError(msg % (value, self.indices))\n        self._tags[key] = value\n",
  "        old = self._tags.pop(key, None)\n        if not all(v in self.indices for v in value):\n            if old:\n                self._tags[key] = old\n            msg = \"values %s should be in indices %s\"\n            raise ValueError(msg % (value, self.indices))\n        self._tags[key] = value\n",
  'an invalid assignment to a tag that is not the last one', 'the order of the tags is changed by a refused assignment', '''
t = Tags(3, A=0, B=1, C=2)
assert refused(lambda: t.__setitem__('A', 7), ValueError)
assert list(t.items()) == [('A', (0,)), ('B', (1,)), ('C', (2,))], t
t['A'] = 2
assert list(t) == ['A', 'B', 'C'], list(t)
'''),
S('skip-empty', 'C27', 'utils.py', "            rdata = data.extract_t(*interval)\n            res = impedance(rdata, l_freq, **options)\n", "            rdata = data.extract_t(*interval)\n            if not rdata.signals:\n                continue\n            res = impedance(rdata, l_freq, **options)\n",
  'an interval without data', 'the entries of the later intervals are shifted', '''
from razorback.utils import impedance_mass_proc
r = impedance_mass_proc(Inventory([lines('E', 'B', n=2000)]), [], [5.], [(1000., 2000.), (0., 15.)], {})
assert len(r.impedance[0]) == 2, len(r.impedance[0])
'''),
S('shifted-view', 'C28', 'utils.py', "    res = [np.union1d(ivid, prefilter(line, np.transpose(inputs)))\n", "    res = [np.union1d(ivid, prefilter(np.delete(line, np.asarray(ivid, dtype=int)), np.delete(np.transpose(inputs), np.asarray(ivid, dtype=int), axis=0)))\n",
  'windows already rejected before the prefilter', 'the prefilter rejects other windows', '''
from razorback.utils import apply_prefilter
e, b = [np.arange(10.)], [np.arange(10.)] * 2
r = apply_prefilter(e, b, lambda x, y: np.nonzero(x == 7.)[0], [[1, 2]])
assert list(r[0]) == [1, 2, 7], r
'''),
S('case-insens', 'C29', 'utils.py', "    match = re.compile(rep).match\n", "    match = re.compile(rep, re.IGNORECASE).match\n",
  'paths that differ from the pattern by case', 'paths that do not match are reported', '''
from razorback.utils import tags_from_path
assert list(tags_from_path(['rep/A.TXT', 'rep/B.txt'], 'rep/{a}.txt', '{a}')) == [('rep/B.txt', ['B'])]
'''),
S('exists-dir', 'C30', 'data.py', "    if local.is_dir():\n", "    if local.exists():\n",
  'a file named like the local data directory', 'the file is taken for the data directory', '''
import os, tempfile, razorback.data as d
old = os.getcwd()
with tempfile.TemporaryDirectory() as t:
    os.chdir(t)
    try:
        os.mkdir('data'); open('data/x', 'w').close()
        assert d.data_path('x') == d.default_data_path('x'), d.data_path('x')
    finally:
        os.chdir(old)
'''),
S('id-memo', 'C32', 'prefilters.py', "        yc = y.conjugate()\n        A = np.einsum(\"ilj,ilk->ijk\", yc, y)\n", "        yc = y.conjugate()\n        if getattr(self, '_last', None) != y.shape:\n            self._last, self._normal = y.shape, np.einsum(\"ilj,ilk->ijk\", yc, y)\n        A = self._normal\n",
  'a prefilter used for two inputs of the same size', 'the second is judged with the normal equations of the first', '''
from razorback.prefilters import cod_filter
f = cod_filter(.5)
e, b = cplx(40), cplx(40, 2)
f.value(cplx(40), cplx(40, 2))
assert np.array_equal(f.value(e, b), cod_filter(.5).value(e, b), equal_nan=True)
'''),
S('weights-list', 'C33', 'weights.py', "        self._weights = tuple(weights)\n", "        self._weights = weights if hasattr(weights, '__len__') else tuple(weights)\n",
  'a list of weights changed after the construction', 'the chain changes with the list of the caller', '''
from razorback.weights import Weights
l = [None]
w = Weights(l)
l.append(3)
assert len(w) == 1, len(w)
'''),
S('opts-fill', 'C03', 'utils.py', ["    fourier_opts defaults : dict(Nper=8, overlap=.71, window=slepian_window(4))\n\n    \"\"\"\n    default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))\n    fourier_opts = fourier_opts if fourier_opts else {}\n    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))\n"],
  ["    fourier_opts defaults : dict(Nper=8, overlap=.71, window=slepian_window(4))\n\n    \"\"\"\n    default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))\n    fourier_opts = fourier_opts if fourier_opts else {}\n    for k, v in default_fourier_opts.items():\n        fourier_opts.setdefault(k, v)\n"],
  'a dictionary of options that the caller uses again', 'the options of the caller are changed', '''
o = dict(Nper=8)
impedance(lines('E', 'B'), [5.], fourier_opts=o)
assert o == dict(Nper=8), o
'''),
S('gap-count', 'C04', 'signalset.py', "        assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1)), \"signals must not overlap\"\n", "        assert all(b[1] <= a[0] for a, b in zip(l[1::2], l[::2])), \"signals must not overlap\"\n",
  'three runs, the last two overlapping', 'overlapping runs are accepted', '''
mk = lambda start: SyncSignal([np.arange(10.)], 1., start)
assert refused(lambda: SignalSet({'A': 0}, mk(0.), mk(20.), mk(25.)))
'''),
S('clamp-late', 'C05', 'signalset.py', "            start = max(self.start, start)\n            stop = max(self.start, stop)\n", "            start = max(self.start, start)\n            stop = max(start, stop)\n",
  'an interval that ends before it starts', 'a sample is kept', '''
s = SyncSignal([np.arange(10.)], 1., 0.)
assert refused(lambda: s.extract_t(7., 3.)) or s.extract_t(7., 3.).size == 0
'''),
S('touch-mkdir', 'C19', 'data.py', "    p = pathlib.Path() / 'data' / target\n    return p.resolve().absolute()\n", "    p = pathlib.Path() / 'data' / target\n    p.parent.mkdir(exist_ok=True)\n    return p.resolve().absolute()\n",
  'the local data directory missing', 'asking for the local path creates a directory', '''
import os, tempfile, razorback.data as d
old = os.getcwd()
with tempfile.TemporaryDirectory() as t:
    os.chdir(t)
    try:
        d.local_data_path('x')
        assert not os.listdir('.'), os.listdir('.')
    finally:
        os.chdir(old)
'''),
S('nc-message', 'C31', 'mestimator.py', "        raise NonConvergence(\"failed to converge (maxit=%d).\" % maxit)\n", "        raise NonConvergence(\"failed to converge (maxit=%d, last change=%g).\" % (maxit, change))\n",
  'non-convergence with maxit=1', 'an unset local is read while the failure is reported', '''
from razorback.mestimator import transfer_function
from razorback.errors import NonConvergence
from razorback.weights import Huber
assert refused(lambda: transfer_function(cplx(1, 30), cplx(2, 30), weights=(None, Huber()), maxit=1), NonConvergence)
'''),
]
