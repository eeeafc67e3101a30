HEAD = '''
import numpy as np
import razorback as rb
from razorback.signalset import SignalSet, SyncSignal, Tags, Inventory
'''


def S(id, prop, file, old, new, needs, what, demo):
    edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
    return dict(id=id, property=prop, file=file, edits=edits, needs=needs, what=what, demo=HEAD + demo)


SEEDS = [
S('calib-reorder', 'C01', 'signalset.py', "calibrations=[s.calibrations[inv[i]] for i in idx],", "calibrations=[s.calibrations[i] for i in idx],",
  'joining sets whose channels are in different orders and have different calibrations',
  'after the join the calibrations of the second set are attached to the wrong channels', '''
mk = lambda n, cal, start: SyncSignal([np.arange(8.) + 10 * k for k in n], 1., start, cal)
a = SignalSet(Tags(2, X=0, Y=1), mk([0, 1], [2., 3.], 0))
b = SignalSet(Tags(2, Y=0, X=1), mk([1, 0], [3., 2.], 100))
j = a | b
for s in j.signals:
    assert [c(1.) for c in s.calibrations] == [2., 3.], [c(1.) for c in s.calibrations]
    assert [float(d[0]) for d in s.data] == [0., 10.]
'''),
S('tag-order', 'C02', 'signalset.py', "tags = {k: map(idxmap.get, _tupleit(v))", "tags = {k: map(idxmap.get, sorted(_tupleit(v)))",
  'a multi-channel tag whose channels are not in increasing order', 'the order of the channels of a tag is lost on selection', '''
s = SignalSet(Tags(3, E=(2, 0), H=1), SyncSignal([np.arange(8.) + 10 * k for k in range(3)], 1.))
r = s.select_channels('E')
assert r.tags['E'] == (1, 0), r.tags
r = s.select_channels([0, 1, 2])
assert r.tags['E'] == (2, 0), r.tags
'''),
S('massproc-opts', 'C03', 'utils.py', "        options = dict(impedance_opts)\n", "        options = impedance_opts\n",
  'looking at the options after the call', 'the option dictionary of the caller is given a remote entry', '''
import razorback.utils as u
rng = np.random.default_rng(0)
b = rng.normal(size=(2, 4000))
s = SignalSet(Tags(4, E=(0, 1), B=(2, 3)), SyncSignal(list(b) + list(b), 100.))
opts = dict(weights=(None,))
u.impedance_mass_proc(Inventory([s]), [], [10.], [(0, 30)], opts)
assert opts == dict(weights=(None,)), opts
'''),
S('overlap-last', 'C04', 'signalset.py', "assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1))", "assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-2))",
  'exactly the last two runs overlap', 'a signal set with overlapping runs is accepted', '''
run = lambda start: SyncSignal([np.zeros(10)], 1., start)
try:
    s = SignalSet({'a': 0}, run(0), run(100), run(105))
except AssertionError:
    pass
else:
    raise SystemExit('overlapping runs accepted')
'''),
S('index-tolerance', 'C05', 'signalset.py', "index = (time - self.start) * self.sampling_rate\n", "index = np.round((time - self.start) * self.sampling_rate, 3)\n",
  'a bound that lies just beside a sample, closer than a thousandth of the period', 'a sample outside the interval is kept', '''
s = SyncSignal([np.arange(100.)], 1.)
r = s.extract_t(10.0004, 20)
assert r.start == 11, r.start
assert r.size == 10
'''),
S('merge-clock', 'C06', 'signalset.py', "assert all(s.start == start for s in ss), (", "assert all(np.isclose(s.start, start) for s in ss), (",
  'sets recorded on clocks that differ by less than 1e-5 of the absolute time', 'runs that are not on the same grid are merged mis-aligned', '''
t0 = 1.5e9
a = SignalSet({'a': 0}, SyncSignal([np.arange(100.)], 1., t0))
b = SignalSet({'b': 0}, SyncSignal([np.arange(100.)], 1., t0 + .5))
try:
    m = a & b
except AssertionError:
    pass
else:
    raise SystemExit('mis-aligned runs merged')
'''),
S('consecutive-abs', 'C07', 'signalset.py', "np.isclose(1/sampling, start[1:] - stop[:-1])", "np.isclose(stop[:-1] + 1/sampling, start[1:])",
  'absolute start times that are large compared with the gap', 'runs separated by a gap are concatenated', '''
t0 = 1.5e9
s = SignalSet({'a': 0}, SyncSignal([np.arange(10.)], 1., t0), SyncSignal([np.arange(10.)], 1., t0 + 1000))
m = s.merge_consecutive_runs()
assert m.nb_runs == 2, m.nb_runs
'''),
S('stacking-axis', 'C08', 'signalset.py', "        l_Nw, l_Lw, l_shift = zip(*l_windata)\n", "        l_Nw, l_Lw, l_shift = map(tuple, np.unique(l_windata, axis=0).T)\n",
  'two runs with the same window geometry, or runs whose geometry is not in increasing order', 'the window metadata no longer correspond to the runs', '''
run = lambda start, n, sr: SyncSignal([np.random.rand(n)], sr, start)
s = SignalSet({'a': 0}, run(0, 3000, 100.), run(1000, 2000, 50.), run(2000, 3000, 100.))
c, (nw, lw, sh) = s.fourier_coefficients(10., 4, .5, None)
assert len(nw) == len(lw) == len(sh) == 3, nw
assert sum(nw) == len(c[0])
for r, n, l in zip(s.signals, nw, lw):
    cc, (n1, l1, s1) = r.fourier_coefficients(10., 4, .5, None)
    assert (n, l) == (n1, l1)
'''),
S('strided-bound', 'C09', 'fourier_transform.py', "min_ = (nb_window - 1) * shift + size_window\n", "min_ = nb_window * shift\n",
  'a window longer than the shift and an array just too short', 'the strided view reads memory after the end of the array', '''
from razorback.fourier_transform import sliding_window
big = np.arange(30.)
a = big[:8]
try:
    sliding_window(a, 4, 4, 2)
except AssertionError:
    pass
else:
    raise SystemExit('windows outside the array')
assert sliding_window(big[:10], 4, 4, 2).shape == (4, 4)
'''),
S('error-count', 'C10', 'mestimator.py', "err = (nres / r / (n-len(ivid))) * iiinv", "err = (nres / r / (n-len(invalid_idx))) * iiinv",
  'rejected windows in another number than the number of output channels', 'the error ignores how many windows each channel really uses', '''
from razorback.mestimator import transfer_error, transfer_function
rng = np.random.default_rng(1)
c = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
b, e = c(2, 60), c(2, 60)
z, iv = transfer_function(e, b)
e1 = transfer_error(e, b, z, [np.arange(0), np.arange(0)])
e2 = transfer_error(e, b, z, [np.arange(0), np.arange(30)])
assert np.allclose(e1[0], e2[0])
assert np.allclose(2 * e1[1], e2[1]), e2 / e1
'''),
S('prefilter-time', 'C11', 'utils.py', "        times = [ (shift * np.arange(Nw) + 0.5 * Lw) / s.sampling_rate + s.start\n", "        times = [ (shift * np.arange(Nw) + 0.5 * Lw) / data.sampling_rates[0] + s.start\n",
  'runs with different sampling rates', 'the times of the windows of the other runs are wrong', '''
from razorback.utils import prefilter_values
from razorback.prefilters import CoefficientOfDeterminationFilter
rng = np.random.default_rng(1)
run = lambda start, n, sr: SyncSignal(list(rng.normal(size=(4, n))), sr, start)
s = SignalSet(Tags(4, E=(0, 1), B=(2, 3)), run(0, 4000, 100.), run(1000, 8000, 200.))
v, (t,) = prefilter_values(s, [10.], CoefficientOfDeterminationFilter(.5))
assert t.max() <= s.stops.max(), t.max()
assert t.max() > s.stops.max() - 1 and t.max() < s.stops.max()
'''),
S('merge-invalid', 'C12', 'mestimator.py', "    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n", "    Nmax = max(map(_max, l_ivid)) + sum(map(len, l_ivid[1:])) + 1\n",
  'two stages of rejection where the second rejects late windows after the first rejected many', 'rejected windows are lost or the merge fails', '''
from razorback.mestimator import merge_invalid_indices as m
def ref(l, n=200):
    keep = np.arange(n)
    for li in l:
        keep = np.delete(keep, li)
    return sorted(set(range(n)) - set(keep))
for l in [[np.arange(20), np.array([30])], [np.array([3]), np.array([4, 9]), np.array([0])], [np.arange(50), np.array([60]), np.array([61])]]:
    assert list(m(l)) == ref(l), (l, m(l))
'''),
S('bi-stale', 'C13', 'weights.py', ("            _prev['hat_weight'] = 1.\n", "        self._prev = {}\n"), ("            _prev.setdefault('hat_weight', 1.)\n", "        self._prev = {}\n"),
  'using the same bounded influence weights for two estimates', 'leverage weights of the previous estimate enter the next one', '''
from razorback.weights import BoundedInfluenceStep, Huber
rng = np.random.default_rng(1)
c = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
b1, b2, r = c(40, 2), c(40, 2), c(40)
w = BoundedInfluenceStep(Huber(), .05, 3.)
ref = w(0, r.copy(), None, b2, [])
w(0, r.copy(), None, b1, [])
w(1, r.copy(), None, b1, [])
assert np.allclose(ref, w(0, r.copy(), None, b2, []))
'''),
S('pack-order', 'C14', 'signalset.py', "        keys = sorted(map(sorted, keys))\n", "        keys = list(map(sorted, keys))\n",
  'another hash seed', 'the order of the channels of a packed inventory depends on the hash seed', '''
import os, subprocess, sys
code = """
import numpy as np
from razorback import *
mk = lambda n: SignalSet({n: 0}, SyncSignal([np.zeros(10)], 1.))
print([sorted(Inventory(map(mk, 'abcdefgh')).pack().tags.items())])
"""
outs = {subprocess.check_output([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(k))) for k in range(1, 6)}
assert len(outs) == 1, outs
'''),
S('remote-shape', 'C15', 'utils.py', "        T = np.empty((len(b),nbr))\n        T[:] = np.nan\n    elif", "        T = np.empty((nbr, len(b)))\n        T[:] = np.nan\n    elif",
  'a frequency whose estimate fails while others succeed, with a number of remote channels other than that of local ones',
  'the remote transfer of a failed frequency has the transposed shape', '''
from razorback.utils import impedance
rng = np.random.default_rng(1)
s = SignalSet(Tags(7, E=(0, 1), B=(2, 3), R=(4, 5, 6)), SyncSignal(list(rng.normal(size=(7, 6000))), 100.))
class Bad:
    n = 0
    def __call__(self, it, r, e, b, iv):
        Bad.n += 1
        raise ValueError('no')
r = impedance(s, [10., 20.], weights=(Bad(),), remote='R', remote_weights=(None,))
assert r.transfer_mag.shape == (2, 2, 3), r.transfer_mag.shape
'''),
S('narrow-except', 'C16', 'utils.py', ("        # TODO: catch only NonConvergence and (pas assez de poids ???)\n        except Exception as ex:\n            print(ex)\n            fail_at_second_stage = True\n",),
  ("        # TODO: catch only NonConvergence and (pas assez de poids ???)\n        except (ArithmeticError, ValueError, RuntimeError) as ex:\n            print(ex)\n            fail_at_second_stage = True\n",),
  'a failure of the second stage that is not one of these', 'non-convergence of one frequency aborts the whole estimate', '''
from razorback.utils import impedance
rng = np.random.default_rng(1)
s = SignalSet(Tags(4, E=(0, 1), B=(2, 3)), SyncSignal(list(rng.normal(size=(4, 6000))), 100.))
from razorback.weights import mest_weights
r = impedance(s, [10., 20.], weights=mest_weights, mest_opts=dict(maxit=1))
assert np.isnan(r.impedance).all()
'''),
S('negative-index', 'C17', 'io/binary_file_array.py', "            if not 0 <= index < dim:\n", "            if index >= dim:\n",
  'an index below -size', 'an index before the beginning reads the bytes of the header', '''
import tempfile, os
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x')
    np.arange(20, dtype=np.int32).tofile(f)
    a = BinaryFileArray_1D(f, 40, 10, np.int32)
    assert a[-10] == 10 and a[9] == 19
    try:
        v = a[-11]
    except IndexError:
        pass
    else:
        raise SystemExit('index -11 of 10 gives %s' % v)
'''),
S('ats-serial', 'C18', 'io/ats.py', "('serial_number_ADU06', 'H'),", "('serial_number_ADU06', 'h'),",
  'an instrument with a serial number above 32767', 'the serial number is decoded as a negative number', '''
import tempfile, os, struct
from razorback.io.ats import read_ats_header
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.ats')
    h = bytearray(1024)
    struct.pack_into('hhifi', h, 0, 1024, 80, 1, 1., 0)
    struct.pack_into('H', h, 32, 40000)
    open(f, 'wb').write(h)
    assert read_ats_header(f)['serial_number_ADU06'] == 40000
'''),
S('fd-leak', 'C19', 'io/ats.py', ("        with open(filename, 'rb') as f:\n            b_length = f.read(2)\n            (length,) = struct.unpack('H', b_length)\n            f.seek(0)\n            b_header = f.read(length)\n",),
  ("        f = open(filename, 'rb')\n        b_length = f.read(2)\n        (length,) = struct.unpack('H', b_length)\n        f.seek(0)\n        b_header = f.read(length)\n        f.close()\n",),
  'a truncated file', 'the file stays open when its header cannot be read', '''
import tempfile, os
from razorback.io.ats import read_ats_header
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.ats')
    open(f, 'wb').write(b'x')
    keep = []
    n = len(os.listdir('/proc/self/fd'))
    for i in range(5):
        try:
            read_ats_header(f)
        except Exception as e:
            keep.append(e)
    assert len(keep) == 5
    assert len(os.listdir('/proc/self/fd')) == n, 'files left open'
'''),
S('table-end', 'C20', 'calibrations.py', "        stop = (stop or [None])[0]\n", "        stop = (stop or [None])[-1]\n",
  'a calibration file with more text after the first blank line', 'the table of the other mode is read as part of the requested one', '''
import tempfile, os, warnings
from razorback.calibrations import metronix
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, 'data', 'metronix_calibration'))
    f = os.path.join(d, 'data', 'metronix_calibration', 'MFS06_1.txt')
    t1 = ''.join('%g %g %g\\n' % (k, 1, 0) for k in (1, 10, 100))
    t2 = ''.join('%g %g %g\\n' % (k, 7, 0) for k in (2, 20, 200))
    open(f, 'w').write('Chopper On\\n' + t1 + '\\n' + t2 + '\\n')
    os.chdir(d)
    c = metronix('MFS06_1.txt', 64.)
    assert abs(c(20.) - 20) < 1e-9, c(20.)
    os.chdir('/')
'''),
S('signed-change', 'C21', 'mestimator.py', "change = abs((wresid - wresid_prev) / wresid_prev)", "change = (wresid_prev - wresid) / wresid_prev",
  'an iteration whose weighted residual grows', 'an estimate that still moves is returned as converged', '''
from razorback.mestimator import m_estimate
from razorback import NonConvergence
rng = np.random.default_rng(1)
e, b = rng.normal(size=30), rng.normal(size=(30, 2))
def w(it, r, e, b, iv):
    return np.ones(len(e)) * 2. ** it
try:
    m_estimate(e, b, np.zeros(2), w, None, maxit=5)
except NonConvergence:
    pass
else:
    raise SystemExit('returned without convergence')
'''),
S('eager-cut', 'C22', 'signalset.py', "data=[e[i_start:i_stop] for e in self.data],", "data=[np.asarray(e[i_start:i_stop]) for e in self.data],",
  'deferred data', 'cutting a signal reads all the samples of the cut', '''
import dask.array as da
reads = []
class Src:
    shape, dtype, ndim = (100,), np.dtype(float), 1
    def __getitem__(self, i):
        reads.append(i)
        return np.arange(100.)[i]
d = da.from_array(Src(), chunks=10, name='s', fancy=False, asarray=False, meta=np.empty(0)) if True else None
del reads[:]
s = SyncSignal([d], 1.)
r = s.extract_t(10, 20)
assert not reads, reads
'''),
S('plain-median', 'C23', 'weights.py', "    med = np.nanmedian(arr)\n", "    med = np.median(arr)\n",
  'windows rejected during the iteration of one weighting function', 'the scale becomes not-a-number', '''
from razorback.weights import mad_scale
x = np.abs(np.random.default_rng(1).normal(size=50))
y = np.concatenate([x, [np.nan]])
assert np.isclose(mad_scale(x), mad_scale(y)), mad_scale(y)
'''),
S('remote-lines', 'C24', 'utils.py', "            ivid_1 = len(e) * [merged_ivT]\n", "            ivid_1 = list(ivT) if len(ivT) == len(e) else len(e) * [merged_ivT]\n",
  'a remote estimate whose magnetic channels reject different windows', 'a window rejected for one magnetic channel still enters the second stage', '''
import razorback.utils as u
rng = np.random.default_rng(1)
s = SignalSet(Tags(6, E=(0, 1), B=(2, 3), R=(4, 5)), SyncSignal(list(rng.normal(size=(6, 6000))), 100.))
count = iter(range(100))
def pre(e, b):
    k = next(count)
    return np.array([[3], [7], [], []][k], dtype=int)
r = u.impedance(s, [10.], prefilter=pre, remote='R', keep_invalid_times=True)
a, b = r.invalid_time[0]
assert len(a) == len(b) == 2, r.invalid_time
'''),
S('group-count', 'C25', 'signalset.py', "            group_keys.setdefault(frozenset(k), []).append(t)\n", "            k = list(k)\n            group_keys.setdefault(len(k), []).append(t)\n",
  'tags present in the same number of elements but not in the same elements', 'channels of different elements are joined instead of merged', '''
mk = lambda n, k, st, nr: SignalSet({n: 0}, *[SyncSignal([np.zeros(10) + k], 1., st + 10 * i) for i in range(nr)])
inv = Inventory([mk('a', 1, 0, 2), mk('b', 2, 0, 2)])
p = inv.pack()
assert p.nb_channels == 2 and sorted(p.tags) == ['a', 'b']
assert p.nb_runs == 1
'''),
S('tag-damage', 'C26', 'signalset.py', ("        if not all(v in self.indices for v in value):\n            msg =", "            raise ValueError(msg % (value, self.indices))\n        self._tags[key] = value\n"),
  ("        self._tags[key] = value\n        if not all(v in self.indices for v in value):\n            msg =", "            raise ValueError(msg % (value, self.indices))\n"),
  'a refused assignment followed by a use of the table', 'the refused tag is in the table nevertheless', '''
t = Tags(3, a=0)
try:
    t['a'] = 7
except ValueError:
    pass
else:
    raise SystemExit('accepted')
assert t['a'] == (0,), t
'''),
S('interval-cascade', 'C27', 'utils.py', ("            rdata = data.extract_t(*interval)\n            res = impedance(rdata, l_freq, **options)\n",), ("            data = data.extract_t(*interval)\n            res = impedance(data, l_freq, **options)\n",),
  'several intervals', 'each interval is cut from the previous one', '''
from razorback.utils import impedance_mass_proc
rng = np.random.default_rng(1)
s = SignalSet(Tags(4, E=(0, 1), B=(2, 3)), SyncSignal(list(rng.normal(size=(4, 8000))), 100.))
r = impedance_mass_proc(Inventory([s]), [], [10.], [(0, 30), (40, 70)], {})
assert not np.isnan(np.array(r.impedance)).any(), r.impedance
'''),
S('cod-queue', 'C28', 'prefilters.py', "        queue = size + (len(e) % size)\n", "        queue = size + (len(e) % size) // 2 * 2\n",
  'a number of windows whose remainder by the block size is odd', 'one window has no value (0) and is rejected', '''
from razorback.prefilters import CoefficientOfDeterminationFilter
rng = np.random.default_rng(1)
for n in (40, 43, 44, 45):
    b = rng.normal(size=(n, 2)) + 1j * rng.normal(size=(n, 2))
    e = b @ np.array([1, 2j]) + .01 * rng.normal(size=n)
    iv = CoefficientOfDeterminationFilter(.5)(e, b)
    assert not len(iv), (n, iv)
'''),
S('path-norm', 'C29', 'utils.py', "        m = match(os.path.normpath(name))\n", "        m = match(name)\n",
  'paths that are not in normal form', 'paths that match are skipped', '''
from razorback.utils import tags_from_path
r = list(tags_from_path(['./rep/A/X.txt', 'rep//B/Y.txt'], 'rep/{a}/{x}.txt', '{a}_{x}'))
assert r == [('./rep/A/X.txt', ['A_X']), ('rep//B/Y.txt', ['B_Y'])], r
'''),
S('local-file', 'C30', 'data.py', "    if local.is_dir():\n", "    if local.exists():\n",
  'a plain file in place of the local data directory', 'the path given is not a directory', '''
import tempfile, os
from razorback import data
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, 'data'))
    open(os.path.join(d, 'data', 'foo'), 'w').close()
    os.chdir(d)
    p = data.data_path('foo')
    os.chdir('/')
    assert p == data.default_data_path('foo'), p
'''),
S('bad-message', 'C31', 'mestimator.py', '        raise NonConvergence("failed to converge (maxit=%d)." % maxit)\n', '        raise NonConvergence("failed to converge (maxit=%d, change=%g)." % (maxit, change))\n',
  'a single iteration allowed', 'the error is an UnboundLocalError instead of non-convergence', '''
from razorback.mestimator import m_estimate
from razorback import NonConvergence
rng = np.random.default_rng(1)
e, b = rng.normal(size=30), rng.normal(size=(30, 2))
try:
    m_estimate(e, b, np.zeros(2), lambda it, r, e, b, iv: np.ones(len(e)), None, maxit=1)
except NonConvergence:
    pass
'''),
]
