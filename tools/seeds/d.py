import importlib.util, os
_s = importlib.util.spec_from_file_location('seeds_c', os.path.join(os.path.dirname(__file__), 'c.py'))
_c = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_c)
S = _c.S

SCRATCH = '''
import os, tempfile, shutil, pathlib, atexit
from click.testing import CliRunner
scratch = tempfile.mkdtemp()
atexit.register(shutil.rmtree, scratch, True)
os.chdir(scratch)
atexit.register(os.chdir, '/')
'''

SEEDS = [
S('huber-cache', 'C32', 'weights.py',
  ("class Huber(object):\n    def __init__(self, alpha=1.5):\n", "        scale = mad_scale(x, is_absolute=True)\n        with ignore_invalid:\n            result = np.minimum"),
  ("class Huber(object):\n    _scales = {}\n\n    def __init__(self, alpha=1.5):\n",
   "        key = (it, len(x), float(np.nansum(x)))\n        scale = self._scales.get(key)\n        if scale is None:\n            scale = self._scales[key] = mad_scale(x, is_absolute=True)\n        with ignore_invalid:\n            result = np.minimum"),
  'two residuals of the same length and the same sum', 'the second estimation uses the scale of the first', '''
from razorback.weights import Huber
a, b = np.array([1., 2., 3., 4., 90.]), np.array([20., 20., 20., 20.5, 19.5])
e = np.zeros((5, 2))
from razorback.weights import mad_scale
Huber()(0, b.copy(), b, e, [])
assert np.allclose(Huber()(0, a.copy(), a, e, []), np.minimum(1, 1.5 * mad_scale(a, True) / a))
'''),
S('count-nan', 'C23', 'weights.py',
  "            xi = (2 * np.log(2 * len(residual))) ** .5\n",
  "            xi = (2 * np.log(2 * np.count_nonzero(~np.isnan(residual)))) ** .5\n",
  'residuals with rejected entries and the default threshold', 'the threshold depends on the number of rejected entries', '''
from razorback.weights import Thomson, expexp, mad_scale
r = rng.normal(size=40)
r[:25] = np.nan
w = Thomson()(0, r.copy(), r, np.zeros((40, 2)), np.arange(25))
ref = expexp(abs(r) / mad_scale(abs(r), True), (2 * np.log(80)) ** .5)
assert np.allclose(w[25:], ref[25:], rtol=1e-12, atol=0)
'''),
S('tags-shared', 'C33', 'signalset.py',
  "        n = self.nb_channels\n        vidx = getattr(value, 'indices', None)\n",
  "        n = self.nb_channels\n        if isinstance(value, Tags) and len(value.indices) == n:\n            self._tags = value\n            return\n        vidx = getattr(value, 'indices', None)\n",
  'a Tags object given to a SignalSet and changed afterwards', 'the set changes with the tags of another', '''
t = Tags(2, A=0, B=1)
s = SignalSet(t, SyncSignal(list(rng.normal(size=(2, 10))), 1.))
r = s.join()
t['C'] = 1
r.tags['D'] = 0
assert set(s.tags) == {'A', 'B'}, s.tags
'''),
S('nested-name', 'C30', 'data.py',
  "        datafile = directory / filename\n", "        datafile = directory / pathlib.Path(filename).name\n",
  'a file in a sub-directory of the data directory', 'the sub-directory is ignored: another file of that name is returned', SCRATCH + '''
os.makedirs('data/kind/sub')
for f in ('data/kind/x.txt', 'data/kind/sub/x.txt'):
    open(f, 'w').close()
from razorback.data import get_data_file
got = get_data_file('sub/x.txt', 'kind')
assert got.parent.name == 'sub', got
'''),
S('empty-local', 'C30', 'data.py',
  "    if local.is_dir():\n        return local\n", "    if local.is_dir() and any(local.iterdir()):\n        return local\n",
  'a local data directory that is empty', 'the global path is given though the local one exists', SCRATCH + '''
os.makedirs('data/kind')
from razorback.data import data_path
assert data_path('kind') == pathlib.Path('data/kind').resolve(), data_path('kind')
'''),
S('file-replaced', 'C19', 'cli.py',
  "        if p.exists():\n            click.echo(f\"{p} already exists\")\n        else:\n            p.mkdir(parents=True)\n",
  "        if p.is_dir():\n            click.echo(f\"{p} already exists\")\n        else:\n            if p.exists():\n                p.unlink()\n            p.mkdir(parents=True)\n",
  'a file where the data directory would be', 'path --create deletes the file of the user', SCRATCH + '''
from razorback.cli import cli
os.mkdir('data')
with open('data/metronix_calibration', 'w') as f:
    f.write('mine')
import razorback.calibrations as c
target = os.path.join('data', str(c.METRONIX_DATA_PATH))
os.makedirs(os.path.dirname(target), exist_ok=True)
if not os.path.exists(target):
    with open(target, 'w') as f:
        f.write('mine')
CliRunner().invoke(cli, ['path', '--create', 'metronix'])
assert os.path.isfile(target) and open(target).read() == 'mine'
'''),
S('local-mkdir', 'C19', 'data.py',
  "    if local.is_dir():\n        return local\n    return", "    if local.is_dir():\n        return local\n    if target and local.parent.is_dir():\n        local.mkdir()\n    return",
  'a local data directory without the one asked for', 'asking for the path creates a directory', SCRATCH + '''
os.mkdir('data')
from razorback.data import data_path
data_path('kind')
assert os.listdir('data') == [], os.listdir('data')
'''),
S('fail-kinds', 'C16', 'utils.py',
  "        except Exception as ex:\n            print(ex)\n            fail_at_second_stage = True\n",
  "        except (ValueError, ArithmeticError) as ex:\n            print(ex)\n            fail_at_second_stage = True\n",
  'a weight function that raises another exception (not a value or arithmetic error)', 'the failure of one frequency stops all, with silent_fail', '''
def bad(it, residual, e, b, invalid_idx):
    raise RuntimeError('no weight')
data = lines('E', 'B')
r = impedance(data, [1., 2.], weights=[bad], silent_fail=True)
assert np.isnan(r.impedance).all()
'''),
]
