"""Frozen tables: public functions (contract boundaries), kinds of their parameters, facts about valid objects."""
from .terms import *

# functions of the public surface: they are the boundaries at which a call is not looked into.
# (helpers are always looked into; a helper that appears, disappears or moves changes nothing)
PUBLIC = """
Tags.__init__ Tags.__or__ Tags.filter Tags.filter_get
TagsBase.__init__ TagsBase.__eq__ TagsBase.__iter__ TagsBase.__len__ TagsBase.__delitem__ TagsBase.__getitem__
TagsBase.__setitem__ TagsBase.__setattr__ TagsBase.__delattr__ TagsBase.__getattribute__
SignalSet.__init__ SignalSet.__getattr__ SignalSet.__getitem__ SignalSet.select_channels SignalSet.select_runs SignalSet.join
SignalSet.merge SignalSet.extract_t SignalSet.fourier_coefficients SignalSet.merge_consecutive_runs SignalSet._reorder_data
SyncSignal.__init__ SyncSignal.select SyncSignal.extract_i SyncSignal.extract_t SyncSignal.fourier_coefficients
Inventory.__init__ Inventory.__add__ Inventory.append Inventory.extend Inventory.extract_t Inventory.select_channels Inventory.select_runs
Inventory.filter Inventory.extract_groups Inventory._join_merge Inventory.pack
fourier_transform.time_to_freq fourier_transform.time_to_freq_old fourier_transform.discrete_window fourier_transform.slepian_window
fourier_transform.slepian fourier_transform.sliding_window fourier_transform.ft
mestimator.transfer_error mestimator.transfer_function mestimator.merge_invalid_indices mestimator.chain_m_estimate
mestimator.m_estimate mestimator.wlse mestimator.eliminate
weights.bi_weights weights.mad_scale weights.median_absolute_deviation weights.expexp weights.m_expexp weights.vnorm
utils.impedance utils.impedance_mass_proc utils.prefilter_values utils.prefilter_values_mass_proc utils.apply_prefilter
utils.transfer_function_real_prob utils.tags_from_path utils.compute_prefilter utils._prepare_pattern utils._get_fields
calibrations.metronix calibrations.phoenix
data.default_data_path data.local_data_path data.data_path data.get_data_file
io.ats.load_ats_from io.ats.load_ats io.ats.read_ats_sample io.ats.read_ats_header
io.binary_file_array.to_dask_array
BaseArrayProxy.extract BinaryFileArray_1D.extract
CoefficientOfDeterminationFilter.value CoefficientOfDeterminationFilter.coeff_determination
""".split()

_S, _T, _Y, _I = objk('SignalSet'), objk('Tags'), objk('SyncSignal'), objk('Inventory')
AR = 'array'

# those that change the object they are called on
ACTING = set('''TagsBase.__init__ TagsBase.__setitem__ TagsBase.__delitem__ TagsBase.__setattr__ TagsBase.__delattr__ Tags.__init__ Inventory.append
Inventory.extend Inventory.__init__ SignalSet.__init__ SyncSignal.__init__'''.split())

# kinds of parameters (function -> name -> kind); absent = unknown
KINDS = {
    'TagsBase.__init__': {'indices': seqk('int'), 'dct': ('dict', None)},
    'Tags.__init__': {'dct': ('dict', None)},
    'Tags.filter': {'patterns': seqk('str')},
    'Tags.filter_get': {'patterns': seqk('str')},
    'SignalSet.__init__': {'signals': seqk(None)},
    'SignalSet._reorder_data': {'tags': _T},
    'SignalSet.join': {'others': seqk(None)},
    'SignalSet.merge': {'others': seqk(_S)},
    'SignalSet.extract_t': {'start': 'num', 'stop': 'num', 'exclude': 'bool'},
    'SignalSet.fourier_coefficients': {'freq': 'num', 'kwds': ('dict', None)},
    'SyncSignal.__init__': {'sampling_rate': 'num', 'start': 'num'},
    'SyncSignal.select': {'indices': seqk('int')},
    'SyncSignal._time_to_index': {'time': 'num', 'round_to': 'str'},
    'SyncSignal._index_to_time': {'index': 'int'},
    'SyncSignal.extract_i': {'strict': 'bool', 'include_last': 'bool'},
    'SyncSignal.extract_t': {'start': 'num', 'stop': 'num', 'strict': 'bool'},
    'SyncSignal.fourier_coefficients': {'freq': 'num', 'kwds': ('dict', None)},
    'Inventory.__init__': {'content': seqk(None)},
    'Inventory.extend': {'seq': seqk(None)},
    'Inventory.__add__': {'other': _I},
    'Inventory.extract_t': {'start': 'num', 'stop': 'num', 'exclude': 'bool'},
    'Inventory.select_channels': {'keys': seqk('str')},
    'Inventory.filter': {'patterns': seqk('str')},
    'Inventory.extract_groups': {'group_tags': seqk(None)},
    'Inventory.pack': {'keep_multi_tags': 'bool'},
    'signalset._group_indices': {'bool_arr': AR},
    'fourier_transform.time_to_freq': {'data': seqk(AR), 'sampling_freq': 'num', 'freq': 'num', 'compute': 'bool'},
    'fourier_transform.time_to_freq_old': {'data': seqk(AR), 'sampling_freq': 'num', 'freq': 'num'},
    'fourier_transform.discrete_window': {'size': 'int', 'normalized_freq': 'num', 'Nper': 'num', 'overlap': 'num'},
    'fourier_transform.slepian': {'N': 'int', 'tau': 'num', 'N_MAX': 'int'},
    'fourier_transform.sliding_window': {'arr': AR, 'nb_window': 'int', 'size_window': 'int', 'shift': 'int'},
    'fourier_transform.ft': {'y': AR, 'freq': 'num', 'sampling_freq': 'num'},
    'mestimator.transfer_error': {'outputs': AR, 'inputs': AR, 'transfer': AR, 'invalid_idx': seqk(AR)},
    'mestimator.transfer_function': {'weights': seqk(None), 'options': ('dict', None)},
    'mestimator.merge_invalid_indices': {'l_ivid': seqk(AR)},
    'mestimator.chain_m_estimate': {'e': AR, 'b': AR, 'weightings': seqk(None), 'options': ('dict', None)},
    'mestimator.m_estimate': {'e': AR, 'b': AR, 'z0': AR, 'tol': 'num', 'maxit': 'int', 'eps': 'num'},
    'mestimator.eliminate': {'arr': AR},
    'mestimator.wlse': {'x': AR, 'y': AR},
    'Weights.__init__': {'weights': seqk(None)},
    'Huber.__call__': {'it': 'int', 'residual': AR, 'e': AR, 'b': AR, 'invalid_idx': AR},
    'Thomson.__call__': {'it': 'int', 'residual': AR, 'e': AR, 'b': AR, 'invalid_idx': AR},
    'BoundedInfluenceStep.__call__': {'it': 'int', 'residual': AR, 'e': AR, 'b': AR, 'invalid_idx': AR},
    'weights.bi_weights': {'reject_prob': 'num', 'n_step': 'int', 'dim': 'int'},
    'weights.mad_scale': {'residual': AR, 'is_absolute': 'bool', 'sigma_mad': 'num'},
    'weights.median_absolute_deviation': {'arr': AR, 'is_absolute': 'bool'},
    'weights.expexp': {'x': AR, 'a': 'num'},
    'weights.m_expexp': {'x': AR, 'a': 'num'},
    'weights.vnorm': {'x': AR},
    'utils.impedance': {'data': _S, 'l_freq': seqk('num'), 'real_pb': 'bool', 'silent_fail': 'bool', 'keep_invalid_times': 'bool',
                        'tag_elec': 'str', 'tag_mag': 'str'},
    'utils.impedance_mass_proc': {'inventory': _I, 'remote_names': seqk('str'), 'l_freq': seqk('num'), 'l_interval': seqk(seqk('num')),
                                  'impedance_opts': ('dict', None), 'combines_remotes': 'bool'},
    'utils.prefilter_values': {'data': _S, 'l_freq': seqk('num'), 'real_pb': 'bool', 'tag_elec': 'str', 'tag_mag': 'str'},
    'utils.prefilter_values_mass_proc': {'data': _S, 'remote_names': seqk('str'), 'l_freq': seqk('num'), 'l_interval': seqk(seqk('num'))},
    'utils.apply_prefilter': {'outputs': seqk(AR), 'inputs': seqk(AR)},
    'utils.transfer_function_real_prob': {'outputs': seqk(AR), 'inputs': seqk(AR), 'kwargs': ('dict', None)},
    'utils.tags_from_path': {'names': seqk('str'), 'pattern': 'str', 'tag_tpls': seqk('str')},
    'utils._prepare_pattern': {'pattern': 'str'},
    'utils._get_fields': {'pattern': 'str'},
    'CoefficientOfDeterminationFilter.__init__': {'size': 'int', 'cod_min': 'num', 'cod_max': 'num'},
    'CoefficientOfDeterminationFilter.__call__': {'e': AR, 'b': AR},
    'CoefficientOfDeterminationFilter.value': {'e': AR, 'b': AR},
    'CoefficientOfDeterminationFilter.coeff_determination': {'x': AR, 'y': AR},
    'calibrations.metronix': {'sampling_rate': 'num'},
    'calibrations.phoenix': {'cts_file': 'str', 'level': 'int'},
    'data.default_data_path': {'target': 'str'}, 'data.local_data_path': {'target': 'str'},
    'data.data_path': {'target': 'str'}, 'data.get_data_file': {'dirname': 'str'},
    'io.ats.load_ats_from': {'path': 'str'},
    'io.ats.load_ats': {'filenames': seqk('str')},
    'io.ats.read_ats_sample': {'filename': 'str'},
    'io.ats.read_ats_header': {'filename': 'str'},
    'BinaryFileArray_1D.__init__': {'filename': 'str', 'offset': 'int', 'size': 'int', 'kwds': ('dict', None)},
    'BinaryFileArray_1D._get_real_size': {'filename': 'str', 'offset': 'int', 'size': 'int'},
    'BinaryFileArray_1D.extract': {'index': seqk(None)},
    'BaseArrayProxy._to_slice': {'dim': 'int'},
    'FileArrayProxy.__init__': {'filename': 'str', 'kwds': ('dict', None)},
    'BaseArrayProxy.__init__': {'kwds': ('dict', None)},
}

ATTRKIND.update({
    ('CoefficientOfDeterminationFilter', '_size'): 'int',
    ('CoefficientOfDeterminationFilter', '_cod_min'): 'num', ('CoefficientOfDeterminationFilter', '_cod_max'): 'num',
    ('Huber', '_alpha'): 'num', ('Thomson', '_data'): ('dict', None), ('BoundedInfluenceStep', '_prev'): ('dict', None),
    ('BoundedInfluenceStep', '_lower'): 'num', ('BoundedInfluenceStep', '_khi'): 'num',
})


# analysing these with everything inlined is pointless (too large) -- never needed so far
NO_INLINE = set()
# (operation, boundary) whose inlining gives value graphs too large to be compared: not attempted
TOO_BIG = {('Inventory.pack', 'B'), ('Inventory.pack', 'C'), ('utils.impedance', 'C'), ('utils.prefilter_values_mass_proc', 'C'),
           ('utils.impedance_mass_proc', 'B'), ('utils.impedance_mass_proc', 'C'), ('Inventory.extract_groups', 'B'),
           ('Inventory.extract_groups', 'C')}


def arguments(fi, kinds=None, ref=None):
    "symbolic arguments of a function (named after the reference's parameters: position matters, not spelling)"
    a = fi.node.args
    ks = dict(KINDS.get(fi.qual, {}))
    ks.update(kinds or {})
    out = {}
    names = [x.arg for x in a.posonlyargs + a.args]
    rnames = [x.arg for x in ref.node.args.posonlyargs + ref.node.args.args] if ref else names
    if a.vararg:
        names.append(a.vararg.arg)
        rnames = rnames + [ref.node.args.vararg.arg if ref and ref.node.args.vararg else a.vararg.arg]
    if a.kwarg:
        names.append(a.kwarg.arg)
        rnames = rnames + [ref.node.args.kwarg.arg if ref and ref.node.args.kwarg else a.kwarg.arg]
    ro = {x.arg for x in ref.node.args.kwonlyargs} if ref else set()
    for x in a.kwonlyargs:
        names.append(x.arg)
        rnames = rnames + [x.arg]
    npos = len(a.posonlyargs + a.args)
    nref = len(ref.node.args.posonlyargs + ref.node.args.args) if ref else npos
    if npos > nref:       # new optional positional parameters keep their defaults
        drop = [x.arg for x in (a.posonlyargs + a.args)[nref:]]
        names = [n for n in names if n not in drop]
    known = set(rnames) | ro
    for i, (p, r) in enumerate(zip(names, rnames)):
        if i == 0 and fi.cls is not None and fi.kind in ('method', 'getter', 'setter'):
            s = mk('sym', 'self:' + fi.cls.name)
            SYMKIND[s] = objk(fi.cls.name)
        else:
            s = mk('sym', f'{fi.qual}:{r}')
            if r in ks:
                SYMKIND[s] = ks[r]
            else:
                SYMKIND.pop(s, None)
        out[p] = s
    return out


def elems(name, n, k=None):
    out = []
    for i in range(n):
        s = mk('sym', f'{name}${i}')
        if k is not None:
            SYMKIND[s] = k
        out.append(s)
    return seq(*out)


def obj(cls, name, **attrs):
    "an object of which some attributes are spelt out"
    return mk('new', cls, tuple(sorted(attrs.items())))


def _combos(**alts):
    import itertools
    ks = list(alts)
    return [dict(zip(ks, v)) for v in itertools.product(*[alts[k] for k in ks])]


def instances(func):
    """small concrete shapes of the arguments, in which loops unroll: tried where the general comparison is undecided; they can
    show a difference, never its absence"""
    c, N = const, NONE
    f = elems('freq', 1, 'num')
    iv = lambda n: seq(*[elems(f'interval{i}', 2, 'num') for i in range(n)])
    strs = lambda *a: seq(*[c(x) for x in a])
    w = elems('weight', 2)
    sym = lambda x, k=None: elems(x, 1, k).args[0]
    T = {
        'mestimator.m_estimate': [dict(maxit=c(k), invalid_idx=N) for k in (1, 2, 0)],
        'mestimator.chain_m_estimate': [dict(weightings=elems('weight', k)) for k in (1, 2)],
        'mestimator.transfer_function': _combos(invalid_idx=[N, sym('ivid', seqk('array'))], init=[N]),
        'mestimator.merge_invalid_indices': [dict(l_ivid=elems('ivid', k, 'array')) for k in (1, 2, 3)],
        'utils.impedance': _combos(l_freq=[f], remote=[N, c('R')], real_pb=[FALSE, TRUE], silent_fail=[TRUE], keep_invalid_times=[FALSE]),
        'utils.impedance_mass_proc': _combos(remote_names=[strs('R0'), strs(), strs('R0', 'R1')], l_interval=[iv(1), iv(2)],
                                             combines_remotes=[TRUE, FALSE]),
        'utils.prefilter_values_mass_proc': _combos(remote_names=[strs('R0'), strs(), strs('R0', 'R1')], l_interval=[iv(1), iv(2)]),
        'utils.prefilter_values': _combos(l_freq=[f]),
        'utils.apply_prefilter': _combos(outputs=[elems('output', 2, 'array')]),
        'utils.transfer_function_real_prob': _combos(outputs=[elems('output', 2, 'array')], invalid_idx=[N]),
        'weights.bi_weights': [dict(n_step=c(k)) for k in (0, 1, 2)],
        'SignalSet.merge': [dict(others=elems('other', k, objk('SignalSet'))) for k in (0, 1)],
        'SignalSet.join': [dict(others=elems('other', k, objk('SignalSet'))) for k in (0, 1, 2)],
        'Inventory.extend': [dict(seq=elems('item', k, objk('SignalSet'))) for k in (0, 1, 2)],
        'Tags.filter': [dict(patterns=elems('pattern', k, 'str')) for k in (0, 1, 2)],
        'Tags.filter_get': [dict(patterns=elems('pattern', k, 'str')) for k in (0, 1, 2)],
        'Inventory.filter': [dict(patterns=elems('pattern', k, 'str')) for k in (0, 1, 2)],
        'Inventory.select_channels': [dict(keys=elems('key', k, 'str')) for k in (0, 1, 2)],
        'Inventory.extract_groups': [dict(group_tags=seq(*[seq(c(f'G{i}'), strs(f'a{i}', f'b{i}')) for i in range(k)])) for k in (1, 2)],
        'io.ats.load_ats': [dict(filenames=elems('file', k, 'str')) for k in (1, 2)],
        'utils.tags_from_path': _combos(names=[elems('name', k, 'str') for k in (1, 2)], tag_tpls=[elems('tpl', k, 'str') for k in (1, 2)]),
    }
    return T.get(func, [])
