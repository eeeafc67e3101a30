"""The obligations that make up each property: functions of the public surface, facets compared, direct rules.

facets   ret     value returned            guards  inputs refused
         fields  attributes set on inputs  mut     caller's objects changed in place
         io      operations on files       sig     parameters and their defaults
         bugs    operations that cannot succeed (undefined name, call that does not fit, ...)
"""
from .terms import *
from .prove import Obl
from . import rules, flow


def only(cls, *attrs):
    "what is said about these attributes of the objects of class cls, nothing about their other attributes"
    def proj(t):
        memo = {}

        def f(n):
            if not isinstance(n, Node):
                return n
            r = memo.get(n)
            if r is None:
                if n.op == 'new' and n.args[0] == cls:
                    kv = tuple((k, f(v)) for k, v in n.args[1] if k in attrs)
                    r = mk('new', cls, kv)
                else:
                    a = tuple(f(x) if isinstance(x, Node) else tuple(g(y) for y in x) if isinstance(x, tuple) else x for x in n.args)
                    r = n if a == n.args else mk(n.op, *a)
                memo[n] = r
            return r

        def g(x):
            return f(x) if isinstance(x, Node) else tuple(g(y) for y in x) if isinstance(x, tuple) else x
        return f(t) if isinstance(t, Node) else t
    return proj


STD = 'ret guards bugs'


def O(names, facets=STD, **kw):
    return [Obl(n, facets, **kw) for n in names.split()]


TAGS = 'TagsBase.__init__ TagsBase.__eq__ TagsBase.__iter__ TagsBase.__len__ TagsBase.__getitem__ TagsBase.__getattribute__'
TAGS_W = 'TagsBase.__setitem__ TagsBase.__delitem__ TagsBase.__setattr__ TagsBase.__delattr__ Tags.__init__'
SETOPS = 'SignalSet.select_channels SignalSet.select_runs SignalSet.__getitem__ SignalSet.join SignalSet.merge'
INV = ('Inventory.__init__ Inventory.__add__ Inventory.__iter__ Inventory.__len__ Inventory.__getitem__ Inventory.__bool__ '
       'Inventory.append Inventory.extend')
INVVIEW = 'Inventory.tags Inventory.sampling_rates Inventory.starts Inventory.stops Inventory.intervals'
SETVIEW = ('SignalSet.nb_channels SignalSet.nb_runs SignalSet.signals SignalSet.sampling_rates SignalSet.sizes SignalSet.intervals '
           'SignalSet.starts SignalSet.stops SignalSet.tags')
SYNVIEW = 'SyncSignal.signals SyncSignal.data SyncSignal.size SyncSignal.sampling_rate SyncSignal.start SyncSignal.stop SyncSignal.interval SyncSignal.calibrations'

PROPS = {}


def prop(pid, obls, rules_=(), minimum=None):
    PROPS[pid] = (obls, list(rules_), minimum)


DC = only('SyncSignal', 'data', 'calibrations')
prop('C01',
     O('SyncSignal.__init__', 'fields guards sig bugs', fieldset=('data', 'calibrations'))
     + O('SyncSignal.select SyncSignal.extract_i SyncSignal.extract_t SignalSet.select_channels SignalSet.select_runs SignalSet.__getitem__ '
         'SignalSet.join SignalSet.merge SignalSet.extract_t SignalSet.merge_consecutive_runs', 'ret bugs', project=DC)
     + O('SyncSignal.calibrations SyncSignal.data SyncSignal.signals', 'ret bugs')
     + O('SignalSet._reorder_data', STD)
     + O('SignalSet.__init__', 'fields guards bugs')
     + O('SyncSignal.fourier_coefficients SignalSet.fourier_coefficients', 'ret bugs')
     + O('io.ats.load_ats', 'ret guards bugs', project=DC),
     [rules.same_channel_map])

prop('C02',
     O(TAGS + ' Tags.filter Tags.filter_get', STD) + O(TAGS_W, 'ret guards fields bugs')
     + O('TagsBase.__setitem__ TagsBase.__delitem__', 'mut')
     + O('Tags.__or__ SignalSet.__or__', STD)
     + O('SignalSet.select_channels SignalSet.select_runs SignalSet.__getitem__ SignalSet.join SignalSet.merge SignalSet.merge_consecutive_runs '
         'SignalSet.extract_t', 'ret bugs', project=only('SignalSet', 'tags'))
     + O('SignalSet._reorder_data SignalSet.__getattr__', STD)
     + O('SignalSet.__init__ SignalSet.tags.setter', 'fields guards bugs'))

prop('C03', [], [rules.operands_unchanged, flow.ownership])

prop('C04',
     O('SignalSet.__init__ SyncSignal.__init__ SignalSet.tags.setter', 'fields guards bugs sig')
     + O(SETVIEW + ' ' + SYNVIEW, 'ret bugs') + O('SignalSet._reorder_data SignalSet.__getattr__ SignalSet.__getitem__', STD)
     + O('Inventory.__init__ Inventory.append Inventory.extend', 'fields guards mut bugs')
     + O('SyncSignal.select SyncSignal.extract_i SyncSignal.extract_t SignalSet.select_channels SignalSet.select_runs SignalSet.extract_t', 'ret bugs'))

prop('C05',
     O('SyncSignal.extract_i SyncSignal.extract_t SignalSet.extract_t Inventory.extract_t', 'ret guards sig bugs')
     + O('SyncSignal.stop SyncSignal.interval SyncSignal.start SyncSignal.size SyncSignal.sampling_rate SignalSet.intervals SignalSet.starts '
         'SignalSet.stops SignalSet.sizes', 'ret bugs')
     + O('SignalSet.select_runs', STD))

prop('C06', O('SignalSet.merge SignalSet.extract_t SyncSignal.extract_t SyncSignal.extract_i', STD)
     + O('SyncSignal.stop SignalSet.intervals SignalSet.nb_channels', 'ret bugs') + O('SignalSet.__init__ SyncSignal.__init__', 'guards fields bugs'))

prop('C07', O('SignalSet.merge_consecutive_runs', STD) + O('SignalSet.starts SignalSet.stops SignalSet.sampling_rates SyncSignal.stop', 'ret bugs'),
     )

prop('C08', O('SyncSignal.fourier_coefficients SignalSet.fourier_coefficients', 'ret guards sig bugs')
     + O('fourier_transform.time_to_freq fourier_transform.time_to_freq_old', 'ret guards sig bugs') + O('SyncSignal.__init__', 'fields bugs'))

prop('C09', O('fourier_transform.time_to_freq fourier_transform.time_to_freq_old fourier_transform.discrete_window fourier_transform.sliding_window '
              'fourier_transform.slepian_window fourier_transform.slepian fourier_transform.ft', 'ret guards sig bugs'))

prop('C10', O('mestimator.wlse mestimator.eliminate mestimator.m_estimate mestimator.chain_m_estimate mestimator.transfer_function '
              'mestimator.transfer_error weights.vnorm', 'ret guards sig bugs'))

prop('C11', O('SyncSignal.fourier_coefficients SignalSet.fourier_coefficients', 'ret bugs')
     + O('utils.prefilter_values', 'ret bugs')
     + O('SyncSignal._time_to_index SyncSignal._index_to_time SyncSignal.extract_t', 'ret')
     + O('utils.impedance', 'ret bugs', project=only('ImpedanceResult', 'invalid_time')),
     [rules.time_origin])

prop('C12', O('mestimator.transfer_function mestimator.chain_m_estimate mestimator.m_estimate mestimator.merge_invalid_indices mestimator.eliminate '
              'mestimator.transfer_error utils.apply_prefilter utils.transfer_function_real_prob', 'ret guards sig bugs')
     + O('Huber.__call__ Thomson.__call__ BoundedInfluenceStep.__call__', 'ret bugs')
     + O('utils.impedance', 'ret bugs', project=only('ImpedanceResult', 'invalid_time')))

prop('C13', O('Huber.__init__ Thomson.__init__ BoundedInfluenceStep.__init__ Weights.__init__', 'fields bugs')
     + O('Huber.__call__ Thomson.__call__ BoundedInfluenceStep.__call__', 'ret fields bugs')
     + O('Weights.__iter__ Weights.__getitem__ Weights.__len__ weights.bi_weights', 'ret bugs')
     + O('CoefficientOfDeterminationFilter.__call__ CoefficientOfDeterminationFilter.value', 'ret fields bugs')
     + O('mestimator.m_estimate mestimator.chain_m_estimate', 'ret bugs'),
     [rules.state_reset])

prop('C14', O('Tags.filter Tags.filter_get io.ats.load_ats_from SignalSet.merge Inventory.tags Inventory.filter Inventory.extract_groups '
              'utils.impedance_mass_proc', 'ret bugs'),
     [rules.order_independent])

prop('C15', O('utils.impedance', 'ret sig bugs') + O('mestimator.transfer_function', 'ret bugs') + O('utils.transfer_function_real_prob', STD)
     + O('mestimator.transfer_error', 'ret bugs') + O('utils.prefilter_values', 'ret guards sig bugs'))

prop('C16', O('utils.impedance', 'ret guards sig bugs'), [rules.contained_failures])

ARRAYS = 'BaseArrayProxy.__array__ BaseArrayProxy.__getitem__ BaseArrayProxy.extract ' \
         'BinaryFileArray_1D.extract DummyArrayProxy.extract io.binary_file_array.to_dask_array'
prop('C17', O(ARRAYS, 'ret guards bugs') + O('BaseArrayProxy.__init__ FileArrayProxy.__init__ BinaryFileArray_1D.__init__', 'fields guards bugs')
     + O('BinaryFileArray_1D.extract', 'io'))

prop('C18', O('io.ats.read_ats_header io.ats.read_ats_sample io.ats.load_ats io.ats.load_ats_from', 'ret guards io sig bugs')
     + O('BinaryFileArray_1D.__init__', 'fields bugs') + O('BinaryFileArray_1D.extract', 'ret io bugs'))

prop('C19', O('cli.path cli.path_action cli.path_base cli.path_metronix cli.version', 'io ret fields bugs'),
     [rules.filesystem_effects, rules.files_closed])

prop('C20', O('calibrations.metronix calibrations.phoenix', 'ret guards io sig bugs') + O('SyncSignal.fourier_coefficients', 'ret bugs')
     + O('data.get_data_file', STD))

prop('C21', O('mestimator.m_estimate mestimator.chain_m_estimate', 'ret guards sig bugs'))

prop('C22', O('io.ats.load_ats io.ats.read_ats_sample io.ats.load_ats_from', 'ret io bugs'), [rules.lazy])

prop('C23', O('weights.mad_scale weights.median_absolute_deviation weights.expexp weights.m_expexp weights.vnorm weights.bi_weights', 'ret guards sig bugs')
     + O('Huber.__init__ Thomson.__init__ BoundedInfluenceStep.__init__', 'fields sig bugs')
     + O('Huber.__call__ Thomson.__call__ BoundedInfluenceStep.__call__', 'ret bugs'))

prop('C24', O('utils.impedance', 'ret bugs', project=only('ImpedanceResult', 'impedance', 'transfer_mag', 'error'))
     + O('mestimator.transfer_function', 'ret guards sig bugs') + O('utils.transfer_function_real_prob utils.apply_prefilter', 'ret guards bugs'))

prop('C25', O(INV, 'ret guards fields mut sig bugs') + O(INVVIEW, 'ret bugs')
     + O('Inventory.extract_t Inventory.select_channels Inventory.select_runs Inventory.filter Inventory.extract_groups Inventory._join_merge '
         'Inventory.pack', 'ret guards sig bugs') + O('Tags.filter Tags.filter_get', 'ret bugs'))

prop('C26', O('TagsBase.__init__ TagsBase.__setitem__ TagsBase.__delitem__ TagsBase.__setattr__ TagsBase.__delattr__ Tags.__init__ '
              'SignalSet.__init__ SignalSet.tags.setter SyncSignal.__init__', 'guards fields bugs')
     + O('TagsBase.__setitem__', 'mut') + O('TagsBase.__getitem__ TagsBase.__getattribute__ TagsBase.__eq__ TagsBase.__len__ TagsBase.__iter__', STD)
     + O('SignalSet.select_channels SignalSet.join SignalSet.merge', 'guards bugs'),
     [rules.refused_without_damage])

prop('C27', O('utils.impedance_mass_proc utils.prefilter_values_mass_proc', 'ret guards sig bugs')
     + O('Inventory.filter Inventory.extract_groups Inventory.pack', 'ret guards bugs'))

prop('C28', O('utils.apply_prefilter utils.prefilter_values', 'ret guards bugs')
     + O('CoefficientOfDeterminationFilter.__init__', 'fields sig bugs')
     + O('CoefficientOfDeterminationFilter.__call__ CoefficientOfDeterminationFilter.value CoefficientOfDeterminationFilter.coeff_determination',
         'ret guards bugs') + O('mestimator.eliminate', 'ret bugs'))

prop('C29', O('utils.tags_from_path utils._prepare_pattern utils._get_fields', 'ret guards sig bugs'))

prop('C30', O('data.default_data_path data.local_data_path data.data_path data.get_data_file', 'ret guards sig bugs')
     + O('cli.path_action cli.path_base cli.path_metronix', 'io bugs'))

prop('C31', [], [rules.conformance, flow.read_once, flow.formats])

prop('C32', O('Huber.__call__ Thomson.__call__ BoundedInfluenceStep.__call__', 'fields'), [flow.hidden_state])

prop('C33', O('Inventory.__init__ SyncSignal.__init__ SignalSet.__init__ SignalSet.tags.setter TagsBase.__init__ Weights.__init__', 'fields'), [flow.ownership])


# how far the operations a property stands on are followed (properties about refusal, containment, order, laziness: not at all)
DEPTH = dict(C14=0, C16=0, C22=0, C26=0, C27=1, C32=0, C33=0)


def support(S, obls, depth=2):
    """what the operations of a property stand on: the operations they call, the attributes they read, and the constructors
    that set those attributes"""
    have = {o.func for o in obls}
    fields = {}
    out = []
    todo = list(obls)
    for d in range(depth):
        found = {}
        for o in todo:
            if o.func not in S.ref.funcs:
                continue
            r = S.facets('ref', o, 'A', set(S.public) - {o.func})
            seen = set()
            for t in [r.ret] + [g for g, _ in r.guards] + list(r.fields.values()):
                if o.project is not None:
                    t = o.project(t)
                for n in walk(t):
                    if n in seen:
                        continue
                    seen.add(n)
                    if n.op == 'ccall':
                        found.setdefault(n.args[0], o.project)
                    elif n.op == 'attr':
                        k = kind(n.args[0])
                        if isinstance(k, tuple) and k[0] == 'obj':
                            found.setdefault(f'{k[1]}.{n.args[1]}', o.project)
                            fields.setdefault(k[1], set()).add(n.args[1])
        todo = []
        for q, p in sorted(found.items(), key=lambda x: x[0]):
            if q in S.public and q in S.ref.funcs and q not in have:
                have.add(q)
                todo.append(Obl(q, 'ret guards bugs', project=p))
        out += todo
    for c, names in sorted(fields.items()):
        q = c + '.__init__'
        if q in S.ref.funcs and q in S.public:
            out.append(Obl(q, 'fields bugs', fieldset=tuple(sorted(names))))
    return out


def walk(t):
    memo = set()
    todo = [t]
    while todo:
        n = todo.pop()
        if isinstance(n, tuple):
            todo.extend(n)
        elif isinstance(n, Node) and n not in memo:
            memo.add(n)
            yield n
            todo.extend(n.args)
