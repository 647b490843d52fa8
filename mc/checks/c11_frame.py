"C11: histories of operations leave every pre-existing object as it was"
import copy
import itertools

import numpy as np

from ..engine import Violation
from ..model import Cal
from ..survey import noise
from ..util import part

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = ('all histories of two operations from an alphabet of about 60 on a pool of shared objects, the second one applied to the shared objects and to the result of the first one, followed by '
        'every edition of the results; after each operation every object of the pool is observed again, and each operation is repeated; a case is non trivial when the second '
        'operation uses the result of the first one, or edits it')
BOUNDS = {'quick': 'histories of length 2 + one edition, about 60 operations', 'thorough': 'histories of length 3 + one edition over 30 operations, and of length 2 over all'}
ASSUMPTIONS = ['writing into sample arrays in place is not an operation of the library', 's[()] is the set itself']
M = 64


class World:
    def __init__(self):
        import razorback as rzb
        n = 80
        x = np.array([noise(k, n, 3) for k in range(8)])
        x[0] = 2 * x[2] - x[3] + .02 * x[0]
        x[1] = x[2] + 3 * x[3] + .02 * x[1]
        self.arrays = {'x': x}
        SS, Sync = rzb.SignalSet, rzb.SyncSignal
        cal = lambda k: [Cal(c + k) for c in range(6)]
        self.T = rzb.Tags(6, E=(0, 1), B=(2, 3), R=(4, 5), Ex=0, Ey=1)
        self.run = Sync([r[:45] for r in x[:6]], 32, 1000., cal(1))
        self.run2 = Sync([r[45:] for r in x[:6]], 32, 1000. + 45 / 32, cal(7))
        self.run3 = Sync([r[:20] for r in x[:6]], 64, 1005., cal(3))
        self.s = SS(self.T, self.run, self.run2)
        self.t = SS(rzb.Tags(6, E=(5, 4), B=(3, 2), R=(0, 1), Ex=5, Ey=4), Sync([r[:20] for r in x[:6]][::-1], 32, 1004., cal(3)))
        self.u = SS({'Q': (1, 0), 'Q1': 0}, Sync([r[:50] for r in x[6:]], 32, 1000.5, [Cal(20), Cal(21)]))
        self.none = SS(self.T)
        self.noruns = self.t.select_runs([])
        self.inv = rzb.Inventory([self.s.select_channels(['E', 'B']), self.t.select_channels(['E', 'B']), self.u, self.s.select_channels('R')])
        self.sets = [self.t.select_channels(['B', 'E']), self.u, self.s.select_channels('R')]
        self.chans, self.cals, self.runs = [list(r[:9]) for r in x[:2]], [Cal(2), 3.], [self.run, self.run2]
        self.opts = {'fo': dict(Nper=3, overlap=.5, window=None), 'mo': dict(maxit=50), 'grp': [('G', ['R']), ('H', ['E', 'B'])],
                     'dct': {'A': 0, 'Bx': (1, 2)}, 'imp': dict(fourier_opts=dict(Nper=3, overlap=.5)), 'ints': [(1000., 1003.)], 'names': ['R']}
        rng = np.arange(12)
        self.arrays.update(e=x[:2, :40] + 1j * x[:2, 40:80], b=x[2:4, :40] + 1j * x[2:4, 40:80], iv=np.array([3, 7, 20]), init=np.array([[1., 2.], [3., 4.]]),
                           z=np.array([[2., -1.], [1., 3.]], dtype=complex), idx=rng[:2].copy(), mask=np.array([True, False]))
        self.filt = rzb.prefilters.cod_filter(.2, 1., 4)
        self.weights = rzb.weights.bi_weights(.05, 1)
        self.last = None

    def pool(self):
        return {'s': self.s, 't': self.t, 'u': self.u, 'T': self.T, 'inv': self.inv, 'run': self.run, 'run2': self.run2, 'run3': self.run3, 'none': self.none, 'noruns': self.noruns,
                'arrays': self.arrays, 'opts': self.opts, 'sets': self.sets, 'lists': [self.chans, self.cals], 'runs': self.runs}


def observe(s):
    return (int(s.nb_channels), tuple(sorted(dict(s.tags).items())),
            tuple((g.sampling_rate, g.start, g.size, g.stop, tuple((x.dtype.str, x.tobytes()) for x in map(np.asarray, g.data)),
                   tuple(complex(c(2.5)) for c in g.calibrations)) for g in s.signals))


def obs(x):
    import razorback as rzb
    if isinstance(x, rzb.SignalSet):
        return ('set', observe(x), len(x.tags.indices))
    if isinstance(x, rzb.Inventory):
        return ('inv', tuple(obs(e) for e in x))
    if isinstance(x, rzb.Tags):
        return ('tags', tuple(sorted(x.items())), tuple(sorted(x.indices)))
    if isinstance(x, rzb.SyncSignal):
        return ('run', observe(_wrap(x)))
    if isinstance(x, dict):
        return ('dict', tuple((k, obs(v)) for k, v in sorted(x.items())))
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if not hasattr(x, '_fields') else 'tuple', tuple(obs(e) for e in x))
    if callable(x) or isinstance(x, (str, int, float, complex, type(None), np.generic)):
        return repr(x) if not callable(x) else 'callable'
    return repr(x)


def _wrap(run):
    class S:
        nb_channels, tags, signals = len(run.data), {}, [run]
    return S


def ops():
    import razorback as rzb
    from razorback import mestimator, utils, weights
    imp = utils.impedance
    O = {}

    def op(name, on=None):
        def deco(f):
            O[name] = (f, on)
            return f
        return deco
    # `g` is the set the operation works on: the shared one or the last result
    O['sel_tag'] = (lambda w, g: g.select_channels('E'), 'set')
    O['sel_attr'] = (lambda w, g: g.B, 'set')
    O['sel_mix'] = (lambda w, g: g[[1, 'B'], 0], 'set')
    O['sel_arr'] = (lambda w, g: g.select_channels(w.arrays['idx']), 'set')
    O['sel_all'] = (lambda w, g: g[:], 'set')
    O['runs0'] = (lambda w, g: g.select_runs([0]), 'set')
    O['runs_mask'] = (lambda w, g: g[:, g.sampling_rates > 1], 'set')
    O['runs_all'] = (lambda w, g: g[:, :], 'set')
    O['runs_slice'] = (lambda w, g: g.select_runs(slice(None)), 'set')
    O['chan_slice'] = (lambda w, g: g.select_channels(slice(None)), 'set')
    O['join_set'] = (lambda w, g: g.join(g.select_runs([])), 'set')
    O['runs_range'] = (lambda w, g: g.select_runs(list(range(g.nb_runs))), 'set')
    O['sel_range'] = (lambda w, g: g.select_channels(range(g.nb_channels)), 'set')
    O['extract_all'] = (lambda w, g: g.extract_t(-np.inf, np.inf), 'set')
    O['exclude_none'] = (lambda w, g: g.extract_t(5000., 5001., True), 'set')
    O['inv_all'] = (lambda w, v: v.filter('*'), 'inv')
    O['inv_t_all'] = (lambda w, v: v.extract_t(0., 5000.), 'inv')
    O['extract'] = (lambda w, g: g.extract_t(1000.3, 1001.9), 'set')
    O['exclude'] = (lambda w, g: g.extract_t(1000.3, 1000.9, True), 'set')
    O['join_t'] = (lambda w, g: g.join(w.t), 'set')
    O['t_join'] = (lambda w, g: w.t | g, 'set')
    O['join_run'] = (lambda w, g: g | w.run3, 'set')
    O['join_none'] = (lambda w, g: g.join(w.none), 'set')
    O['none_join'] = (lambda w, g: w.noruns | g, 'set')
    O['join_self'] = (lambda w, g: g.join(), 'set')
    O['merge_none'] = (lambda w, g: g.merge(), 'set')
    O['merge_u'] = (lambda w, g: g.merge(w.u), 'set')
    O['u_merge'] = (lambda w, g: w.u & g, 'set')
    O['consecutive'] = (lambda w, g: g.merge_consecutive_runs(), 'set')
    O['rebuild'] = (lambda w, g: rzb.SignalSet(g.tags, *g.signals), 'set')
    O['rebuild_set'] = (lambda w, g: rzb.SignalSet(g.tags, g), 'set')
    O['fourier'] = (lambda w, g: g.fourier_coefficients(4., 3, .5, None), 'set')
    O['fourier_win'] = (lambda w, g: g.fourier_coefficients(4., window=np.hanning, Nper=3, overlap=.5), 'set')
    O['imp_ls'] = (lambda w, g: imp(g, [4., 8.], fourier_opts=w.opts['fo']), 'set')
    O['imp_mest'] = (lambda w, g: imp(g, [6.], weights.mest_weights, w.filt, fourier_opts=w.opts['fo'], mest_opts=w.opts['mo'], keep_invalid_times=True), 'set')
    O['imp_remote'] = (lambda w, g: imp(g, [6.], w.weights, fourier_opts=w.opts['fo'], remote='R', remote_prefilter=w.filt, keep_invalid_times=True), 'set')
    O['imp_real'] = (lambda w, g: imp(g, [6.], weights.mest_weights, fourier_opts=w.opts['fo'], real_pb=True), 'set')
    O['imp_fail'] = (lambda w, g: imp(g, [6., 1e9, 1e-9], fourier_opts=w.opts['fo'], remote='R'), 'set')
    O['pf_values'] = (lambda w, g: utils.prefilter_values(g, [6.], w.filt, fourier_opts=w.opts['fo']), 'set')
    O['pf_compute'] = (lambda w, g: utils.compute_prefilter(g, 6., w.filt, remote='R', fourier_opts=w.opts['fo']), 'set')
    O['pf_mass'] = (lambda w, g: utils.prefilter_values_mass_proc(g, w.opts['names'], [8.], w.opts['ints'], rzb.prefilters.cod_filter(.2, 1., 2)), 'set')
    O['str'] = (lambda w, g: (str(g), repr(g)), 'set')
    O['copy'] = (lambda w, g: copy.copy(g), 'set')
    O['deepcopy'] = (lambda w, g: copy.deepcopy(g), 'set')
    O['inv_of'] = (lambda w, g: rzb.Inventory([g, w.u]), 'set')
    O['summary'] = (lambda w, g: (g.sizes, g.starts, g.stops, g.intervals, g.sampling_rates, g.nb_runs), 'set')
    O['tf'] = (lambda w, g: mestimator.transfer_function(w.arrays['e'], w.arrays['b'], weights.mest_weights, w.arrays['init'], w.arrays['iv']), None)
    O['tf_lists'] = (lambda w, g: mestimator.transfer_function(list(w.arrays['e']), list(w.arrays['b']), w.weights, None, [w.arrays['iv'], ()]), None)
    O['tf_err'] = (lambda w, g: mestimator.transfer_error(w.arrays['e'], w.arrays['b'], w.arrays['z'], [w.arrays['iv'], ()]), None)
    O['tf_real'] = (lambda w, g: utils.transfer_function_real_prob(w.arrays['e'], w.arrays['b'], weights.mest_weights, invalid_idx=[w.arrays['iv'], w.arrays['iv']]), None)
    O['cod'] = (lambda w, g: (w.filt(w.arrays['e'][0], w.arrays['b'].T), w.filt.value(w.arrays['e'][1], w.arrays['b'].T)), None)
    O['huber'] = (lambda w, g: weights.Huber()(0, w.arrays['e'][0], w.arrays['e'][0], w.arrays['b'].T, w.arrays['iv']), None)
    O['inv_filter'] = (lambda w, v: v.filter('E', 'Q*'), 'inv')
    O['inv_sel'] = (lambda w, v: v.select_channels('E', 'R'), 'inv')
    O['inv_runs'] = (lambda w, v: v.select_runs([[0]] * len(v)), 'inv')
    O['inv_t'] = (lambda w, v: v.extract_t(1000.2, 1002.3), 'inv')
    O['inv_t_ex'] = (lambda w, v: v.extract_t(1000.2, 1000.7, True), 'inv')
    O['pack'] = (lambda w, v: v.pack(), 'inv')
    O['pack1'] = (lambda w, v: v.pack(False), 'inv')
    O['inv_merge'] = (lambda w, v: v.merge(), 'inv')
    O['groups'] = (lambda w, v: v.extract_groups(w.opts['grp']), 'inv')
    O['inv_add'] = (lambda w, v: v + w.inv, 'inv')
    O['inv_copy'] = (lambda w, v: rzb.Inventory(v), 'inv')
    O['inv_list'] = (lambda w, g: rzb.Inventory(w.sets), None)
    O['inv_ext'] = (lambda w, g: [v.extend(w.sets) or v for v in [rzb.Inventory()]][0], None)
    O['run_lists'] = (lambda w, g: rzb.SignalSet({'A': 1}, rzb.SyncSignal(w.chans, 8., 1000., w.cals)), None)
    O['inv_tags'] = (lambda w, v: (sorted(v.tags), list(v.starts), list(v.intervals), list(v.sampling_rates), repr(v)), 'inv')
    O['mass'] = (lambda w, v: utils.impedance_mass_proc(v, w.opts['names'], [6.], w.opts['ints'], w.opts['imp']), 'inv')
    O['build_dict'] = (lambda w, g: rzb.SignalSet(w.opts['dct'], w.run), None)
    O['tags_or'] = (lambda w, g: w.T | w.run, None)
    O['tags_q'] = (lambda w, g: (w.T.filter('E*'), w.T.filter_get('E*', 'B'), repr(w.T), w.T == w.s.tags, dict(w.T)), None)
    O['run_ops'] = (lambda w, g: (w.run.extract_i(3, 9), w.run.extract_t(1000.1, 1000.4), w.run.select(1, 0), str(w.run), repr(w.run)), None)
    O['run_fourier'] = (lambda w, g: w.run.fourier_coefficients(4., 3, .5, None), None)
    return O


EDITS = ['tag_add', 'tag_del', 'tag_set', 'tags_replace', 'append', 'base_tags', 'edit_first']


def edit(w, name, res, rzb, held):
    """ edit the last result; returns False when it does not apply """
    sets = [res] if isinstance(res, rzb.SignalSet) else list(res) if isinstance(res, rzb.Inventory) else []
    if name == 'base_tags':
        w.T['New'] = (0, 5)
        del w.T['Ex']
        w.T.E = 3
        return True
    if name == 'edit_first':
        w.s.tags['New'] = (1, 2)
        return True
    if not sets:
        return False
    if name == 'append':
        if not isinstance(res, rzb.Inventory):
            return False
        res.append(w.u)
        res.extend([w.s])
        return True
    for s in sets:
        if any(s is e for e in held):
            continue      # an inventory holds the sets it is given
        if name == 'tag_add':
            if len(s.tags.indices):
                s.tags['Zed'] = 0
        elif name == 'tag_del':
            for t in list(s.tags)[:1]:
                del s.tags[t]
        elif name == 'tag_set':
            for t in list(s.tags):
                s.tags[t] = 0
        elif name == 'tags_replace':
            s.tags = {'Only': 0}
    return True


def all_cases(tier):
    names = OPS
    for a in names:
        yield dict(h=[a])
        for e in EDITS:
            if a != 'copy':     # a shallow copy shares its tags
                yield dict(h=[a], edit=e)
    for a, b in itertools.product(names, repeat=2):
        yield dict(h=[a, b])
    for a, b in itertools.product(MAKERS, repeat=2):
        for e in EDITS[:5]:
            yield dict(h=[a, b], edit=e)
    if tier == 'thorough':
        for a, b, c in itertools.product(MAKERS, repeat=3):
            yield dict(h=[a, b, c])
            yield dict(h=[a, b, c], edit='tag_add')


OPS = ['runs_all', 'runs_slice', 'chan_slice', 'join_set', 'runs_range', 'sel_range', 'extract_all', 'exclude_none', 'inv_all', 'inv_t_all', 'sel_tag', 'sel_attr', 'sel_mix', 'sel_arr', 'sel_all', 'runs0', 'runs_mask', 'extract', 'exclude', 'join_t', 't_join', 'join_run', 'join_none', 'none_join', 'join_self', 'merge_none', 'merge_u', 'u_merge', 'consecutive',
       'rebuild', 'rebuild_set', 'fourier', 'fourier_win', 'imp_ls', 'imp_mest', 'imp_remote', 'imp_real', 'imp_fail', 'pf_values', 'pf_compute', 'pf_mass', 'str', 'copy',
       'deepcopy', 'inv_of', 'summary', 'tf', 'tf_lists', 'tf_err', 'tf_real', 'cod', 'huber', 'inv_filter', 'inv_sel', 'inv_runs', 'inv_t', 'inv_t_ex', 'pack', 'pack1',
       'inv_merge', 'groups', 'inv_add', 'inv_copy', 'inv_list', 'inv_ext', 'run_lists', 'inv_tags', 'mass', 'build_dict', 'tags_or', 'tags_q', 'run_ops', 'run_fourier']
#: operations that give a set or an inventory
MAKERS = ['runs_all', 'runs_slice', 'chan_slice', 'join_set', 'runs_range', 'sel_range', 'extract_all', 'exclude_none', 'inv_all', 'inv_t_all', 'sel_tag', 'sel_attr', 'sel_mix', 'sel_all', 'runs0', 'runs_mask', 'extract', 'exclude', 'join_t', 't_join', 'join_run', 'join_none', 'none_join', 'join_self', 'merge_none', 'merge_u', 'u_merge', 'consecutive',
          'rebuild', 'rebuild_set', 'deepcopy', 'inv_of', 'inv_filter', 'inv_sel', 'inv_runs', 'inv_t', 'inv_t_ex', 'pack', 'pack1', 'inv_merge', 'groups', 'inv_copy',
          'inv_list', 'build_dict', 'tags_or']


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def same(a, b):
    return a == b or repr(a) == repr(b)


def run_case(case, rec):
    import razorback as rzb
    O = ops()
    w = World()
    snap = {k: obs(v) for k, v in w.pool().items()}
    derived = []
    res = None
    for k, name in enumerate(case['h']):
        fn, on = O[name]
        g = {'set': w.s, 'inv': w.inv, None: None}[on]
        used_last = False
        if on == 'set' and isinstance(res, rzb.SignalSet):
            g, used_last = res, True
        elif on == 'set' and isinstance(res, rzb.Inventory) and len(res):
            g, used_last = res[0], True
        elif on == 'inv' and isinstance(res, rzb.Inventory):
            g, used_last = res, True
        elif on == 'inv' and isinstance(res, rzb.SignalSet):
            g, used_last = rzb.Inventory([res]), True
        if used_last:
            rec.interesting(repr(case))
        out, tries = None, []
        for _ in range(2 if k == len(case['h']) - 1 else 1):
            rec.step()
            try:
                out = fn(w, g)
                tries.append(obs(out))
            except RecursionError:
                raise
            except Exception as exc:     # refusals are the business of the other checks; they change nothing either
                tries.append(('refused', type(exc).__name__))
                rec.count('refusals')
        for key, v in w.pool().items():
            if obs(v) != snap[key]:
                raise Violation('%r: %s altered by %s' % (case, key, name))
        for what, obj, before in derived:
            if not same(obs(obj), before):
                raise Violation('%r: the result of %s altered by %s' % (case, what, name))
        if not same(tries[0], tries[-1]):
            raise Violation('%r: %s gives another result when repeated' % (case, name))
        if name in ('copy', 'deepcopy') and not same(tries[0], obs(g)):
            raise Violation('%r: the copy is not equal to the original' % case)
        rec.outcome(hash(repr(tries[0])[:2000]))
        if tries[0][0] != 'refused':
            derived.append((name, out, tries[0]))
            if isinstance(out, (rzb.SignalSet, rzb.Inventory)):
                res = out
    rec.state(repr(case))
    if 'edit' in case:
        e = case['edit']
        if res is None and e not in ('base_tags', 'edit_first'):
            return
        held = [w.s, w.t, w.u] + list(w.inv) + w.sets
        for what, obj, _ in derived:
            if obj is not res:
                held += list(obj) if isinstance(obj, rzb.Inventory) else [obj]
        if not edit(w, e, res, rzb, held):
            return
        rec.step()
        rec.interesting(repr(case))
        skip = {'base_tags': {'T'}, 'edit_first': {'s'}}.get(e, ())
        for key, v in w.pool().items():
            if key not in skip and obs(v) != snap[key]:
                raise Violation('%r: %s altered by the edition %s of a result' % (case, key, e))
        for what, obj, before in derived:
            if obj is res:
                continue
            if what == 'copy' or (isinstance(obj, rzb.Inventory) and e == 'edit_first' and any(x is w.s for x in obj)):
                continue      # holds the edited set itself
            if not same(obs(obj), before):
                raise Violation('%r: the result of %s altered by the edition %s' % (case, what, e))
        if e in ('base_tags', 'edit_first') and res is not None and case['h'][-1] not in ('inv_of', 'copy'):
            if isinstance(res, rzb.SignalSet) and not same(obs(res), derived[-1][2]):
                raise Violation('%r: the result altered by the edition %s' % (case, e))
