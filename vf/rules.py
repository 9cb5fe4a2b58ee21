"""Rules that need no reference: effect rules over the value terms and who-may-call rules over resolved call sites."""
import ast
from . import interp, terms as T
from .interp import Unsupported, summarise
from .terms import TooComplex
from .program import Cls, Fn, canon_ext
from .refmodel import PARAM_TYPES
from . import table


def functions(prog):
    for m in prog.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def resolved_names(prog, module, fn_node):
    """external dotted names a body refers to (call or mention), resolved through imports"""
    for n in ast.walk(fn_node):
        if isinstance(n, (ast.Attribute, ast.Name)):
            r = prog.resolve_expr(module, n)
            if isinstance(r, tuple) and r[0] in ('ext', 'module'):
                yield canon_ext(r[1]) if r[0] == 'ext' else r[1], n


# ---------------------------------------------------------------- argument preservation
# parameters a function may write to by contract
MAY_WRITE = {
    'PU:append_to_nrow_ncol_based_on_shape': 'nrow ncol',      # accumulator lists, by contract
}


def root(n):
    while n.op in ('attr', 'getitem') and n.args:
        n = n.args[0]
    return n


def argument_preservation(code, prop, budget=None):
    """no listed function changes an object reachable from its arguments"""
    out, units, undecided = [], 0, []
    for short in PRESERVE:
        f = table.full(short)
        mod, q = f.split(':')
        fn = code.find(mod, q)
        if fn is None:
            undecided.append((f, 'not present'))
            continue
        T.reset_budget()
        try:
            bs = table.BOUNDS.get(f, [()])[0]
            if bs:
                continue
            C = summarise(code, fn, boundaries=bs, types=PARAM_TYPES)
        except (Unsupported, TooComplex, RecursionError) as e:
            undecided.append((f, str(e)))
            continue
        units += 1
        allowed = set(PRESERVE[short].split())
        for k, v in C.obs.items():
            if isinstance(k, str) or k[0] != 'state':
                continue
            r = root(k[1])
            if r.op != 'sym' or r.data == 'self' or r.data in allowed:
                continue
            out.append(dict(rule='argument-preservation', function=f, file=(v.src or (fn.module.rel, fn.node.lineno))[0],
                            line=(v.src or (fn.module.rel, fn.node.lineno))[1],
                            what='changes its argument: %s%s' % (T.show(k[1]), '' if k[2] == '*' else '.' + k[2])))
    return out, units, undecided


# function -> parameters it may change by contract
PRESERVE = {}
for _g in (table.STATS, table.PLOTU, table.SETT, 'PROP:check_s2chain PROP:observation_sample PROP:define_sample_points',
           'PROP:generate_quantiles PROP:plot_intervals PROP:plot_3d_intervals PROP:setup_display_settings PROP:_check_limits',
           'PROP:setup_interval_colors PROP:_setup_labels PROP:_convert_limits',
           'MP:plot_density_panel MP:plot_histogram_panel MP:plot_chain_panel MP:plot_pairwise_correlation_panel MP:plot_chain_metrics',
           'CP:generate_combined_chain_with_index CP:generate_chain_list GU:removekey RS:lighten_results',
           'PI._observation_sample PI._generate_quantiles PI._define_sample_points PI._analyze_s2chain PI._setup_interval_ii',
           'PI._calc_credible_ii PI._calc_credible_and_prediction_ii PI._calculate_ci_for_data_sets',
           'PI._calculate_ci_and_pi_for_data_sets PI.generate_prediction_intervals PI.setup_prediction_interval_calculation',
           'PF.default_priorfun SS.mcmc_sos_function MS._array_type SU:is_sample_outside_bounds SU:sample_candidate_from_gaussian_proposal',
           'SU:log_posterior_ratio_acceptance_test AD:cholupdate AD:update_cov_via_ram',
           'AD:update_cov_from_covchain AD:update_covariance_mean_sum AD:initialize_covariance_mean_sum',
           'DR:extract_state_elements DR:log_posterior_ratio DR:nth_stage_log_proposal_ratio',
           'PAR:check_initial_values PAR:generate_initial_values PAR:check_shape_of_users_initial_values',
           'PAR:check_users_initial_values_wrt_limits PAR:get_parameter_features PAR:unpack_mcmc_set',
           'DS._convert_to_numpy_array DS._convert_numpy_array_to_2d CP:_numeric_sort_key CP:check_parallel_directory_contents'):
    for _f in _g.split():
        PRESERVE.setdefault(_f, MAY_WRITE.get(_f, ''))


# ---------------------------------------------------------------- random numbers
SAFE_DRAWS = {'np.random.' + x for x in '''rand randn random random_sample ranf sample standard_normal normal uniform gamma
    standard_gamma chisquare randint permutation shuffle choice exponential beta multivariate_normal integers'''.split()}
STATE_READ = {'np.random.get_state', 'np.random'}
FOREIGN = ('random', 'secrets', 'uuid', 'os.urandom')


def random_discipline(code):
    """every random number comes from numpy's global generator, which nothing in the package reseeds or replaces"""
    out, sites = [], 0
    for m in code.modules.values():
        nodes = {id(x): f for f in functions(code) if f.module is m for x in ast.walk(f.node)}
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[id(c)] = n
        for name, n in resolved_names(code, m, m.tree):
            f = nodes.get(id(n))
            where = f.qual if f else '<module>'
            if isinstance(parents.get(id(n)), ast.Attribute):
                continue           # part of a longer dotted name
            if name in ('np.random', 'numpy.random') or not name:
                continue
            bad = None
            if name.startswith('np.random.'):
                sites += 1
                if name in SAFE_DRAWS or name in STATE_READ:
                    continue
                if name == 'np.random.seed':
                    # worker initialisation: handed to the pool, never called in this process
                    p = parents.get(id(n))
                    if isinstance(p, ast.keyword) and p.arg == 'initializer':
                        continue
                    if isinstance(p, ast.Call) and p.func is not n:
                        continue
                    # a seed the caller hands in
                    if isinstance(p, ast.Call) and f is not None:
                        a = list(p.args) + [k.value for k in p.keywords]
                        fm = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
                        if len(a) == 1 and isinstance(a[0], ast.Name) and a[0].id in fm:
                            continue
                    bad = 'reseeds the global generator'
                elif name in ('np.random.default_rng', 'np.random.RandomState', 'np.random.Generator', 'np.random.PCG64'):
                    bad = 'draws from a generator the user cannot seed'
                elif name == 'np.random.set_state':
                    bad = 'replaces the state of the global generator'
            elif name.split('.')[0] == 'random' or name.split('.')[0] == 'secrets' or name == 'os.urandom':
                sites += 1
                bad = 'uses a source of randomness that numpy.random.seed does not control'
            if bad:
                out.append(dict(rule='random-discipline', function=m.name + ':' + where, file=m.rel, line=n.lineno,
                                what='%s: %s' % (name, bad)))
    return out, sites, []
