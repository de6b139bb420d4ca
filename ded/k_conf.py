"""Contracts of the configuration (C23)"""
from cc import *
from k_core import EC
from k_hyp import HC

PR = 'ellipy.elltool.conf.properties.Properties.Properties.'
PP = 'ellipy.elltool.conf.properties._ParseProp.ParsePropMixin.parse_prop'
NAMES = ('version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points')
TOLS = ('abs_tol', 'rel_tol', 'reg_tol')
INTS = ('n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points')
SETTERS = ('is_verbose', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'abs_tol', 'rel_tol')


def values(pre):
    """arbitrary admissible values of all options"""
    v = {'version': 'v' + pre, 'ode_solver_name': 'ode23', 'is_verbose': True, 'is_ode_norm_control': False,
         'is_enabled_ode_solver_options': True}
    for k in TOLS:
        v[k] = scalar(pre + k, pos=True, gen=lambda env, d: 0.1 * env.positive())
    for k in INTS:
        v[k] = scalar(pre + k, ty='int', positive=True, nonneg=True)
    return {k: v[k] for k in NAMES}


def config(it, pre='cfg.'):
    """the store in an arbitrary state"""
    v = values(pre)
    it.call(it.get(PR + 'set_conf_repo_mgr'), [it.new_dict(dict(v))], {})
    return v


def same(a, b):
    if a is b:
        return TRUE
    if isinstance(a, S) and isinstance(b, S):
        return c_and(c_eq(a.v, b.v), TRUE if a.bad == b.bad else FALSE, TRUE if a.ty == b.ty else FALSE)
    return TRUE if type(a) is type(b) and not isinstance(a, (S, Arr)) and a == b else FALSE


def all_options(it, want, name):
    """every getter and the dictionary of all options show exactly the wanted values"""
    g = []
    for k in NAMES:
        out = call(it, PR + ('get_' + k))
        g.append(('%s.get_%s' % (name, k), same(out[1], want[k]) if out[0] == 'ret' else FALSE))
    out = call(it, PR + 'get_prop_dict')
    ok = out[0] == 'ret' and isinstance(out[1], dict) and set(out[1]) == set(want)
    g.append(('%s.dictionary' % name, c_and(*[same(out[1][k], want[k]) for k in want]) if ok else FALSE))
    return g


@contract('C23', 'set', PR + 'set', n=None, opt=SETTERS)
def _(it, opt):
    """from any state a setter changes exactly its option, whatever was read before"""
    want = config(it)
    g = all_options(it, want, 'before')
    v = values('new.')[opt] if opt != 'is_verbose' else False
    out = call(it, PR + 'set_' + opt, v)
    want[opt] = v
    g = g + [('returns', returns(out))] + all_options(it, want, 'after')
    out = call(it, PR + 'get_prop_dict')
    return g


@contract('C23', 'set twice', PR + 'set', n=None, opt=('abs_tol', 'n_plot_2d_points'), other=('rel_tol', 'n_plot_3d_points', 'abs_tol'))
def _(it, opt, other):
    """the last value set of each option counts"""
    want = config(it)
    for k, o in enumerate((opt, other, opt)):
        v = values('new%d.' % k)[o]
        call(it, PR + 'set_' + o, v)
        want[o] = v
    return all_options(it, want, 'after')


@contract('C23', 'dictionary is a copy', PR + 'get_prop_dict', n=None)
def _(it):
    want = config(it)
    out = call(it, PR + 'get_prop_dict')
    if out[0] != 'ret':
        return [('returns', returns(out))]
    d = out[1]
    for k in NAMES:
        it.npm.setitem(it, d, k, 'changed')
    it.npm.setitem(it, d, 'more', 'added')
    return all_options(it, want, 'kept')


@contract('C23', 'default configuration', PR + 'init', n=None)
def _(it):
    """the initial tolerances and counts are admissible"""
    out = call(it, PR + 'get_prop_dict')
    if out[0] != 'ret':
        return [('returns', returns(out))]
    d = out[1]
    ok = set(d) == set(NAMES)
    return [('options', TRUE if ok else FALSE)] + \
        [('tolerance ' + k, c_lt(X.ZERO, real_of(d[k]))) for k in TOLS if ok] + \
        [('count ' + k, TRUE if type(d[k]) is int and d[k] > 0 else FALSE) for k in INTS if ok]


def real_of(v):
    return v.v if isinstance(v, S) else real(v)


# ---------------------------------------------------------------- parsing
REQ = {'all': None, 'one': ['rel_tol'], 'two': ['abs_tol', 'rel_tol'], 'reversed': ['rel_tol', 'abs_tol'],
       'mixed': ['n_plot_3d_points', 'is_verbose', 'reg_tol', 'version', 'n_plot_2d_points'],
       'late first': ['n_time_grid_points', 'ode_solver_name', 'abs_tol'], 'none': []}
GIVE = {'nothing': (), 'tolerances': ('abs_tol', 'rel_tol'), 'some': ('n_plot_2d_points', 'reg_tol', 'version'),
        'all': NAMES}


@contract('C23', 'parse', PP, n=None, req=tuple(REQ), give=tuple(GIVE))
def _(it, req, give):
    """the given value or else the current one, in the requested order; the rest is handed back"""
    conf = config(it)
    new = values('arg.')
    new['ode_solver_name'], new['is_verbose'] = 'ode45', False
    names = list(NAMES) if REQ[req] is None else REQ[req]
    extra = arr('extra', (dim('z', 1),))
    given = {k: new[k] for k in GIVE[give]}
    given['other'] = extra
    args = it.new_dict(dict(given))
    out = call(it, PP, args, *([] if REQ[req] is None else [it.new_list(list(names))]))
    g = [('returns', returns(out))]
    if out[0] != 'ret':
        return g
    vals, rest = out[1]
    vals = it.as_seq(vals)
    ok = isinstance(vals, list) and len(vals) == len(names)
    g.append(('count', TRUE if ok else FALSE))
    if ok:
        for k, v in zip(names, vals):
            g.append(('value of %s' % k, same(v, given.get(k, conf[k]))))
    left = [k for k in given if k not in names]
    g.append(('unrequested arguments', TRUE if isinstance(rest, dict) and set(rest) == set(left) else FALSE))
    if isinstance(rest, dict) and set(rest) == set(left):
        g.append(('unrequested values', c_and(TRUE, *[same(rest[k], given[k]) if k != 'other' else
                                                     (TRUE if rest[k] is extra else FALSE) for k in left])))
    g.append(('arguments kept', TRUE if set(args) == set(given) and all(args[k] is given[k] for k in given) else FALSE))
    return g + all_options(it, conf, 'configuration kept')


BAD = {'abs_tol': ['text', 1, True, None, 0.0, 'negative'], 'rel_tol': ['text', 2, 0.0, 'negative'], 'reg_tol': ['text', 1, 0.0, 'negative'],
       'is_verbose': ['text', 1, 0.5, None], 'version': [1, None, 0.5, False], 'ode_solver_name': ['ode1', 1, ''],
       'is_ode_norm_control': ['on', 1], 'is_enabled_ode_solver_options': ['on', 0],
       'n_plot_2d_points': ['text', None, 0.5], 'n_plot_3d_points': ['text', 1.5], 'n_time_grid_points': ['text', 2.25]}
PAIRS = tuple((k, i) for k in BAD for i in range(len(BAD[k])))


@contract('C23', 'parse.rejected', PP, n=None, bad=PAIRS, listed=(True, False))
def _(it, bad, listed):
    """wrong types and non-positive tolerances are rejected, whatever the other values are"""
    conf = config(it)
    k, i = bad
    v = BAD[k][i]
    if v == 'negative':
        v = scalar('neg')
        it.assume(c_lt(v.v, X.ZERO))
    elif isinstance(v, float):
        v = S(real(v)) if v != 0 else S(X.ZERO)
    out = call(it, PP, it.new_dict({k: v}), *([it.new_list(['abs_tol' if k != 'abs_tol' else 'rel_tol', k])] if listed else []))
    return [('rejected', raised(out, 'wrongInput'))] + all_options(it, conf, 'configuration kept')


@contract('C23', 'parse.unknown', PP, n=None, names=(('abs_tol', 'nothing'), ('nothing',), ('nothing', 'abs_tol', 'rel_tol')))
def _(it, names):
    config(it)
    out = call(it, PP, it.new_dict({}), it.new_list(list(names)))
    return [('rejected', raised(out, 'wrongInput'))]


# ---------------------------------------------------------------- objects and the configuration
@contract('C23', 'objects keep their values', PR + 'set', cls=(EC, HC), given=(True, False))
def _(it, n, cls, given):
    conf = config(it)
    at0, rt0 = scalar('a0', pos=True), scalar('r0', pos=True)
    kw = {'abs_tol': at0, 'rel_tol': rt0} if given else {}
    mk_ = lambda: it.call(it.get(cls), [arr('c', (n,)), sym('Q', n, kind='pd') if cls == EC else scalar('s')], dict(kw))
    e = mk_()
    a1, r1 = scalar('a1', pos=True), scalar('r1', pos=True)
    call(it, PR + 'set_abs_tol', a1)
    call(it, PR + 'set_rel_tol', r1)
    e2 = mk_()
    g = []
    for nm, o, wa, wr in (('old', e, at0 if given else conf['abs_tol'], rt0 if given else conf['rel_tol']),
                          ('new', e2, at0 if given else a1, rt0 if given else r1)):
        for fn, w in (('get_abs_tol', wa), ('get_rel_tol', wr)):
            out = call(it, cls + '.' + fn, it.new_list([o]))
            if out[0] != 'ret':
                g.append(('%s.%s' % (nm, fn), FALSE))
                continue
            tol = out[1][1] if isinstance(out[1], tuple) else out[1]
            g.append(('%s.%s' % (nm, fn), guarded(lambda: c_eq(rv(it, tol.get((I0,) * tol.ndim) if isinstance(tol, Arr) else tol), w.v))))
    return g
