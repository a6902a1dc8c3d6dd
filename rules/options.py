"""Option declarations of the commands (C21): what click is told about every option, resolved from the decorators, against the documented table."""
import ast

from msa.report import Item
from rules.effects import dotted

PROP = ('C21',)
IN, OUT, S, F = 'file', 'str', 'str', 'float'
FMT = dict(format=(S, 'opt'), dsco=(S, 'multi'), lco=(S, 'multi'))
# command -> option -> (type, use[, default]); use: req = mandatory, opt = may be left out, multi = may be repeated, flag
TABLE = {
    'complete': dict(dem=(IN, 'opt'), outdir=(IN, 'opt'), mm=(F, 'req'), zresolution=(F, 'req'), accum=('bool', 'flag'), vector=('bool', 'flag'), filter=(S, 'opt')),
    'filled': dict(dem=(IN, 'req'), out=(OUT, 'req')),
    'depths': dict(dem=(IN, 'req'), filled=(IN, 'req'), out=(OUT, 'req')),
    'flowdir': dict(dem=(IN, 'req'), out=(OUT, 'req')),
    'accum': dict(flowdir=(IN, 'req'), out=(OUT, 'req')),
    'bspots': dict(depths=(IN, 'req'), out=(OUT, 'req'), filter=(S, 'opt')),
    'wsheds': dict(bluespots=(IN, 'req'), flowdir=(IN, 'req'), out=(OUT, 'req')),
    'pourpts': dict(bluespots=(IN, 'req'), depths=(IN, 'req'), watersheds=(IN, 'req'), dem=(IN, 'opt'), accum=(IN, 'opt'), out=(OUT, 'req'),
                    layername=(S, 'opt', 'pourpoints'), **FMT),
    'polys': dict(raster=(IN, 'req'), out=(OUT, 'req'), layername=(S, 'opt', 'polygonized'), **FMT),
    'network': dict(bluespots=(IN, 'req'), flowdir=(IN, 'req'), pourpoints=(S, 'req'), pourpoints_layer=(S, 'opt', 'pourpoints'), out=(OUT, 'req'),
                    out_nodes_layer=(S, 'opt', 'nodes'), out_streams_layer=(S, 'opt', 'streams'), **FMT),
    'initvolumes': dict(nodes=(S, 'req'), nodes_layer=(S, 'opt', 'nodes'), mm=(F, 'opt'), pr=(IN, 'opt'), pr_unit=('choice', 'opt', 'mm'), bluespots=(IN, 'opt'),
                        out=(OUT, 'req'), out_layer=(S, 'opt', 'initvolumes'), out_attribute=(S, 'opt', 'inputv'), **FMT),
    'hyps': dict(bluespots=(IN, 'req'), dem=(IN, 'req'), pourpoints=(S, 'req'), pourpoints_layer=(S, 'opt', 'pourpoints'), zresolution=(F, 'req'), out=(OUT, 'req'),
                 out_hyps_layer=(S, 'opt', 'hyps'), **FMT),
    'finalvolumes': dict(inputvolumes=(S, 'req'), inputvolumes_layer=(S, 'opt', 'initvolumes'), attribute=(S, 'opt', 'inputv'), out=(OUT, 'req'),
                         out_layer=(S, 'opt', 'finalvolumes'), **FMT),
    'finallevels': dict(finalvols=(S, 'req'), finalvols_layer=(S, 'opt', 'finalvolumes'), hyps=(S, 'req'), hyps_layer=(S, 'opt', 'hyps'), out=(OUT, 'req'),
                        out_layer=(S, 'opt', 'finallevels'), **FMT),
    'finalbluespots': dict(bluespots=(IN, 'req'), dem=(IN, 'req'), finallevels=(S, 'req'), finallevels_layer=(S, 'opt', 'finallevels'), out_depths=(OUT, 'opt'),
                           out_bluespots=(OUT, 'opt')),
}
FORMATS = dict(finallevels='geojson', hyps='CSV')
FLAGS = {('finalvolumes', 'attribute'): ('--attribute', '-a')}
IGNORED = {'help', 'show_default', 'metavar', 'hidden', 'show_envvar', 'show_choices', 'prompt_required', 'expose_value', 'is_eager', 'callback'}


class Unclear(Exception):
    pass


class Opt:
    def __init__(self, m, call, flags, kw):
        self.m, self.call, self.flags, self.kw = m, call, flags, kw
        self.where = '%s:%d' % (m.path, call.lineno)


def glob(P, m, e):
    """the module level construct a name or a.b refers to"""
    d = dotted(m, e)
    if d is None:
        return None
    if '.' not in d:
        g = m.globals.get(d)
        return (m, g) if g else None
    r = P.resolve_dotted(d)
    if r[0] == 'glob':
        return r[1], r[1].globals[r[2]]
    return None


def const(P, m, e, d=0):
    if d > 6:
        raise Unclear('constant too deep')
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -const(P, m, e.operand, d + 1)
    if isinstance(e, (ast.List, ast.Tuple)):
        return tuple(const(P, m, x, d + 1) for x in e.elts)
    if isinstance(e, (ast.Name, ast.Attribute)):
        g = glob(P, m, e)
        if g and g[1][0] == 'assign' and len(g[1][1]) == 1 and isinstance(g[1][1][0], ast.Assign):
            return const(P, g[0], g[1][1][0].value, d + 1)
    raise Unclear('value %s' % ast.unparse(e)[:60])


def typeof(P, m, e, d=0):
    """(type word, choices or None)"""
    if isinstance(e, ast.Name):
        w = {'float': 'float', 'int': 'int', 'str': 'str', 'bool': 'bool'}.get(e.id)
        if w and e.id not in m.globals:
            return w
    if isinstance(e, (ast.Name, ast.Attribute)):
        t = dotted(m, e)
        w = {'click.FLOAT': 'float', 'click.INT': 'int', 'click.STRING': 'str', 'click.BOOL': 'bool', 'click.Path': 'str'}.get(t)
        if w:
            return w
        g = glob(P, m, e)
        if g and g[1][0] == 'assign' and len(g[1][1]) == 1 and d < 5:
            return typeof(P, g[0], g[1][1][0].value, d + 1)
    if isinstance(e, ast.Constant) and e.value is None:
        return None
    if isinstance(e, ast.Call):
        t = dotted(m, e.func)
        kw = {k.arg: k.value for k in e.keywords}
        if None in kw:
            raise Unclear('type %s' % ast.unparse(e)[:60])
        if t == 'click.Path':
            if set(kw) - {'exists', 'readable', 'resolve_path', 'writable', 'path_type', 'allow_dash', 'file_okay', 'dir_okay'} or len(e.args) > 1:
                raise Unclear('type %s' % ast.unparse(e)[:60])
            ex = const(P, m, kw['exists']) if 'exists' in kw else const(P, m, e.args[0]) if e.args else False
            return 'file' if ex else 'str'
        if t == 'click.Choice':
            return 'choice'
    raise Unclear('type %s' % ast.unparse(e)[:60])


def options(P, m, e, d=0):
    """the options a decorator expression adds, outermost first"""
    if d > 8:
        raise Unclear('decorator too deep')
    if isinstance(e, ast.Call):
        t = dotted(m, e.func) or ''
        if t in ('click.option', 'click.core.option', 'click.decorators.option'):
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                kws = {}
                for k in e.keywords:
                    if k.arg is None:
                        v = k.value
                        if isinstance(v, ast.Name):
                            g = glob(P, m, v)
                            if g and g[1][0] == 'assign' and len(g[1][1]) == 1:
                                v = g[1][1][0].value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args:
                            kws.update({x.arg: x.value for x in v.keywords})
                        elif isinstance(v, ast.Dict) and all(isinstance(x, ast.Constant) for x in v.keys):
                            kws.update({x.value: y for x, y in zip(v.keys, v.values)})
                        else:
                            raise Unclear('option with **%s' % ast.unparse(v)[:40])
                    else:
                        kws[k.arg] = k.value
                if any(isinstance(a, ast.Starred) for a in e.args):
                    raise Unclear('option with *args')
            else:
                kws = {k.arg: k.value for k in e.keywords}
            return [Opt(m, e, tuple(const(P, m, a) for a in e.args), kws)]
        if t.startswith('click_log.') or t in ('click.command', 'click.group', 'click.version_option', 'click.help_option', 'click.pass_context'):
            return []
        if t == 'click.argument':
            raise Unclear('argument')
        g = glob(P, m, e.func)
        if g and g[1][0] == 'fn':
            raise Unclear('decorator factory %s' % ast.unparse(e.func))
        raise Unclear('decorator %s' % ast.unparse(e)[:60])
    if isinstance(e, (ast.Name, ast.Attribute)):
        if (dotted(m, e) or '').split('.')[0] == 'functools' or (dotted(m, e) or '') in ('click.pass_context',):
            return []
        g = glob(P, m, e)
        if g and g[1][0] == 'assign' and len(g[1][1]) == 1 and isinstance(g[1][1][0], ast.Assign):
            return options(P, g[0], g[1][1][0].value, d + 1)
        if g and g[1][0] == 'fn':
            return wrapper(P, g[0], g[1][1], d)
    raise Unclear('decorator %s' % ast.unparse(e)[:60])


def wrapper(P, m, f, d):
    """def add_options(f): f = click.option(...)(f); ...; return f"""
    if len(f.args.args) != 1:
        raise Unclear('decorator %s' % f.name)
    p = f.args.args[0].arg
    out = []

    def ap(e):
        if isinstance(e, ast.Name) and e.id == p:
            return []
        if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords:
            inner = ap(e.args[0])
            return options(P, m, e.func, d + 1) + inner
        raise Unclear('decorator %s' % f.name)
    for s in f.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == p:
            out = ap(s.value) + out
        elif isinstance(s, ast.Return) and s.value is not None:
            return ap(s.value) + out
        elif isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.target, ast.Name):
            it = s.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'reversed' and len(it.args) == 1:
                it = it.args[0]
            if isinstance(it, (ast.Name, ast.Attribute)):
                g = glob(P, m, it)
                if g and g[1][0] == 'assign' and len(g[1][1]) == 1:
                    it = g[1][1][0].value
            b = s.body[0]
            if not (isinstance(it, (ast.List, ast.Tuple)) and isinstance(b, ast.Assign) and isinstance(b.value, ast.Call)
                    and isinstance(b.value.func, ast.Name) and b.value.func.id == s.target.id):
                raise Unclear('decorator %s' % f.name)
            for x in it.elts:
                out = out + options(P, m, x, d + 1)
        else:
            raise Unclear('decorator %s' % f.name)
    raise Unclear('decorator %s' % f.name)


def paramname(flags):
    names = [f for f in flags if f.isidentifier()]
    if names:
        return names[0]
    opts = [(len(f) - len(f.lstrip('-')), f.lstrip('-')) for f in flags]
    opts.sort(key=lambda x: -x[0])
    return opts[0][1].replace('-', '_').lower()


def commands(P):
    """command name -> (module, function, decorators that add options)"""
    out = {}
    for m in P.modules.values():
        if m.is_pyx or not m.name.startswith('malstroem'):
            continue
        for f in m.tree.body:
            if not isinstance(f, ast.FunctionDef):
                continue
            for i, d in enumerate(f.decorator_list):
                if isinstance(d, ast.Call):
                    t = dotted(m, d.func) or ''
                    if t == 'click.command' or t.endswith('.cli.cli.command') or t.endswith('.command') and not t.startswith('click.'):
                        kw = {k.arg: k.value for k in d.keywords}
                        try:
                            n = const(P, m, d.args[0]) if d.args else const(P, m, kw['name']) if 'name' in kw else f.name.replace('_', '-')
                        except Unclear:
                            continue
                        out[n] = (m, f, f.decorator_list[:i] + f.decorator_list[i + 1:], t != 'click.command')
    return out


def registered(P):
    """functions handed to add_command of the command group"""
    out, unclear = set(), False
    for m in P.modules.values():
        if m.is_pyx or not m.name.startswith('malstroem'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_command':
                a = n.args[0] if n.args else None
                g = glob(P, m, a) if isinstance(a, (ast.Name, ast.Attribute)) else None
                if g and g[1][0] == 'fn':
                    nm = None
                    if len(n.args) > 1 or n.keywords:
                        try:
                            nm = const(P, m, n.args[1] if len(n.args) > 1 else n.keywords[0].value)
                        except Unclear:
                            unclear = True
                    out.add((g[0].name + ':' + g[1][1].name, nm))
                else:
                    unclear = True
    return out, unclear


def decl(P, o):
    """(type, required, multiple, flag, default)"""
    kw = o.kw
    g = lambda k, d: const(P, o.m, kw[k]) if k in kw else d
    unknown = set(kw) - IGNORED - {'type', 'required', 'default', 'multiple', 'is_flag', 'nargs'}
    if unknown:
        raise Unclear('option setting %s' % ', '.join(sorted(unknown)))
    default = g('default', None)
    flag = bool(g('is_flag', False)) or (any('/' in f for f in o.flags))
    ty = typeof(P, o.m, kw['type']) if 'type' in kw else None
    if flag:
        ty = 'bool'
    elif ty is None:
        ty = 'str' if default is None else {bool: 'bool', int: 'int', float: 'float', str: 'str'}.get(type(default), 'str')
        if isinstance(default, bool):
            flag = True
    if g('nargs', 1) != 1:
        raise Unclear('nargs')
    return ty, bool(g('required', False)), bool(g('multiple', False)), flag, default


def table(ctx):
    P = ctx.P
    cmds = commands(P)
    reg, uncl = registered(P)
    items = []
    for name, opts in TABLE.items():
        if name not in cmds:
            named = [c for c in cmds if cmds[c][1].name.startswith('process')]
            items.append(Item('options_' + name, PROP, 'violation' if not uncl and len(named) >= len(TABLE) - 1 else 'undecided',
                              detail='no command %s is declared' % name, rule=RULE))
            continue
        m, f, decs, direct = cmds[name]
        fq = m.name + ':' + f.name
        where = '%s:%d' % (m.path, f.lineno)
        st, det, n = 'ok', '', 0
        try:
            if not direct and not any(r[0] == fq and r[1] in (None, name) for r in reg):
                if uncl:
                    raise Unclear('registration of commands')
                st, det = 'violation', '%s is not reachable as command %s' % (fq, name)
            got = {}
            for d in decs:
                for o in options(P, m, d):
                    got.setdefault(paramname(o.flags), o)
            params = {a.arg for a in f.args.args + f.args.kwonlyargs}
            for k, want in opts.items():
                if st == 'violation':
                    break
                n += 1
                o = got.get(k)
                if o is None:
                    ks = [x for x in got if any(fl.lstrip('-').replace('-', '_') == k for fl in got[x].flags)]
                    if ks:
                        o = got[ks[0]]      # handed on under another parameter name
                    else:
                        st, det = 'violation', 'option -%s is not declared' % k
                        break
                where = o.where
                dc = decl(P, o)
                ty, req, multi, flag, default = dc
                flags = FLAGS.get((name, k), ('-' + k,))
                wd = want[2] if len(want) > 2 else FORMATS.get(name, 'ESRI shapefile') if k == 'format' else None
                miss = [x for x in flags if x not in o.flags]
                if miss:
                    st, det = 'violation', 'option %s of %s is called %s' % (miss[0], name, ', '.join(o.flags))
                elif ty != want[0]:
                    st, det = 'violation', 'option -%s of %s takes a value of type %s instead of %s' % (k, name, ty, want[0])
                elif flag != (want[1] == 'flag'):
                    st, det = 'violation', 'option -%s of %s %s' % (k, name, 'does not take a value' if flag else 'is not a flag')
                elif multi != (want[1] == 'multi'):
                    st, det = 'violation', 'option -%s of %s %s' % (k, name, 'is a list' if multi else 'cannot be repeated: its value is a text, not a list of texts')
                elif want[1] == 'req' and not (req and default is None):
                    st, det = 'violation', 'option -%s of %s may be left out' % (k, name)
                elif want[1] != 'req' and req:
                    st, det = 'violation', 'option -%s of %s is mandatory' % (k, name)
                elif want[1] == 'opt' and default != wd:
                    st, det = 'violation', 'default of option -%s of %s is %r instead of %r' % (k, name, default, wd)
                elif flag and default not in (None, False):
                    st, det = 'violation', 'flag -%s of %s is set by default' % (k, name)
                elif paramname(o.flags) not in params and not f.args.kwarg:
                    st, det = 'violation', 'option -%s of %s is handed on as %s, which %s does not take' % (k, name, paramname(o.flags), f.name)
        except Unclear as e:
            st, det = 'undecided', str(e)
        items.append(Item('options_' + name, PROP, st, where=where, detail=det, functions={fq}, sites=n, rule=RULE))
    return items


RULE = ('declared options of every command (click decorators resolved through shared decorator names and wrappers) compared with the documented table: '
        'flags, type, mandatory, repeatable, flag, default')
RULES = [(PROP, table)]
