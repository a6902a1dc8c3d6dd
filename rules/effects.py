"""Effects on files (C28): access mode of every open, provenance of every path that is written, destructive calls, lifetime of temporary files."""
import ast

from msa.report import Item
from rules import handlers

PROP = ('C28',)
DESTRUCTIVE_OS = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.renames', 'os.replace', 'os.truncate', 'shutil.rmtree', 'shutil.move',
                  'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree'}
DESTRUCTIVE_METH = {'unlink', 'rmdir', 'rmtree', 'DeleteLayer', 'DeleteDataSource', 'DeleteFeature', 'DeleteField', 'Delete', 'Unlink', 'Rmdir', 'RmdirRecursive',
                    'UnlinkBatch', 'Rename', 'CopyFiles', 'DeleteDataset', 'write_text', 'write_bytes', 'truncate', 'AbortSQL', 'touch', 'AlterFieldDefn', 'RollbackTransaction'}
DESTRUCTIVE_METH -= {'AbortSQL', 'RollbackTransaction', 'touch'}
UPDATING_METH = {'CreateFeature', 'SetFeature', 'CreateField', 'CreateLayer', 'WriteArray', 'SetGeoTransform', 'SetProjection', 'SetNoDataValue', 'SetMetadata',
                 'SetMetadataItem', 'StartTransaction', 'CommitTransaction', 'DeleteNoDataValue', 'SetDescription', 'SetSpatialRef', 'WriteRaster', 'Fill', 'BuildOverviews',
                 'ComputeStatistics', 'CreateMaskBand', 'AddBand'}
OPENERS = {'Open': 1, 'OpenShared': 1, 'OpenEx': 1}
CREATORS = {'Create', 'CreateDataSource', 'CreateCopy'}
TMP = {'TemporaryDirectory', 'NamedTemporaryFile', 'TemporaryFile', 'SpooledTemporaryFile', 'mkdtemp', 'mkstemp', 'gettempdir'}
READERS = ('RasterReader', 'VectorReader')


def cname(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def dotted(m, f):
    """a.b.c with the import of a resolved"""
    d = []
    x = f
    while isinstance(x, ast.Attribute):
        d.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    g = m.globals.get(x.id)
    head = g[1] if g and g[0] == 'import' else x.id
    return '.'.join([head] + d[::-1])


class World:
    def __init__(self, P):
        self.P = P
        self.fns = []          # (module, class, function)
        self.where = {}
        self.parent = {}
        for m in P.modules.values():
            if m.is_pyx or m.name.startswith('specs'):
                continue
            self.visit(m, m.tree, None, None)
        self.bind = {}         # id(function) -> the one call site under consideration
        self.calls = {}        # id(function) -> [(module, class, caller, call)]
        for m, c, f in self.fns:
            for x in self.body(f):
                if isinstance(x, ast.Call):
                    for t, off in self.targets(m, c, f, x):
                        self.calls.setdefault(id(t), []).append((m, c, f, x, off))

    def visit(self, m, node, c, outer):
        for s in ast.iter_child_nodes(node):
            if isinstance(s, ast.ClassDef):
                self.visit(m, s, s, outer)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                cc = c if outer is None else None
                self.fns.append((m, cc, s))
                self.where[id(s)] = (m, cc, s)
                self.parent[id(s)] = outer
                self.visit(m, s, cc, s)
            else:
                self.visit(m, s, c, outer)

    def body(self, f):
        """nodes of the function itself, lambdas included, nested functions not"""
        todo = list(f.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            yield n
            todo.extend(ast.iter_child_nodes(n))

    def ref(self, m, c, f):
        return m.name + ':' + (c.name + '.' if c else '') + f.name

    def resolve(self, m, f):
        """global definition a name or dotted name denotes: ('fn'|'cls', module, node)"""
        d = dotted(m, f)
        if d is None:
            return None
        if isinstance(f, ast.Name):
            g = m.globals.get(f.id)
            if g and g[0] in ('fn', 'cls'):
                return g[0], m, g[1]
        r = self.P.resolve_dotted(d)
        if r[0] == 'glob':
            g = r[1].globals[r[2]]
            if g[0] in ('fn', 'cls'):
                return g[0], r[1], g[1]
        return None

    def targets(self, m, c, f, call):
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and c is not None:
            for mm, cc in self.P.mro(m, c):
                for s in cc.body:
                    if isinstance(s, ast.FunctionDef) and s.name == fn.attr:
                        return [(s, 1)]
            return []
        if isinstance(fn, ast.Name):
            k = f
            while k is not None:
                for n in ast.walk(k):
                    if isinstance(n, ast.FunctionDef) and n.name == fn.id and n is not k:
                        return [(n, 0)]
                k = self.parent.get(id(k))
        r = self.resolve(m, fn)
        if r is not None:
            if r[0] == 'fn':
                return [(r[2], 0)]
            for mm, cc in self.P.mro(r[1], r[2]):
                for s in cc.body:
                    if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                        return [(s, 1)]
            return []
        return []

    def sites(self, f):
        b = self.bind.get(id(f))
        return [b] if b is not None else self.calls.get(id(f), [])

    def contexts(self, f, test, depth=0):
        """call chains into f on which test() is decided; [] stands for all call sites together"""
        if test() is not None or depth > 4:
            yield
            return
        top = f
        for _ in range(depth):
            top = self.bind[id(top)][2]
        ss = self.calls.get(id(top), [])
        if not ss or id(top) in self.bind:
            yield
            return
        for x in ss:
            self.bind[id(top)] = x
            yield from self.contexts(f, test, depth + 1)
            del self.bind[id(top)]

    def params(self, f):
        a = f.args
        return [x.arg for x in a.posonlyargs + a.args]

    def command(self, f):
        return any('command' in ast.dump(d) for d in f.decorator_list)


class Origins:
    """where a path comes from: ('opt', command, option) | ('arg', function, parameter) | ('tmp',) | ('lit', text) | ('?', text)"""

    def __init__(self, w):
        self.w = w
        self.active = set()

    def of(self, m, c, f, e):
        if e is None:
            return set()
        if isinstance(e, ast.Constant):
            return {('lit', e.value)} if isinstance(e.value, str) and '/vsimem' not in e.value else {('tmp',)} if isinstance(e.value, str) else set()
        if isinstance(e, ast.Name):
            return self.name(m, c, f, e.id)
        if isinstance(e, (ast.BinOp, ast.BoolOp, ast.JoinedStr, ast.FormattedValue, ast.IfExp, ast.Tuple, ast.List, ast.Subscript, ast.Starred)):
            r = set()
            kids = [e.body, e.orelse] if isinstance(e, ast.IfExp) else [e.value] if isinstance(e, (ast.Subscript, ast.Starred, ast.FormattedValue)) else \
                [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
            for x in kids:
                r |= self.of(m, c, f, x)
            if ('tmp',) in r and isinstance(e, (ast.BinOp, ast.JoinedStr)):
                return {('tmp',)}
            return r
        if isinstance(e, ast.Call):
            n = cname(e.func)
            if n in TMP:
                return {('tmp',)}
            r = set()
            ts = self.w.targets(m, c, f, e)
            if ts and ts[0][0].name != '__init__':
                for t, off in ts:
                    tm, tc, tf = self.w.where[id(t)]
                    for x in self.w.body(t):
                        if isinstance(x, ast.Return):
                            r |= self.of(tm, tc, tf, x.value)
                return r
            if isinstance(e.func, ast.Attribute) and n in ('format', 'joinpath', 'resolve', 'absolute', 'as_posix', 'with_suffix', 'with_name', 'rstrip', 'strip', 'replace', 'decode', 'encode'):
                r |= self.of(m, c, f, e.func.value)
            for a in list(e.args) + [k.value for k in e.keywords]:
                r |= self.of(m, c, f, a)
            if ('tmp',) in r:
                return {('tmp',)}
            return r
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and c is not None:
                return self.field(m, c, e.attr)
            o = self.objects(m, c, f, e.value)
            if o:
                r = set()
                for om, oc in o:
                    r |= self.field(om, oc, e.attr)
                return r
            if e.attr in ('name', 'parent'):
                return self.of(m, c, f, e.value)
            return {('?', ast.unparse(e))}
        return {('?', ast.unparse(e)[:60])}

    def objects(self, m, c, f, e):
        """package classes the value of e may be an instance of"""
        out = []
        if isinstance(e, ast.Name):
            for x in self.w.body(f):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                    for y in ast.walk(x.value):
                        if isinstance(y, ast.Call):
                            r = self.w.resolve(m, y.func)
                            if r and r[0] == 'cls':
                                out.append((r[1], r[2]))
        return out

    def field(self, m, c, attr):
        k = ('field', m.name, c.name, attr)
        if k in self.active:
            return set()
        self.active.add(k)
        r = set()
        found = False
        for mm, cc in self.w.P.mro(m, c):
            for s in cc.body:
                if not isinstance(s, ast.FunctionDef):
                    continue
                for x in self.w.body(s):
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr == attr for t in x.targets):
                        found = True
                        r |= self.of(mm, cc, s, x.value)
        self.active.discard(k)
        return r if found else {('?', 'self.' + attr)}

    def name(self, m, c, f, n):
        k = ('name', id(f), n)
        if k in self.active:
            return set()
        self.active.add(k)
        try:
            r = set()
            bound = False
            for x in self.w.body(f):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None:
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(t)) and not isinstance(t, (ast.Attribute, ast.Subscript)):
                            bound = True
                            r |= self.of(m, c, f, x.value)
                elif isinstance(x, ast.withitem) and x.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.optional_vars)):
                    bound = True
                    r |= self.of(m, c, f, x.context_expr)
                elif isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.target)):
                    bound = True
                    r |= self.of(m, c, f, x.iter)
            ps = self.w.params(f)
            if n in ps:
                return r | self.param(m, c, f, n)
            if n in [a.arg for a in f.args.kwonlyargs] or (f.args.vararg and f.args.vararg.arg == n) or (f.args.kwarg and f.args.kwarg.arg == n):
                return r | {('?', n)}
            if bound:
                return r
            o = self.w.parent.get(id(f))
            if o is not None:
                om, oc, of_ = self.w.where[id(o)]
                return self.name(om, oc, of_, n)
            g = m.globals.get(n)
            if g and g[0] == 'assign':
                for s in g[1]:
                    r |= self.of(m, None, ast.parse('def f(): pass').body[0], s.value)
                return r
            return set() if g else {('?', n)}
        finally:
            self.active.discard(k)

    def param(self, m, c, f, n):
        if self.w.command(f):
            return {('opt', f.name, n)}
        sites = self.w.sites(f)
        if not sites:
            return {('arg', self.w.ref(m, c, f), n)}
        i = self.w.params(f).index(n)
        r = set()
        for cm, cc, cf, call, off in sites:
            got = None
            star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
            if i - off < len(call.args) and i - off >= 0 and not star:
                got = call.args[i - off]
            for kw in call.keywords:
                if kw.arg == n:
                    got = kw.value
            if got is not None:
                r |= self.of(cm, cc, cf, got)
            elif star:
                r.add(('?', 'argument %s of %s' % (n, f.name)))
            else:
                d = f.args.defaults
                j = i - (len(self.w.params(f)) - len(d))
                if 0 <= j < len(d):
                    r |= self.of(m, c, f, d[j])
        return r


def mode(w, m, c, f, call):
    """'r' | 'u' | None: access mode an open call asks for"""
    n = cname(call.func)
    arg = None
    d = dotted(m, call.func) or ''
    driver = not d.startswith(('osgeo.', 'gdal.', 'ogr.'))
    if len(call.args) > 1:
        arg = call.args[1]
    for k in call.keywords:
        if k.arg in ('update', 'eAccess', 'nOpenFlags', 'open_flags', 'utf8', 'flags'):
            arg = k.value
    if arg is None:
        return 'r'
    return access(w, m, c, f, arg, 0, n == 'OpenEx')


def access(w, m, c, f, e, depth, flags):
    if depth > 6:
        return None
    if isinstance(e, ast.Constant):
        if isinstance(e.value, (int, bool)):
            v = int(e.value)
            return 'u' if (v & 1 if flags else v) else 'r'
        return None
    n = cname(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if n in ('GA_ReadOnly', 'OF_READONLY', 'OF_RASTER', 'OF_VECTOR', 'OF_VERBOSE_ERROR', 'OF_ALL', 'OF_SHARED'):
        return 'r'
    if n in ('GA_Update', 'OF_UPDATE'):
        return 'u'
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.Add)):
        a, b = access(w, m, c, f, e.left, depth + 1, flags), access(w, m, c, f, e.right, depth + 1, flags)
        return 'u' if 'u' in (a, b) else 'r' if a == b == 'r' else None
    if isinstance(e, ast.IfExp):
        t = access(w, m, c, f, e.test, depth + 1, False) if not isinstance(e.test, ast.Compare) else None
        if t is not None:
            return access(w, m, c, f, e.body if t == 'u' else e.orelse, depth + 1, flags)
        a, b = access(w, m, c, f, e.body, depth + 1, flags), access(w, m, c, f, e.orelse, depth + 1, flags)
        return a if a == b else None
    if isinstance(e, ast.Call) and n is None and cname(e.func) in ('int', 'bool') and e.args:
        return access(w, m, c, f, e.args[0], depth + 1, flags)
    if isinstance(e, ast.Name):
        vals = [x.value for x in w.body(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        rs = set()
        if e.id in w.params(f) and not vals:
            i = w.params(f).index(e.id)
            sites = w.sites(f)
            for cm, cc, cf, call, off in sites:
                a = call.args[i - off] if 0 <= i - off < len(call.args) else None
                for k in call.keywords:
                    if k.arg == e.id:
                        a = k.value
                if a is None:
                    d = f.args.defaults
                    j = i - (len(w.params(f)) - len(d))
                    a = d[j] if 0 <= j < len(d) else None
                    rs.add(access(w, m, c, f, a, depth + 1, flags) if a is not None else None)
                else:
                    rs.add(access(w, cm, cc, cf, a, depth + 1, flags))
            if not sites:
                return None
        for v in vals:
            rs.add(access(w, m, c, f, v, depth + 1, flags))
        g = m.globals.get(e.id)
        if not rs and g and g[0] == 'assign':
            for s in g[1]:
                rs.add(access(w, m, c, f, s.value, depth + 1, flags))
        return next(iter(rs)) if len(rs) == 1 else None
    return None


RANK = dict(ok=0, undecided=1, violation=2)


def isout(tok):
    return tok[0] == 'opt' and tok[2].startswith('out')


def judge(w, m, c, f, o):
    """(status, detail) for writing to a path with these origins"""
    bad = sorted(t for t in o if t[0] == 'opt' and not isout(t))
    if bad:
        return 'violation', 'the path comes from option %s of %s, which is not an output' % (bad[0][2], bad[0][1])
    for t in sorted(o, key=str):
        if t[0] == 'arg' and (any(r in t[1] for r in READERS) or 'vectorize_labels_file' in t[1] and t[2] == 'labeled_file'):
            return 'violation', 'the path is the input %s of %s' % (t[2], t[1])
    if c is not None and c.name in READERS:
        return 'violation', 'a reader changes what it reads'
    und = sorted(str(t[1]) for t in o if t[0] == '?')
    if und:
        return 'undecided', 'origin of the path not traced: ' + und[0]
    return 'ok', ', '.join(sorted({('option %s' % t[2]) if t[0] == 'opt' else t[0] if t[0] != 'arg' else 'argument %s of %s' % (t[2], t[1]) for t in o}))[:300]


def opens(ctx):
    w = World(ctx.P)
    org = Origins(w)
    text = 'access mode of every open call and provenance of every path opened for update, created or written'
    items = []
    for m, c, f in w.fns:
        for x in w.body(f):
            if not isinstance(x, ast.Call):
                continue
            n = cname(x.func)
            ref = w.ref(m, c, f)
            where = '%s line %d' % (ref, x.lineno)
            d = dotted(m, x.func) or ''
            if isinstance(x.func, ast.Attribute) and n in OPENERS and d not in ('os.open',):
                path = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg in ('utf8_path', 'filename')), None)
                it = Item('open_%s_%d' % (ref.split('.', 1)[1], x.lineno), PROP, 'ok', where=where, functions={ref}, sites=0, rule=text, detail='read')
                for _ in w.contexts(f, lambda: mode(w, m, c, f, x)):
                    it.sites += 1
                    md = mode(w, m, c, f, x)
                    if md == 'u':
                        st, de = judge(w, m, c, f, org.of(m, c, f, path))
                        if RANK[st] >= RANK[it.status]:
                            it.status, it.detail = st, 'opened for update: ' + de
                    elif md is None and it.status == 'ok':
                        it.status, it.detail = 'undecided', 'access mode %s not known' % ast.unparse(x)[:80]
                items.append(it)
            elif isinstance(x.func, ast.Attribute) and n in CREATORS:
                path = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg in ('utf8_path', 'filename')), None)
                it = Item('create_%s_%d' % (ref.split('.', 1)[1], x.lineno), PROP, 'ok', where=where, functions={ref}, sites=1, rule=text)
                it.status, it.detail = judge(w, m, c, f, org.of(m, c, f, path))
                items.append(it)
            elif d in ('open', 'io.open', 'os.open', 'codecs.open') or (isinstance(x.func, ast.Attribute) and n == 'open' and not d.startswith(('osgeo', 'gdal', 'ogr'))):
                meth = d not in ('open', 'io.open', 'os.open', 'codecs.open')
                md = x.args[0 if meth else 1] if len(x.args) > (0 if meth else 1) else next((k.value for k in x.keywords if k.arg == 'mode'), None)
                path = x.func.value if meth else (x.args[0] if x.args else None)
                if md is None or (isinstance(md, ast.Constant) and isinstance(md.value, str) and not set(md.value) & set('wax+')):
                    continue
                it = Item('file_%s_%d' % (ref.split('.', 1)[1], x.lineno), PROP, 'ok', where=where, functions={ref}, sites=1, rule=text)
                if isinstance(md, ast.Constant):
                    o = org.of(m, c, f, path)
                    it.status, it.detail = judge(w, m, c, f, o)
                    if it.status == 'ok' and ('tmp',) not in o and any(t[0] == 'opt' for t in o):
                        it.status, it.detail = 'violation', 'a file that is neither temporary nor a dataset is overwritten: ' + it.detail
                else:
                    it.status, it.detail = 'undecided', 'file mode not known'
                items.append(it)
            elif n in ('save', 'savetxt', 'tofile', 'savez') and d.startswith('numpy') or n == 'tofile':
                it = Item('file_%s_%d' % (ref.split('.', 1)[1], x.lineno), PROP, 'ok', where=where, functions={ref}, sites=1, rule=text)
                it.status, it.detail = judge(w, m, c, f, org.of(m, c, f, x.args[0] if x.args else None))
                items.append(it)
    return items


def readers(ctx):
    """no updating call is reachable from a reader"""
    w = World(ctx.P)
    text = 'no updating GDAL or OGR call in a reader or in anything it calls'
    items = []
    for m, c, f in w.fns:
        if c is None or c.name not in READERS:
            continue
        seen = {}
        todo = [(m, c, f)]
        bad = []
        while todo:
            mm, cc, ff = todo.pop()
            if id(ff) in seen:
                continue
            seen[id(ff)] = 1
            for x in w.body(ff):
                if isinstance(x, ast.Call):
                    n = cname(x.func)
                    if isinstance(x.func, ast.Attribute) and n in UPDATING_METH:
                        bad.append('%s line %d calls %s' % (w.ref(mm, cc, ff), x.lineno, n))
                    for t, off in w.targets(mm, cc, ff, x):
                        todo.append(w.where[id(t)])
        ref = w.ref(m, c, f)
        items.append(Item('reader_' + c.name + '_' + f.name, PROP, 'violation' if bad else 'ok', where=bad[0].split(' calls')[0] if bad else ref, detail='; '.join(bad), functions={ref},
                          sites=len(seen), rule=text))
    return items


def destructive(ctx):
    w = World(ctx.P)
    org = Origins(w)
    text = 'no call deletes, renames, truncates or overwrites anything but own temporary files'
    items = []
    n_calls = 0
    for m, c, f in w.fns:
        for x in w.body(f):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                s = x.value.upper().replace(' ', '')
                if s.startswith(('OVERWRITE=', 'TRUNCATE=', 'DROPTABLE', 'DELETEFROM', 'DELLAYER:')) and not s.endswith(('=NO', '=FALSE', '=OFF')):
                    items.append(Item('option_%s_%d' % (f.name, x.lineno), PROP, 'violation', where='%s line %d' % (w.ref(m, c, f), x.lineno), detail='destructive option %r' % x.value, rule=text))
            if isinstance(x, ast.keyword) and x.arg in ('OVERWRITE', 'overwrite', 'TRUNCATE') and isinstance(x.value, ast.Constant) and str(x.value.value).upper() in ('YES', 'TRUE', 'ON', '1'):
                items.append(Item('option_%s' % f.name, PROP, 'violation', where=w.ref(m, c, f), detail='destructive option %s' % x.arg, rule=text))
            if not isinstance(x, ast.Call):
                continue
            n_calls += 1
            n = cname(x.func)
            d = dotted(m, x.func) or ''
            hit = d in DESTRUCTIVE_OS or (isinstance(x.func, ast.Attribute) and n in DESTRUCTIVE_METH)
            if isinstance(x.func, ast.Attribute) and n in ('rename', 'replace') and isinstance(x.func.value, ast.Call) and cname(x.func.value.func) == 'Path':
                hit = True
            if not hit:
                continue
            o = set()
            srcs = list(x.args)
            if d.startswith('shutil.copy'):
                srcs = x.args[1:2]
            if d not in DESTRUCTIVE_OS and not d.startswith('osgeo.'):
                srcs.append(x.func.value)
            for a in srcs:
                o |= org.of(m, c, f, a)
            ref = w.ref(m, c, f)
            it = Item('destroys_%s_%d' % (f.name, x.lineno), PROP, 'violation', where='%s line %d' % (ref, x.lineno), detail='%s: %s' % (ast.unparse(x)[:100], sorted(o, key=str)[:3]),
                      functions={ref}, sites=1, rule=text)
            if o and all(t[0] in ('tmp', 'lit') for t in o) and ('tmp',) in o:
                it.status = 'ok'
            items.append(it)
    if not items:
        items.append(Item('destroys_nothing', PROP, 'ok', where='malstroem', detail='no destructive call', sites=n_calls, rule=text))
    return items


def temporaries(ctx):
    P = ctx.P
    w = World(P)
    text = 'temporary directories and files are removed on every way out: context manager, or removal in a finally block'
    items = []
    for m, c, f in w.fns:
        withs = {id(i.context_expr) for x in w.body(f) if isinstance(x, ast.With) for i in x.items}
        entered = {id(a) for x in w.body(f) if isinstance(x, ast.Call) and cname(x.func) in ('enter_context', 'closing') for a in x.args}
        for x in w.body(f):
            if not isinstance(x, ast.Call):
                continue
            n = cname(x.func)
            ref = w.ref(m, c, f)
            if n == 'gettempdir' or n not in TMP:
                continue
            it = Item('temporary_%s_%d' % (f.name, x.lineno), PROP, 'ok', where='%s line %d' % (ref, x.lineno), functions={ref}, sites=1, rule=text)
            keep = any(k.arg in ('delete',) and isinstance(k.value, ast.Constant) and not k.value.value for k in x.keywords)
            if (id(x) in withs or id(x) in entered) and not keep:
                it.detail = 'context manager'
            else:
                removers = ('rmtree', 'cleanup') if n in ('mkdtemp', 'TemporaryDirectory') else ('remove', 'unlink', 'close', 'rmtree') if not keep and n != 'mkstemp' else ('remove', 'unlink')
                save = handlers.PUSH, handlers.POP
                try:
                    ok = finalised(P, m, c, f, x, removers)
                except handlers.Unclear as e:
                    ok = None
                if ok is None or n == 'TemporaryFile':
                    it.status, it.detail = 'undecided', 'lifetime of %s not traced' % n
                elif not ok:
                    it.status = 'violation' if not (n == 'TemporaryDirectory' and not keep) else 'undecided'
                    it.detail = '%s is not removed on every way out' % n
            items.append(it)
    if not items:
        items.append(Item('temporaries', PROP, 'ok', where='malstroem', detail='no temporary files', sites=len(w.fns), rule=text))
    return items


def finalised(P, m, c, f, call, removers):
    """is the temporary made by call removed on every way out of f? typestate over the same control flow as for the error handlers"""
    class One(handlers.Analysis):
        def __init__(self):
            self.P = P
            self.touch = set()
            self.sums = {}
            self.active = set()
            self.flows = {}
            self.fns = {}

        def summary_of_call(self, flow, x):
            if x is call:
                return dict(normal={1}, raises=set())
            if cname(x.func) in removers:
                return dict(normal={-1}, raises=set())
            return None

        def context(self, flow, e):
            return None
    fl = handlers.Flow(One(), m, f, c)
    r = fl.run()
    if any(isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and any(y is call for y in ast.walk(x.value)) for x in ast.walk(f)):
        return None
    if any(isinstance(x, ast.Assign) and x.value is call and any(isinstance(t, ast.Attribute) for t in x.targets) for x in ast.walk(f)):
        return None
    return not any(d > 0 for d in r['normal'] | r['raises'])


RULES = [(PROP, opens), (PROP, readers), (PROP, destructive), (PROP, temporaries)]
