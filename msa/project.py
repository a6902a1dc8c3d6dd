"""Source model of the package under analysis: parsed modules, global names, resolved imports."""
import ast
import os

from . import cyfront

REPO = os.environ.get('MSA_REPO', '/repo')


class Module:
    def __init__(self, name, path, tree, is_pyx):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pyx = is_pyx
        self.ispkg = os.path.basename(path) == '__init__.py'
        self.globals = {}     # name -> ('fn', node) ('cls', node) ('import', dotted) ('assign', [nodes])
        self.c = getattr(tree, '_c', dict(structs={}, typedefs={}, vars={}))
        self._index(tree.body)

    def package(self, level):
        parts = self.name.split('.')
        if not self.ispkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts)

    def _index(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.globals[s.name] = ('fn', s)
            elif isinstance(s, ast.ClassDef):
                self.globals[s.name] = ('cls', s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.globals[a.asname] = ('import', a.name)
                    else:
                        top = a.name.split('.')[0]
                        self.globals[top] = ('import', top)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pk = self.package(s.level)
                    base = pk + ('.' + base if base else '')
                for a in s.names:
                    if a.name == '*':
                        continue
                    if s.module in ('__future__',):
                        continue
                    if s.module == 'builtins':
                        continue
                    self.globals[a.asname or a.name] = ('import', base + '.' + a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    for n in _tnames(t):
                        g = self.globals.get(n)
                        if g is None or g[0] != 'assign':
                            g = ('assign', [])
                            self.globals[n] = g
                        g[1].append(s)
            elif isinstance(s, ast.Try):
                self._index(s.body)
                self._index(s.orelse)
            elif isinstance(s, ast.If):
                self._index(s.body)
                self._index(s.orelse)
            elif isinstance(s, ast.With):
                self._index(s.body)


def _tnames(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in _tnames(e)]
    if isinstance(t, (ast.Attribute, ast.Subscript)):
        b = t.value
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            b = b.value
        return [b.id] if isinstance(b, ast.Name) else []
    if isinstance(t, ast.Starred):
        return _tnames(t.value)
    return []


class Project:
    def __init__(self, root=None, extra=None):
        self.root = root or REPO
        self.modules = {}
        self.files = []
        pk = os.path.join(self.root, 'malstroem')
        for d, dirs, files in os.walk(pk):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                if f.endswith('.py'):
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    with open(p, encoding='utf-8') as fh:
                        tree = ast.parse(fh.read(), p)
                    self.add(Module(name, p, tree, False))
                elif f.endswith('.pyx') or f.endswith('.pxd'):
                    name = rel[:-4].replace(os.sep, '.')
                    self.add(Module(name, p, cyfront.parse_pyx(p), True))
        for name, path in (extra or {}).items():
            with open(path, encoding='utf-8') as fh:
                tree = ast.parse(fh.read(), path)
            self.add(Module(name, path, tree, False))

    def add(self, m):
        self.modules[m.name] = m
        self.files.append(m.path)

    def ntindex(self):
        """field name -> position, for the fields of the package's named tuples that have one position only"""
        if getattr(self, '_nt', None) is None:
            pos = {}
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    fields = None
                    if isinstance(n, ast.Call) and len(n.args) >= 2 and (getattr(n.func, 'id', None) or getattr(n.func, 'attr', None)) == 'namedtuple':
                        a = n.args[1]
                        if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in a.elts):
                            fields = [e.value for e in a.elts]
                        elif isinstance(a, ast.Constant) and isinstance(a.value, str):
                            fields = a.value.replace(',', ' ').split()
                    elif isinstance(n, ast.ClassDef) and any((getattr(b, 'id', None) or getattr(b, 'attr', None)) == 'NamedTuple' for b in n.bases):
                        fields = [b.target.id for b in n.body if isinstance(b, ast.AnnAssign)]
                    for i, f in enumerate(fields or ()):
                        pos.setdefault(f, set()).add(i)
            self._nt = {f: min(v) for f, v in pos.items() if len(v) == 1}
        return self._nt

    def resolve_dotted(self, dotted):
        """-> ('mod', Module) | ('glob', Module, name) | ('ext', dotted)"""
        seen = 0
        while True:
            seen += 1
            if seen > 50:
                return ('ext', dotted)
            if dotted in self.modules:
                return ('mod', self.modules[dotted])
            base, _, nm = dotted.rpartition('.')
            if base in self.modules:
                m = self.modules[base]
                g = m.globals.get(nm)
                if g is None:
                    return ('ext', dotted)
                if g[0] == 'import':
                    dotted = g[1]
                    continue
                return ('glob', m, nm)
            # a.b.c where a.b resolves to an alias
            if base and '.' in base:
                r = self.resolve_dotted(base)
                if r[0] == 'mod' and r[1].name != base:
                    dotted = r[1].name + '.' + nm
                    continue
                if r[0] == 'ext' and r[1] != base:
                    return ('ext', r[1] + '.' + nm)
            return ('ext', dotted)

    def fn(self, ref):
        """'mod:func' or 'mod:Class.method' -> (Module, node) or None"""
        mod, _, q = ref.partition(':')
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = q.split('.')
        g = m.globals.get(parts[0])
        if g is not None and g[0] == 'import':
            r = self.resolve_dotted(g[1])
            if r[0] == 'glob':
                m, g = r[1], r[1].globals[r[2]]
        if g is None:
            return None
        if g[0] == 'fn' and len(parts) == 1:
            return m, g[1]
        if g[0] == 'cls' and len(parts) == 2:
            for mm, c in self.mro(m, g[1]):
                for s in c.body:
                    if isinstance(s, ast.FunctionDef) and s.name == parts[1]:
                        return mm, s
        return None

    def mro(self, m, c):
        out = [(m, c)]
        for b in c.bases:
            if isinstance(b, ast.Name):
                g = m.globals.get(b.id)
                if g and g[0] == 'cls':
                    out += self.mro(m, g[1])
                elif g and g[0] == 'import':
                    r = self.resolve_dotted(g[1])
                    if r[0] == 'glob' and r[1].globals[r[2]][0] == 'cls':
                        out += self.mro(r[1], r[1].globals[r[2]][1])
            elif isinstance(b, ast.Attribute):
                pass
        return out

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    yield m, n
