#!/usr/bin/env python3
"""mutsweep.py FILE[,FILE] [N] [SEED] [line-range a-b]: generic token mutants of package files, judged by every rule; lists those no rule reports.
Development tool: measures what the rules see, for the review of blind spots. Works in scratch copies under /tmp which it removes."""
import io
import json
import keyword
import os
import random
import re
import shutil
import sys
import tempfile
import time
import tokenize
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(30000)

SWAP = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['/', '+'], '/': ['*'],
        '+=': ['-=', '='], '-=': ['+='], 'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'], 'min': ['max'], 'max': ['min'],
        'not': [''], 'is': ['=='], 'break': ['continue', 'pass'], 'continue': ['break', 'pass'], 'append': ['extend'], 'argmin': ['argmax'], 'None': ['0']}


def toks(src):
    try:
        return list(tokenize.generate_tokens(io.StringIO(src).readline))
    except Exception:
        return []


def mutants(src):
    lines = src.split('\n') + ['']
    out = []
    ts = [t for t in toks(src) if t.type not in (tokenize.COMMENT, tokenize.NL)]
    start = None
    # function extents by indentation
    spans = []
    for n, l in enumerate(lines):
        m = re.match(r'( *)(def|cdef|cpdef|class) ', l)
        if m:
            ind = len(m.group(1))
            e = n + 1
            while e < len(lines) and (not lines[e].strip() or len(lines[e]) - len(lines[e].lstrip()) > ind or lines[e].strip().startswith(')')):
                e += 1
            spans.append((n + 1, e, m.group(2)))

    def fn(line):
        c = [s for s in spans if s[0] <= line <= s[1] and s[2] != 'class']
        return max(c) if c else None
    names = {}
    for t in ts:
        if t.type == tokenize.NAME and not keyword.iskeyword(t.string):
            names.setdefault(fn(t.start[0]), set()).add(t.string)
    skip = set()
    for t in ts:
        if t.type == tokenize.STRING and t.start[0] != t.end[0]:
            skip |= set(range(t.start[0], t.end[0] + 1))
    local = {}
    for sp in names:
        if sp:
            body = '\n'.join(lines[sp[0] - 1:sp[1]])
            local[sp] = sorted(x for x in names[sp] if re.search(r'\b%s\b *(=[^=]|,|\)|:)' % re.escape(x), body) and len(x) > 1 and not re.search(r'\.%s\b' % x, body) and not re.search(r'\b%s *\(' % x, body) and x not in ('self', 'cython', 'np', 'object', 'int', 'float', 'double', 'cdef'))
    for i, t in enumerate(ts):
        ln = t.start[0]
        if ln in skip or lines[ln - 1].lstrip().startswith(('logger', 'import', 'from', '@', 'cimport', '#', 'print', 'click.echo')) or 'logger' in lines[ln - 1]:
            continue
        reps = []
        if t.type in (tokenize.OP, tokenize.NAME) and t.string in SWAP and not (i and ts[i - 1].string == '.' and t.string not in ('append', 'min', 'max', 'argmin')):
            reps = SWAP[t.string]
            if t.string in '*-' and i and (ts[i - 1].string in '(,=[' or ts[i - 1].string in ('return', 'and', 'or', 'in')):
                reps = []
        elif t.type == tokenize.NUMBER:
            try:
                v = float(t.string)
                reps = [str(int(v) + 1), str(int(v) - 1)] if v == int(v) else [str(v * 2)]
            except ValueError:
                pass
        elif t.type == tokenize.NAME and fn(ln) in local and t.string in local.get(fn(ln), ()) and fn(ln)[0] != ln:
            oth = [x for x in local[fn(ln)] if x != t.string]
            nxt = ts[i + 1].string if i + 1 < len(ts) else ''
            if oth and nxt != '=':
                reps = oth[:]
                random.shuffle(reps)
                reps = reps[:2]
        for r in reps:
            l = lines[ln - 1]
            out.append((ln, '%s -> %s' % (t.string, r), lines[:ln - 1] + [l[:t.start[1]] + r + l[t.end[1]:]] + lines[ln:]))
    for n, l in enumerate(lines):
        s = l.strip()
        if n + 1 in skip or not s or not fn(n + 1) or fn(n + 1)[0] == n + 1:
            continue
        if re.match(r'^(self\.)?[\w.\[\], :]+ *[-+*/]?= *[^=]', s) or re.match(r'^[\w.]+\(.*\)$', s) or s.startswith(('raise', 'continue', 'break', 'return ', 'del ')):
            if s.startswith(('logger', 'cdef', 'print', 'click.echo')) or s.count('(') != s.count(')') or s.count('[') != s.count(']'):
                continue
            out.append((n + 1, 'delete: ' + s[:60], lines[:n] + [l[:len(l) - len(l.lstrip())] + 'pass'] + lines[n + 1:]))
        m = re.match(r'^(\s*)(if|elif) (.*):$', l)
        if m:
            out.append((n + 1, 'if -> if not', lines[:n] + ['%s%s not (%s):' % m.groups()] + lines[n + 1:]))
            if m.group(2) == 'if':
                out.append((n + 1, 'if -> if False', lines[:n] + ['%s%s False:' % m.groups()[:2]] + lines[n + 1:]))
                out.append((n + 1, 'if -> if True', lines[:n] + ['%s%s True:' % m.groups()[:2]] + lines[n + 1:]))
    return [(ln, d, '\n'.join(x)) for ln, d, x in out]


def unbound(text, ln):
    """a local is read on or after line ln although no assignment precedes the read"""
    import ast
    for f in ast.walk(ast.parse(text)):
        if isinstance(f, ast.FunctionDef) and f.lineno <= ln <= f.end_lineno:
            par = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
            st, ld = {}, {}
            own = {n.id: n.end_lineno for g in ast.walk(f) if isinstance(g, (ast.comprehension, ast.ExceptHandler)) for n in ast.walk(getattr(g, 'target', None) or ast.Pass()) if isinstance(n, ast.Name)}
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id not in par and n.id not in own:
                    d = st if isinstance(n.ctx, ast.Store) else ld
                    d[n.id] = min(d.get(n.id, (10 ** 9, 0)), (n.lineno, n.col_offset))
            src = text.split('\n')
            for n in ld:
                if n in st and (ld[n][0] < st[n][0] or (ld[n][0] == st[n][0] and '=' in src[ln - 1] and src[ld[n][0] - 1].strip().startswith(n))):
                    return True
                if n not in st and re.search(r'delete', '') is None and re.search(r'^\s*pass$', src[ln - 1]) and not hasattr(__builtins__, n) and not re.search(r'^(%s *=|(from .* )?import .*\b%s\b|def %s|class %s)' % ((re.escape(n),) * 4), text, re.M) and n not in dir(__import__('builtins')):
                    return True
    return False


def judge(root, mods=None, base=None):
    from msa.report import Ctx, MODULES, Item
    import importlib
    import traceback
    import msa.equiv
    msa.equiv._sidecache.clear()
    ctx = Ctx(root)
    res = []
    for m in MODULES:
        mod = importlib.import_module(m)
        for props, f in mod.RULES:
            key = (m, mod.RULES.index((props, f)))
            if base is not None and base.get(key) and not (base[key] & mods):
                continue
            try:
                got = f(ctx)
            except Exception as e:
                got = [Item(m, props, 'undecided', detail='rule failed: %r %s' % (e, traceback.format_exc(limit=-3)))]
            for it in got:
                res.append((it.id, it.props, it.status, it.where, it.detail, sorted(it.functions), key))
    return res


def main():
    files = sys.argv[1].split(',')
    N = int(sys.argv[2]) if len(sys.argv) > 2 else 10
    random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    rng = [int(x) for x in sys.argv[4].split('-')] if len(sys.argv) > 4 else None
    repo = os.environ.get('MSA_REPO', '/repo')
    base = {}
    for i in judge(repo):
        base.setdefault(i[6], set()).update(x.split(':')[0] for x in i[5])
    todo = []
    for f in files:
        src = open(os.path.join(repo, f)).read()
        ms = [m for m in mutants(src) if not rng or rng[0] <= m[0] <= rng[1]]
        if len(ms) > N:
            ms = random.sample(ms, N)
        todo += [(f, ln, d, x) for ln, d, x in sorted(ms)]
    print('%d mutants' % len(todo), flush=True)
    import multiprocessing as mp
    stat = dict(caught=0, missed=0, broken=0)

    def work(k):
        f, ln, d, text = todo[k]
        if f.endswith('.py'):
            try:
                compile(text, f, 'exec')
            except SyntaxError:
                return 'broken', '', []
            if unbound(text, ln):
                return 'broken', '', []
        tmp = tempfile.mkdtemp(prefix='msw')
        try:
            root = os.path.join(tmp, 'repo')
            shutil.copytree(repo, root, ignore=lambda d, n: [x for x in n if x in ('.git', 'tests', 'docs', 'build') or x.endswith(('.so', '.c'))])
            with open(os.path.join(root, f), 'w') as h:
                h.write(text)
            mod = re.sub(r'\.(py|pyx|pxd)$', '', f).replace('/', '.')
            mods = {mod, mod.replace('.__init__', '')}
            if f.endswith('.pxd'):
                mods = {m for b in base.values() for m in b}
            r = judge(root, mods, base)
        except Exception as e:
            return 'broken', repr(e)[:100], []
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        v = sorted({p for i in r if i[2] == 'violation' for p in i[1]})
        u = sorted({i[0] for i in r if i[2] == 'undecided'})
        return ('caught' if v else 'missed'), ','.join(v), u
    global _work
    _work = work
    with mp.Pool(int(os.environ.get('JOBS', '7')), maxtasksperchild=1) as pool:
        for k, (s, v, u) in zip(range(len(todo)), pool.imap(_call, range(len(todo)))):
            stat[s] += 1
            f, ln, d, text = todo[k]
            if s == 'missed':
                print('MISSED %s:%d %s | %s | und %s' % (f.replace('malstroem/', ''), ln, d, text.split('\n')[ln - 1].strip()[:110], ','.join(u)[:100]), flush=True)
            elif os.environ.get('ALL'):
                print('%s %s:%d %s | %s' % (s, f.replace('malstroem/', ''), ln, d, v), flush=True)
    print(stat)


def _call(k):
    return _work(k)


if __name__ == '__main__':
    main()
