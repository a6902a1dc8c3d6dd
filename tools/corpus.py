#!/usr/bin/env python3
"""corpus.py refactors|bugs [id...]: judge every edit of corpus/*.txt with all rules. refactors must be quiet, bugs must be reported for their property.
Development tool: scratch copies under /tmp, removed. Format of the text files:
  ## id [property]
  @@ file
  <<<<
  old text
  ====
  new text
  >>>>
"""
import os
import re
import shutil
import sys
import tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
sys.setrecursionlimit(30000)
import mutsweep  # noqa: E402


def load(path):
    out = []
    cur = None
    for part in re.split(r'^## ', open(path).read(), flags=re.M)[1:]:
        head, _, body = part.partition('\n')
        h = head.split()
        edits = []
        for m in re.finditer(r'^@@ (\S+)\n((?:<<<<\n.*?^>>>>\n?)+)', body, flags=re.M | re.S):
            for e in re.finditer(r'<<<<\n(.*?)^====\n(.*?)^>>>>', m.group(2), flags=re.M | re.S):
                edits.append((m.group(1), e.group(1), e.group(2)))
        out.append((h[0], h[1] if len(h) > 1 else '', edits))
    return out


def bare(line):
    return not line.strip() or line.lstrip().startswith('#')


def replace(s, old, new):
    """replace old in s; when it is not there literally, comment lines and blank lines of s (and trailing comments) are skipped"""
    if old in s:
        return s.replace(old, new, 1)
    if old.rstrip('\n') in s:
        return s.replace(old.rstrip('\n'), new.rstrip('\n'), 1)       # ends within a line
    cut = lambda x: re.sub(r'  # .*', '', x).rstrip()
    L = s.splitlines(True)
    O = [cut(x) for x in old.splitlines() if not bare(x)]
    for i in range(len(L)):
        if bare(L[i]) or cut(L[i]) != O[0]:
            continue
        j, k = i, 0
        while j < len(L) and k < len(O):
            if not bare(L[j]):
                if cut(L[j]) != O[k]:
                    if k == len(O) - 1 and L[j].startswith(O[k]):
                        return ''.join(L[:i]) + new.rstrip('\n') + L[j][len(O[k]):] + ''.join(L[j + 1:])
                    break
                k += 1
            j += 1
        if k == len(O):
            return ''.join(L[:i]) + new + ''.join(L[j:])
    return None


def work(k):
    eid, prop, edits = TODO[k]
    tmp = tempfile.mkdtemp(prefix='msw')
    try:
        root = os.path.join(tmp, 'repo')
        shutil.copytree(REPO, root, ignore=lambda d, n: [x for x in n if x in ('.git', 'tests', 'docs', 'build') or x.endswith(('.so', '.c'))])
        mods = set()
        for f, old, new in edits:
            p = os.path.join(root, f)
            s = open(p).read()
            t = replace(s, old, new)
            if t is None:
                return 'BROKEN', 'text not found in %s: %r' % (f, old[:60]), []
            s = t
            if f.endswith('.py'):
                compile(s, f, 'exec')
            open(p, 'w').write(s)
            mod = re.sub(r'\.(py|pyx|pxd)$', '', f).replace('/', '.')
            mods |= {mod, mod.replace('.__init__', '')}
        known = {m for ms in BASE.values() for m in ms}
        r = mutsweep.judge(root, mods, BASE if mods & known and 'malstroem.algorithms.dtypes' not in mods else None)
    except Exception as e:
        return 'BROKEN', repr(e)[:200], []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    v = sorted({p for i in r if i[2] == 'violation' for p in i[1]})
    done = {i[6] for i in r}
    dec = {p for i in r if i[2] != 'undecided' for p in i[1]} | {p for k, ps in BPROPS.items() if k not in done for p in ps}
    return 'V' if v else '-', v, [(i[0], i[2], i[3], i[4]) for i in r if i[2] != 'ok'], set(PROPS) - dec


def main():
    global TODO, BASE, REPO, PROPS, BPROPS
    kind = sys.argv[1]
    REPO = os.environ.get('MSA_REPO', '/repo')
    TODO = load(os.path.join(V, 'corpus', kind + '.txt'))
    if len(sys.argv) > 2:
        TODO = [t for t in TODO if any(re.match(a + '$', t[0]) for a in sys.argv[2:])]
    PROPS = open(os.path.join(V, 'tools', 'claimed.txt')).read().split()
    BASE = {}
    BPROPS = {}
    for i in mutsweep.judge(REPO):
        BPROPS.setdefault(i[6], set()).update(i[1])
        BASE.setdefault(i[6], set()).update(x.split(':')[0] for x in i[5])
    import multiprocessing as mp
    bad = 0
    verbose = os.environ.get('V')
    with mp.Pool(int(os.environ.get('JOBS', '7')), maxtasksperchild=1) as pool:
        for t, r in zip(TODO, pool.imap(work, range(len(TODO)))):
            st, v, items = r[:3]
            if st == 'BROKEN':
                print('BROKEN %s: %s' % (t[0], v))
                bad += 1
                continue
            if kind.startswith('refactors'):
                wrong = st == 'V' or bool(r[3])
            else:
                wrong = t[1] not in v
            und = [i[0] for i in items if i[1] == 'undecided']
            if wrong:
                bad += 1
            if wrong or verbose:
                print('%s %s %s: %s%s%s' % ('WRONG' if wrong else 'ok', t[0], t[1], ','.join(v) if v else 'quiet', ' und ' + ','.join(und) if und else '', ' NOANSWER ' + ','.join(sorted(r[3])) if r[3] else ''), flush=True)
                if wrong or verbose == '2':
                    for i in items:
                        if kind.startswith('bugs') and i[1] != 'undecided':
                            continue
                        print('      %s %s %s %s' % (i[0], i[1], i[2], i[3][:int(os.environ.get('W', '260'))]))
    print('%d of %d wrong' % (bad, len(TODO)))


if __name__ == '__main__':
    main()
