"""writes /verif/seeded/<id>/ from the table in tools/seeds_table.py: edits /repo, takes the diff, restores /repo"""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_table import SEEDS  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the working directory
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(*a):
    return subprocess.run(a, check=True, capture_output=True, text=True).stdout


def main(ids):
    assert not run('git', '-C', '/repo', 'status', '--porcelain').strip(), '/repo is not clean'
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        try:
            for f, old, new in s['edits']:
                p = os.path.join('/repo', f)
                t = open(p, encoding='utf-8', newline='').read()
                crlf = '\r\n' in t
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                n = s.get('count', 1)
                assert t.count(old) >= 1, (s['id'], f, old)
                assert t.count(old) == n or s.get('first'), (s['id'], 'occurs', t.count(old))
                open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new, 1 if s.get('first') else -1))
            d = subprocess.run(['git', '-C', '/repo', 'diff'], check=True, capture_output=True).stdout
        finally:
            run('git', '-C', '/repo', 'checkout', '--', '.')
        o = os.path.join(V, 'seeded', s['id'])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'wb').write(d)
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        print(s['id'])


main(sys.argv[1:])
