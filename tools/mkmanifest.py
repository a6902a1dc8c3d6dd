"""writes MANIFEST.json from the table below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = 'value-graph congruence with a reference (global value numbering by random interpretation), loops summarised symbolically'
T = {
    'C01': 'value-graph congruence of each compiled kernel and its pure twin; C narrowing query over the Cython syntax tree',
    'C02': 'constant-state typestate of the enable/disable automaton over the value graph; import-capture query',
    'C03': GVN + '; loop-exit and sweep-bounds rule on the outer fill loop',
    'C04': GVN + '; loop-exit and sweep-bounds rule on the outer fill loop',
    'C05': GVN + '; constant evaluation of every direction table',
    'C06': GVN + '; guard-dominates-access query on memoryview indices',
    'C07': GVN, 'C08': GVN, 'C09': GVN, 'C10': GVN,
    'C11': 'dominance of the whitelist check over eval on the value graph; whitelist and name table queries',
    'C12': GVN, 'C13': GVN, 'C14': GVN, 'C15': GVN, 'C16': GVN, 'C17': GVN,
    'C18': GVN + ' of the raster reader and writer against GDAL calls',
    'C19': GVN + ' of the vector reader and writer against OGR calls',
    'C20': 'provenance of transform, projection and coordinates on the value graph of commands and tools',
    'C21': 'option-to-sink provenance on the value graph of every command; option declaration table',
    'C22': 'congruence of the value graph of complete with the composed value graphs of the step commands',
    'C23': 'dominance of the directory check over every effect; provenance of every output path',
    'C24': 'truthiness-of-number query on the abstract syntax with value provenance; ' + GVN,
    'C25': 'typestate of Push/PopErrorHandler over all control-flow paths including exceptional edges; dominance of UseExceptions',
    'C26': 'dtype-conversion dominance on the value graph of every consumer of a DEM',
    'C27': 'interprocedural mutation summary (alias and effect analysis) from the value graph',
    'C28': 'effect analysis: who may call open/create/delete operations and with which mode',
}
NOTE = ('Static: decides the property for every input on the constructs analysed, up to the congruence argument of DESIGN.md (a wrong "equal" needs a hash '
        'collision over all interpretations); constructs outside the analysed subset are reported as undecided in the evidence. Trusts the reference functions in '
        'specs/, the documented behaviour of numpy, scipy, GDAL and click, and the exactness of real arithmetic where rounding is not modelled.')
NA = {
    'C29': 'a bound on accumulated floating point error over arbitrarily long flow paths and elevation ranges depends on run-time magnitudes; no sound static argument in reach bounds it for this code',
    'C30': 'termination and cost of the fill sweeps depend on the elevations (number of passes is data dependent); no ranking function is derivable from the source',
    'C31': 'what the GDAL and OGR drivers store and read back is decided in the native library, which is not part of the source under analysis',
}


def main():
    import sys
    sys.path.insert(0, V)
    claimed = [l.strip() for l in open(os.path.join(V, 'tools', 'claimed.txt')) if l.strip()]
    titles = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
    checks = []
    for c in claimed:
        cmd = '/opt/venv/bin/python check.py ' + c
        checks.append(dict(property=c, quick_cmd=cmd, thorough_cmd=cmd, technique='static analysis: ' + T[c], level='other', level_note=NOTE))
    na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in titles if p not in claimed]
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, Cython, ast"', checks=checks, not_applicable=na,
                   notes='All checks are static analysis of /repo\'s current sources; nothing of the package is executed or built. See DESIGN.md.'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
