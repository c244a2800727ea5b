#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, M, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None, level='exploration'):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})
    M.append({'property': id, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + id,
              'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + id,
              'technique': technique, 'level': level, 'level_note': note})


def na(id, title, statement, over, text, why, files, reason):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': 'conversion', 'where': files[0]}]}})
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(V, 'tools', 'meta_props.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': M, 'not_applicable': NA,
       'hooks': {'guard': 'JLM_VERIF_HOOKS', 'enable': 'tools/vbuild.py compiles the sources of /repo with -DJLM_VERIF_HOOKS',
                 'source_commits': ['f464e580fd54499ba2d63c85ae39c257892d619b']},
       'notes': 'DESIGN.md describes the machinery.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
import jsonschema
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p, sch)
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), 'properties', len(M), 'checks')
