"""writes properties.jsonl and MANIFEST.json from the table below (python3 tools/mkdocs.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A3, A2, AS = 'src/mmg3d/API_functions_3d.c', 'src/mmg2d/API_functions_2d.c', 'src/mmgs/API_functions_s.c'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, observe=None, state=None, level='proof', tech=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append((d, note, na, level, tech))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

TECH = ('contract-based deductive verification: contracts on the real C functions, obligations generated by a symbolic executor from the '
        'clang AST of the current sources, discharged by z3/cvc5; contracts also evaluated on compiled executions for replay')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for d, note, na, level, tech in P:
    if na: man['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        man['checks'].append({'property': d['id'], 'quick_cmd': 'python3-vt -m cdv.check %s --tier quick' % d['id'],
                              'thorough_cmd': 'python3-vt -m cdv.check %s --tier thorough' % d['id'],
                              'technique': tech or TECH, 'level': level, 'level_note': note})
man['notes'] = 'no hook in /repo is needed: the verifier reads the sources of the working tree. See DESIGN.md.'
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
