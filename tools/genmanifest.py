import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C28': 'regular-expression rewriting of source text (re.sub with word boundaries, str(sympy expression)): the '
           'deductive engine has no theory of regular-expression substitution, and neither z3 nor cvc5 decides it; '
           'no contract within reach can express the whole-word condition.',
    'C29': 'the text is assembled from the interpreter call stack (inspect) at run time: which frame is reported is a '
           'fact about the caller chain, outside what a per-function contract over arguments and results can state.',
}
LEVELS = {}
lp = os.path.join(HERE, 'levels.json')
if os.path.exists(lp):
    LEVELS = json.load(open(lp))
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    lv = LEVELS.get(i, {})
    checks.append(dict(
        property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
        technique=lv.get('technique', 'contracts on the real functions, evaluated at run time (bounded stand-in)'),
        level=lv.get('level', 'exploration'),
        level_note=lv.get('note', 'bounded: postconditions evaluated on generated inputs; nothing is counted as proved')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
