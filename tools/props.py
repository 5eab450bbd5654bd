"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na, observe=observe, state=state))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['observe']:
                a['observe_at'] = p['observe']
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['claim']:
            checks.append({'property': p['id'], 'quick_cmd': 'bash /verif/check.sh %s quick' % p['id'], 'thorough_cmd': 'bash /verif/check.sh %s thorough' % p['id'],
                           'technique': 'contract-based deductive verification of the source functions (verification conditions from the Python AST, Z3 with cvc5 fallback)',
                           'level': 'proof', 'level_note': p['claim'], 'evidence_file': 'evidence/%s.json' % p['id']})
        else:
            na.append({'property': p['id'], 'reason': p['na']})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'Generated by tools/props.py from tools/proplist.py. No hooks in /repo: the verifier reads the source as it is.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
