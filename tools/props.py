"""Source of properties.jsonl: python3 tools/props.py rewrites properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, technique=None, level='proof', note=None, na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, technique, level, note, na))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p, *_ in P:
            fh.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, tech, level, note, nota in P:
        if nota:
            na.append({'property': p['id'], 'reason': nota})
        else:
            assert os.path.exists(os.path.join(HERE, 'sa', 'rules', p['id'].lower() + '.py')), p['id']
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'technique': tech, 'level': level, 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
