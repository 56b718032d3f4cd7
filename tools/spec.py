# Single source of the property list and of the manifest.  `python3 tools/spec.py` rewrites
# properties.jsonl and MANIFEST.json from the entries below.
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, level='model_checking',
      na=None, state=None, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=anchors,
                      _tech=tech, _note=note, _level=level, _na=na))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in PROPS:
        src = os.path.join(V, 'harness', p['id'] + '.cpp')
        if p['_na']:
            na.append({'property': p['id'], 'reason': p['_na']})
        elif os.path.exists(src):
            checks.append({'property': p['id'],
                           'quick_cmd': 'python3 tools/check.py %s quick' % p['id'],
                           'thorough_cmd': 'python3 tools/check.py %s thorough' % p['id'],
                           'technique': p['_tech'], 'level': p['_level'], 'level_note': p['_note']})
        else:
            na.append({'property': p['id'], 'reason': 'not yet built: the check for this property is still to be written'})
    m = {'version': 1, 'setup_cmd': 'python3 tools/build.py --setup',
         'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harnesses link the unmodified sources of /repo and drive them through their public API; randomness is intercepted by interposing std::random_device at link time', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Bounded exhaustive exploration of the real implementation against reference models; see DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
    print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not claimed')

main()
