"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    P[-1]['_note'] = note
    P[-1]['_tech'] = technique or 'contracts on the real code; own symbolic executor over its LLVM IR, ring normal forms + z3 discharge every obligation'


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())


def main():
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['id'] in NA:
            man['not_applicable'].append({'property': p['id'], 'reason': NA[p['id']]})
        else:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'],
                                  'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
                                  'technique': p['_tech'], 'level': 'proof', 'level_note': p['_note']})
    json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P:
            jsonschema.validate({k: v for k, v in p.items() if not k.startswith('_')}, s)
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError:
        pass
    print(len(P), 'properties,', len(man['checks']), 'checks')


main()
