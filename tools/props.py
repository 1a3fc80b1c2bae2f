"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import importlib.util
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
YW = 'src/pywriter/yw/yw7_file.py'
EXP = 'src/pywriter/file/file_export.py'
TECH = 'bounded symbolic execution of the real Python source, one z3 query per path'
PROPS = []
NA = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, note, na=None):
    p = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': ' '.join(quantifier.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    assert len(title) <= 80, title
    PROPS.append(p)
    p['_note'] = ' '.join(note.split())
    if na:
        NA.append({'property': id, 'reason': na})


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    spec = importlib.util.spec_from_file_location('prop_texts', os.path.join(here, 'prop_texts.py'))
    m = importlib.util.module_from_spec(spec)
    m.prop, m.YW, m.EXP = prop, YW, EXP
    spec.loader.exec_module(m)
    na = {n['property'] for n in NA}
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        if i in na:
            continue
        if not os.path.isfile(os.path.join(VERIF, 'checks', f'check_{i}.py')):
            NA.append({'property': i, 'reason': 'the check is not built yet'})
            continue
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': TECH, 'level': 'model_checking',
                       'level_note': p['_note'] + ' Holds for every input within the bounds written to the evidence file; '
                       'outside of them nothing is claimed. Trusted: the string, regex and file models of /verif/engine '
                       '(each path is also run on the unmodified code with a solver-chosen input and compared), z3, '
                       'the C parsers and the zip library.'})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': NA,
           'notes': 'See DESIGN.md. No hooks in /repo: the checks instrument the source while importing it.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    try:
        import jsonschema
    except ImportError:
        return
    with open('/root/.vp/MANIFEST.schema.json') as f:
        jsonschema.validate(man, json.load(f))
    with open('/root/.vp/PROPERTIES.schema.json') as f:
        s = json.load(f)
    for p in PROPS:
        jsonschema.validate({k: v for k, v in p.items() if k[0] != '_'}, s)
    print(len(PROPS), 'properties,', len(checks), 'claimed')


if __name__ == '__main__':
    main()
