"""Write DESIGN.md from design_texts.py, the checks' stated bounds and the planted bugs: python3 tools/design.py"""
import ast
import glob
import importlib.util
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constant(tree, name):
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == name if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
            return ast.literal_eval(node.value)
    return None


def harnesses(tree):
    out = []
    for node in tree.body:
        if isinstance(node, ast.FunctionDef) and any(
                isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' for d in node.decorator_list):
            doc = ast.get_docstring(node)
            out.append(f'`{node.name}`' + (f' ({doc.rstrip(".")})' if doc else ''))
    return out


def main():
    spec = importlib.util.spec_from_file_location('design_texts', os.path.join(VERIF, 'tools', 'design_texts.py'))
    t = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(t)
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    claimed = {c['property'] for c in man['checks']}
    na = {n['property']: n['reason'] for n in man['not_applicable']}
    bugs = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    out = [t.HEAD.strip(), '', '## The properties', '']
    for line in open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8'):
        p = json.loads(line)
        i = p['id']
        out += [f'### {i} {p["title"]}', '']
        if i in na:
            out += [f'Not applicable: {na[i]}', '']
            continue
        src = open(os.path.join(VERIF, 'checks', f'check_{i}.py'), encoding='utf-8').read()
        tree = ast.parse(src)
        how, why = t.PROPS.get(i, ('', ''))
        out += [' '.join(how.split()), '',
                f'- Harnesses: {"; ".join(harnesses(tree))}.',
                f'- Bounds: {constant(tree, "BOUNDS")}.',
                f'- Assumptions: {"; ".join(constant(tree, "ASSUMPTIONS") or ["none"])}.',
                f'- Cost: about {t.COST.get(i, "?")} s of wall time on 8 cores (quick).',
                f'- Beyond tests: {" ".join(why.split())}',
                '- Planted bugs: ' + ('; '.join(f'{b} ({" ".join(m["what_it_breaks"].split())})' for b, m in bugs.get(i, [])) or 'none') + '.', '']
    out += [t.TAIL.strip(), '']
    fixed = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    out += ['## Genuine defects', '', t.DEFECTS.strip(), '']
    out += [f'- {x[len("fixed: property="):]}' for x in fixed['fixed']]
    out += ['', t.OPEN.strip(), '']
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(out))


main()
