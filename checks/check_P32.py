"""P32: a script built by the inliner consists of all the code of the application and of the modules it imports."""
import os
from engine.env import harness, minus, chars
from checks_lib import *
import inliner

BOUNDS = ('three package modules in two folders, importing each other in any way (cycles included), imported by the script in any order; modules with the same names in different '
          'folders or outside the package; lines of code, '
          'comments, docstrings and blank lines of up to three (thorough: four) arbitrary characters')
ASSUMPTIONS = ['import statements of package modules stand in lines of their own at the beginning of a line, as the coding conventions demand; code lines of package modules do not contain '
               '"main()", "__main__" or three double quotes; the name of the package is not part of the path of the script']
TEXT = minus('line', '\x85\u2028\u2029')
PATH = {'a': 'tool.alpha', 'b': 'tool.sub.beta', 'c': 'tool.sub.gamma'}


def modules(e, sources):
    for m in sources:
        p = e.path('PyWriter', 'src', *PATH[m].split('.')) + '.py'
        os.makedirs(os.path.dirname(p), exist_ok=True)
        e.put(p, sources[m])


def build(e, script, copy=False):
    os.makedirs(e.path('app', 'src'), exist_ok=True)
    os.makedirs(e.path('app', 'test'), exist_ok=True)
    e.put(e.path('app', 'src', 'run_.py'), script)
    inliner.run(e.path('app', 'src', 'run_.py'), e.path('app', 'test', 'out.py'), 'tool', e.path('app') + '/../PyWriter/src/', copy)
    return e.get(e.path('app', 'test', 'out.py'))


def imports(ms):
    return ''.join(f'from {PATH[m]} import *\n' for m in ms)


SETS = {'a': ['', 'b', 'bc', 'cb'], 'b': ['', 'c', 'a', 'ac'], 'c': ['', 'a', 'b', 'ba']}


@harness(cases={x: {'first': x} for x in ('a', 'b', 'ab', 'ba', 'cab', 'bb')})
def graph(e, first):
    """Each module imported directly or indirectly is in the script once, before the code that follows the import."""
    text = e.text('t', 1, minus('line', '\'\\"'))
    uses = {m: e.choose('uses ' + m, SETS[m]) for m in SETS}
    copy = e.choose('copy', [False, True])
    body = {m: f"import os\n\nclass C{m}:\n\n    x = '{text}{m}'\n\n" for m in SETS}
    modules(e, {m: '"""Module\n\nDoc ' + m + '\n"""\n' + imports(uses[m]) + body[m] for m in SETS})
    out = build(e, '#!/usr/bin/python\nimport sys\nimport os\n' + imports(first) + f"print('{text}')\n", copy)
    seen = []

    def expand(ms):
        r = ''
        for m in ms:
            if m not in seen:
                seen.append(m)
                r += expand(uses[m]) + body[m][10:]
        return r
    e.equal(out, '#!/usr/bin/python\nimport sys\nimport os\n' + expand(first) + f"print('{text}')\n", 'script')
    if copy:
        for m in SETS:
            p = e.path('app', 'src', *PATH[m].split('.')) + '.py'
            e.equal(e.get(p), e.get(p.replace('/app/', '/PyWriter/')) if m in seen else None, 'copy of the module')


KINDS = ['code', 'indented', 'comment', 'blank', 'doc', 'longdoc', 'quoted', 'imported', 'name']


@harness(cases={f'{k},{w}': {'kind': k, 'where': w, 'k': 3 if k in ('code', 'indented') else 2} for k in KINDS for w in ('module', 'script')},
         thorough={f'{k},{w},4': {'kind': k, 'where': w, 'k': 4} for k in ('code', 'comment', 'quoted') for w in ('module', 'script')})
def lines(e, kind, where, k):
    """Lines of code, also those that look like comments or imports, stay; comments and docstrings of modules go."""
    text = e.text('t', k, TEXT)
    e.assume('"""' not in text)
    stripped = text.lstrip()
    if kind == 'code':
        line = text + '\n'
        want = '' if stripped[:1] == '#' and stripped[:2] != '#!' else line
    elif kind == 'indented':
        line = '    ' + text + '\n'
        want = '' if stripped[:1] == '#' and stripped[:2] != '#!' else line
    elif kind == 'comment':
        e.assume(text[0] != '!')
        line = e.choose('indent', ['', '    ']) + '#' + text + '\n'
        e.assume(not line.startswith('# do_not_inline'))
        want = ''
    elif kind == 'blank':
        line = want = '\n    \n'
    elif kind == 'doc':
        e.assume(not text.endswith('"') and not text.startswith('"'))
        line, want = '    """' + text + '"""\n', ''
    elif kind == 'longdoc':
        e.assume(not text.startswith('"') and stripped[:1] != '#')
        line = '    """About\n' + text + '\n    more\n    """\n'
        want = '' if where == 'module' else line
    elif kind == 'quoted':
        e.assume("'" not in text and '\\' not in text)
        line = want = "x = '''" + text + "\n# no comment'''\n".replace('# no', 'no')
    elif kind == 'name':
        e.assume(stripped[:1] != '' and text[0] not in ' \t')
        line = f'    import{text}\n'
        want = line
    else:
        line = f'from other{text} import x\n'
        want = line
    twice = line + e.choose('between', ['', 'pass\n']) + line
    expected = twice.replace(line, want) if kind in ('doc', 'longdoc', 'comment') else want + ('pass\n' if 'pass\n' in twice[len(line):len(line) + 5] and twice != line + line else '') + want
    m = twice if where == 'module' else 'class A:\n'
    modules(e, {'a': m, 'b': '', 'c': ''})
    out = build(e, imports('a') + (twice if where == 'script' else '') + 'end\n')
    e.equal(out, (expected if where == 'module' else 'class A:\n' + expected) + 'end\n', 'script')


@harness()
def imports_once(e):
    """Other modules are imported once, at the first place; the start of modules and everything after the stop mark is left out."""
    t = e.text('t', 2, 'lower')
    u = e.text('u', 1, minus('line', '\'\\"'))
    stop = e.choose('stop', ['', '# do_not_inline\n', "if __name__ == '__main__':\n    run()\n", 'main()\n'])
    modules(e, {'a': f'import {t}\nimport os\nx = 1\n{stop}', 'b': f'import os\nimport {t}\nfrom {t} import {t}\nfrom pathlib import Path\n{stop}y = \'{u}\'\n', 'c': ''})
    own = e.flag('own')
    out = build(e, (f'import {t}\n' if own else '') + imports('ab') + "import os\nif __name__ == '__main__':\n    main()\n")
    want = f'import {t}\n' + ('import os\n' if t != 'os' else '') + 'x = 1\n'
    if t == 'os':
        want = 'import os\nx = 1\n'
    e.equal(out, want + f'from {t} import {t}\nfrom pathlib import Path\n' + ('' if stop else f"y = '{u}'\n") + "if __name__ == '__main__':\n    main()\n", 'script')


@harness()
def alike(e):
    """Modules of the package may have the same names as other modules, in other folders or outside the package."""
    x, y, z = (e.choose(v, ['os', 'tool', 'json', 'os_tool']) for v in 'xyz')
    t = e.text('t', 1, minus('line', '\'\\"'))
    paths = [f'tool.{x}', f'tool.sub.{y}', f'tool.sub.os.{z}']
    for i, m in enumerate(paths):
        p = e.path('PyWriter', 'src', *m.split('.')) + '.py'
        os.makedirs(os.path.dirname(p), exist_ok=True)
        e.put(p, (f'from {paths[i - 1]} import *\n' if i else '') + f"import json\nimport os\nx{i} = '{t}'\n")
    one = e.choose('last', [2, 1])
    out = build(e, f'from {paths[one]} import *\nimport os\nfrom {paths[0]} import *\nprint(x0)\n')
    e.equal(out, 'import json\nimport os\n' + ''.join(f"x{i} = '{t}'\n" for i in range(one + 1)) + 'print(x0)\n', 'script')


LOOKALIKES = ['self.domain({})', 'x = main({})', 'remain({})', 'main(x={})', 'def main(argument={}):', '__name__ = {}', 'imported = {}', 'import_x({})', 'x.important({})', "x = 'import {}'",
              "x = 'from tool import {}'", 'x = {} # no comment', "'#' + {}", 'x = ""  # {}', "# do_not_inlin\nx = {}", "x = {}  # do_not_inline", 'class main: {}', 'return({})', 'from other import ({},',
              'from .x import {}', 'import x as {}']


@harness(cases={w: {'where': w} for w in ('module', 'script')})
def lookalikes(e, where):
    """Code that only looks like an import, a stop mark, the start of the program or a comment."""
    t = e.text('t', 1, 'lower')
    line = e.choose('line', LOOKALIKES).format(t) + '\n'
    modules(e, {'a': 'a = 1\n' + (line if where == 'module' else '') + 'b = 2\n', 'b': '', 'c': ''})
    out = build(e, imports('a') + (line if where == 'script' else '') + 'end\n')
    line = line.replace('# do_not_inlin\n', '')
    e.equal(out, 'a = 1\n' + (line + 'b = 2\n' if where == 'module' else 'b = 2\n' + line) + 'end\n', 'script')


@harness()
def local_imports(e):
    """An import within a function does not replace one at the top of another module; names differ in case."""
    t = e.text('t', 1, 'lower')
    u = e.choose('name', [t, 'os.path', t + '.x'])
    indent = e.choose('indent', ['    ', '        '])
    upper = e.flag('upper')
    modules(e, {'a': f'def f():\n{indent}import {u}\n{indent}x = 1\n', 'b': f'import {u}\ny = {t}\n', 'c': ''})
    lines = ''
    if upper:
        p = e.path('PyWriter', 'src', 'tool', 'sub', 'Beta.py')
        e.put(p, f'z = {t}\n')
        lines = 'from tool.sub.Beta import z\n'
    out = build(e, imports('ab') + lines + 'end\n')
    e.equal(out, f'def f():\n{indent}import {u}\n{indent}x = 1\nimport {u}\ny = {t}\n' + (f'z = {t}\n' if upper else '') + 'end\n', 'script')
