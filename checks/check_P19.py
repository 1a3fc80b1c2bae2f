"""P19: nothing is overwritten without confirmation, and success or failure is reported truthfully."""
import contextlib
import io
import builtins
from engine.env import harness, minus, chars
from checks_lib import *
from pywriter.ui.ui import Ui
from pywriter.ui.ui_cmd import UiCmd
from pywriter.converter.yw7_converter import Yw7Converter

BOUNDS = ('all 17 exports, 14 imports and both kinds of new projects, with the target present, empty or absent and any answer; sequences of three conversions by '
          'one converter; answers of up to three and messages of up to two arbitrary characters')
ASSUMPTIONS = ['the answer does not depend on the question']
PLAIN = minus('line', '[]*/ ')


def prepared(e, kind, suffix=''):
    """Files for a conversion of this kind; return (source, target, suffix)."""
    p = e.path('p.yw7')
    nov = rich_novel('a' + e.text('t', 1, PLAIN))
    save(p, nov)
    if kind == 'export':
        return p, e.path(doc_name('p', suffix)), suffix
    convert(p, suffix if kind == 'import' else '')
    doc = e.path(doc_name('p', suffix if kind == 'import' else ''))
    if kind == 'import':
        return doc, p, None
    src = e.path('new.odt')
    os.replace(doc, src)
    if suffix == 'outline':
        c = unzip(src)
        a = c.index('<text:p text:style-name="Title"')
        rezip(src, c[:a] + ('<text:h text:style-name="Heading_20_2" text:outline-level="2">C</text:h>'
                                '<text:h text:style-name="Heading_20_3" text:outline-level="3">S</text:h>') + c[c.index('</office:text>'):])
    return src, e.path('new.yw7'), None


KINDS = {f'{s or "export"}': {'kind': 'export', 'suffix': s} for s in EXPORTS}
KINDS.update({f'import{s}': {'kind': 'import', 'suffix': s} for s in IMPORTS})
KINDS.update({'new work': {'kind': 'new', 'suffix': ''}, 'new outline': {'kind': 'new', 'suffix': 'outline'}})


@harness(cases=KINDS)
def confirmation(e, kind, suffix):
    """Overwriting needs the user's consent; a new project never overwrites."""
    src, dst, s = prepared(e, kind, suffix)
    exists = kind == 'import' or e.flag('exists')
    if exists and kind != 'import':
        e.put(dst, '' if e.flag('empty') else 'old ' + e.text('o', 1, 'line'))
    answer = bool(e.flag('answer'))
    before = files(e)
    c, ui = convert(src, s, answer)
    e.equal(len(ui.how), 1, 'one message')
    e.equal(len(ui.what), 1, 'one announcement')
    e.check(src in ui.what[0] or kind == 'new', 'the announcement names the source')
    e.check(dst in ui.what[0], 'the announcement names the target')
    question = [f'Overwrite existing file "{dst}"?']
    if kind == 'new' and exists:
        e.equal(ui.how, [f'!File already exists: "{dst}".'], 'message')
        e.equal([c.newFile, ui.questions], [None, []], 'refused')
        e.equal(files(e), before, 'no file changed')
    elif exists and not answer:
        e.equal(ui.questions, question, 'one question')
        e.equal(ui.how, ['!Action canceled by user.'], 'message')
        e.equal(c.newFile, None, 'no new file')
        e.equal(files(e), before, 'no file changed')
    else:
        e.equal(ui.questions, question if exists else [], 'questions')
        e.equal(ui.how, [f'File written: "{dst}".'], 'message')
        e.equal(c.newFile, dst, 'new file')
        now = files(e)
        rel = dst[len(e.dir) + 1:]
        e.check(rel in now, 'the file is there')
        if exists:
            e.equal(now.get(rel + '.bak'), before[rel], 'backup of the overwritten file')
        for f in before:
            if f != rel and f != rel + '.bak':
                e.equal(now.get(f), before[f], 'other files')
        for f in now:
            e.check(f in before or f in (rel, rel + '.bak'), 'no stray files')


OUTCOMES = ['ok', 'missing', 'unsupported', 'refused', 'damaged', 'never', 'exists']


@harness(cases={f'{a},{b}': {'first': a, 'second': b} for a in ('ok', 'refused') for b in OUTCOMES},
         thorough={f'{a},{b},{c}': {'first': a, 'second': b, 'third': c} for a in OUTCOMES for b in OUTCOMES for c in OUTCOMES})
def session(e, first, second, third='ok'):
    """One converter, several conversions: the result of each is its own."""
    p = e.path('p.yw7')
    save(p, small_novel('a' + e.text('t', 1, PLAIN)))
    bad = e.path('bad.yw7')
    e.put(bad, 'no project')
    e.put(e.path('p_xref.odt'), 'x')
    convert(p, '')
    os.replace(e.path('p.odt'), e.path('new.odt'))
    e.put(e.path('new.yw7'), 'x')
    c = Yw7Converter()
    for i, o in enumerate((first, second, third)):
        ui = RecUi(o != 'refused')
        c.ui = ui
        before = files(e)
        if o == 'refused':
            e.put(e.path('p_todo.odt'), 'existing')
            before = files(e)
        src, s = {'ok': (p, '_notes'), 'missing': (e.path('none.yw7'), ''), 'unsupported': (p, '_nothing'), 'refused': (p, '_todo'), 'damaged': (bad, ''),
                  'never': (e.path('p_xref.odt'), None), 'exists': (e.path('new.odt'), None)}[o]
        c.run(src, suffix=s)
        e.equal(len(ui.how), 1, 'one message')
        if o == 'ok':
            e.equal([c.newFile, ui.how], [e.path('p_notes.odt'), [f'File written: "{e.path("p_notes.odt")}".']], 'success')
        else:
            e.check(ui.how[0].startswith('!'), 'failure is reported')
            e.equal(c.newFile, None, 'no new file after a failure')
            e.equal(files(e), before, 'no file changed')


@harness(cases={f'{k}': {'k': k} for k in (0, 1, 2, 3)})
def console(e, k):
    """The console asks for consent; only y means yes."""
    a = e.text('a', k, 'line')
    q = 'q' + e.text('q', 1, 'line')
    asked = []

    def fake(prompt=''):
        asked.append(prompt)
        return a
    real = builtins.input
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ui = UiCmd('Title')
        builtins.input = fake
        try:
            r = ui.ask_yes_no(q)
        finally:
            builtins.input = real
    e.equal(asked, [f'WARNING: {q} (y/n)'], 'question')
    e.equal(bool(r), a == 'y' or a == 'Y', 'answer')
    e.equal(Ui('Title').ask_yes_no(q), True, 'silent mode always confirms')


@harness(cases={f'{c},{k}': {'cmd': c == 'console', 'k': k} for c in ('silent', 'console') for k in (0, 1, 2)},
         thorough={f'{c},{k}': {'cmd': c == 'console', 'k': k} for c in ('silent', 'console') for k in (3,)})
def messages(e, cmd, k):
    """Messages reach the user unchanged, failures are marked as such."""
    m = e.choose('mark', ['', '!', '! ', 'File "']) + e.text('m', k, 'line') + e.choose('end', ['', 'x'])
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        ui = UiCmd('Title') if cmd else Ui('Title')
        ui.set_info_what('What ' + m)
        ui.set_info_how(m)
        ui.show_warning('Careful ' + m)
    want = 'FAIL: ' + m[1:].strip() if m[:1] == '!' else m
    e.equal(ui.infoHowText, want, 'result')
    if cmd:
        e.equal(out.getvalue(), f'Title\nWhat {m}\n{want}\n\nWARNING: Careful {m}\n\n', 'output')
        e.equal(err.getvalue(), '', 'error output')
    else:
        e.equal(ui.infoWhatText, 'What ' + m, 'announcement')
        e.equal([out.getvalue(), err.getvalue()], ['', want if m[:1] == '!' else ''], 'output')
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        ui.set_info_how('Next')
    e.equal(ui.infoHowText, 'Next', 'next result')
