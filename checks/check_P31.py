"""P31: the translation tools (message template, translation files, dictionary) keep every message and translation."""
import json
import os
from engine.env import harness, minus, chars
from checks_lib import *
from check_P04 import Schedule
import pgettext
import translations

BOUNDS = ('two template messages and one obsolete message, each with or without a translation in the former translation file and in the dictionary, '
          'in any combination, of 1 or 2 (thorough: 3) arbitrary characters each, updated twice; sources with two messages in two files of two folders; '
          'every I/O operation of an update failing or being the last one')
ASSUMPTIONS = ['the json module is modelled (its escaping of quotes, backslashes and control characters is exact)',
               'messages and translations are single lines written between one pair of quotes, as the tools write them themselves; '
               'messages that contain a closing quote followed by a parenthesis, or Python escapes other than quotes, are outside the claim',
               'the clock is not part of the claim (time stamps in the file headers)']


def esc(s):
    """The text as it is written in a translation file."""
    return s.replace('\\', '\\\\').replace('"', '\\"')


def entry(message, translation):
    return f'msgid "{message}"\nmsgstr "{translation}"\n\n'


def entries(text):
    """All entries of a translation file in their order (independent reader)."""
    out = []
    message = None
    for line in text.split('\n'):
        if line.startswith('msgid "'):
            assert line.endswith('"')
            message = line[7:-1]
        elif line.startswith('msgstr "'):
            assert line.endswith('"')
            out.append((message, line[8:-1]))
            message = None
    return out


def well_formed(s):
    """The quotes in the text are escaped."""
    i = 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            if i == len(s):
                return False
        elif s[i] == '"':
            return False
        i += 1
    return True


HEAD = '# x\nmsgid ""\nmsgstr ""\n"Project-Id-Version: unknown\\n"\n"POT-Creation-Date: 2023-01-02 03:04:05\\n"\n"Language: de\\n"\n\n\n'


def folders(e):
    os.makedirs(e.path('po'), exist_ok=True)
    os.makedirs(e.path('dict'), exist_ok=True)
    translations.POT_PATH = e.path('po')
    translations.JSON_PATH = e.path('dict')


def state(e):
    """The contents of the two files."""
    po = e.get(e.path('po', 'de.po'))
    js = e.get(e.path('dict', 'de.json'))
    return entries(po) if po is not None else None, json.loads(js) if js is not None else None


@harness(cases={f'{w},{j}': {'where': w, 'use': j, 'k': 1} for w in ('first', 'second', 'gone') for j in ('dictionary', 'none')},
         thorough={f'{w},2': {'where': w, 'use': 'dictionary', 'k': 2} for w in ('first', 'second', 'gone')})
def update(e, where, use, k):
    """Each message of the template once, with its own, the dictionary's or no translation; no translation is lost."""
    folders(e)
    dom = minus('line', '\t')
    messages = {'first': 'Chapter "1"', 'second': 'Yes\\No\\n', 'gone': 'Old'}
    messages[where] = e.text('m', k, dom) + 'x'
    e.distinct(*messages.values())
    present = [m for m in ('first', 'second')]
    po = {}
    js = {}
    for m in messages:
        sym = m == where
        in_file, in_dict = e.choose(m, [(a, b) for a in (None, False, True, 'same') for b in (False, True)] if sym else [(True, False), (None, True), (None, False)])
        if in_file is not None:
            po[m] = in_file and (messages[m].replace('"', '\\"') if in_file == 'same' else esc(e.text(f'{m} p', k, dom) if sym else 'P "' + m))
        if in_dict:
            js[m] = esc(e.text(f'{m} j', k, dom) if sym else 'J ' + m)
    pot = pgettext.PotFile(e.path('po', 'messages.pot'))
    pot.msgList = [messages[m] for m in present + ['first']]
    pot.write_pot()
    got = entries(e.get(pot.filePath))
    e.equal(sorted(got), sorted([('', '')] + [(esc_quotes(messages[m]), '') for m in present]), 'template')
    if po:
        e.put(e.path('po', 'de.po'), HEAD + ''.join(entry(esc_quotes(messages[m]), po[m] or '') for m in po))
    if js:
        e.put(e.path('dict', 'de.json'), json.dumps({esc_quotes(messages[m]): js[m] for m in js}, ensure_ascii=False))
    for turn in ('first', 'second'):
        done = translations.main('de', json=use == 'dictionary')
        want = {}
        for m in present:
            want[m] = po.get(m) or (js.get(m) if use == 'dictionary' else None) or ''
        now, dic = state(e)
        e.equal(now, [('', '')] + sorted([(esc_quotes(messages[m]), want[m]) for m in present]), f'translation file after the {turn} update')
        e.equal(done, all([want[m] for m in present]), f'{turn} update complete')
        if use == 'dictionary':
            merged = dict(js)
            for m in po:
                if po[m]:
                    merged[m] = po[m]
            e.equal(dic, {esc_quotes(messages[m]): merged[m] for m in merged}, f'dictionary after the {turn} update')
        else:
            e.equal(dic, {esc_quotes(messages[m]): js[m] for m in js} if os.path.isfile(e.path('dict', 'de.json')) else None,
                    f'untouched dictionary after the {turn} update')


def esc_quotes(s):
    """How the message template shows the text of a source file (backslashes are already escaped there)."""
    return s.replace('"', '\\"')


QUOTED = {'single': ("_('", "')"), 'double': ('_("', '")')}


@harness(cases={q: {'quote': q, 'k': 3} for q in QUOTED}, thorough={f'{q},5': {'quote': q, 'k': 5} for q in QUOTED})
def scan(e, quote, k):
    """Each message of the sources is in the template exactly once."""
    other = '"' if quote == 'single' else "'"
    text = e.text('m', k, minus('unicode', '\r\n\\' + ("'" if quote == 'single' else '"')))
    a, b = QUOTED[quote]
    source = a + text + b
    inner = text
    if quote == 'double' and e.flag('escaped'):
        source = a + 'x\\"' + text + b
        inner = 'x"' + text
    e.assume('_(' not in text and '")' not in inner and "')" not in text)
    i = e.choose('line', [0, 1, 2, 3, 4])
    line = [source, 'print(' + source + ')', "f'{" + source + "} " + source + "'", 'x = ' + source + " + _('Second')", "raise Error(f'{" + source + "}: \"')"][i]
    deep, er, name = e.choose('names', [('deep', 'er', 'b.py'), ('test', '_x', '__init__.py'), ('t.py', '.x', '_b.c.py'), ('deep', 'deep', 'ä b.py')])
    os.makedirs(e.path('src', deep, er))
    e.put(e.path('src', 'a.py'), f'import x\n\n{line}\n')
    e.put(e.path('src', deep, er, name), f"def f():\n    return _('Other \"one\"'){line}\n")
    e.put(e.path('src', deep, 'c.txt'), "_('Not a message')\n")
    e.put(e.path('src', 'd.py'), 'nothing\n')
    pgettext.POT_FILE = e.path('messages.pot')
    if e.flag('exists'):
        e.put(pgettext.POT_FILE, HEAD + entry('Obsolete', ''))
    pgettext.main(e.path('src'))
    want = [esc(inner), 'Other \\"one\\"']
    if i == 3:
        want.append('Second')
    got = entries(e.get(pgettext.POT_FILE))
    e.equal(got[:1], [('', '')], 'header')
    uniq = []
    for w in want:
        if w not in uniq:
            uniq.append(w)
    e.equal(sorted([m for m, t in got[1:]]), sorted(uniq), 'messages')
    e.check(all([t == '' and well_formed(m) for m, t in got]), 'entries')


@harness(cases={f'{w},{k}': {'what': w, 'kind': k} for w in ('update', 'scan') for k in ('error', 'crash')})
def faults(e, what, kind):
    """A failed or interrupted update never loses the former files."""
    folders(e)
    os.makedirs(e.path('src'))
    e.put(e.path('src', 'a.py'), "_('A') _('B')")
    po, js, pot = e.path('po', 'de.po'), e.path('dict', 'de.json'), e.path('po', 'messages.pot')
    pgettext.POT_FILE = pot
    former = {po: HEAD + entry('A', 'Alt'), js: json.dumps({'B': 'Bee', 'C': 'Zeh'}, ensure_ascii=False, sort_keys=True, indent=2),
              pot: HEAD + entry('A', '') + entry('B', '')}
    for p in former:
        e.put(p, former[p])
    s = Schedule(e.int('k', 0, 60), kind)
    e.faults(s)
    try:
        if what == 'update':
            r = 'ok' if translations.main('de', json=True) else 'missing'
        else:
            pgettext.main(e.path('src'))
            r = 'ok'
    except Exception:
        r = 'exception'
    except BaseException as ex:
        if type(ex).__name__ != 'Crash':
            raise
        r = 'crash'
    e.nofaults()
    e.observe('result', [r, s.n])
    if not s.hit:
        e.equal(r, 'ok', 'update without fault')
    names = [pot] if what == 'scan' else [po, js]
    for p in names:
        now, bak = e.get(p), e.get(p + '.bak')
        new = now
        if p == po:
            done = now is not None and entries(now) == [('', ''), ('A', 'Alt'), ('B', 'Bee')]
        elif p == pot:
            done = now is not None and entries(now) == [('', ''), ('A', ''), ('B', '')]
        else:
            try:
                done = json.loads(now or '') == {'A': 'Alt', 'B': 'Bee', 'C': 'Zeh'}
            except ValueError:
                done = False
        name = os.path.basename(p)
        if not s.hit:
            e.check(done, f'{name}: complete')
        elif kind == 'error':
            e.check(done or now == former[p], f'{name}: former or complete new file')
        else:
            e.check(done or former[p] in (now, bak), f'{name}: former file in place or in the backup')
    for d, fs, x in os.walk(e.dir):
        for f in x:
            e.check(f in ('a.py', 'de.po', 'de.json', 'messages.pot', 'de.po.bak', 'de.json.bak', 'messages.pot.bak'), 'stray file ' + f)
