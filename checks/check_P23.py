"""P23: configurations come back from the INI file as they were saved, and what cannot be read keeps its default."""
import os
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from pywriter.config.configuration import Configuration

BOUNDS = ('two settings and two options; values of up to three arbitrary characters, 12 keys in upper, lower and mixed case; files with any of the parts present; option words of up to '
          'five characters')
ASSUMPTIONS = ['values are single lines without white space at the ends (the format cannot represent other ones); keys are identifiers that do not differ in case only']
VALUE = 'line'
SPACE = iset.of_chars(' \t\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')
EOL = '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'


def value(e, name, k):
    """A line without white space at the ends."""
    t = e.text(name, k, minus('line', EOL))
    if k:
        e.assume(t == t.strip())
    return t


def ini(e, name='c.ini'):
    return e.path(name)


def reread(e, settings, options, path=None):
    c = Configuration(settings, options)
    c.read(path or ini(e))
    return c


@harness(cases={f'{k}': {'k': k} for k in (0, 1, 2, 3)}, thorough={f'{k}': {'k': k} for k in (4, 5)})
def settings(e, k):
    """Any value comes back."""
    v = value(e, 'v', k)
    w = e.choose('w', ['', 'C:\\Users\\x', '50%', '# x', '[x]', 'a = b', '%(last)s'])
    c = Configuration({'first': v, 'last': w}, {'yes': True})
    c.write(ini(e))
    e.equal([c.settings, c.options], [{'first': v, 'last': w}, {'yes': True}], 'writing changes nothing')
    d = reread(e, {'first': 'a', 'last': 'b'}, {'yes': False})
    e.equal(d.settings, {'first': v, 'last': w}, 'settings')
    e.equal(d.options, {'yes': True}, 'options')
    d.write(ini(e, 'd.ini'))
    e.equal(e.get(ini(e, 'd.ini')), e.get(ini(e)), 'saved again')


@harness(cases={'': {}})
def keys(e):
    """Any names of settings and options, also equal ones; upper and lower case."""
    names = ['a', 'B', 'last_open', 'win_Geometry', 'IDs', 'yes', 'default', 'x1', 'ß', 'Größe', 'SETTINGS', 'options']
    a, b = e.choose('a', names), e.choose('b', names)
    e.assume(a != b)
    v = value(e, 'v', 1)
    c = Configuration({a: v, b: 'y'}, {a: False, b: True})
    c.write(ini(e))
    d = reread(e, {a: '', b: '', 'other': 'z'}, {a: True, b: False, 'other': True})
    e.equal(d.settings, {a: v, b: 'y', 'other': 'z'}, 'settings')
    e.equal(d.options, {a: False, b: True, 'other': True}, 'options')


@harness(cases={'': {}})
def options(e):
    """All values of options: whatever counts as true is true."""
    values = [True, False, None, '', 'no', 0, 1]
    a, b = e.choose('a', values), e.choose('b', values)
    c = Configuration({}, {'one': a, 'two': b})
    c.write(ini(e))
    e.equal(reread(e, {}, {'one': e.flag('before'), 'two': True}).options, {'one': bool(a), 'two': bool(b)}, 'options')


@harness(cases={'': {}})
def parts(e):
    """Whatever the file does not contain keeps its value; what is unknown is ignored."""
    text = ''
    want = [{'first': 'f', 'last': 'l'}, {'one': e.flag('one'), 'two': e.flag('two')}]
    before = [dict(want[0]), dict(want[1])]
    v = value(e, 'v', 1)
    if e.flag('settings'):
        text += '[SETTINGS]\n'
        for x in ('first', 'last', 'more'):
            if e.flag(x):
                text += f'{x} = {v}\n'
                if x in want[0]:
                    want[0][x] = v
    if e.flag('section'):
        text += '[Other]\nfirst = y\none = maybe\n'
    if e.flag('options'):
        text += '\n[OPTIONS]\n'
        for x in ('one', 'two', 'more'):
            if e.flag('o' + x):
                text += f'{x} = Yes\n'
                if x in want[1]:
                    want[1][x] = True
    if e.flag('exists'):
        e.put(ini(e), text)
    else:
        want = before
    c = reread(e, before[0], before[1])
    e.equal([c.settings, c.options], want, 'configuration')


WORDS = {'yes': True, 'true': True, 'on': True, '1': True, 'no': False, 'false': False, 'off': False, '0': False}


@harness(cases={f'{k}': {'k': k} for k in range(6)})
def words(e, k):
    """Options are true, false, or unreadable - then they keep their value, and so do all others."""
    w = e.text('w', k, chars('abcdefghijklmnopqrstuvwxyzTRUEYSNOFL01%'))
    e.put(ini(e), f'[OPTIONS]\none = Yes\ntwo = {w}\nthree = No\n')
    two = e.flag('two')
    c = reread(e, {}, {'one': False, 'two': two, 'three': True})
    want = two
    for x in WORDS:
        if w.lower() == x:
            want = WORDS[x]
    e.equal(c.options, {'one': True, 'two': want, 'three': False}, 'options')


@harness(cases={'': {}})
def independent(e):
    """Configurations do not share their values with the defaults or with each other."""
    v = value(e, 'v', 1)
    defaults, flags = {'first': 'f'}, {'one': False}
    a, b = Configuration(defaults, flags), Configuration(defaults, flags)
    Configuration({'first': v}, {'one': True}).write(ini(e))
    a.read(ini(e))
    e.equal([defaults, flags], [{'first': 'f'}, {'one': False}], 'defaults')
    e.equal([b.settings, b.options], [{'first': 'f'}, {'one': False}], 'other configuration')
    e.equal([a.settings, a.options], [{'first': v}, {'one': True}], 'configuration')
    new = {'first': v + 'x'}
    what = e.choose('what', ['settings', 'options', 'both'])
    a.set(new if what != 'options' else None, {'one': False} if what != 'settings' else None)
    new['first'] = 'changed'
    e.equal([a.settings, a.options], [{'first': v + 'x' if what != 'options' else v}, {'one': what == 'settings'}], 'configuration after set')
    c = Configuration()
    c.set({'x': v})
    e.equal(Configuration().settings, {}, 'a new configuration is empty')
