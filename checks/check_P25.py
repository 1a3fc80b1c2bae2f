"""P25: opening a document starts the system's application with exactly this document and nothing else."""
import os
import subprocess
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from pywriter.file.doc_open import open_document
from pywriter.pywriter_globals import norm_path

BOUNDS = 'paths with up to four arbitrary characters (also several directories, relative paths); systems with startfile, xdg-open, open, or none of them'
ASSUMPTIONS = ['the path does not begin with a hyphen', 'nothing is executed: the functions that start programs are replaced by stand-ins that record their arguments']
STARTERS = ['call', 'run', 'check_call', 'check_output', 'Popen', 'getoutput', 'getstatusoutput']
BLANK = ' \t\n'


def shell(line):
    """The words of a POSIX shell command and whether it contains anything but plain words."""
    words, word, odd, i = [], None, False, 0
    n = len(line)
    while i < n:
        c = line[i]
        if c in BLANK:
            if c == '\n':
                odd = True
            if word is not None:
                words.append(word)
                word = None
        elif c == '"':
            word = word or ''
            i += 1
            while i < n and line[i] != '"':
                if line[i] in '$`':
                    odd = True
                if line[i] == '\\' and i + 1 < n and line[i + 1] in '$`"\\\n':
                    i += 1
                word += line[i]
                i += 1
            if i == n:
                odd = True
        elif c == "'":
            word = word or ''
            i += 1
            while i < n and line[i] != "'":
                word += line[i]
                i += 1
            if i == n:
                odd = True
        elif c == '\\':
            i += 1
            word = (word or '') + (line[i] if i < n else '')
        elif c in '$`;&|<>()*?[]#~{}!=':
            odd = True
            word = (word or '') + c
        else:
            word = (word or '') + c
        i += 1
    if word is not None:
        words.append(word)
    return words, odd


class System:
    """Stand-ins for everything that starts programs."""

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind
        self.started = []
        self.old = []

    def start(self, words):
        """Record a program; tell whether it exists."""
        self.started.append(words)
        return self.kind == words[0] or self.kind == 'both'

    def command(self, line):
        words, odd = shell(line)
        self.e.check(not odd, f'the shell executes the command only: {line}')
        return 0 if self.start(words) else 32512

    def process(self, args, **kwargs):
        if kwargs.get('shell') or isinstance(args, str):
            return self.command(args if isinstance(args, str) else args[0])
        if not self.start(list(args)):
            raise FileNotFoundError(2, 'No such file or directory', args[0])
        return 0

    def startfile(self, path, *args):
        self.started.append(['startfile', path])

    def refuse(self, *args, **kwargs):
        self.e.check(False, f'unexpected way to start a program: {args}')

    def __enter__(self):
        self.swap(os, 'system', self.command)
        self.swap(subprocess, 'call', self.process)
        for name in STARTERS[1:]:
            self.swap(subprocess, name, lambda args, **k: Done(self.process(args, **k)))
        for name in ('popen', 'execv', 'execvp', 'execve', 'execl', 'execlp', 'spawnv', 'spawnvp', 'spawnl', 'spawnlp', 'posix_spawn', 'posix_spawnp', 'fork', 'forkpty'):
            self.swap(os, name, self.refuse)
        if self.kind == 'startfile':
            self.swap(os, 'startfile', self.startfile)
        return self

    def swap(self, mod, name, new):
        self.old.append((mod, name, getattr(mod, name, None)))
        setattr(mod, name, new)

    def __exit__(self, *args):
        for mod, name, old in self.old:
            if old is None:
                delattr(mod, name)
            else:
                setattr(mod, name, old)


class Done:
    """Result of a finished process."""

    def __init__(self, returncode):
        self.returncode = returncode
        self.stdout = self.stderr = ''

    def wait(self, *args):
        return self.returncode

    def communicate(self, *args):
        return '', ''

    poll = wait


KINDS = ['startfile', 'xdg-open', 'open', 'both', 'none']


@harness(cases={f'{s},{k}': {'kind': s, 'k': k} for s in KINDS for k in (1, 2)}, thorough={f'{s},{k}': {'kind': s, 'k': k} for s in KINDS for k in (3, 4)})
def opened(e, kind, k):
    """Any name of a document, any kind of system."""
    t = e.text('t', k, minus('line', '/\\'))
    path = e.choose('dir', ['/home/user/', 'dir/', '']) + 'a' + t + 'b' + e.choose('ext', ['.odt', ''])
    with System(e, kind) as s:
        open_document(path)
    e.check(len(s.started) > 0, 'a program is started')
    for words in s.started:
        e.equal(words[1:], [norm_path(path)], 'exactly the document is opened')
    names = [w[0] for w in s.started]
    e.equal(names, {'startfile': ['startfile'], 'xdg-open': ['xdg-open'], 'both': ['xdg-open']}.get(kind, names), 'the first program that exists is used')
    e.check(all(n in ('xdg-open', 'open') for n in names) or kind == 'startfile', 'no other program')


@harness(cases={f'{k}': {'k': k} for k in (1, 2, 3)}, thorough={'4': {'k': 4}})
def paths(e, k):
    """Paths in normal form name the same file; names are not changed."""
    t = e.text('t', k, minus('line', '/\\.'))
    d = e.choose('d', ['', 'x/', '/x/', './', 'x//', 'x/../', 'x/./'])
    want = {'': '', 'x/': 'x/', '/x/': '/x/', './': '', 'x//': 'x/', 'x/../': '', 'x/./': 'x/'}[d]
    e.equal(norm_path(d + t), want + t, 'path')
    e.equal(norm_path(norm_path(d + t)), norm_path(d + t), 'normal form')
    e.equal(norm_path(None), norm_path(''), 'no path')
