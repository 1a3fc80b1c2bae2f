"""P34: the windows of the applications show what happened and which project is open."""
import sys
import types
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('messages, titles, authors and questions of up to three arbitrary characters; all sequences of up to three (thorough: four) actions (opening a project given by name or selected, '
          'one that is missing, unreadable or locked, cancelling the selection, closing, messages of success and failure, the Escape key, status texts), by call, menu or key')
ASSUMPTIONS = ['tkinter is replaced by stand-ins that record what windows, menus, labels and message boxes are told to show and return the chosen answers',
               'titles and messages consist of XML characters']

GEOMETRY = '400x300+10+20'
SHOWN = []      # message boxes and file dialogs
ANSWERS = []    # what the user answers to the next one


NAMES = {'background': 'bg', 'foreground': 'fg'}


def nothing(*args, **kwargs):
    return None


class Widget:
    def __init__(self, *args, **kwargs):
        self.args = args
        self.options = {}
        self.bound = {}
        self.config(**kwargs)
        WIDGETS.append(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return nothing      # other methods of tkinter widgets have no effect here

    def config(self, cnf=None, **kwargs):
        for key, value in list((cnf or {}).items()) + list(kwargs.items()):
            self[key] = value

    configure = config

    def __setitem__(self, key, value):
        self.options[NAMES.get(key, key)] = value

    def __getitem__(self, key):
        return self.options.get(NAMES.get(key, key), 'default ' + key)

    cget = __getitem__

    def bind(self, key, action):
        self.bound[key] = action


WIDGETS = []


class Tk(Widget):
    def __init__(self):
        super().__init__()
        self.shown = None
        self.size = None
        self.ended = self.running = self.hidden = 0
        self.protocols = {}

    def title(self, text):
        self.shown = text

    def geometry(self, text):
        self.size = text

    def protocol(self, name, action):
        self.protocols[name] = action

    wm_title, wm_geometry, wm_protocol = title, geometry, protocol

    def withdraw(self):
        self.hidden += 1

    def winfo_geometry(self):
        return GEOMETRY

    def quit(self):
        self.ended += 1

    def mainloop(self):
        self.running += 1


class Menu(Widget):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.entries = {}

    def add_command(self, label, **kwargs):
        self.entries[label] = dict(kwargs)

    add_cascade = add_command

    def entryconfig(self, label, **kwargs):
        self.entries[label].update(kwargs)

    entryconfigure = entryconfig


def box(kind):
    def show(title=None, message=None, **kwargs):
        SHOWN.append([kind, title, message])
        return ANSWERS.pop(0) if ANSWERS else None
    return show


def select(**kwargs):
    SHOWN.append(['select', kwargs.get('initialdir'), kwargs.get('filetypes')])
    return ANSWERS.pop(0)


tkinter = types.ModuleType('tkinter')
tkinter.messagebox = types.ModuleType('tkinter.messagebox')
tkinter.filedialog = types.ModuleType('tkinter.filedialog')
for name in ('askyesno', 'showerror', 'showinfo', 'showwarning'):
    setattr(tkinter.messagebox, name, box(name))
tkinter.filedialog.askopenfilename = select
tkinter.Tk, tkinter.Menu = Tk, Menu
tkinter.Frame = tkinter.Label = tkinter.Button = tkinter.Entry = tkinter.Text = Widget
for name in ('normal', 'disabled', 'active', 'hidden', 'left', 'right', 'top', 'bottom', 'center', 'both', 'x', 'y', 'none', 'n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw',
             'end', 'insert', 'flat', 'sunken', 'raised', 'groove', 'ridge', 'horizontal', 'vertical'):
    setattr(tkinter, name.upper(), name)
tkinter.YES = tkinter.TRUE = tkinter.ON = 1
tkinter.NO = tkinter.FALSE = tkinter.OFF = 0
sys.modules['tkinter'] = tkinter
sys.modules['tkinter.messagebox'] = tkinter.messagebox
sys.modules['tkinter.filedialog'] = tkinter.filedialog

from pywriter.ui.main_tk import MainTk
from pywriter.ui.ui_tk import UiTk
from pywriter.ui.ui_mb import UiMb


def begin(*answers):
    SHOWN[:] = []
    ANSWERS[:] = list(answers)
    WIDGETS[:] = []


def shown():
    """The message boxes since the last call."""
    out = list(SHOWN)
    SHOWN[:] = []
    return out


def label(w):
    """Text and colours of a label."""
    return [w.options.get('text'), w.options.get('bg'), w.options.get('fg')]


TEXT = 'xml'


def message(e, k):
    return e.choose('mark', ['', '!', '! ', 'File "']) + e.text('m', k, TEXT) + e.choose('end', ['', 'x', '!'])


RED, GREEN = ['red', 'white'], ['green', 'white']


@harness(cases={str(k): {'k': k} for k in (0, 1, 2)}, thorough={'3': {'k': 3}})
def window(e, k):
    """The window of a converter."""
    begin(True, False)
    u = UiTk('App ' + e.char('t', TEXT))
    e.equal(u.root.shown, u.title, 'title')
    m = message(e, k)
    u.set_info_what('What ' + m)
    u.set_info_how(m)
    texts = [label(w) for w in WIDGETS if w.options.get('text')]
    failed = m[:1] == '!'
    how = m[1:].strip() if failed else m
    e.check(['What ' + m, None, None] in texts, 'announcement')
    e.check([how] + (RED if failed else GREEN) in [label(w) for w in WIDGETS], 'result')
    e.equal([u.infoHowText, u.infoWhatText], [how, 'What ' + m], 'texts')
    u.set_info_how('Done')
    e.check(['Done'] + GREEN in [label(w) for w in WIDGETS] and ([how] + RED not in [label(w) for w in WIDGETS]), 'next result')
    e.equal([bool(u.ask_yes_no('Sure ' + m)), bool(u.ask_yes_no('Really'))], [True, False], 'answers')
    u.show_warning('Careful ' + m)
    e.equal([x[0:1] + x[2:] for x in shown()], [['askyesno', 'Sure ' + m], ['askyesno', 'Really'], ['showwarning', 'Careful ' + m]], 'message boxes')
    n = len(WIDGETS)
    calls = []
    u.show_open_button(lambda: calls.append(1))
    e.equal(len(WIDGETS), n + 1, 'button')
    WIDGETS[-1].options['command']()
    e.equal(calls, [1], 'opened')
    u.start()
    e.equal(u.root.running, 1, 'window is shown')


@harness(cases={str(k): {'k': k} for k in (0, 1, 2)}, thorough={'3': {'k': 3}})
def boxes(e, k):
    """Message boxes only."""
    begin(True, False)
    u = UiMb('App')
    m = message(e, k)
    e.equal([bool(u.ask_yes_no('Sure ' + m)), bool(u.ask_yes_no('Really'))], [True, False], 'answers')
    u.set_info_how(m)
    u.show_warning('Careful ' + m)
    failed = m[:1] == '!'
    e.equal(shown(), [['askyesno', 'App', 'Sure ' + m], ['askyesno', 'App', 'Really'], ['showerror', 'App', m[1:].strip()] if failed else ['showinfo', 'App', m],
                      ['showwarning', 'App', 'Careful ' + m]], 'message boxes')


@harness(cases={s or 'export': {'suffix': s} for s in ('', '_manuscript', '_charlist', '_unknown')})
def conversion(e, suffix):
    """A conversion with a window: question, announcement and result."""
    n = small_novel()
    n.title = e.text('t', 1)
    p = e.path('p.yw7')
    if e.flag('exists'):
        save(p, n)
    if e.flag('target'):
        for x in ('.odt', '.ods'):
            e.put(e.path('p' + suffix + x), 'old')
    yes = e.flag('yes')
    before = files(e)
    c, ui = convert(p, suffix, answer=yes)
    names = [x for x in files(e) if files(e)[x] != before.get(x)]
    for x in names:
        if x in before:
            e.put(e.path(x), before[x])
        else:
            os.remove(e.path(x))
    begin(yes, yes)
    from pywriter.converter.yw7_converter import Yw7Converter
    d = Yw7Converter()
    d.ui = UiTk('App')
    d.run(p, suffix=suffix)
    e.equal([[x[2]] for x in shown()], [[q] for q in ui.questions], 'questions')
    m = ui.how[-1]
    failed = m[:1] == '!'
    e.check([m[1:] if failed else m] + (RED if failed else GREEN) in [label(w) for w in WIDGETS], 'result')
    e.equal(failed, not names, 'success')
    e.equal([d.newFile, [x for x in files(e) if files(e)[x] != before.get(x)]], [c.newFile, names], 'new file')


# ---- the main window

def error_of(path):
    try:
        load(path)
    except Error as ex:
        return str(ex)
    return None


ACTIONS = ['open a', 'open b', 'open bad', 'open locked', 'open missing', 'select a', 'cancel', 'close', 'failure', 'success', 'status', 'escape']


FILE = {'a': 'a/a.yw7', 'b': 'B d/B d.yw7', 'c': 'c/c.yw7'}


def projects(e, title, author, bad):
    for name in 'abc':
        n = small_novel()
        n.title = {'a': title, 'b': 'Second', 'c': 'Locked'}[name]
        n.authorName = {'a': author, 'b': 'Other', 'c': 'Third'}[name]
        os.makedirs(os.path.dirname(e.path(FILE[name])), exist_ok=True)
        save(e.path(FILE[name]), n)
    e.put(e.path('c/c.yw7.lock'), '')
    e.put(e.path('bad.yw7'), e.choose('bad', ['no project', '<YWRITER7/>']) if bad else '<')


def view(w):
    return [w.root.shown, w.pathBar.options.get('text'), w.fileMenu.entries['Close'].get('state'), w.prjFile.filePath if w.prjFile is not None else None]


def walk(e, first, k, title='First', author='Author', titled=None):
    """Some actions; the window shows the open project, and the status bar the last message."""
    projects(e, title, author, first == 'open bad')
    begin()
    w = MainTk('App', root_geometry='1x1', yw_last_open=e.path('x/y.yw7'))
    e.equal([w.root.size, w.root.shown], ['1x1', 'App'], 'start')
    title_of = {'a': titled or f'{title} by {author} - App', 'b': 'Second by Other - App'}
    current = None
    last = e.path('x')
    status, message_shown, colour = '', '', None
    for i in range(k):
        a = first if i == 0 else e.choose(f'a{i}', ACTIONS)
        what, _, target = a.partition(' ')
        want_boxes = []
        if what in ('open', 'select', 'cancel'):
            path = {'a': 'a/a.yw7', 'b': 'B d/B d.yw7', 'bad': 'bad.yw7', 'locked': 'c/c.yw7', 'missing': 'none/none.yw7', '': ''}[target]
            given = e.path(path) if path else ''
            chosen = given
            if what != 'open' or target == 'missing':
                chosen = e.path('B d/B d.yw7') if target == 'missing' else given
                ANSWERS[:] = [chosen]
                want_boxes = [['select', last, [('yWriter 7 project', '.yw7')]]]
                given = given if target == 'missing' else ''
                if target == 'missing':
                    target = 'b'
            if given:
                ok = w.open_project(given)
            else:
                how = e.choose(f'how{i}', ['call', 'menu', 'key'])
                if how == 'call':
                    ok = w.open_project('')
                elif how == 'menu':
                    ok = w.fileMenu.entries['Open...']['command']()
                else:
                    w.root.bound['<Control-o>']('event')
                    ok = None
            message_shown, colour = status, None
            if chosen:
                if current is not None:
                    status = message_shown = ''
                last = os.path.dirname(chosen)
                problem = error_of(chosen)
                if problem is None:
                    current = target
                else:
                    current = None
                    status, message_shown, colour = '', problem.strip(), RED
                if ok is not None:
                    e.equal(bool(ok), problem is None, 'opened')
                if problem is None:
                    e.equal([w.novel.title, w.prjFile.novel is w.novel], [load(chosen).novel.title, True], 'project in memory')
            elif ok is not None:
                e.equal(bool(ok), False, 'nothing opened')
        elif what == 'close':
            if e.flag(f'menu{i}'):
                w.fileMenu.entries['Close']['command']()
            else:
                w.close_project()
            current, status, message_shown, colour = None, '', '', None
        elif what == 'failure':
            w.set_info_how('! Went wrong!')
            message_shown, colour = 'Went wrong!', RED
        elif what == 'success':
            w.set_info_how('Went well!')
            message_shown, colour = 'Went well!', GREEN
        elif what == 'status':
            w.show_status(f'Status {i}')
            status = message_shown = f'Status {i}'
            colour = None
        else:
            x = e.choose(f'escape{i}', ['key', 'click'])
            (w.root.bound['<Escape>'] if x == 'key' else w.statusBar.bound['<Button-1>'])('event')
            message_shown, colour = status, None
        e.equal(shown(), want_boxes, 'dialogs')
        path = e.path(FILE[current]) if current else ''
        e.equal(view(w), ['App', '', 'disabled', None] if current is None else [title_of[current], path, 'normal', path], f'window after {a}')
        e.equal(w.statusBar.options.get('text'), message_shown, f'status after {a}')
        bar = label(w.statusBar)[1:]
        e.check(bar == colour if colour else bar not in (RED, GREEN), f'colour after {a}')
    return w


@harness(cases={a: {'first': a, 'k': 3} for a in ACTIONS}, thorough={f'{a},4': {'first': a, 'k': 4} for a in ACTIONS})
def session(e, first, k):
    """Sequences of actions."""
    w = walk(e, first, k)
    how = e.choose('quit', ['menu', 'key', 'window'])
    if how == 'menu':
        w.fileMenu.entries['Exit']['command']()
    elif how == 'key':
        w.root.bound['<Control-q>']('event')
    else:
        w.root.protocols['WM_DELETE_WINDOW']()
    e.equal([w.root.ended, w.kwargs['root_geometry']], [1, GEOMETRY], 'end of the program')


@harness(cases={f'{k}': {'k': k} for k in (1, 2)}, thorough={'3': {'k': 3}})
def titles(e, k):
    """The project's title and author are in the window title, whatever they are."""
    t = e.choose('title', [None, '', 'text'])
    a = e.choose('author', [None, '', 'text'])
    if t == 'text':
        t = e.text('t', k, minus('xml', '\r\n'))
    if a == 'text':
        a = e.text('a', k, minus('xml', '\r\n'))
    walk(e, 'open a', 1, t, a, (t or 'Untitled project') + ' by ' + (a or 'Unknown author') + ' - App')


@harness(cases={str(k): {'k': k} for k in (0, 1, 2)})
def main_messages(e, k):
    """Messages of the main window."""
    begin(True, False)
    w = MainTk('App')
    m = message(e, k)
    w.set_info_how(m)
    failed = m[:1] == '!'
    how = m[1:].strip() if failed else m
    e.equal([label(w.statusBar), w.infoHowText], [[how] + (RED if failed else GREEN), how], 'status bar')
    t = e.choose('title', [None, 'Mine'])
    e.equal([bool(w.ask_yes_no('Sure ' + m, t)), bool(w.ask_yes_no('Really'))], [True, False], 'answers')
    w.show_error('e' + m, t)
    w.show_info('i' + m, t)
    w.show_warning('w' + m, t)
    e.equal(shown(), [['askyesno', t or 'App', 'Sure ' + m], ['askyesno', 'App', 'Really'], ['showerror', t or 'App', 'e' + m], ['showinfo', t or 'App', 'i' + m],
                      ['showwarning', t or 'App', 'w' + m]], 'message boxes')
    w.show_path('p' + m)
    e.equal(w.pathBar.options['text'], 'p' + m, 'path bar')
    w.start()
    e.equal(w.root.running, 1, 'window is shown')
