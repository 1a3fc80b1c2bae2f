"""P24: the language of project and documents, and the project variables of the language marks."""
import os
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from check_P21 import Document, short, attr
from prose import formatted, AUTO, span

BOUNDS = ('language and country codes of up to three arbitrary letters, present or not, for every document type; documents with two language passages in codes of '
          'arbitrary letters; project variables of the user with any IDs and names of one arbitrary character; up to three conversions in both directions'
          '; thirteen languages in three scenes')
ASSUMPTIONS = ['language and country are either both set or both missing; the system language is en_US']
UPPER = chars('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
TEXTS = ['_manuscript', '_proof', '_notes', '_todo']


def plausible(l, c):
    """The documented rule."""
    if not l and not c:
        return ['en', 'US']
    return [l, c] if len(l) == 2 and len(c) == 2 else ['zxx', 'none']


def locales(path):
    """Language and country of the default styles of a document."""
    out = []
    for x in ET.fromstring(unzip(path, 'styles.xml')).iter():
        if short(x.tag) == 'style:default-style':
            for p in x:
                if attr(p, 'fo:language') is not None:
                    out.append([attr(p, 'fo:language'), attr(p, 'fo:country')])
    return out


def variables(e, p):
    """The project variables of the project file."""
    root = ET.fromstring(e.get(p))
    v = root.find('PROJECTVARS')
    return [] if v is None else [[x.find(t).text if x.find(t) is not None else None for t in ('ID', 'Title', 'Desc', 'Tags')] for x in v.findall('PROJECTVAR')]


def check_variables(e, p, locale, languages, kept=()):
    """Locale and languages are defined exactly once, other variables are as before."""
    vs = variables(e, p)
    ids = [v[0] for v in vs]
    e.equal(len(ids), len(set(ids)), 'variable IDs are unique')
    e.equal([v[2] for v in vs if v[1] == 'Language'], [locale[0]], 'language variable')
    e.equal([v[2] for v in vs if v[1] == 'Country'], [locale[1]], 'country variable')
    for l in languages:
        e.equal([v[2] for v in vs if v[1] == f'lang={l}'], [f'<HTM <SPAN LANG="{l}"> /HTM>'], 'opening mark')
        e.equal([v[2] for v in vs if v[1] == f'/lang={l}'], ['<HTM </SPAN> /HTM>'], 'closing mark')
    e.equal(len(vs), 2 + 2 * len(languages) + len(kept), 'number of variables')
    for k in kept:
        e.check(k in vs, f'variable of the user: {k}')


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS}, thorough={f'{s or "export"},{n},{m}': {'suffix': s, 'n': n, 'm': m} for s in EXPORTS for n in (1, 2, 3, 4) for m in (1, 2, 3)})
def exported(e, suffix, n=None, m=None):
    """The documents are in the language of the project."""
    nov = rich_novel()
    n = e.choose('n', [0, 1, 2, 3]) if n is None else n
    m = (e.choose('m', [1, 2, 3]) if n else 0) if m is None else m
    nov.languageCode = e.text('l', n, chars('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 -_.$%äß')) if n == 2 else 'xyzu'[:n]
    nov.countryCode = e.text('c', m, 'lower') if m == 2 else 'XYZ'[:m]
    want = plausible(nov.languageCode, nov.countryCode)
    p = e.path('p.yw7')
    save(p, nov)
    check_variables(e, p, want, [])if n or m else e.equal(variables(e, p), [], 'no variables')
    before = e.get(p)
    c, ui = convert(p, suffix)
    got = locales(c.newFile)
    e.check(len(got) > 0, 'the document has a language')
    for x in got:
        e.equal(x, want, 'language of the document')
    e.equal(e.get(p), before, 'project file')


def with_language(styles, l, c):
    i = styles.index('fo:language="', styles.index('style:family="paragraph"'))
    j = styles.index('"', styles.index('fo:country="', i) + 12)
    return styles[:i] + f'fo:language="{l}" fo:country="{c}"' + styles[j + 1:]


@harness(cases={s or 'new': {'suffix': s} for s in TEXTS + ['', 'outline']})
def imported(e, suffix):
    """The language of an imported document becomes the one of the project."""
    n, m = e.choose('n', [2, 3]), e.choose('m', [2, 4])
    l, c = (e.text('l', 2, 'lower'), e.text('c', 2, UPPER)) if n == m else ('zxx'[:n], 'none'[:m])
    nov = rich_novel()
    if e.flag('unset'):
        nov.languageCode = nov.countryCode = None
    if suffix in TEXTS:
        p = e.path('p.yw7')
        save(p, nov)
        cnv, ui = convert(p, suffix)
        d = cnv.newFile
    else:
        save(e.path('q.yw7'), nov)
        cnv, ui = convert(e.path('q.yw7'), '_manuscript')
        d = e.path('p.odt')
        os.rename(cnv.newFile, d)
        p = e.path('p.yw7')
    rezip(d, with_language(unzip(d, 'styles.xml'), l, c), 'styles.xml')
    if suffix not in TEXTS:
        body = '<text:h text:style-name="Heading_20_1" text:outline-level="1">Part</text:h><text:h text:style-name="Heading_20_2" text:outline-level="2">Chapter</text:h>'
        body += '<text:h text:style-name="Heading_20_3" text:outline-level="3">Scene</text:h>' if suffix else '<text:p text:style-name="Text_20_body">Text</text:p>'
        doc = unzip(d)
        i = doc.index('>', doc.index('<office:text')) + 1
        rezip(d, doc[:i] + body + doc[doc.index('</office:text>'):])
    cnv, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    want = plausible(l, c)
    check_variables(e, p, want, [])
    n = load(p).novel
    e.equal([n.languageCode, n.countryCode], want, 'language of the project')


def passages(d, doc, a, b, first='QxxZ', c=None):
    """Replace the text of the first scene by passages in two languages."""
    i, j = doc.index('<text:p text:style-name="Text_20_body">' + first), doc.index(first) + len(first + '</text:p>')
    style = lambda n, l: f'<style:style style:name="L{n}" style:family="text"><style:text-properties fo:language="{l[:2]}" fo:country="{l[3:]}"/></style:style>'
    doc = doc[:i] + '<text:p text:style-name="Text_20_body">u' + span('L1', 'v') + 'w' + span('L2', 'x') + '</text:p>' + doc[j:]
    doc = doc.replace('<office:automatic-styles/>', '<office:automatic-styles></office:automatic-styles>')
    doc = doc.replace('</office:automatic-styles>', style(1, a) + style(2, b) + '</office:automatic-styles>')
    rezip(d, doc)


@harness(cases={f'{s},{h}': {'suffix': s, 'history': h} for s in ('_manuscript', '_proof') for h in ('new', 'known', 'user')})
def marks(e, suffix, history):
    """Languages assigned in the word processor get marks and variables, and survive further conversions."""
    a = e.text('a', 2, 'lower') + '-' + e.text('A', 2, UPPER)
    b = e.choose('b', ['de-DE', 'fr-FR']) if e.flag('two') else a
    p = e.path('p.yw7')
    nov = rich_novel('QxxZ')
    kept, known = [], []
    if history == 'known':
        nov.scenes['2'].sceneContent = '[lang=de-DE]y[/lang=de-DE]'
        known = ['de-DE']
    save(p, nov)
    if history == 'user':
        t = e.char('t', minus('line', '<&> '))
        named, described = e.choose('user', [(True, True), (False, True), (True, False)])
        kept = [[i, 'My' + t if named else None, 'text' + t if described else None, '0'] for i in e.choose('ids', [['3'], ['7', '4'], ['4', '3', '5']])]
        e.put(p, e.get(p).replace('</PROJECTVARS>', ''.join(f'<PROJECTVAR><ID>{i}</ID><Title>{x or ""}</Title>' + (f'<Desc>{y}</Desc>' if y else '') + f'<Tags>{z}</Tags></PROJECTVAR>' for i, x, y, z in kept) + '</PROJECTVARS>'))
    languages = list(known)
    for l in (a, b):
        if l not in languages:
            languages.append(l)
    c, ui = convert(p, suffix)
    passages(c.newFile, unzip(c.newFile), a, b)
    text = f'u[lang={a}]v[/lang={a}]w[lang={b}]x[/lang={b}]'
    for i in range(2):
        c, ui = convert(doc_name(e.path('p'), suffix))
        e.equal(ui.how, [f'File written: "{p}".'], 'message')
        check_variables(e, p, ['en', 'US'], languages, kept)
        n = load(p).novel
        e.equal(n.scenes['1'].sceneContent, text, 'text with marks')
        e.equal(n.scenes['2'].sceneContent, nov.scenes['2'].sceneContent, 'other text')
        c, ui = convert(p, suffix)
        d = Document(unzip(c.newFile))
        if suffix == '_manuscript':
            e.equal(d.scenes[0], formatted(text), 'languages of the document')
            e.equal(d.scenes[1], formatted(nov.scenes['2'].sceneContent), 'languages of the other text')


def occurring(n):
    """The languages of the texts in the order of their first mark."""
    out = []
    for s in n.scenes:
        t = n.scenes[s].sceneContent or ''
        i = t.find('[lang=')
        while i >= 0:
            j = t.find(']', i)
            if j < 0:
                break
            if t[i + 6:j] not in out:
                out.append(t[i + 6:j])
            i = t.find('[lang=', j + 1)
    return out


@harness(cases={f'{k}': {'k': k} for k in (1, 2, 3)}, thorough={'4': {'k': 4}})
def get_languages(e, k):
    """The languages of a project are exactly the marked ones."""
    nov = small_novel('x')
    for i in range(k):
        s = str(i % 2 + 1)
        if s not in nov.scenes:
            add_scene(nov, s, '')
        t = e.text(f't{i}', 1, minus('line', '[]'))
        nov.scenes[s].sceneContent = (nov.scenes[s].sceneContent or '') + e.choose(f'k{i}', [f'[lang={t}]x[/lang={t}]', f'[lang=de-DE]{t}[/lang=de-DE]', f'{t}[lang=a]', '[lang=', '[i]y[/i]'])
    if e.flag('before'):
        nov.languages = ['es-ES']
    nov.get_languages()
    e.equal(nov.languages, occurring(nov), 'languages')


@harness(cases={'': {}})
def check_locale(e):
    """Plausibility of language and country."""
    n, m = e.choose('n', [0, 1, 2, 3]), e.choose('m', [0, 1, 2, 3])
    e.assume((n == 0) == (m == 0))
    nov = Novel()
    nov.languageCode, nov.countryCode = e.text('l', n, 'unicode') or e.choose('none', ['', None]), e.text('c', m, 'unicode') or None
    want = plausible(nov.languageCode, nov.countryCode)
    nov.check_locale()
    e.equal([nov.languageCode, nov.countryCode], want, 'locale')
    nov.check_locale()
    e.equal([nov.languageCode, nov.countryCode], want, 'locale again')


@harness(cases={f'{k}': {'k': k} for k in (1, 2)}, thorough={'3': {'k': 3}})
def saved_again(e, k):
    """The variables of any language are defined once, however often the project is saved."""
    t = e.text('t', k, minus('line', '[]'))
    nov = small_novel(f'a[lang={t}]b[/lang={t}][lang=de-DE]c[/lang=de-DE]')
    p = e.path('p.yw7')
    languages = [t] if t == 'de-DE' else [t, 'de-DE']
    save(p, nov)
    check_variables(e, p, ['en', 'US'], languages)
    for i in range(2):
        f = load(p)
        if e.flag(f'marks{i}'):
            f.novel.get_languages()
        f.novel.title = 'x'
        f.write()
        check_variables(e, p, ['en', 'US'], languages)
        e.equal(load(p).novel.scenes['1'].sceneContent, nov.scenes['1'].sceneContent, 'text')


ORDERS = [['Language', 'Country', 'My'], ['Country', 'Language', 'My'], ['My', 'Country', 'Language'], ['Country', 'My', 'Language'], ['Language', 'My', 'Country']]


@harness(cases={'locale': {'full': False}, 'marks': {'full': True}})
def any_order(e, full):
    """The variables are found and updated wherever they are in the file, and whichever of them are there."""
    t = e.char('t', minus('line', '<&> '))
    p = e.path('p.yw7')
    save(p, small_novel('a[lang=de-DE]b[/lang=de-DE]'))
    order = e.choose('order', ORDERS)
    var = {'Language': ('Language', 'fr', '0'), 'Country': ('Country', 'FR', '0'), 'My': ('My' + t, 'text' + t, '0')}
    vs = []
    if full:
        marks = [('lang=de-DE', '<HTM <SPAN LANG="de-DE"> /HTM>', '0'), ('/lang=de-DE', '<HTM </SPAN> /HTM>', '0')]
        vs = marks if e.flag('first') else []
    vs = vs + [var[o] for o in order]
    if full and not vs[0] == marks[0]:
        vs = vs + marks
    if e.flag('reversed'):
        vs = vs[::-1]
    ids = e.choose('ids', ['12345', '54321', '25678'])
    text = e.get(p)
    i, j = text.index('<PROJECTVARS>') + 13, text.index('</PROJECTVARS>')
    e.put(p, text[:i] + ''.join(f'<PROJECTVAR><ID>{n}</ID><Title>{v[0]}</Title><Desc>{v[1].replace("<", "&lt;").replace(">", "&gt;")}</Desc><Tags>{v[2]}</Tags></PROJECTVAR>'
                                for n, v in zip(ids, vs)) + text[j:])
    f = load(p)
    e.equal([f.novel.languageCode, f.novel.countryCode, f.novel.languages or []], ['fr', 'FR', ['de-DE'] if full else []], 'read')
    kept = [[n, v[0], v[1], v[2]] for n, v in zip(ids, vs) if v[0] == 'My' + t]
    want = ['fr', 'FR']
    if e.flag('changed'):
        want = ['nl', 'BE']
        f.novel.languageCode, f.novel.countryCode = want
    f.novel.get_languages()
    for i in range(2):
        f.write()
        check_variables(e, p, want, ['de-DE'], kept)
        f = load(p)
        e.equal([f.novel.languageCode, f.novel.countryCode], want, 'read again')
        f.novel.get_languages()


@harness(cases={s: {'suffix': s} for s in ('_manuscript', '_proof', '')})
def many(e, suffix):
    """Texts in many languages in several scenes."""
    codes = [a + b + '-' + A + B for a, A in (('d', 'D'), ('e', 'E'), ('n', 'N')) for b, B in (('a', 'A'), ('e', 'E'), ('l', 'L'), ('n', 'N'))]
    l = e.text('l', 2, 'lower') + '-DE'
    codes.insert(e.choose('where', [0, 6, 12]), l)
    used = [c for i, c in enumerate(codes) if c not in codes[:i]]
    nov = rich_novel()
    texts = {}
    for i, s in enumerate('123'):
        texts[s] = ''.join([f'{j}[lang={c}]a[/lang={c}]' for j, c in enumerate(codes) if j % 3 == i or j == 5])
        nov.scenes[s].sceneContent = texts[s]
    p = e.path('p.yw7')
    save(p, nov)
    check_variables(e, p, ['en', 'US'], used)
    c, ui = convert(p, suffix)
    if suffix == '':
        os.rename(c.newFile, e.path('n.odt'))
        p = e.path('n.yw7')
        c, ui = convert(e.path('n.odt'))
    else:
        c, ui = convert(c.newFile)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    check_variables(e, p, ['en', 'US'], used)
    n = load(p).novel
    for s in '123':
        e.equal(n.scenes[s].sceneContent, texts[s], 'text with marks')
    n.get_languages()
    e.equal(n.languages, occurring(n), 'languages')
