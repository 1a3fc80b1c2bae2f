"""P36: documents that cannot be read are rejected without a trace."""
import os
import shutil
import zipfile
from engine.env import harness
from checks_lib import *

BOUNDS = ('an edited document of every kind that can be imported, or a new project is made from, with an arbitrary CJK character in an edited text, damaged in one place: cut off or with a wrong '
          'or missing byte at one of 40 places of the archive, with a member cut off (20 places), empty, missing, or renamed, with missing or renamed elements, of another kind, or no document; '
          'with a new, an existing and a damaged project')
ASSUMPTIONS = ['one damage at a time; a damage that leaves a well-formed document of the right kind behind is an edit']
NEW = ['new', 'outline']
TEXTS = ['_proof', '_manuscript', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_notes', '_todo']
LETTER = ((0x4E00, 0x9FA5),)
FEW = ['_manuscript', '_characters', '_scenelist', 'new']
CASES = {s: {'suffix': s} for s in [*TEXTS, *LISTS, *NEW]}


def prepared(e, suffix):
    """A project and a document that would change it; return the paths."""
    p = e.path('p.yw7')
    t = 'T' + e.text('t', 1, LETTER) + 'x'
    n = rich_novel(t)
    n.desc = n.chapters['1'].desc = n.scenes['1'].desc = t
    save(p, n)
    if suffix in NEW:
        convert(p, '_manuscript' if suffix == 'new' else '')
        doc = e.path('new.odt')
        os.replace(e.path('p_manuscript.odt' if suffix == 'new' else 'p.odt'), doc)
        os.remove(p)
        c = unzip(doc)
        a = c.index('>', c.index('<office:text')) + 1
        h = '<text:h text:style-name="Heading_20_{0}" text:outline-level="{0}">{1}</text:h>'
        body = h.format(1, 'Part') + h.format(2, 'Chapter') + (h.format(3, 'Scene') if suffix == 'outline' else '')
        rezip(doc, c[:a] + body + f'<text:p text:style-name="Text_20_body">{t}</text:p>' * 2 + c[c.index('</office:text>'):])
        return e.path('new.yw7'), doc
    convert(p, suffix)
    # the project as it was before
    save(p, rich_novel('Other'))
    for x in os.listdir(e.dir):
        if x.endswith('.bak'):
            os.remove(e.path(x))
    return p, e.path(doc_name('p', suffix))


def complete(e, p, doc):
    """The project with the complete document, imported into a copy."""
    d = e.path('copy')
    os.makedirs(d)
    shutil.copy(doc, d)
    if os.path.isfile(p):
        shutil.copy(p, d)
    c, ui = convert(os.path.join(d, os.path.basename(doc)))
    e.check(c.newFile is not None, 'the complete document is imported')
    r = everything_of(load(c.newFile).novel)
    shutil.rmtree(d)
    return r


def raw_files(e):
    """All files with their bytes."""
    out = {}
    for d, ds, fs in os.walk(e.dir):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), e.dir)] = None
        for x in fs:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), e.dir)] = f.read()
    return out


def rejected(e, p, doc, want=None, answer=True):
    """The document is rejected and nothing is changed (or, if want is given, imported completely)."""
    before = raw_files(e)
    c, ui = convert(doc, None, answer)
    name = os.path.basename(doc)
    e.check(raw_files(e)[name] == before[name], 'the document is not changed')
    e.equal(len(ui.how), 1, 'messages')
    if want is not None and not ui.how[0].startswith('!'):
        e.equal(c.newFile, p, 'new file')
        e.equal(everything_of(load(p).novel), want, 'the complete document')
        return
    e.check(ui.how[0].startswith('!') and len(ui.how[0]) > 1, 'error reported')
    e.check(c.newFile is None, 'no file reported')
    e.equal(ui.warnings, [], 'warnings')
    after = raw_files(e)
    e.equal(sorted(after), sorted(before), 'files')
    for k in before:
        e.check(after[k] == before[k], 'no file changes')


@harness(cases={s: {'suffix': s} for s in FEW}, thorough={**{s: {'suffix': s} for s in CASES if s not in FEW}, **{s + ',deep': {'suffix': s, 'n': 400} for s in FEW}})
def archive(e, suffix, n=40):
    """The archive is cut off or a byte is wrong or missing."""
    p, doc = prepared(e, suffix)
    want = complete(e, p, doc)
    with open(doc, 'rb') as f:
        raw = f.read()
    how = e.choose('how', ['cut', 'wrong', 'missing', 'front'])
    k = e.choose('place', list(range(n)))
    at = len(raw) * k // n
    new = {'cut': raw[:at], 'wrong': raw[:at] + bytes([raw[at] ^ 0x55]) + raw[at + 1:], 'missing': raw[:at] + raw[at + 1:], 'front': raw[at + 1:]}[how]
    with open(doc, 'wb') as f:
        f.write(new)
    rejected(e, p, doc, None if how == 'cut' else want)


@harness(cases={s: {'suffix': s, 'n': 20} for s in CASES}, thorough={s + ',deep': {'suffix': s, 'n': 100} for s in CASES})
def member(e, suffix, n):
    """A part of the document is cut off, empty, missing or not XML."""
    p, doc = prepared(e, suffix)
    need = ['content.xml'] + (['styles.xml', 'meta.xml'] if suffix not in LISTS else [])
    name = e.choose('part', need)
    how = e.choose('how', ['cut', 'empty', 'missing', 'twice', 'entity', 'bytes', 'checksum'])
    with zipfile.ZipFile(doc) as z:
        parts = [(n, z.read(n)) for n in z.namelist()]
    text = dict(parts)[name]
    if how == 'cut':
        k = e.choose('place', list(range(1, n)))
        text = text.rstrip()[:len(text.rstrip()) * k // n]
    elif how == 'empty':
        text = b''
    elif how == 'twice':
        text = text + text[text.index(b'<office:'):]
    elif how == 'entity':
        i = text.rindex(b'</')
        text = text[:i] + b'&unknown;' + text[i:]
    elif how == 'bytes':
        i = text.rindex(b'</')
        text = text[:i] + b'\xff' + text[i:]
    with zipfile.ZipFile(doc, 'w') as z:
        for n, data in parts:
            if n != name:
                z.writestr(n, data)
            elif how != 'missing':
                z.writestr(n, text)
    if how == 'checksum':
        with open(doc, 'rb') as f:
            raw = f.read()
        i = raw.index(text) + len(text) // 2
        with open(doc, 'wb') as f:
            f.write(raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:])
    if name == 'meta.xml' and how in ('empty', 'missing'):
        # An optional part.
        c, ui = convert(doc)
        e.equal(c.newFile, p, 'new file')
        return
    rejected(e, p, doc)


@harness(cases=CASES)
def foreign(e, suffix):
    """Something else has the name of the document."""
    p, doc = prepared(e, suffix)
    how = e.choose('how', ['empty', 'text', 'project', 'archive', 'empty archive', 'page', 'no body', 'other kind'])
    if how == 'empty':
        data = b''
    elif how == 'text':
        data = b'PK\x03\x04 text'
    elif how == 'project':
        save(e.path('x.yw7'), small_novel())
        with open(e.path('x.yw7'), 'rb') as f:
            data = f.read()
    elif how == 'page':
        data = b'<html><body><p>text</p></body></html>'
    elif how in ('archive', 'empty archive'):
        with zipfile.ZipFile(doc, 'w') as z:
            if how == 'archive':
                z.writestr('word/document.xml', '<document/>')
        data = None
    elif how == 'no body':
        if suffix not in LISTS:
            return
        c = unzip(doc)
        a, b = c.index('<office:body>'), c.index('</office:body>') + len('</office:body>')
        rezip(doc, c[:a] + c[b:])
        data = None
    elif how == 'other kind':
        if suffix not in LISTS:
            return
        save(e.path('x.yw7'), small_novel())
        convert(e.path('x.yw7'), '_manuscript')
        with open(e.path('x_manuscript.odt'), 'rb') as f:
            data = f.read()
    if data is not None:
        with open(doc, 'wb') as f:
            f.write(data)
    rejected(e, p, doc)


@harness(cases={s: {'suffix': s} for s in [*TEXTS, *LISTS]})
def target(e, suffix):
    """The project the document belongs to cannot be read or the user refuses."""
    p, doc = prepared(e, suffix)
    how = e.choose('how', ['missing', 'empty', 'cut', 'document', 'refused', 'folder'])
    if how in ('missing', 'folder'):
        os.remove(p)
        if how == 'folder':
            os.mkdir(p)
    elif how == 'empty':
        e.put(p, '')
    elif how == 'cut':
        t = e.get(p)
        e.put(p, t[:len(t.rstrip()) * e.choose('place', list(range(1, 20))) // 20])
    elif how == 'document':
        shutil.copy(doc, p)
    rejected(e, p, doc, None, how != 'refused')
    e.equal(os.path.exists(p), how != 'missing', 'project')
