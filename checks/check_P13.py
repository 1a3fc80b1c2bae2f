"""P13: character, location, item and scene lists (spreadsheets): exporting and importing keeps and updates the data."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from prose import esc, any_ids, large_cycle
from check_P12 import everything

BOUNDS = ('two elements of each kind with any two of six identifiers of one to five digits; '
          'each text column of the four lists with two (thorough: three) arbitrary characters, alone or inside other text; two tags with two '
          'arbitrary characters; all values of the flags, the status and the ratings; rows saved by a spreadsheet program (repeated, merged '
          'and excess cells, cells with blanks and tabs, row groups); three rows in any order, left out, new, or without identifier; '
          'rows of any length up to the number of columns'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['white space at the end of a text does not count; tags contain no commas, semicolons and line breaks and have no blanks at their ends',
               'several blanks in a row typed in the spreadsheet program become one (as the existing tests require)',
               'the four ratings of a scene are 1..10, 1 is not shown']
COLUMNS = {
    '_charlist': ('character', ['', 'title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'isMajor', 'tags', 'notes']),
    '_loclist': ('location', ['', 'title', 'desc', 'aka', 'tags']),
    '_itemlist': ('item', ['', 'title', 'desc', 'aka', 'tags']),
    '_scenelist': ('scene', ['', 'title', 'desc', 'tags', 'notes', 'isReactionScene', 'goal', 'conflict', 'outcome', '', '',
                             'field1', 'field2', 'field3', 'field4', '', '', 'status', '', '', '']),
}
PREFIX = {'_charlist': 'CrID:', '_loclist': 'LcID:', '_itemlist': 'ItID:', '_scenelist': 'ScID:'}
TEXTS = ['title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'notes', 'goal', 'conflict', 'outcome']
CASES = {f'{s},{a}': {'suffix': s, 'attr': a} for s in COLUMNS for a in COLUMNS[s][1] if a in TEXTS}


def list_novel():
    """All data of the lists are set."""
    n = rich_novel()
    for s in COLUMNS:
        kind, cols = COLUMNS[s]
        for i in ('1', '2', '3') if kind == 'scene' else ('1', '2'):
            x = entity(n, kind, i)
            for a in cols:
                if a in TEXTS:
                    setattr(x, a, f'{a} of {kind} {i}')
                elif a == 'tags':
                    x.tags = ['tag ' + i, 'more']
                elif a.startswith('field'):
                    setattr(x, a, str(int(i) + int(a[5:])))
    return n


def data(n):
    """Everything, with the attributes of each element as separate entries."""
    out = everything(n)
    for kind, d in (('character', n.characters), ('location', n.locations), ('item', n.items)):
        for i in d:
            out.append([kind, i, 'tags', d[i].tags or []])
            if kind == 'character':
                out.append([kind, i, 'isMajor', bool(d[i].isMajor)])
    for i in n.scenes:
        s = n.scenes[i]
        out.append(['scene', i, 'isReactionScene', bool(s.isReactionScene)])
        for a in ('tags', 'status'):
            out.append(['scene', i, a, getattr(s, a)])
    return out


def data_without(n, kind, eid, attrs):
    """Everything except some attributes of an element."""
    x = entity(n, kind, eid)
    for a in attrs:
        setattr(x, a, 1 if a == 'status' else None)
    return data(n)


def cycle(e, p, suffix, change=None, ok=True):
    c, ui = convert(p, suffix)
    e.equal(ui.how, [f'File written: "{doc_name(e.path("p"), suffix)}".'], 'export message')
    d = c.newFile
    if change:
        rezip(d, change(unzip(d)))
    c, ui = convert(d)
    if ok:
        e.equal(ui.how, [f'File written: "{p}".'], 'import message')
    else:
        e.check(len(ui.how) == 1 and ui.how[0].startswith('!'), 'import is refused')
    return load(p).novel


def value(x, a):
    v = getattr(x, a)
    if a in TEXTS:
        return (v or '').rstrip()
    return v


@harness(cases={f'{c},{w}': dict(CASES[c], where=w, k=2) for c in CASES for w in ('alone',)} | {f'{c},inside': dict(CASES[c], where='inside', k=1) for c in CASES},
         thorough={f'{c},{w},3': dict(CASES[c], where=w, k=3) for c in CASES for w in ('alone', 'inside')})
def round_trip_text(e, suffix, attr, where, k):
    """Any characters in one text."""
    kind = COLUMNS[suffix][0]
    t = e.text('t', k, minus('nocr', ''))
    if where == 'inside':
        t = 'One two' + t + 'three\n\nfour'
    nov = list_novel()
    setattr(entity(nov, kind, '1'), attr, t)
    p = e.path('p.yw7')
    save(p, nov)
    before = data_without(load(p).novel, kind, '1', [attr])
    n = cycle(e, p, suffix)
    e.equal((getattr(entity(n, kind, '1'), attr) or '').rstrip(), t.rstrip(), attr)
    e.equal(data_without(n, kind, '1', [attr]), before, 'everything else')


@harness(cases={f'{s},{k}': {'suffix': s, 'k': k} for s in COLUMNS for k in (1, 2)}, thorough={f'{s},{k}': {'suffix': s, 'k': k} for s in COLUMNS for k in (3,)})
def round_trip_tags(e, suffix, k):
    """Any tags, missing texts."""
    kind, cols = COLUMNS[suffix]
    dom = minus('nocr', ',;\n')
    tags = [e.text('t', k, dom), e.text('u', 1, dom)]
    for t in tags:
        e.assume(t == t.strip() and t != '')
    e.assume(tags[0] != tags[1])
    nov = list_novel()
    x = entity(nov, kind, '1')
    x.tags = tags[:e.choose('number', [0, 1, 2])]
    if e.choose('texts', [True, False]):
        for a in cols:
            if a in TEXTS and a != 'title':
                setattr(x, a, None)
    p = e.path('p.yw7')
    save(p, nov)
    before = data_without(load(p).novel, kind, '1', ['tags'])
    n = cycle(e, p, suffix)
    e.equal(entity(n, kind, '1').tags or [], x.tags, 'tags')
    e.equal(data_without(n, kind, '1', ['tags']), before, 'everything else')


@harness(cases={'character': {'kind': 'character'}, 'scene': {'kind': 'scene'}})
def round_trip_values(e, kind):
    """All combinations of values."""
    nov = list_novel()
    p = e.path('p.yw7')
    if kind == 'character':
        for i in '12':
            nov.characters[i].isMajor = e.flag('major' + i)
        suffix = '_charlist'
    else:
        suffix = '_scenelist'
        s = nov.scenes['2']
        s.isReactionScene = e.flag('reaction')
        s.status = e.int('status', 1, 5)
        r = e.int('rating', 1, 10)
        i = e.choose('field', [1, 2, 3, 4])
        setattr(s, f'field{i}', str(r))
    save(p, nov)
    before = data(load(p).novel)
    n = cycle(e, p, suffix)
    e.equal(data(n), before, 'everything')


def table(doc):
    """(text before the first row with data, [[cell text with XML entities]], text after the last row)"""
    start = doc.index('</table:table-row>') + len('</table:table-row>')
    end = doc.index('</table:table>')
    rows = []
    for r in doc[start:end].split('</table:table-row>')[:-1]:
        cells = []
        for c in r.split('<table:table-cell')[1:]:
            if '<text:p>' in c:
                cells.append(c[c.index('<text:p>'):c.rindex('</text:p>') + 9])
        rows.append(cells)
    return doc[:start], rows, doc[end:]


def row_xml(cells, merge=True):
    """A row as a spreadsheet program writes it: equal neighbours are merged, empty cells have no paragraph."""
    out = '<table:table-row table:style-name="ro2">'
    i = 0
    while i < len(cells):
        j = i + 1
        while merge and j < len(cells) and cells[j] == cells[i]:
            j += 1
        rep = f' table:number-columns-repeated="{j - i}"' if j - i > 1 else ''
        c = '' if cells[i] == '<text:p></text:p>' else cells[i]
        if c:
            out += f'<table:table-cell office:value-type="string"{rep}>{c}</table:table-cell>'
        else:
            out += f'<table:table-cell{rep}/>'
        i = j
    return out + '<table:table-cell table:number-columns-repeated="990"/></table:table-row>'


@harness(cases={s: {'suffix': s} for s in COLUMNS})
def saved_by_calc(e, suffix):
    """Two texts are edited; the spreadsheet program merges equal neighbours and omits the content of empty cells."""
    kind, cols = COLUMNS[suffix]
    txt = [i for i, a in enumerate(cols) if a in TEXTS]
    a = e.choose('first', txt)
    b = e.choose('second', [i for i in txt if i != a])
    dom = minus('line', '')
    t = e.texts('t', [0, 1], dom).rstrip()
    u = e.texts('u', [0, 1], dom).rstrip()
    nov = list_novel()
    p = e.path('p.yw7')
    save(p, nov)
    before = data_without(load(p).novel, kind, '1', [cols[a], cols[b]])

    def change(doc):
        head, rows, tail = table(doc)
        rows[0][a] = f'<text:p>{esc(t)}</text:p>'
        rows[0][b] = f'<text:p>{esc(u)}</text:p>'
        return head + ''.join(row_xml(r) for r in rows) + '<table:table-row table:number-rows-repeated="9"><table:table-cell/></table:table-row>' + tail
    n = cycle(e, p, suffix, change)
    x = entity(n, kind, '1')
    e.equal(value(x, cols[a]), t, cols[a])
    e.equal(value(x, cols[b]), u, cols[b])
    e.equal(data_without(n, kind, '1', [cols[a], cols[b]]), before, 'everything else')


def MERGEABLE(case):
    """Is the next column a text, too?"""
    s, a = case.split(',')
    cols = COLUMNS[s][1]
    i = cols.index(a) + 1
    return i < len(cols) and cols[i] in TEXTS


@harness(cases=dict([(f'{c},{w}', dict(CASES[c], what=w)) for c in CASES for w in ('spaces', 'paragraphs')],
                    **{f'{c},merged': dict(CASES[c], what='merged') for c in CASES if MERGEABLE(c)}))
def edited_text(e, suffix, attr, what):
    """A text is edited in a spreadsheet program."""
    kind, cols = COLUMNS[suffix]
    t = e.text('t', 1, minus('line', ''))
    i = cols.index(attr)
    nov = list_novel()
    p = e.path('p.yw7')
    save(p, nov)
    gone = [attr]
    if what == 'spaces':
        want = f'a {t}b\tc\nd e'
        new = (f'<text:p>a <text:s text:c="3"/>{esc(t)}<text:span text:style-name="T1">b</text:span><text:tab/>c<text:line-break/>d '
               '<text:s/>e</text:p>')
    else:
        want = f'a{t}\n\nb&c {t}\n d'
        new = f'<text:p>a{esc(t)}</text:p><text:p/><text:p>b&amp;c {esc(t)}</text:p><text:p> d</text:p>'
    if what == 'merged':
        gone.append(cols[i + 1])
    before = data_without(load(p).novel, kind, '1', gone)

    def change(doc):
        head, rows, tail = table(doc)
        rows[0][i] = new
        if what == 'merged':
            rows[0][i + 1] = '@'
        return head + ''.join(row_xml(r) for r in rows).replace(
            '<table:table-cell office:value-type="string">@</table:table-cell>', '<table:covered-table-cell/>') + tail
    n = cycle(e, p, suffix, change)
    e.equal((getattr(entity(n, kind, '1'), attr) or '').rstrip(), want.rstrip(), attr)
    if what == 'merged':
        e.equal(getattr(entity(n, kind, '1'), cols[i + 1]) or '', '', 'covered cell')
    e.equal(data_without(n, kind, '1', gone), before, 'everything else')


@harness(cases={s: {'suffix': s} for s in COLUMNS})
def edited_values(e, suffix):
    """Tags, flags, status and ratings are edited."""
    kind, cols = COLUMNS[suffix]
    nov = list_novel()
    p = e.path('p.yw7')
    save(p, nov)
    i = e.choose('column', [i for i, a in enumerate(cols) if a and a not in TEXTS])
    a = cols[i]
    before = data_without(load(p).novel, kind, '1', [a])
    if a == 'tags':
        dom = minus('line', ',; ')
        t = [e.text(f't{j}', 1, dom) for j in range(3)]
        for x in t:
            e.assume(x == x.strip() and x != '')
        new, want = e.choose('tags', [('', []), (t[0], t[:1]), (f'{t[0]}, {t[1]}, {t[2]}', t), (f' {t[0]} ,  {t[1]}x, ', [t[0], t[1] + 'x'])])
        want = [x for j, x in enumerate(want) if x not in want[:j]]
    elif a == 'isMajor':
        new, want = e.choose('value', [('Major', True), ('Minor', False), ('', False)])
    elif a == 'isReactionScene':
        new, want = e.choose('value', [('A', False), ('R', True), ('', False), ('r', True), ('Reaction', True), ('Action', False)])
    elif a == 'status':
        k = e.int('status', 1, 5)
        new, want = ['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done'][k], k
    else:
        k = e.int('rating', 1, 10)
        new, want = ('', '1') if k == 1 else (str(k), str(k))

    def change(doc):
        head, rows, tail = table(doc)
        rows[0][i] = f'<text:p>{esc(new)}</text:p>'
        return head + ''.join(row_xml(r) for r in rows) + tail
    n = cycle(e, p, suffix, change)
    e.equal(getattr(entity(n, kind, '1'), a) or (False if a.startswith('is') else []), want, a)
    e.equal(data_without(n, kind, '1', [a]), before, 'everything else')


@harness(cases={f'{s},{g}': {'suffix': s, 'group': g} for s in COLUMNS for g in (False, True)})
def edited_rows(e, suffix, group):
    """Rows in any order, left out, repeated, new, without identifier."""
    kind, cols = COLUMNS[suffix]
    nov = list_novel()
    p = e.path('p.yw7')
    save(p, nov)
    old = load(p).novel
    kinds = [e.choose(f'row{i}', ['1', '2', '7', 'text', 'empty', '']) for i in range(3)]
    used = [k for i, k in enumerate(kinds) if k in ('1', '2', '7') and k not in kinds[:i]]
    if kind == 'scene':
        e.assume('7' not in used)
    t = e.text('t', 1, minus('line', ' '))
    e.assume(t == t.strip() and t != '')

    def change(doc):
        head, rows, tail = table(doc)
        out = []
        for k in kinds:
            if k in ('1', '2'):
                out.append(row_xml(rows[int(k) - 1]))
            elif k == '':
                pass
            else:
                c = list(rows[0])
                c[0] = {'7': f'<text:p>{PREFIX[suffix]}7</text:p>', 'text': '<text:p>Remark</text:p>', 'empty': '<text:p></text:p>'}[k]
                c[1] = f'<text:p>{esc(t)}</text:p>'
                out.append(row_xml(c))
        if group and len(out) > 1:
            out.insert(1, '<table:table-row-group>')
            out.append('</table:table-row-group>')
        return head + ''.join(out) + tail
    n = cycle(e, p, suffix, change)
    if kind == 'scene':
        e.equal(data(n), data(old), 'everything')
        return
    d, srt = {'character': (n.characters, n.srtCharacters), 'location': (n.locations, n.srtLocations), 'item': (n.items, n.srtItems)}[kind]
    e.equal(srt, used, 'order of the elements')
    for i in used:
        if i == '7':
            e.equal(d['7'].title, t, 'name of the new element')
            e.equal(d['7'].tags or [], entity(old, kind, '1').tags, 'tags of the new element')
            e.equal(d['7'].desc, entity(old, kind, '1').desc, 'description of the new element')
        else:
            for a in cols:
                if a:
                    e.equal(getattr(d[i], a), getattr(entity(old, kind, i), a), a)
    for k in ('character', 'location', 'item'):
        if k != kind:
            e.equal([x for x in data(n) if x[0] == k], [x for x in data(old) if x[0] == k], 'other elements')
    attr = kind + 's'
    e.equal([getattr(x, attr) for x in n.scenes.values()],
            [[i for i in getattr(x, attr) or [] if i in used] or None for x in old.scenes.values()], f'{attr} of the scenes')
    e.equal([x for x in text_snapshot(n) if x[0] in ('scene', 'chapter', 'project')],
            [x for x in text_snapshot(old) if x[0] in ('scene', 'chapter', 'project')], 'texts of scenes and chapters')


@harness(cases={s: {'suffix': s} for s in COLUMNS})
def wrong_table(e, suffix):
    """A table with missing columns is refused, nothing is changed."""
    kind, cols = COLUMNS[suffix]
    nov = list_novel()
    p = e.path('p.yw7')
    save(p, nov)
    old = e.get(p)
    r = e.choose('row', [0, 1])
    k = e.int('cells', 1, len(cols) - 1)

    def change(doc):
        head, rows, tail = table(doc)
        rows[r] = rows[r][:k]
        return head + ''.join(row_xml(x).replace('<table:table-cell table:number-columns-repeated="990"/>', '') for x in rows) + tail
    cycle(e, p, suffix, change, ok=False)
    e.equal(e.get(p), old, 'project file')


@harness(cases={s: {'suffix': s} for s in COLUMNS})
def identifiers(e, suffix):
    """Elements with any identifiers."""
    any_ids(e, suffix)


@harness(cases={s: {'suffix': s} for s in COLUMNS})
def large(e, suffix):
    """A project of realistic size."""
    large_cycle(e, suffix)


LOOKALIKES = ['Major', 'Minor', 'R', 'A', 'N/A', 'ID', 'ScID:2', 'CrID:2', 'LcID:2', 'ItID:2', '1', '10', '0', '=1+1', 'TRUE', 'Outline', 'Done', '2022-03-04', '12:30:00',
              "'", '-', 'None', 'Tags', 'content.xml', '</text:p>', '<text:s/>', 'table:table-row']


@harness(cases={s: {'suffix': s} for s in COLUMNS})
def lookalikes(e, suffix):
    """Texts that look like something the lists have elsewhere."""
    kind, cols = COLUMNS[suffix]
    attr = e.choose('attr', [a for a in cols if a in TEXTS])
    t = e.choose('text', LOOKALIKES)
    nov = list_novel()
    if kind == 'character':
        nov.characters['1'].isMajor = e.flag('major')
    setattr(entity(nov, kind, '1'), attr, t)
    if e.flag('tag'):
        entity(nov, kind, '1').tags = [t, 'x']
    p = e.path('p.yw7')
    save(p, nov)
    before = data(load(p).novel)
    e.equal(data(cycle(e, p, suffix)), before, 'everything')
