"""P11: exporting the tagged manuscript for proofreading and importing it again keeps all texts and formatting."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from prose import *

BOUNDS = ('documents that the XML parser reads in two pieces, divided at any place of a text; bookmarks, page breaks, spans and change marks at any place of a text, nine kinds of recorded deletions; '
          'two elements of each kind with any two of six identifiers of one to five digits; '
          'scene contents of the 52 listed shapes (line breaks, empty lines, italic, bold, language, nested and across lines, quotations, '
          'lists, comments) with one to three arbitrary characters at each text position; documents edited between the scene marks'
          '; sections, text frames, footnotes and endnotes the author has inserted, in nine arrangements; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['markup is balanced and properly nested; language codes have the form ll-CC; markup other than italic, bold, language and '
               'comments is dropped by design; white space at the beginning and at the end of a scene does not count',
               'a note becomes a comment with its first paragraph',
               'texts contain no scene dividers (#, ##, ### at the beginning of a line: P16)']
SUFFIX = '_proof'


@harness(cases={f'{i}': {'shape': s, 'k': 1} for i, s in enumerate(SHAPES)},
         thorough={f'{i},{k}': {'shape': s, 'k': k, 'full': full} for i, s in enumerate(SHAPES) for k, full in ((1, 3), (2, 1))})
def shapes(e, shape, k, full=2):
    """One scene of the given shape."""
    round_trip(e, SUFFIX, shape, k, full=full, strip=True)


@harness(cases={f'{k}': {'k': k} for k in (2,)}, thorough={f'{k}': {'k': k} for k in (3, 4)})
def prose(e, k):
    """Any characters without markup."""
    round_trip(e, SUFFIX, 'T', k, strip=True)


@harness(cases={'': {}})
def edited_white_space(e):
    """Spaces, tabs and line breaks the way Writer stores them."""
    body, want = white_space(e)
    e.equal(formatted(edit(e, SUFFIX, body)), want, 'scene content')


@harness(cases={s: {'style': s} for s in STYLES})
def edited_spans(e, style):
    """Text formatted in any way: before, inside and after a span, also next to or inside another one."""
    t = e.text('t', 1, minus('line', '[]*#'))
    body, want = span_document(e, style, t)
    e.equal(formatted(edit(e, SUFFIX, body)), want, 'scene content')


@harness(cases={'': {}})
def inserted(e):
    """Sections, text frames and notes the author has inserted."""
    body, want = inserted_parts(e)
    e.equal(edit(e, SUFFIX, body).rstrip(), '\n'.join(want), 'scene content')


@harness(cases={'2': {'k': 2}}, thorough={'3': {'k': 3}})
def edited_paragraphs(e, k):
    """Paragraphs of any style."""
    body, want = paragraphs(e, k)
    e.equal(formatted(edit(e, SUFFIX, body)), want, 'scene content')


@harness(cases={'': {}})
def edited_marks(e):
    """Text between the marks goes to the marked scene, text elsewhere is ignored; scenes may be left out or swapped."""
    p = e.path('p.yw7')
    save(p, rich_novel('QxxZ'))
    before = others(load(p).novel)
    c, ui = convert(p, SUFFIX)
    d = c.newFile
    doc = unzip(d)
    a, b = doc.index('<text:h'), doc.index('</office:text>')
    t = [e.char(f't{i}', minus('line', '[]*#')) for i in range(3)]
    want = {'1': 'QxxZ', '2': 'Second scene text', '3': 'Third scene text'}
    body = ''
    last = ''
    for i in range(2):
        s = e.choose(f's{i}', ['1', '2', '3', 'none'])
        if s == 'none':
            body += f'<text:p text:style-name="P">outside {esc(t[i])}</text:p>'
            continue
        e.assume(i == 0 or s != last)
        last = s
        want[s] = f'a{t[i]}b'
        body += (f'<text:p text:style-name="scene_20_mark">[ScID:{s}]</text:p><text:p text:style-name="P">{esc(want[s])}</text:p>'
                 f'<text:p text:style-name="scene_20_mark">[/ScID]</text:p><text:p text:style-name="P">outside</text:p>')
    rezip(d, doc[:a] + body + doc[b:])
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    n = load(p).novel
    for s in want:
        e.equal(n.scenes[s].sceneContent, want[s], f'scene {s}')
    e.equal(n.srtChapters, ['1', '2', '3', '4', '5'], 'chapters')


@harness(cases={'_proof': {'suffix': '_proof'}})
def identifiers(e, suffix):
    """Elements with any identifiers."""
    any_ids(e, suffix)


@harness(cases={'': {}})
def brackets(e):
    """Brackets that are no markup."""
    bracket_text(e, SUFFIX, strip=True)


@harness(cases={'_proof': {'suffix': '_proof'}})
def divided(e, suffix):
    """A document that the XML parser reads in two pieces."""
    divided_document(e, suffix)


@harness(cases={'_proof': {'suffix': '_proof'}})
def not_text(e, suffix):
    """Page breaks, bookmarks and changes within the texts do not matter, nor does the record of changes."""
    invisible(e, suffix)


@harness(cases={'_proof': {'suffix': '_proof'}})
def large(e, suffix):
    """A project of realistic size."""
    large_cycle(e, suffix)
