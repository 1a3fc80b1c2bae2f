"""P10: exporting the editable manuscript and importing it again keeps all texts and formatting."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from prose import *

BOUNDS = ('documents that the XML parser reads in two pieces, divided at any place of a text; bookmarks, page breaks, spans and change marks at any place of a text, nine kinds of recorded deletions; '
          'two elements of each kind with any two of six identifiers of one to five digits; '
          'scene contents of the 52 listed shapes (line breaks, empty lines, italic, bold, language, nested and across lines, quotations, '
          'lists, comments) with one to three arbitrary characters at each text position; three scenes in two chapters; two round trips'
          '; sections, text frames, footnotes and endnotes the author has inserted, in nine arrangements; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['markup is balanced and properly nested; language codes have the form ll-CC; markup other than italic, bold, language and '
               'comments is dropped by design; the format of line breaks and white space at the end of a scene do not count',
               'a note becomes a comment with its first paragraph',
               'texts contain no scene dividers (#, ##, ### at the beginning of a line: P16)']
SUFFIX = '_manuscript'


@harness(cases={f'{i}': {'shape': s, 'k': 1} for i, s in enumerate(SHAPES)},
         thorough={f'{i},{k}': {'shape': s, 'k': k, 'full': full} for i, s in enumerate(SHAPES) for k, full in ((1, 3), (2, 1))})
def shapes(e, shape, k, full=2):
    """One scene of the given shape."""
    round_trip(e, SUFFIX, shape, k, full=full)


@harness(cases={f'{k}': {'k': k} for k in (2,)}, thorough={f'{k}': {'k': k} for k in (3, 4)})
def prose(e, k):
    """Any characters without markup."""
    round_trip(e, SUFFIX, 'T', k)


@harness(cases={'2': {'k': 2}}, thorough={'3': {'k': 3}})
def edited_paragraphs(e, k):
    """Paragraphs of any style."""
    body, want = paragraphs(e, k)
    e.equal(formatted(edit(e, SUFFIX, body)), want, 'scene content')


@harness(cases={'': {}})
def edited_white_space(e):
    """Spaces, tabs and line breaks the way Writer stores them."""
    body, want = white_space(e)
    e.equal(formatted(edit(e, SUFFIX, body)), want, 'scene content')


@harness(cases={s: {'style': s} for s in STYLES})
def edited_spans(e, style):
    """Text formatted in any way: before, inside and after a span, also next to or inside another one."""
    t = e.text('t', 1, minus('line', '[]*#'))
    body, want = span_document(e, style, t)
    e.equal(formatted(edit(e, SUFFIX, body)), want, 'scene content')


@harness(cases={'': {}})
def inserted(e):
    """Sections, text frames and notes the author has inserted."""
    body, want = inserted_parts(e)
    e.equal(edit(e, SUFFIX, body).rstrip(), '\n'.join(want), 'scene content')


@harness(cases={'_manuscript': {'suffix': '_manuscript'}})
def identifiers(e, suffix):
    """Elements with any identifiers."""
    any_ids(e, suffix)


@harness(cases={'': {}})
def brackets(e):
    """Brackets that are no markup."""
    bracket_text(e, SUFFIX)


@harness(cases={'_manuscript': {'suffix': '_manuscript'}})
def divided(e, suffix):
    """A document that the XML parser reads in two pieces."""
    divided_document(e, suffix)


@harness(cases={'_manuscript': {'suffix': '_manuscript'}})
def not_text(e, suffix):
    """Page breaks, bookmarks and changes within the texts do not matter, nor does the record of changes."""
    invisible(e, suffix)


@harness(cases={'_manuscript': {'suffix': '_manuscript'}})
def large(e, suffix):
    """A project of realistic size."""
    large_cycle(e, suffix)
