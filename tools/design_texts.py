"""Hand-written parts of DESIGN.md (see design.py)."""

HEAD = '''
# Solver-based checking of PyWriter

This file is written by `tools/design.py` from `tools/design_texts.py`, the bounds stated in the checks, the list of planted bugs and
the list of repaired defects; edit those.

## Technique

PyWriter is a Python library that reads and writes yWriter 7 projects (XML) and converts them to and from OpenDocument files. What
matters to a user are statements about *all* texts, structures, file names, fault positions and histories, so each check executes the
**real source** (`/repo/src`, Python) **symbolically** and lets z3 decide the assertion at the end of every path.

1. **Encoding from the current source.** On every run the modules of `/repo/src` are parsed and their AST is rewritten in memory
   (`engine/instrument.py`): comparisons, subscripts, method calls on text, conversions, f-strings, regular expressions, `in`, iteration, truth
   tests are routed through `engine/rt.py`. Nothing is copied into /verif, nothing is written into /repo; there are no hooks.
2. **Symbolic values.** A symbolic character is one reserved plane-15 code point inside an ordinary Python `str`; it stands for one z3
   integer (the code point) with an interval set as abstract domain. Code that only moves text around therefore runs natively;
   everything that *inspects* text (`engine/strops.py`: about 50 str operations; `engine/symre.py`: a backtracking matcher over the parse
   tree of the standard `re` module) forks the path on exactly the character classes that make a difference. Numbers, flags, choices
   between alternatives (orders, subsets, types, shapes) and the positions of faults are z3 integers and booleans too.
3. **Models.** What is implemented in C is modelled in `engine/models.py` (expat/ElementTree/SAX parsing and escaping, `string.Template`,
   `html`, percent encoding, `os.path.splitext`, dates, configparser words) and `engine/fs.py` (files with symbolic contents, zip
   packages, atomic renames, an I/O fault or a crash before or half-way through any mutating operation). Over-approximations: first-character sets of regular
   expressions and domains of derived characters; they only cost paths, as the path condition is what z3 decides.
4. **Decision.** Depth-first exploration enumerates all feasible paths of a harness; each assertion is the query
   `path condition AND NOT property`. `unsat` on every path = the property holds for **every** value within the bounds. `sat` yields
   concrete inputs.
5. **Replay.** A counterexample is run on the *unmodified* code in another process with a real scratch directory; only a failure that
   happens there is reported (`VIOLATION property=<id> replay=<path>`; `python replay.py <path>` shows it again). What cannot be
   reproduced is counted as an encoding mismatch in the evidence and does not raise an alarm.
6. **Validation of the encoding.** For every path *without* a failure a solver-chosen input is also run on the unmodified code, and all
   observed values and the number of assertions are compared (`traces_validated_against_impl`). An incorrect model therefore shows up
   as mismatch instead of being trusted silently.

The evidence file of each check lists the functions encoded, paths, queries, solver time, mismatches, unsupported operations and
incomplete paths. Paths that end in an operation that is not modelled, or in the time budget, are counted there
and are not part of the claim; a run where no path reaches an assertion is an error.

**What a check judges.** All oracles are written against observable behaviour: the attributes of a novel after saving and reading, the
XML elements and bytes of the files, the messages of the user interface. None compares source text, calls private methods of the code (exceptions: the pure
helper functions that are themselves public, such as `string_to_list`), or depends on how the code is structured, so refactorings stay quiet.
The oracle of a document is an independent description of what it must contain (for example `check_P14.expected`,
`prose.formatted`, `check_P22.expected`), not a second run of the code.

**Tiers.** `quick` is meant for every change (about a minute each on 8 cores, budget 600 s); `thorough` adds longer texts, more shapes and
dense fault positions (budget 3000 s by default, `VP_BUDGET` seconds). Useful variables: `VP_VERBOSE=1`, `VP_JOBS`, `VP_REPO` (check another
tree), `--only=substring` (one harness).
'''

PROPS = {
'P01': ('''The oracle is the identity: set text attributes of a novel to symbolic texts, write with `Yw7File`, read with a fresh
`Yw7File`, compare every attribute of every element (modulo line ends and one final line break). Done for a new file, for overwriting, for
several texts at once (so that swapped or shared fields are seen), repeatedly, and with attributes that are not set.''',
'the file format escapes in two stages (ElementTree, then CDATA sections by regular expression); which characters next to which break it can not be sampled.'),
'P02': ('''As P01 for typed attributes: the whole range of each attribute is one symbolic value, written to a new project and as any
transition old → new of a saved one; dates are symbolic digits constrained to valid dates.''',
'the interesting cases are transitions between values (date → day, flag on → off) and all combinations, not single values.'),
'P03': ('''A project file with an unknown element at a symbolic place and with symbolic text is read, edited in one of the listed ways,
saved (twice) and compared as an XML tree: the unknown element is there once, at its place, with its text.''',
'each pair of place and edit is a separate code path of the tree builder.'),
'P04': ('''The fault position is a symbolic integer: the k-th mutating I/O operation of a save fails or the process stops there (half of the data
of a write is on the disk). Afterwards the real file system is inspected: old or new project is complete in file or backup; survivors are reported.
Then the next operation is faulted, too (two faults), and histories of three saves are run.''',
'unit tests have no faults; the property quantifies over all crash points.'),
'P05': ('''The lock file appears and disappears at symbolic steps of a session; every export and import runs with the lock present. Byte comparison of all
files, and messages.''', 'lock × operation × history combinations.'),
'P06': ('''Structure (order, membership, relations, identity by title) before saving = structure after reading, for all permutations, subsets,
distributions and symbolic identifiers.''', 'permutations and id coincidences of old file and new novel.'),
'P07': ('''The documented table of yWriter 7 (comment in `model/scene.py`, `model/chapter.py`) is the oracle for every combination of the type elements,
including arbitrary element texts; and for written files.''', 'the combinations of present, absent, odd elements.'),
'P08': ('''A project file is built byte by byte from a template with symbolic characters in every legal encoding, truncated at a symbolic
position, with parts missing; the oracle is what the file says. Damaged files: an error message and no changed file.''',
'encodings × header × control characters × truncation positions.'),
'P09': ('''Each of the 17 documents is exported with one text attribute symbolic, inside fixed text. The package is unzipped and parsed (well-formedness), and its
structure and all other texts have to equal those of the same export with a plain letter, while the text itself appears unaltered.''',
'every placeholder × every XML-relevant character × every document type.'),
'P10': ('''Scenes are built from 40 shapes (a grammar of markup over lines) with symbolic characters at every text position; manuscript export, import,
compare with the normal form of the text; second round trip. Edited documents are written by an independent ODT writer (`prose.py`) with styles and spans.''',
'nesting of markup over line breaks and quotation marks with arbitrary characters in between.'),
'P11': ('''As P10 for the document with visible scene marks; additionally marks in any order, left out, and text outside of them.''',
'as P10, and order of marks.'),
'P12': ('''Exports, edits of the XML by an independent editor (sections removed, swapped, added, replaced), import, comparison of everything in the project.''',
'each section × each edit × arbitrary characters.'),
'P13': ('''Round trip of the four tables, then tables rewritten the way spreadsheet programs store them (repeated, merged, covered, empty cells, groups, excess
columns), with symbolic cell texts and values; oracle: the column list.''', 'the storage forms of equal cells depend on the data.'),
'P14': ('''An independent description of each document type yields the list of headings, dividers and texts that must be shown; all types, levels,
marks and contents are symbolic choices.''', 'the product of types, marks, positions.'),
'P15': ('''Word and letter counts against an independent definition over symbolic characters; the numbers in exported documents against sums over the exported
scenes; a custom `FileExport` subclass with every placeholder for the template substitution.''', 'all character classes; texts that look like placeholders.'),
'P16': ('''The text of a scene is a symbolic sequence of line kinds; the oracle computes the expected chapters and scenes from the
documented meaning of the dividers.''', 'sequences of dividers.'),
'P17': ('''Documents are sequences of symbolic blocks; the oracle is the documented reading of headings and dividers.''', 'sequences of blocks.'),
'P18': ('''File names are symbolic texts; an independent description of the dispatch says which file is written, or that none is.''',
'names that contain suffixes and extensions anywhere.'),
'P19': ('''Histories of conversions with one converter object, answers of the user and existing files are symbolic; messages, `newFile` and the bytes of all
files are compared.''', 'histories.'),
'P20': ('''As P04 for exports, imports and new projects: symbolic fault positions and kinds, state of all files afterwards, repetition.''', 'all fault positions.'),
'P21': ('''The exported XML is reduced to a list of (character, format) and notes; the oracle parses the yWriter markup independently.''',
'as P10; several notes in several scenes.'),
'P22': ('''The blocks of the cross reference against an independent computation from the novel; every link of seven documents is resolved against the
sections of the named document.''', 'relations × order × types.'),
'P23': ('''Write, read, compare; files with parts missing; option words as symbolic texts against the documented words.''', 'arbitrary characters and words.'),
'P24': ('''Language codes are symbolic letters; documented rule for plausibility; project variables counted in the XML.''', 'histories of saves with codes.'),
'P25': ('''All functions that can start a program are replaced by recorders; the argument must be exactly the path. Shell command lines would be parsed with a model of POSIX words.''',
'every character of a path.'),
'P26': ('''The three XML files parsed and compared with the project, for symbolic texts, orders and faults.''', 'arbitrary characters.'),
'P27': ('''Project before and after (in memory and in the file) against the definition; texts are sequences of marks, parts of marks and symbolic characters.''',
'combinations of fields; mark look-alikes.'),
'P29': ('''The result of a conversion of a fixed document with a symbolic text is compared with the one after other conversions, with the same and with new converter objects; all
attributes of the project in memory before and after each export.''', 'state that outlives a conversion only shows in the sequence of two of them.'),
'P30': ('''An export class of the check with every template and chosen filters; an independent description of what appears; the fault schedule of P04 over its file operations.''',
'all subsets and template combinations; every fault position.'),
'P31': ('''Template, translation file and dictionary with symbolic messages and translations in every combination of places; an independent reader of the files written; faults as in P04.''',
'no test touches these tools; quoting and precedence depend on the texts.'),
'P32': ('''Import graphs as choices, lines of every kind with symbolic text; an independent expansion in the check.''', 'no test; the result depends on the import graph and on how lines look.'),
'P33': ('''States of attributes, numbers of elements, edits and document blocks as choices, texts symbolic; the file is compared with a description of the yWriter 7 structure (docs/yw7.dtd and the code's own comments).''',
        'reading with the library cannot tell, since it tolerates repeated, misplaced and unknown elements.'),
'P34': ('''Sequences of actions and answers as choices, messages, titles and authors symbolic; tkinter is replaced by stand-ins that record what the windows show, compared with a description of the window's state.''',
        'all orders of opening, failing, closing and dismissing, and all texts; there is no test of the user interface.'),
'P35': ('''Translation files of twelve layouts with symbolic messages and translations are compiled and read by an independent reader; every conversion is run by the freshly started program with and without a dictionary that translates each message of the sources to a symbolic text, and compared.''',
        'all texts and layouts, all languages; the tests never run with translations.'),
'P36': ('''Kind and place of the damage (bytes of the archive, parts, elements, kind of file, state of the project) as choices, an edited text symbolic; all files before and after the conversion are compared, a tolerated damage has to give the project of the intact document.''',
        'every kind of document and damage at 40 (thorough: 400) places; the tests import intact documents only.'),
'P28': ('''Definition of splitting, joining and of the smallest free number over symbolic texts.''', 'arbitrary characters and sets of IDs.'),
}

COST = {'P01': 44, 'P02': 20, 'P03': 49, 'P04': 5, 'P05': 18, 'P06': 4, 'P07': 8, 'P08': 19, 'P09': 66, 'P10': 57, 'P11': 63, 'P12': 38,
        'P13': 78, 'P14': 43, 'P15': 12, 'P16': 22, 'P17': 58, 'P18': 24, 'P19': 9, 'P20': 12, 'P21': 44, 'P22': 15, 'P23': 5, 'P24': 23,
        'P25': 1, 'P26': 18, 'P27': 17, 'P28': 8, 'P29': 30, 'P30': 12, 'P31': 12, 'P32': 3, 'P33': 90, 'P34': 76, 'P35': 15, 'P36': 45}

TAIL = '''
## Testing the machinery

`seeded/<id>/` holds planted bugs (patch, demonstration, description), each written from a property's text and the code; `tools/mkbug.py` makes
and validates one, `tools/trybugs.sh ID` runs the property's quick check on a patched copy. Every bug of the list above is caught by the
quick check of its property. In addition about 120 one-line mutations of all modules (conditions dropped, wrong list, wrong order of
statements, missing escaping, wrong bounds) were run against the quick checks; those that were missed and violated a property led to stronger harnesses.

## Limitations

- Bounds are small where the code treats each character on its own (2 to 4 arbitrary characters); long texts are covered by P01 (6000
  characters) only. Structures have two to four elements of a kind.
- Not claimed (documented behaviour is missing or the case is outside of what yWriter produces): links of the cross reference to scenes that are not part of the manuscript; file names with
  backslashes; upper-case extensions; further paragraphs of footnotes and comments in ODT documents; tags that contain commas in lists; ratings other than 1 to 10; comments over several
  lines in word counts; dividers before the first scene; documents with identifiers of scenes that are not in the project; hand-typed language marks without project variable when other ones
  exist; custom fields of project notes (read, never written).
- The windows (`ui/*_tk.py`, `ui_mb.py`) run against recording stand-ins for tkinter (P34); what tkinter draws is not covered, nor are `rich_text_tk.py` and `set_icon_tk.py`.
- Timing: wall-clock limits per path (60 s) and per run; what is cut off is counted in the evidence and not claimed.
'''

DEFECTS = '''
Found by the checks on the original tree (commit 9230591), shown on the real code, and repaired by small `fix:` commits in /repo (71 so far; also
listed in `known_findings.json`, where a "fixed" entry suppresses nothing). P26 b438ea7 repairs a regression that
the P04 repair of this repository had caused itself: the data files override the function that had been moved; no test covers them.
'''

OPEN = '''
There is no open (recorded, unrepaired) finding of a claimed property. Defects seen outside of the claims, left alone: `'Conflict' 'Field_ChapterHeadingPrefix'` lacks a comma in
the list of CDATA tags (pinned by the test data; harmless for reading); a stray apostrophe in the scene template of the plain export (pinned by
tests); `settings.xml` of spreadsheets contains the literal `$Language`; an outline whose first heading is of the third level is rejected with the message
"!None"; the INI file is not written atomically.
'''
