"""The properties (executed by props.py)."""

prop('P01', 'Project texts survive saving and re-reading unchanged',
     '''Every text a project holds (titles, descriptions, contents, notes, biographies, custom text fields of the project,
     its chapters, scenes, characters, locations, items and project notes) is the same after the project has been written
     to a yWriter 7 file and read again, whatever characters it contains, in a new file as well as in an existing one, and
     however often this is repeated. Setting one text changes no other text, and texts that are not set leave those in the
     existing file alone. Line endings may be normalised and one final line break may be dropped.''',
     ['inputs', 'histories'], 'every text attribute, every sequence of XML characters, every number of save/read cycles',
     '''The tests compare a handful of sample projects; they never use quotes, entities, ]]>, vertical bars, control or
     non-BMP characters at each of the 43 places, and a wrong escape shows with specific characters only.''',
     [YW, 'src/pywriter/model/novel.py', 'src/pywriter/pywriter_globals.py'],
     [('serializing, CDATA wrapping and unescaping', YW + ':_write_element_tree, _postprocess_xml_file'),
      ('element by element update of the tree', YW + ':_build_element_tree'), ('reading', YW + ':read, _read_scenes')],
     'Round trip with symbolic characters at every text attribute.')

prop('P02', 'Structured attributes survive saving and re-reading',
     '''Scene, chapter and project attributes that are not free text (types, flags, completion status, scene kind, dates and
     times, days, durations, tags, plot arcs, scene mode, word-count targets, custom fields, language settings) have the same
     value after the project is saved and read again, in any combination, and replacing a value in an existing project leaves
     no trace of the old one. A scene may change from a calendar date to an unspecific day and back. Odd contents of date
     fields in a project file do not prevent reading or saving it.''',
     ['inputs', 'histories'], 'every value in the range of each attribute, every combination of flags, change of the value',
     'Each test project has one fixed combination of values; flags and dates interact (absent element = default value).',
     [YW, 'src/pywriter/model/scene.py', 'src/pywriter/model/chapter.py', 'src/pywriter/model/character.py'],
     [('encoding of flags and dates', YW + ':_build_element_tree'), ('decoding', YW + ':_read_scenes, _read_chapters')],
     'Round trip with symbolic attribute values, then change and round trip again.')

prop('P03', 'Unknown data in project files is preserved',
     '''Everything in a yWriter project file that this software does not interpret (unknown elements and yWriter's own settings
     of the project, chapters, scenes and their sublists) is still there, once and unchanged, after the project has been
     read, edited in any way and saved, and also after a document has been imported into the project.''',
     ['inputs', 'histories'], 'foreign elements with any text at each level of the file, any edit',
     'The test data contain only the elements the library writes itself.',
     [YW], [('the tree is updated in place instead of rewritten', YW + ':_build_element_tree')],
     'Foreign element with symbolic text at each place; edits enumerated by solver-guided choice.')

prop('P04', 'A failed or interrupted save never loses the project',
     '''If saving a project fails at any file operation or the process is stopped at any moment, the previous state or the
     complete new state of the project is found on the disk, in the project file or its backup copy. A failure that is
     survived is reported as an error, never as success, and leaves the previous project in place. A later successful save
     yields the complete new project, with the state before it as the backup.''',
     ['crash_points', 'fault_sequences', 'histories'],
     'every file operation of the saving procedure failing or being the last one; two consecutive saves; three saves',
     'Tests run on a disk that never fails; each fault position is a different execution.',
     [YW], [('backup, write, restore', YW + ':_write_element_tree, _postprocess_xml_file')],
     'Fault position is a symbolic integer over all I/O operations of the save.')

prop('P05', 'A project opened in yWriter is neither read nor modified',
     '''While the lock file of yWriter exists, no conversion into or from the project and no save changes any file, and the
     user is told that yWriter must be closed first. As soon as the lock is gone, the same operations work.''',
     ['histories', 'configurations'], 'the lock appearing or vanishing before any step of a session; all exports and imports',
     'No test has a lock file.',
     [YW, 'src/pywriter/converter/yw_cnv_ui.py'],
     [('lock test', YW + ':is_locked, read, write'), ('lock test before a new project is overwritten',
                                                      'src/pywriter/converter/yw_cnv_ui.py')],
     'Lock history is a vector of symbolic booleans.')

prop('P06', 'Order, membership and relations survive saving',
     '''After saving and reading, every list (chapters, scenes of a chapter, characters, locations, items, project notes, the
     characters, locations and items of a scene) has the same members in the same order, each with its own data. Elements
     that were removed are gone and new elements are there, in new files and when an existing project is overwritten.
     Relations to elements that do not exist are dropped, and all other relations are kept.''',
     ['inputs', 'histories'], 'every permutation, distribution of scenes, subset removed and added, any identifiers',
     'The tests keep the order and membership of the sample project.',
     [YW], [('sorted lists', YW + ':_build_element_tree'), ('checking of relations', YW + ':_read_scenes, _read_chapters')],
     'Permutations, subsets and identifiers are symbolic.')

prop('P07', 'Types and flags use the encoding yWriter understands',
     '''The kind of a scene (normal, notes, todo, unused) and of a chapter, and all on/off flags, are read from and written to the
     project file with the element combinations that yWriter 7 documents, whatever combination of elements is present or
     absent before. Scenes in a chapter that is not normal get the kind of this chapter.''',
     ['inputs', 'configurations'], 'every combination of present, absent and arbitrary type and flag elements',
     'The combinations are many (old and new yWriter versions) and the sample project uses few of them.',
     [YW], [('type tables', YW + ':_read_scenes, _read_chapters, _build_element_tree'),
            ('inheriting the chapter type', YW + ':adjust_scene_types')],
     'Presence and text of each element are symbolic, oracle is the documented table.')

prop('P08', 'Any project file is read faithfully or rejected with a message',
     '''A project file in any encoding yWriter uses is read completely, with characters that are illegal in XML left out and
     all others kept, and reading it again, also after it has been changed, gives what a new reading gives. Optional parts may be missing, empty or odd. A file that is cut
     off or damaged is rejected with an error message, and no file is changed or created.''',
     ['inputs', 'fault_sequences'], 'any characters, encodings, truncation points and damaged bytes',
     'The tests read well-formed UTF-8 files only.',
     [YW, 'src/pywriter/converter/yw_cnv_ui.py'], [('decoding and cleaning', YW + ':read'),
                                                   ('error report', 'src/pywriter/converter/yw_cnv_ui.py')],
     'Symbolic characters in the file; truncation position and damaged byte are choices.')

prop('P09', 'Exported documents are well-formed and show texts unaltered',
     '''Every exported ODT or ODS document is a well-formed package whatever the project contains, and each project text it shows
     appears there with exactly its characters (apart from white space), without changing the structure or any other text of the
     document. This holds for document metadata, comments, cross references, missing and empty texts, odd language codes and any
     file name of the project.''',
     ['inputs', 'configurations'], 'each text attribute in each of the 17 documents, any characters',
     'The sample project has hardly any special characters; the product of documents and text attributes is too large for samples.',
     [EXP, 'src/pywriter/odt_w/odt_writer.py', 'src/pywriter/ods_w/ods_writer.py', 'src/pywriter/odf/odf_file.py'],
     [('conversion of texts to ODF XML', 'src/pywriter/odt_w/odt_writer.py:_convert_from_yw'),
      ('template substitution', EXP + ':_get_text'), ('metadata', 'src/pywriter/odf/odf_file.py:_set_up')],
     'Symbolic characters in each text attribute; the parsed document must equal the reference document with the text replaced.')

ODTR = 'src/pywriter/odt_r/'
prop('P10', 'Manuscript export and import keep texts and formatting',
     '''Exporting the editable manuscript and importing it again leaves each scene of the project with the same text and
     formatting (italic, bold, languages, quotations, lists, comments, empty lines) and changes nothing else in the project,
     however often it is repeated. Text edited or formatted in the word processor arrives in its scene as it is in the document, in any
     style and with any number of formatted passages.''',
     ['inputs', 'histories'], 'all texts, shapes of markup, formatting of paragraphs and spans, repeated round trips',
     'Formatting interacts with line breaks, special characters and neighbours; tests import a few fixed documents.',
     [ODTR + 'odt_r_formatted.py', ODTR + 'odt_r_manuscript.py', 'src/pywriter/odt_w/odt_w_formatted.py'],
     [('markup to ODF', 'src/pywriter/odt_w/odt_w_formatted.py:_get_text'), ('ODF to markup', ODTR + 'odt_parser.py, odt_r_manuscript.py')],
     'Symbolic characters at each text position of a grammar of markup shapes; documents edited with symbolic text and styles.')

prop('P11', 'Proofreading export and import keep texts and formatting',
     '''Exporting the tagged manuscript for proofreading and importing it again leaves each scene with the same text and formatting
     and changes nothing else in the project. Text between the scene marks goes into the marked scene, in any order of the marks, text
     elsewhere is ignored, and scenes without marks stay as they are.''',
     ['inputs', 'histories'], 'all texts, shapes of markup, edits between the marks, order and subset of marks',
     'Formatting interacts with line breaks, special characters and marks; tests import a few fixed documents.',
     [ODTR + 'odt_r_proof.py', 'src/pywriter/odt_w/odt_w_proof.py', 'src/pywriter/odt_w/odt_w_formatted.py'],
     [('export with marks', 'src/pywriter/odt_w/odt_w_proof.py'), ('import by marks', ODTR + 'odt_r_proof.py:handle_data')],
     'Symbolic characters at each text position of a grammar of markup shapes; mark sequences are choices.')

prop('P12', 'Description and notes documents are imported where they belong',
     '''Exporting and importing the documents with scene, chapter and part descriptions, character, location and item sheets, notes and todo scenes
     keeps all texts. A text edited in such a document replaces exactly the corresponding text of the project, in any order of
     the sections; sections left out or unknown change nothing.''',
     ['inputs', 'histories'], 'all texts, each attribute in each document, sections removed, swapped and added',
     'The readers keep a state over paragraphs, sections and headings, which the few sample documents hardly vary.',
     [ODTR + 'odt_r_scenedesc.py', ODTR + 'odt_r_characters.py', ODTR + 'odt_parser.py'],
     [('sections and paragraphs', ODTR + 'odt_parser.py'), ('collecting texts', ODTR + 'odt_r_chapterdesc.py, odt_r_locations.py, odt_r_items.py, '
                                                           'odt_r_notes.py, odt_r_todo.py')],
     'Symbolic characters in each text; section order and membership are choices.')

prop('P13', 'Spreadsheet lists are imported where they belong',
     '''Exporting and importing the character, location, item and scene lists leaves the project unchanged. A cell edited in the
     spreadsheet (text, tags, importance, action/reaction, status, rating) replaces exactly the corresponding value, however the
     spreadsheet program stores blanks, repeated, merged or empty cells and groups of rows. The rows determine the order and membership of
     characters, locations and items, and a table with missing columns is refused without any change.''',
     ['inputs', 'histories'], 'all texts in each column, all values, permutations of rows, layouts of the table',
     'Tests import one table per list as the library writes it; spreadsheet programs compress tables depending on the contents.',
     ['src/pywriter/ods_r/ods_parser.py', 'src/pywriter/ods_r/ods_reader.py', 'src/pywriter/ods_r/ods_r_scenelist.py', 'src/pywriter/ods_w/ods_writer.py'],
     [('table to rows', 'src/pywriter/ods_r/ods_parser.py:get_rows'),
      ('rows to elements', 'src/pywriter/ods_r/ods_r_charlist.py, ods_r_loclist.py, ods_r_itemlist.py, ods_r_scenelist.py'),
      ('elements to rows', EXP + ':_get_sceneMapping, _get_characterMapping')],
     'Symbolic characters in each cell, equality of neighbours is decided by the solver, rows are choices.')

prop('P14', 'Exports contain exactly what is meant for the document',
     '''Exported manuscripts, proofs, synopses, description documents and scene lists contain exactly the normal chapters, parts and scenes
     that are marked for export and are not raw HTML or TeX, in the order of the project and each as often as it is there; the documents for
     notes and todo chapters contain exactly those. Parts and chapters have headings of their level and empty headings where the title is
     suppressed, and scenes are divided unless they are appended to the previous one.''',
     ['inputs', 'configurations'], 'types and levels of chapters, types, marks and beginnings of scenes, their order and distribution',
     'The rules interact per chapter and scene; the sample project shows few of the combinations.',
     [EXP, 'src/pywriter/odt_w/odt_w_export.py', 'src/pywriter/odt_w/odt_w_manuscript.py', 'src/pywriter/ods_w/ods_w_scenelist.py'],
     [('selection and order', EXP + ':_get_chapters, _get_scenes'), ('templates', 'src/pywriter/odt_w/*.py, src/pywriter/ods_w/ods_w_scenelist.py'),
      ('inherited scene types', YW + ':adjust_scene_types')],
     'Types, levels and marks are symbolic; the parsed document must equal the list derived from the description of the document types.')

prop('P15', 'Counts, numbers and template placeholders are right',
     '''Words and letters of a scene are counted like in the word processor: white space and dashes divide words, hyphens join them, and markup and
     comments do not count; project files never state outdated counts. Exported scenes and chapters are numbered without gaps and the totals
     accumulate over exported scenes only. Every placeholder of an export template is replaced by the value of its element (text, date, time,
     duration, status, relations) and by nothing else.''',
     ['inputs'], 'all texts next to markup, all combinations of scene types and marks, all values at each placeholder',
     'Counting depends on each character and its neighbours; numbering on the sequence of scenes.',
     ['src/pywriter/model/scene.py', EXP],
     [('counting', 'src/pywriter/model/scene.py:sceneContent'), ('numbering and placeholders', EXP + ':_get_chapters, _get_scenes, _get_sceneMapping')],
     'Symbolic characters; an independent counter and the expected text of a document built from templates with all placeholders.')

prop('P16', 'Dividers in imported texts split scenes without losing text',
     '''When an imported manuscript, proof, notes or todo document contains headings or scene dividers within scenes, new parts, chapters and scenes
     are created at these places, in the order of the document and with the titles and descriptions given there. Every line of text stays in
     exactly one scene, in order; no other chapter or scene changes, new identifiers are unused, new scenes inherit type, status, date and
     duration, the notes on the split scene are marked, and the user is told exactly when the structure has changed.''',
     ['inputs', 'configurations'], 'sequences of text lines and dividers of every kind, all titles and texts',
     'Splitting depends on the sequence of lines of several scenes; tests split one document.',
     ['src/pywriter/model/splitter.py', 'src/pywriter/model/id_generator.py', ODTR + 'odt_r_formatted.py'],
     [('splitting', 'src/pywriter/model/splitter.py:split_scenes'), ('headings to dividers', ODTR + 'odt_r_manuscript.py, odt_r_proof.py:handle_starttag'),
      ('report', 'src/pywriter/converter/yw_cnv_ui.py:import_to_yw')],
     'Kinds of lines are choices, characters symbolic; compared with an independent model of the outline.')

prop('P17', 'New projects take over the whole document',
     '''A project created from a work in progress has the parts, chapters and scenes given by the headings and dividers of the document, in
     order, and each paragraph after the first heading (plain, formatted, quotation, list item, subheading) is in its scene; a manuscript
     exported before yields the same chapters and texts. A project created from an outline has the chapters and scenes of the headings with
     the texts between them as descriptions. Title, author, description and language of the document become those of the project.''',
     ['inputs', 'configurations'], 'sequences of blocks of every kind, all texts, shapes of formatted texts, all metadata',
     'The readers keep a state over blocks; the tests import one document of each kind.',
     [ODTR + 'odt_r_import.py', ODTR + 'odt_r_outline.py', ODTR + 'odt_parser.py', 'src/pywriter/converter/new_project_factory.py'],
     [('work in progress', ODTR + 'odt_r_import.py:handle_starttag, handle_data, handle_endtag'), ('outline', ODTR + 'odt_r_outline.py:handle_endtag'),
      ('metadata', ODTR + 'odt_parser.py:feed_file')],
     'Kinds of blocks are choices, characters symbolic; compared with an independent model of the structure.')

CNV = 'src/pywriter/converter/'
prop('P18', 'The right conversion is chosen and the right file written',
     '''Exporting a project writes exactly one file, named like the project plus suffix and extension of the requested document type, in the directory of
     the project. A document is written back to the project it is named after in its own directory, whatever else directory and file names contain, and to
     no other file. Cross references and synopses are never imported, and missing files, unknown types and names, and conversions the chosen
     converter does not support are reported without changing any file.''',
     ['inputs', 'configurations'], 'all directory and file names, extensions and requested types up to the length of the longest suffix',
     'The tests use one directory and one file name.',
     [CNV + 'yw_cnv_ff.py', CNV + 'import_target_factory.py', CNV + 'export_target_factory.py', CNV + 'new_project_factory.py'],
     [('dispatch', CNV + 'yw_cnv_ff.py:run'), ('target path', CNV + 'import_target_factory.py, export_target_factory.py:make_file_objects'),
      ('file names', 'src/pywriter/file/file.py:filePath'), ('converters', CNV + 'yw7_converter.py, yw7_exporter.py, yw7_importer.py')],
     'Names are strings of symbolic characters; file system look-ups compare them symbolically.')

prop('P19', 'Nothing is overwritten unasked and results are reported truthfully',
     '''An existing document or project is overwritten only after the user has confirmed exactly this file, and a new project never overwrites anything; after a
     refusal no file has changed. Each conversion gives exactly one result message that names the written file if and only if it has been written, failures are
     marked as such, and the path of the new file is known after a success only, also if one converter is used repeatedly. Console and silent
     user interface pass on questions, answers and messages unchanged.''',
     ['inputs', 'histories', 'configurations'], 'all conversions, target present or not, all answers and messages, sequences of conversions',
     'Tests always confirm and never look at the messages of failures.',
     [CNV + 'yw_cnv_ui.py', CNV + 'yw_cnv_ff.py', 'src/pywriter/ui/ui_cmd.py', 'src/pywriter/ui/ui.py'],
     [('confirmation', CNV + 'yw_cnv_ui.py:check, _confirm_overwrite'), ('report', CNV + 'yw_cnv_ui.py:export_from_yw, import_to_yw, create_yw7'),
      ('console', 'src/pywriter/ui/ui_cmd.py')],
     'Presence of the target, answer and texts are symbolic.')

prop('P20', 'A failed export or import damages no file',
     '''If any file operation of an export, an import or the creation of a project fails or the process is stopped there, the project and the source document are
     intact, and a previous document is in its place or (after a stop) at least in its backup copy. Failures are reported, leave no incomplete
     document and no stray file in the project directory, and the operation succeeds when it is repeated. A successful export is a complete package and leaves
     no temporary files behind.''',
     ['crash_points', 'fault_sequences'], 'every file operation failing or being the last one; a failure followed by a second attempt',
     'Tests run on a disk that never fails; each fault position is a different execution.',
     ['src/pywriter/odf/odf_file.py', CNV + 'yw_cnv_ui.py', YW],
     [('packing, backup, restore', 'src/pywriter/odf/odf_file.py:write, _set_up, _tear_down'), ('report', CNV + 'yw_cnv_ui.py')],
     'Fault position is a symbolic integer over all I/O operations of the conversion.')

prop('P21', 'Exported manuscripts show formatting, comments and notes of the scenes',
     '''In the exported manuscript documents every character of a scene appears once with exactly its italic, bold, language and quotation format, comments become
     annotations by the project's author, and footnotes and endnotes appear where they were written, with the right class and a document-wide numbering. Highlighting,
     alignment, strike-through and underline tags and inline raw code of the plain export disappear without their surroundings, and brackets that are no markup stay.
     Titles are no markup: they are shown as they are, even if they look like markup or like placeholders.''',
     ['inputs'], 'all texts of the listed shapes, sequences of notes and comments, dropped markup and languages',
     'Interplay of nested regular expressions and replacements on arbitrary neighbouring text.',
     ['src/pywriter/odt_w/odt_w_export.py', 'src/pywriter/odt_w/odt_w_formatted.py', 'src/pywriter/odt_w/odt_w_proof.py', 'src/pywriter/odt_w/odt_w_manuscript.py'],
     [('formatting', 'src/pywriter/odt_w/odt_w_formatted.py:_convert_from_yw, _get_text, _get_fileHeaderMapping'), ('notes', 'src/pywriter/odt_w/odt_w_export.py:_convert_comments'),
      ('raw code', 'src/pywriter/file/file_export.py:_remove_inline_code')],
     'Characters symbolic; the XML is read by an independent reader and compared character by character.')

prop('P22', 'Cross references and links lead where they say',
     '''The cross reference document lists for each character, location, item and tag exactly the scenes that have it, in the order of the story with number, chapter,
     title and type, and the elements by tag; elements without a scene are not listed. Every link of an exported document (cross references, descriptions, scene list) names
     an existing document of the same project and a section this document contains, whatever the project file is called. Titles, tags and names are shown as they are.''',
     ['inputs', 'configurations'], 'all relations between scenes, elements and tags; all scene and chapter types; all file names',
     'The tests have one project; a wrong target shows only if somebody follows the link, and depends on relations, types and names.',
     ['src/pywriter/odt_w/odt_w_xref.py', 'src/pywriter/model/cross_references.py', 'src/pywriter/file/file.py'],
     [('relations', 'src/pywriter/model/cross_references.py:generate_xref'), ('lines and links', 'src/pywriter/odt_w/odt_w_xref.py'), ('project name in links', 'src/pywriter/file/file.py:filePath'),
      ('link formulas', 'src/pywriter/ods_w/ods_w_scenelist.py:_get_sceneMapping')],
     'Relations, types and orders are symbolic choices, names symbolic characters; the link targets are looked up in the exported documents.')

prop('P23', 'Configurations come back as they were saved',
     '''Settings (single-line texts) and options (on/off) that are saved to an INI file are the same when they are read again, whatever the values and names, and saving does
     not change them. What a file does not contain, or what cannot be read as an option, keeps its value, the other entries are still read, and unknown entries are ignored.
     Configurations share nothing with the defaults they were created from.''',
     ['inputs', 'histories'], 'all values up to the length bound, all option words, all partial files',
     'There is no test of it; percent signs and unusual words break a configuration long after it was saved.',
     ['src/pywriter/config/configuration.py'],
     [('saving, reading', 'src/pywriter/config/configuration.py:read, write'), ('defaults', 'src/pywriter/config/configuration.py:set')],
     'The parser of the standard library is executed symbolically together with the module.')

prop('P24', 'The language of projects, documents and passages is kept',
     '''Exported documents have the language of the project (the system's one if none is set, none if it is implausible), imported documents hand theirs to the project.
     Languages assigned to passages become marks and come back, and saving defines the project variables of the locale and of every marked language exactly once, however often
     it happens, without touching other variables. The languages reported for a project are exactly those that occur as marks.''',
     ['inputs', 'histories'], 'all codes up to the length bound, all document types, variables of the user with any IDs, repeated conversions',
     'The tests know one language; duplicates and lost variables show after several conversions only.',
     [YW, 'src/pywriter/model/novel.py', 'src/pywriter/odf/odf_file.py', 'src/pywriter/odt_r/odt_parser.py'],
     [('plausibility, marks', 'src/pywriter/model/novel.py:check_locale, get_languages'), ('project variables', YW + ':_build_element_tree, _read_projectvars'),
      ('styles', 'src/pywriter/odf/odf_file.py:_set_up, src/pywriter/odt_w/odt_w_formatted.py'), ('import', 'src/pywriter/odt_r/odt_parser.py, odt_reader.py')],
     'Codes and passages symbolic; documents and project files are read by independent readers.')

prop('P25', 'Opening a document starts the right application with exactly this file',
     '''Opening a document starts the application the system associates with it, by the first mechanism that exists, with exactly the path of the document as its argument; no
     character of the path is interpreted by a shell or anything else. Normalised paths name the same file, normalising twice changes nothing, and a missing path does not fail.''',
     ['inputs', 'configurations'], 'all file names up to the length bound, systems with each of the mechanisms or none',
     'The tests cannot start applications; quotation marks or dollar signs in a file name are needed to see a difference.',
     ['src/pywriter/file/doc_open.py', 'src/pywriter/pywriter_globals.py'],
     [('start', 'src/pywriter/file/doc_open.py:open_document'), ('paths', 'src/pywriter/pywriter_globals.py:norm_path')],
     'All functions that start programs are replaced by stand-ins that record the arguments, a shell command line being split by an independent reader.')

prop('P26', 'The yWriter data files contain exactly the elements of the project',
     '''Writing the data files of a project creates exactly three XML files named after it, with all characters, locations and items in their order and all of their texts, tags,
     importance and custom fields, whatever characters the texts contain. They have one XML header and the sections yWriter expects. The project file and other files are not touched, and a
     failing file operation is reported.''',
     ['inputs', 'crash_points'], 'all texts and orders within the bounds, every file operation failing',
     'There is no test of it.',
     ['src/pywriter/yw/data_files.py', YW],
     [('files', 'src/pywriter/yw/data_files.py:_write_element_tree'), ('post-processing', 'src/pywriter/yw/data_files.py:_postprocess_xml_file')],
     'Texts symbolic; the files are read by an independent reader; the fault position is a symbolic integer.')

prop('P27', 'Purging removes exactly the added data and says whether any was lost',
     '''Resetting the custom variables empties all custom fields an application defines for project, chapters, scenes, characters, locations, items and notes and nothing else, and they
     have disappeared from the project file when it is saved, while fields of others stay. Removing language tags takes exactly the language marks out of the scene contents, and the counts
     follow. Both tell truthfully whether anything was changed, and a second run changes nothing.''',
     ['inputs', 'histories'], 'all combinations of set, empty and missing fields; all texts of the listed shapes',
     'There is no test of it.',
     ['src/pywriter/yw/yw7_purge.py', YW],
     [('fields', 'src/pywriter/yw/yw7_purge.py:reset_custom_variables'), ('marks', 'src/pywriter/yw/yw7_purge.py:remove_language_tags'), ('saving', YW + ':write, _build_element_tree')],
     'Values and text pieces symbolic; the project file is searched after saving.')

prop('P28', 'Tag lists keep their elements, and new elements get unused IDs',
     '''A text with a divider becomes the list of its elements without surrounding white space, empty elements and repetitions, in their order, and none gets lost; a list of tags
     that has been joined comes back unchanged. A new ID is the smallest positive number that is not in use, so that new chapters and scenes, also those created by dividers in imported
     texts, never replace existing ones.''',
     ['inputs'], 'all texts, lists and sets of IDs within the bounds',
     'Tags and relations of all elements pass through these functions; the tests have a few clean lists and gapless IDs.',
     ['src/pywriter/pywriter_globals.py', 'src/pywriter/model/id_generator.py', 'src/pywriter/model/splitter.py'],
     [('lists', 'src/pywriter/pywriter_globals.py:string_to_list, list_to_string'), ('IDs', 'src/pywriter/model/id_generator.py:create_id'), ('use', 'src/pywriter/model/splitter.py:split_scenes')],
     'Characters symbolic, against definitions written out independently.')

prop('P29', 'Conversions do not influence each other and leave the project in memory alone',
     '''A conversion has the same result whatever other projects have been converted before, with the same converter or another one. Exporting and saving change nothing of the
     project in memory (a missing list of languages or locale may be completed), and the same file object writes the same document again.''',
     ['inputs', 'histories'], 'all sequences of three conversions of the listed kinds, all 17 documents and 14 imports, symbolic texts',
     'Every test converts one project with a fresh object; state that survives a conversion (shared lists, counters, dictionaries of classes) shows in the next one only.',
     [EXP, 'src/pywriter/converter/yw_cnv_ff.py', 'src/pywriter/odf/odf_file.py', 'src/pywriter/model/novel.py'],
     [('export', EXP + ':write, _get_text'), ('converter', 'src/pywriter/converter/yw_cnv_ff.py:run'), ('saving', YW + ':write, _build_element_tree')],
     'The second project has a symbolic text; all members of the documents and all attributes in memory are compared.')

prop('P30', 'Exports defined by an application: filters, templates and safe files',
     '''A template-based export defined by an application shows exactly the chapters, scenes, characters, locations and items its filters accept, in order, a chapter that is left out taking its
     scenes with it; what is not shown is neither numbered nor counted. Each kind of element uses the template given for it, with the special ones for first and appended scenes, dividers and chapter
     ends where they apply. An existing file is kept as a backup; if writing fails, the former file is in its place and no incomplete file is left.''',
     ['inputs', 'crash_points'], 'all subsets of accepted elements, all combinations of present templates, types and marks, every file operation failing',
     'The base class of all exports is tested through a few fixed documents without any filter.',
     [EXP, 'src/pywriter/file/filter.py'],
     [('templates', EXP + ':_get_chapters, _get_scenes'), ('elements', EXP + ':_get_characters, _get_locations, _get_items'), ('file', EXP + ':write')],
     'Subsets, template presence, types and the fault position are symbolic choices; an independent description yields the text.')

prop('P31', 'The translation tools keep every message and translation',
     '''The message template lists each translatable message of all scanned sources exactly once, with its quotes escaped. Updating a translation file lists each message of the template exactly
     once, with its translation from the former file, otherwise the one of the dictionary, otherwise as missing, which is reported; the dictionary keeps what it had and takes over the translations
     of the former file. A failed or interrupted update leaves the former files in place or in their backups.''',
     ['inputs', 'crash_points', 'histories'], 'all texts of messages and translations, all combinations of where they are known, every file operation failing',
     'There is no test for these tools.',
     ['src/pgettext.py', 'src/translations.py'],
     [('template', 'src/pgettext.py:get_messages, scan_dir, write_pot, main'), ('translations', 'src/translations.py:read_pot, read_po, write_po'),
      ('dictionary', 'src/translations.py:read_json, write_json')],
     'Messages and translations symbolic; an independent reader of the written files.')

prop('P32', 'A script built by the inliner has all the code',
     '''The script built for an application consists of all code lines of the application and of every module of the package that it imports directly or indirectly, in any import graph, each module
     exactly once and before the code that follows its first import. Only comment lines, docstrings of modules and parts behind a stop mark or main section of a module are left out; other modules are
     imported once. If requested, exactly the used modules are copied to the application.''',
     ['inputs', 'configurations'], 'all import graphs of three modules, lines of code, comments and docstrings with symbolic texts',
     'There is no test for this tool.',
     ['src/inliner.py'],
     [('inlining', 'src/inliner.py:inline_module, run')],
     'Import graph and kinds of lines are symbolic choices, texts symbolic; an independent expansion yields the script.')

prop('P33', 'Saved project files have the structure of a yWriter 7 project',
     '''Every project file the library writes (a new project, an edited one, one a document was imported into, one made from a document, a purged one) has the header and the sections of a yWriter 7
     project, each once; each element has an identifier that is unique among its kind, and each of its data and fields at most once, under yWriter's names, those of chapters in yWriter's order. Every
     scene is listed by exactly one chapter, and what chapters and scenes refer to exists. Texts that yWriter keeps as CDATA are written so, an empty chapter list is not an empty-element tag, and the
     counts, sort orders and stamps yWriter has to renew are left out.''',
     ['inputs', 'histories'], 'every sequence of edits, imports and conversions of a consistent project, every text',
     'The tests compare a few files with reference files; reading by the library itself tolerates structures that yWriter does not.',
     [YW, 'docs/yw7.dtd', 'src/pywriter/yw/yw7_purge.py'],
     [('building the tree', YW + ':_build_element_tree'), ('CDATA and header', YW + ':_postprocess_xml_file')],
     'Attribute states, numbers of elements, edits and document blocks are symbolic choices, texts symbolic; an independent description of the structure is asserted for the file.')

prop('P34', 'The windows show what happened and which project is open',
     '''After each action the status line or box shows exactly its last message, a failure marked as error without its mark, a success as success, until the next one or until it is
     dismissed. The main window opens a project completely or not at all: an existing, readable, unlocked project is opened (after closing the former one) and remembered, its title and author are in
     the window title and the menu for projects is active; otherwise a message tells why, and nothing is open. Closing empties the window, and quitting stores its geometry.''',
     ['inputs', 'histories'], 'all sequences of opening, closing and messages, every message, title and author',
     'There is no test for the user interface.',
     ['src/pywriter/ui/main_tk.py', 'src/pywriter/ui/ui_tk.py', 'src/pywriter/ui/ui_mb.py', YW],
     [('main window', 'src/pywriter/ui/main_tk.py:open_project, close_project, set_info_how'), ('converter windows', 'src/pywriter/ui/ui_tk.py:set_info_how; src/pywriter/ui/ui_mb.py')],
     'tkinter replaced by recording stand-ins; actions and answers are symbolic choices, texts symbolic.')

prop('P35', 'Translations reach the user and change only messages and generated names',
     '''Compiling a translation file gives a dictionary with exactly its translated messages: each finished entry with its own translation, context and plural forms; unfinished (empty or fuzzy) ones
     are left out, and compiling another file does not mix them. The program shows each message in the language of the user's system if there is a dictionary for it, otherwise the original. In any
     language the library accepts, refuses and writes the same files with the same contents, but for the translated texts themselves.''',
     ['inputs', 'configurations'], 'all texts of messages and translations, all layouts of translation files, all languages, every export and import',
     'The tests run with the original messages only, and there is no test for the compiler.',
     ['src/msgfmt.py', 'src/pywriter/pywriter_globals.py', 'src/pywriter/converter', 'src/pywriter/odt_w', 'src/pywriter/ods_w'],
     [('compiling translations', 'src/msgfmt.py:make, add, generate'), ('choice of the language', 'src/pywriter/pywriter_globals.py:_'),
      ('messages', 'src/pywriter: all uses of _()')],
     'Texts symbolic; an independent reader and writer of compiled dictionaries; two runs of the freshly started program, with and without translations, are compared.')

prop('P36', 'Documents that cannot be read are rejected without a trace',
     '''Importing a document, or making a project from it, takes over the complete document or nothing: a document that is cut off or damaged anywhere, that lacks a part, or that is something else under
     the name of a document, is rejected with exactly one error message. The same goes for an import into a project that is missing, damaged or declined by the user. After a rejection no file (project,
     document, backup or other) has been created, removed or changed, and no new file or warning is reported.''',
     ['inputs', 'fault_sequences'], 'every kind of importable document, every place and kind of damage, every state of the project',
     'Damage can be anywhere in the archive or its parts, the tests import intact documents only.',
     [ODTR + 'odt_parser.py', 'src/pywriter/ods_r/ods_parser.py', CNV + 'new_project_factory.py', CNV + 'yw_cnv_ui.py', YW],
     [('reading documents', ODTR + 'odt_parser.py:feed_file; src/pywriter/ods_r/ods_parser.py:get_rows'), ('projects from documents', CNV + 'new_project_factory.py:make_file_objects'),
      ('reporting', CNV + 'yw_cnv_ui.py:import_to_yw, create_yw7')],
     'Kind and place of the damage are symbolic choices, an edited text symbolic; all files before and after are compared, a tolerated damage must give the project of the intact document.')
