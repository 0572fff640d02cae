PROPS = []
NOT_APPLICABLE = []
NOTES = ('Every check is "python3-vt run.py <id> quick|thorough"; "--replay FILE" runs one saved case against the code without the generator. '
         'Known findings: known_findings.jsonl (committed); fixed defects are recorded there too.')

Y = 'src/pywriter/yw/yw7_file.py'


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level='exploration', state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe, hook_needed=None),
        technique=technique, level=level, level_note=note))


P('P01', 'A project saved to a new file reads back as the same project',
  'Whatever novel is built in memory (project data, chapters, scenes, characters, locations, items, project notes, with every attribute set or unset), '
  'writing it to a new yWriter 7 project file and reading that file gives back the same elements in the same order with the same attribute values. '
  'This holds for any text made of XML characters, including ampersands, angle brackets, vertical bars, CDATA delimiters and markup look-alikes, '
  'and once the project read back has been saved, reading and saving it again does not change the file any more.',
  ['inputs'], 'All novels within the representable domain: XML text without carriage returns, unset and empty being the same, ISO dates, hh:mm:ss times.',
  'The tests compare three fixed sample projects; they never vary the texts or the combination of set and unset attributes.',
  [Y, 'src/pywriter/model/scene.py', 'src/pywriter/model/chapter.py', 'src/pywriter/model/novel.py'],
  [('read', Y), ('write', Y)], ['Yw7File.write()', 'Yw7File.read()', 'the .yw7 file'],
  'property-based testing: generated novels, round-trip oracle',
  'Random search over generated projects; shows absence of round-trip errors only for the cases explored.')

P('P02', 'The saved file encodes the project the way yWriter does',
  'A saved project is a well-formed UTF-8 XML document that starts with an XML declaration and from which an independent decoder, following the yWriter 7 element '
  'vocabulary and its tables for chapter and scene types, export flags, dates, times, durations, tags and story-world references, recovers exactly the values that were in memory. '
  'Fields for titles, descriptions, contents, notes, goals, outcomes, tags and biographies are CDATA sections, and computed or obsolete elements (word and letter counts, RTF file names, sort order) are not left behind, nor are elements that exclude each other (a date and a day) or occur twice, also when the elements of an existing file are updated.',
  ['inputs'], 'All novels within the representable domain, written to a new file or over an existing one.',
  'The tests compare with files written by the same code; a reader and a writer that are wrong together pass.',
  [Y, 'src/pywriter/yw/xml_indent.py', 'docs/yw7.dtd'], [('write', Y)], ['the .yw7 file'],
  'property-based testing: generated novels, independent decoder as oracle',
  'The decoder is written from the yWriter tables in the documentation and from sample files, not from the library\'s reader.')

P('P03', 'Chapter and scene types are decoded by the yWriter tables',
  'For every combination of the elements that yWriter uses to mark chapters and scenes as normal, notes, todo or unused, reading the project yields the type yWriter would show, '
  'for files of both old and new yWriter versions. Scenes inside a chapter that is not normal take over the type of that chapter, and part/chapter level, trash bin, title and break suppression flags '
  'and the export condition are decoded likewise.',
  ['inputs'], 'All combinations of presence and value of the type-marking elements of a chapter and of its scenes.',
  'The sample projects contain a handful of the combinations.',
  [Y, 'src/pywriter/model/chapter.py', 'src/pywriter/model/scene.py'], [('type tables', Y), ('adjust_scene_types', Y)], ['Novel.chapters', 'Novel.scenes'],
  'property-based testing: generated flag combinations against a decision table',
  'The combinations are generated independently per element, so that all table rows occur in each run (counted by labels).')

P('P04', 'Reading a project file yields exactly what the file says',
  'For any valid yWriter 7 project file, every modelled attribute of project, chapters, scenes, characters, locations, items and project notes is read as stored, absent elements stay unset, '
  'and element and scene order follow the file. This does not depend on the encoding (UTF-8 with or without byte order mark, UTF-16 with a wrong header), on CDATA versus escaped text, on unknown elements, '
  'or on control characters (which are dropped, and nothing else is); unusable numbers, dates and references to missing elements are dropped without affecting the rest.',
  ['inputs'], 'All project files generated from the yWriter 7 vocabulary, in all encodings, with optional elements present, empty or absent.',
  'Tests read only files the library wrote itself, all in one encoding.',
  [Y], [('read', Y)], ['Novel after Yw7File.read()'],
  'property-based testing: generated project files from an independent serializer, model as oracle',
  'Project files are serialized by the harness, not by the library.')

P('P05', 'Opening and saving keeps what the library does not model',
  'Reading an existing project and writing it back preserves, for the project and for each scene and chapter, every element the library does not know or interpret, with its text, and all modelled values; what it does not know also survives changes of modelled values between saves. '
  'Writing it a second time changes nothing: the second and third save are byte-identical, and the backup equals the previous version.',
  ['inputs', 'histories'], 'All project files with arbitrary additional elements and project variables, saved repeatedly.',
  'Tests contain only elements the author\'s yWriter version wrote, and save once.',
  [Y], [('element tree reuse', Y)], ['the .yw7 file', 'the .bak file'],
  'property-based testing: metamorphic (idempotence) and independent tree comparison',
  'Elements the library documents as removed (counts, RTF names, sort order, save stamps) are excluded from the comparison.')

P('P06', 'A history of edits and saves keeps file and model in step',
  'For any sequence of opening, changing attributes, adding, removing and reordering chapters, scenes, story-world elements and notes, saving, and reopening, '
  'the project read from disk equals a reference model to which the same edits were applied. '
  'Clearing a field, a date, a flag or an assignment really clears it in the file, and no edit changes an element it does not concern.',
  ['histories'], 'All sequences of edit, save and reopen operations.',
  'Tests perform one read-modify-write per file; incremental changes of an existing element tree are not reached.',
  [Y, 'src/pywriter/model/scene.py'], [('element tree update', Y)], ['the .yw7 file'],
  'stateful property-based testing against a reference model',
  'Operation sequences of bounded length on small projects.')

P('P07', 'A project that yWriter has open is neither read nor written',
  'While a lock file for the project exists, however old and whatever it contains, reading or writing the project reports an error, conversions into and out of it report failure, and no file is created, changed or deleted. '
  'Without a lock file the operations succeed, whatever other files lie in the directory.',
  ['inputs', 'configurations'], 'All file names, conversions and sets of neighbouring files.',
  'No test creates a lock file.',
  [Y, 'src/pywriter/yw/data_files.py'], [('is_locked', Y)], ['directory contents', 'converter messages'],
  'property-based testing: generated directories, snapshot oracle',
  'Locking is by file existence only; a lock appearing in the middle of an operation is outside the property.')

P('P08', 'A failed or killed save never loses the saved project',
  'If saving over an existing project fails at any file operation or during a write, or the process dies at any such point, the previous version is still complete, either in place or as the backup next to it, '
  'and a failure that the program survives is reported as an error. After a successful save the backup holds the version before.',
  ['crash_points', 'fault_sequences'], 'All failure points of the save: each file operation, each write volume at which the medium is full, each point of process death, for random projects.',
  'Tests never let a file operation fail.',
  [Y], [('backup by rename', Y)], ['.yw7', '.yw7.bak', 'raised exceptions'],
  'fault injection at every file operation and at generated write limits, over generated projects',
  'Faults are injected through audit events and resource limits of the process; loss by power failure below the file system is not covered.', level='fault_enumeration')

P('P09', 'A failed document export restores the previous document',
  'If exporting a document over an existing one fails at any file operation or because the medium is full, the failure is reported as an error, the previous document is back in place unchanged, '
  'the project is untouched, and neither the working directory of the process nor the temporary directory is left changed. A successful export keeps the document it replaces as the backup, and a later export with the same objects works.',
  ['fault_sequences'], 'All failure points of an export: each file operation, each write volume at which the medium is full, for random projects and document types.',
  'Tests never let a file operation fail.',
  ['src/pywriter/odf/odf_file.py', 'src/pywriter/file/file_export.py'], [('backup, temporary directory', 'src/pywriter/odf/odf_file.py')],
  ['document file', 'directory contents', 'os.getcwd()'],
  'fault injection at every file operation and at generated write limits',
  'Faults are injected through audit events and resource limits of the process.', level='fault_enumeration')

P('P10', 'Unusable input is reported and leaves the project alone',
  'Whatever bytes a source file contains (damaged or truncated archives and XML, wrong content, missing parts), a conversion ends with an error or success message instead of an exception, '
  'and if it fails, the project file, its backup and all other files keep their content and no new file appears. '
  'A conversion that fails announces no new file. Reading a project file that is not well-formed raises the error of the library and no other exception.',
  ['inputs'], 'All source file contents and all source types: mutated valid files, truncations, random bytes.',
  'Tests use valid files only.',
  ['src/pywriter/converter/yw_cnv_ui.py', 'src/pywriter/converter/yw_cnv_ff.py', 'src/pywriter/odt_r/odt_parser.py', 'src/pywriter/ods_r/ods_parser.py', Y],
  [('error handling', 'src/pywriter/converter/yw_cnv_ui.py')], ['converter.ui messages', 'directory contents'],
  'mutation fuzzing of valid source files, snapshot oracle', 'Random and structured mutations of archives and XML; not coverage-guided.')

P('P11', 'Source and target are found from the file name and suffix',
  'For any directory and project name, exporting with a document suffix creates exactly one file named project name, suffix, extension in the project\'s directory, '
  'and importing a document with a known suffix updates exactly the project of that name in the document\'s directory; a document without a known suffix becomes a new project of the same name. '
  'The information shown names both files and the kind of the document. Unsupported suffixes or extensions and missing files are reported and create nothing.',
  ['inputs', 'configurations'], 'All path names (blanks, dots, non-ASCII, suffix-like parts in the name or in the directory) and all document types.',
  'Tests use one project name.',
  ['src/pywriter/converter/import_target_factory.py', 'src/pywriter/converter/export_target_factory.py', 'src/pywriter/converter/import_source_factory.py',
   'src/pywriter/converter/new_project_factory.py', 'src/pywriter/file/file.py'],
  [('factories', 'src/pywriter/converter')], ['directory contents', 'converter.newFile'],
  'property-based testing: generated names, directory snapshot oracle', 'Names without path separators and control characters.')

P('P12', 'Nothing is overwritten without consent',
  'A conversion whose target exists asks before overwriting it; if the user declines, or the target is a new project whose file already exists, the conversion is reported as failed and every file keeps its content. '
  'If the user agrees, only the target and its backup change.',
  ['inputs', 'configurations'], 'All conversions, answers, and existing target contents.',
  'Tests run with the silent interface that always agrees.',
  ['src/pywriter/converter/yw_cnv_ui.py'], [('check, create_yw7', 'src/pywriter/converter/yw_cnv_ui.py')], ['directory contents', 'converter.ui'],
  'property-based testing: generated conversions and answers, snapshot oracle', 'The user interface is a recording stand-in.')

P('P13', 'Exporting changes nothing but the exported document',
  'Exporting any document type leaves the project file byte-identical and the novel in memory unchanged, so that several exports of one novel in any order give the same documents as separate exports from fresh copies. '
  'After the novel was edited in memory, the next document shows the edited novel. Exporting the same project twice gives documents with identical content and styles.',
  ['inputs', 'histories'], 'All projects and all sequences of document types.',
  'Tests export each document once, from a freshly read file.',
  ['src/pywriter/file/file_export.py', 'src/pywriter/odt_w', 'src/pywriter/ods_w'], [('write', 'src/pywriter/file/file_export.py')], ['exported files', 'Novel'],
  'property-based testing: metamorphic (order of exports), snapshot oracle', 'The time stamp in the metadata is excluded.')

P('P14', 'Exported documents are valid and carry the project\'s metadata',
  'For any project, every exported document is an intact OpenDocument archive: an uncompressed media type entry first, a manifest naming every part, and well-formed XML parts. '
  'Whatever characters titles, names, descriptions, fields and contents contain, the document metadata give title, author and summary of the project unaltered.',
  ['inputs'], 'All projects, including stray and unbalanced markup in texts, and all document types.',
  'Tests compare the content part of sample documents and never parse the archive.',
  ['src/pywriter/odf/odf_file.py', 'src/pywriter/odt_w/odt_writer.py', 'src/pywriter/ods_w/ods_writer.py', 'src/pywriter/odt_w/odt_w_formatted.py'],
  [('write', 'src/pywriter/odf/odf_file.py')], ['the .odt/.ods archive'],
  'property-based testing: generated projects, validity predicate on the archive', 'Well-formedness and structure, not full schema validation.')

P('P15', 'Documents contain exactly the right chapters and scenes, in order',
  'Each exported document contains exactly the parts, chapters and scenes its type is defined for (normal, notes, todo; excluding unused ones, those excluded from export, and raw HTML/TeX scenes), in project order, '
  'with headings at the right level, scene dividers exactly where a scene does not start a chapter and is not appended to the previous one.',
  ['inputs'], 'All structures: chapter levels and types, scene types, export flags, appended scenes, empty chapters, suppressed titles.',
  'The sample project has few of the combinations.',
  ['src/pywriter/file/file_export.py', 'src/pywriter/file/filter.py', 'src/pywriter/odt_w'], [('scene and chapter selection', 'src/pywriter/file/file_export.py')], ['content.xml'],
  'property-based testing: reference selection model', 'The documents are read by an independent ODF reader.')

P('P16', 'Manuscript text is exported completely and correctly formatted',
  'For any scene text in yWriter markup, the exported document shows the same characters in the same order and paragraphs, with exactly the marked passages in italics or bold, tagged passages in their language, '
  'comments as annotations and block quotations as such; other yWriter formatting is removed. The final manuscript shows foot- and endnotes as notes and omits raw-code passages; '
  'the documents meant for reimport keep notes as annotations and raw code literally.',
  ['inputs'], 'All scene texts over the markup grammar: nested and multi-paragraph formatting, special characters, comments, notes, quotations, raw code.',
  'Tests compare one sample text.',
  ['src/pywriter/odt_w/odt_w_formatted.py', 'src/pywriter/odt_w/odt_w_export.py', 'src/pywriter/odt_w/odt_writer.py'], [('markup conversion', 'src/pywriter/odt_w/odt_w_formatted.py')],
  ['content.xml'], 'property-based testing: independent markup interpreter and ODF reader', 'Closing tags end the passage opened last with the same tag; white space is compared as an OpenDocument consumer shows it; language codes without XML special characters.')

P('P17', 'Description documents contain every description in its own section',
  'The part, chapter, scene, character, location and item description documents contain one section per element of the selected kind, in project order, identified by the element\'s ID and kind, '
  'and each section holds that element\'s text, complete and unaltered, and nothing else; the brief synopsis lists the chapter and scene titles.',
  ['inputs'], 'All projects with arbitrary multi-line texts in the description fields.',
  'Tests compare the sample project.',
  ['src/pywriter/odt_w', 'src/pywriter/file/file_export.py'], [('templates', 'src/pywriter/odt_w')], ['content.xml'],
  'property-based testing: independent ODF reader, model oracle', 'Texts without formatting markup look-alikes where the document type does not define markup.')

P('P18', 'Spreadsheets show every element\'s data in the right cells',
  'The character, location, item and scene list spreadsheets have one row per element in project order, and each column holds exactly that element\'s value: ID, names, descriptions, tags, notes, ratings, status, '
  'scene goals and outcomes, assigned elements. Scene numbers, word and letter counts and running totals agree with the exported scenes.',
  ['inputs'], 'All projects with arbitrary texts and numbers.',
  'Tests compare sample spreadsheets as text; the scene list test cannot pass outside the author\'s machine.',
  ['src/pywriter/ods_w', 'src/pywriter/file/file_export.py'], [('templates', 'src/pywriter/ods_w')], ['content.xml'],
  'property-based testing: independent ODS reader, model oracle', 'Cell text after XML parsing.')

P('P19', 'The cross reference lists exactly the existing references',
  'The cross reference document lists, for every character, location, item and tag in use, exactly the scenes that refer to it, in project order and under the right heading, and for tags also the characters, locations and items bearing it; elements nobody refers to are omitted.',
  ['inputs'], 'All assignments of characters, locations, items and tags to scenes.',
  'Tests compare one sample project.',
  ['src/pywriter/odt_w/odt_w_xref.py', 'src/pywriter/model/cross_references.py'], [('generate_xref', 'src/pywriter/model/cross_references.py')], ['content.xml'],
  'property-based testing: reference relation model', 'Titles are unique in the generated projects so that entries can be told apart.')

P('P20', 'Documents carry the project language, or none if it is unusable',
  'Every exported document declares the language and country of the project; a missing language is replaced by the system language, and an implausible code by the "no language" code with no country. '
  'Passages in other languages get one style per language with the right codes.',
  ['inputs', 'configurations'], 'All language and country codes and language tags.',
  'Tests use one language.',
  ['src/pywriter/model/novel.py', 'src/pywriter/odf/odf_file.py', 'src/pywriter/odt_w/odt_writer.py', 'src/pywriter/odt_w/odt_w_formatted.py'], [('check_locale', 'src/pywriter/model/novel.py')],
  ['styles.xml', 'content.xml'], 'property-based testing: decision table oracle', 'The system language is the fixed locale of the run.')

P('P21', 'Manuscript export and import give the text back',
  'Exporting a project as manuscript and importing the unchanged document leaves the text of every exported scene the same with the same formatting, language tags, comments, notes and quotations, '
  'as well as chapter and scene titles, and leaves everything not contained in the document as it was. Doing it again changes nothing further.',
  ['inputs', 'histories'], 'All projects and scene texts over the markup grammar.',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/odt_w/odt_w_manuscript.py', 'src/pywriter/odt_r/odt_r_manuscript.py', 'src/pywriter/odt_r/odt_r_formatted.py', 'src/pywriter/odt_r/odt_parser.py'],
  [('export', 'src/pywriter/odt_w/odt_w_manuscript.py'), ('import', 'src/pywriter/odt_r/odt_r_manuscript.py')], ['the .yw7 file'],
  'property-based testing: round trip, texts compared as styled character sequences', 'Equivalent tag placement and trailing line breaks count as equal.')

P('P22', 'Proofreading export and import give the text back',
  'Exporting a project for proofreading and importing the unchanged document leaves the text of every exported scene the same, with the same formatting and language tags, comments, notes, quotations and raw code, '
  'and leaves everything else in the project as it was.',
  ['inputs', 'histories'], 'All projects and scene texts over the markup grammar.',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/odt_w/odt_w_proof.py', 'src/pywriter/odt_r/odt_r_proof.py'], [('export', 'src/pywriter/odt_w/odt_w_proof.py'), ('import', 'src/pywriter/odt_r/odt_r_proof.py')],
  ['the .yw7 file'], 'property-based testing: round trip, texts compared as styled character sequences', 'Equivalent tag placement and trailing line breaks count as equal.')

P('P23', 'Notes and todo documents give the text back',
  'Exporting the notes or the todo chapters and scenes of a project and importing the unchanged document leaves their text the same, and leaves all other chapters and scenes as they were. The scene headings that documents of older versions have within the scenes are not taken for text.',
  ['inputs', 'histories'], 'All projects with notes and todo chapters and scenes.',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/odt_w/odt_w_notes.py', 'src/pywriter/odt_w/odt_w_todo.py', 'src/pywriter/odt_r/odt_r_notes.py', 'src/pywriter/odt_r/odt_r_todo.py'],
  [('import', 'src/pywriter/odt_r/odt_r_notes.py')], ['the .yw7 file'], 'property-based testing: round trip', 'As for the manuscript.')

P('P24', 'Part, chapter and scene description documents write back correctly',
  'Exporting part, chapter or scene descriptions and importing the unchanged document leaves the project as it was; importing a document in which a description or title was edited changes exactly that description or title. '
  'Blank lines, special characters and repeated blanks survive.',
  ['inputs', 'histories'], 'All description texts and edits.',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/odt_r/odt_r_scenedesc.py', 'src/pywriter/odt_r/odt_r_chapterdesc.py', 'src/pywriter/odt_r/odt_r_partdesc.py', 'src/pywriter/odt_w'],
  [('import', 'src/pywriter/odt_r')], ['the .yw7 file'], 'property-based testing: round trip and edit-then-import against a model', 'Surrounding white space of a description is not significant.')

P('P25', 'Character, location and item documents write back correctly',
  'Exporting character, location or item descriptions and importing the unchanged document leaves the project as it was; importing a document in which a description, biography, goal or note was edited changes exactly that field of that element.',
  ['inputs', 'histories'], 'All texts and edits.',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/odt_r/odt_r_characters.py', 'src/pywriter/odt_r/odt_r_locations.py', 'src/pywriter/odt_r/odt_r_items.py', 'src/pywriter/odt_w'],
  [('import', 'src/pywriter/odt_r')], ['the .yw7 file'], 'property-based testing: round trip and edit-then-import against a model', 'Surrounding white space of a text is not significant.')

P('P26', 'Character, location and item spreadsheets write back correctly',
  'Exporting a character, location or item list and importing the unchanged spreadsheet leaves the project as it was; '
  'after cells were edited, rows reordered, deleted or added, the import yields exactly the elements of the rows in row order with the edited values. Nothing else in the project changes.',
  ['inputs', 'histories'], 'All cell texts and row edits, in documents as spreadsheet programs write them (repeated and empty cells, multi-paragraph cells).',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/ods_r', 'src/pywriter/ods_w'], [('import', 'src/pywriter/ods_r')], ['the .yw7 file'], 'property-based testing: round trip and edit-then-import against a model', 'Tags contain no comma.')

P('P27', 'The scene list writes back correctly',
  'Exporting the scene list and importing the unchanged spreadsheet leaves the project as it was; after cells were edited, exactly the edited attributes (title, description, tags, notes, action or reaction, goal, conflict, outcome, ratings, status) of exactly that scene change.',
  ['inputs', 'histories'], 'All scene attribute values and edits.',
  'Tests import one document and compare it with a stored result.',
  ['src/pywriter/ods_r/ods_r_scenelist.py', 'src/pywriter/ods_w/ods_w_scenelist.py'], [('import', 'src/pywriter/ods_r/ods_r_scenelist.py')], ['the .yw7 file'],
  'property-based testing: round trip and edit-then-import against a model', 'Ratings are normalised to 1 to 10.')

P('P28', 'Text edited in a word processor is imported as it is shown',
  'Importing a manuscript or proofreading document as a word processor saves it after editing yields for each scene exactly the visible text, with italics, bold, language, comments, notes and quotations as marked there. '
  'It does not matter how the program splits text into spans, encodes repeated blanks, tabs and line breaks, names its automatic styles, or how large the document is.',
  ['inputs'], 'All documents a word processor may save for a given styled text: span splits, automatic styles, white space elements, bookmarks, large texts.',
  'Tests import a single saved document per type.',
  ['src/pywriter/odt_r/odt_parser.py', 'src/pywriter/odt_r/odt_r_manuscript.py', 'src/pywriter/odt_r/odt_r_proof.py'], [('parser', 'src/pywriter/odt_r/odt_parser.py')], ['the .yw7 file'],
  'property-based testing: documents from an independent ODT builder, styled-text model as oracle; metamorphic padding', 'The builder covers the constructs LibreOffice writes for these documents.')

P('P29', 'Marked scenes and chapters are split without losing text',
  'If a scene\'s imported text contains scene, chapter or part separators, the scene is split there into new scenes and chapters with unused IDs, placed right after the original in the stated order, with the titles and descriptions given in the separators. '
  'No text is lost, duplicated or moved to a scene it does not belong to, all other scenes keep ID, place and text, and the split is reported.',
  ['inputs'], 'All distributions of separators over scene texts and project structures.',
  'Tests contain one split document.',
  ['src/pywriter/model/splitter.py', 'src/pywriter/model/id_generator.py'], [('split_scenes', 'src/pywriter/model/splitter.py')], ['Novel', 'the .yw7 file'],
  'property-based testing: reference splitter', 'Separators as documented (number signs at the start of a line).')

P('P30', 'A work in progress becomes a new project with all of its text',
  'Importing a word processor document without project marks creates a project with a chapter per heading and a scene per divided passage, in document order, that contains all of the document\'s text with its formatting, '
  'its title, author and language, and headings as titles.',
  ['inputs'], 'All sequences of headings, paragraphs, dividers, comments and formatting.',
  'Tests import one document.',
  ['src/pywriter/odt_r/odt_r_import.py', 'src/pywriter/converter/new_project_factory.py'], [('import', 'src/pywriter/odt_r/odt_r_import.py')], ['the new .yw7 file'],
  'property-based testing: independent ODT builder, document model as oracle', 'The first heading precedes the text, as documented.')

P('P31', 'An outline becomes a new project with the same structure',
  'Importing an outline creates one part per first-level heading, one chapter per second-level heading and one scene per third-level heading, in order and nested as in the outline, with the heading as title and all the text beneath it as description.',
  ['inputs'], 'All outlines: sequences of headings of three levels with any paragraphs beneath.',
  'Tests import one outline.',
  ['src/pywriter/odt_r/odt_r_outline.py', 'src/pywriter/converter/new_project_factory.py'], [('import', 'src/pywriter/odt_r/odt_r_outline.py')], ['the new .yw7 file'],
  'property-based testing: independent ODT builder, document model as oracle', 'Scene headings follow a chapter or part heading.')

P('P32', 'Language settings and tags are kept through saves and conversions',
  'Project language and country survive any number of saves and imports, project variables of other kinds are never touched, and for each passage language used in scene texts exactly one pair of project variables exists after saving a new project. '
  'An unusable language code is replaced once, not repeatedly, and the default language of an imported manuscript or proof becomes the language of the project.',
  ['inputs', 'histories'], 'All sets of language codes, tags and existing project variables.',
  'Tests contain one project with languages.',
  [Y, 'src/pywriter/model/novel.py'], [('project variables', Y), ('get_languages', 'src/pywriter/model/novel.py')], ['the .yw7 file'],
  'property-based testing: model of project variables', 'Codes of the form ll-CC or ll.')

P('P33', 'Word and letter counts follow the visible text',
  'The word and letter counts of a scene do not count comments, foot- and endnotes or bracketed markup, words joined by dashes count as separate words and words joined by hyphens or apostrophes count once, '
  'and the counts always refer to the current text.',
  ['inputs', 'histories'], 'All scene texts over the markup grammar.',
  'Tests check counts only indirectly, in one spreadsheet.',
  ['src/pywriter/model/scene.py'], [('sceneContent setter', 'src/pywriter/model/scene.py')], ['Scene.wordCount', 'Scene.letterCount'],
  'property-based testing: texts built from words with known counts, metamorphic additions', 'The expectation is computed from the word list the text was built of.')

P('P34', 'Tag lists and new IDs are well-behaved',
  'Splitting a separated list yields its non-empty elements without duplicates, stripped and in order, and joining them and splitting again gives the same list; invalid input yields an empty result rather than an exception. '
  'A newly created ID is not in use and, repeated, IDs never collide.',
  ['inputs', 'histories'], 'All strings, separators and sets of existing IDs.',
  'No test covers these functions directly.',
  ['src/pywriter/pywriter_globals.py', 'src/pywriter/model/id_generator.py'], [('string_to_list', 'src/pywriter/pywriter_globals.py'), ('create_id', 'src/pywriter/model/id_generator.py')],
  ['return values'], 'property-based testing: algebraic laws and reference functions', 'Pure functions, cheap, many cases.')

P('P35', 'Program settings survive a restart',
  'Settings and options written to the configuration file and read by a new instance with the same names are the same, for any single-line values; names not in the file keep their defaults, and a missing or foreign file changes nothing.',
  ['inputs', 'histories'], 'All setting values and sequences of writing and reading.',
  'No test covers the configuration.',
  ['src/pywriter/config/configuration.py'], [('read, write', 'src/pywriter/config/configuration.py')], ['the configuration file'],
  'property-based testing: round trip', 'Single-line values without surrounding white space, names distinct ignoring case; multi-line values are outside the format.')

P('P36', 'Purging removes what it names and nothing else',
  'Removing custom fields from a project or stripping language markup removes exactly the named items from every element of the project and leaves all other text and attributes as they were.',
  ['inputs'], 'All projects.',
  'The tests purge one sample project.',
  ['src/pywriter/yw/yw7_purge.py'], [('helpers', 'src/pywriter/yw/yw7_purge.py')], ['Novel', 'the .yw7 file'],
  'property-based testing: reference model', 'As P01.')

P('P37', 'XML data files carry all characters, locations and items',
  'Exporting story-world data files creates three well-formed XML files from which an independent reader recovers every character, location and item with all attributes; a write error is reported.',
  ['inputs'], 'All story worlds.',
  'No test covers the data files.',
  ['src/pywriter/yw/data_files.py', Y], [('write', 'src/pywriter/yw/data_files.py')], ['the XML files'],
  'property-based testing: independent decoder', 'As P02.')

P('P38', 'Translations survive extraction, update and compilation',
  'The translation tools keep every message pair: a catalogue compiled from a translation file returns each translation exactly, extracting messages from sources finds exactly the marked strings, '
  'and updating a translation file keeps existing translations and adds the new messages; an extraction or update that fails or is interrupted loses no template or translation file (the previous version is in place or in the backup), and a translation file that cannot be compiled is refused and yields no catalogue.',
  ['inputs'], 'All message texts, including quotes, backslashes, line breaks and non-ASCII characters.',
  'No test covers the translation tools.',
  ['src/msgfmt.py', 'src/pgettext.py', 'src/translations.py'], [('make', 'src/msgfmt.py')], ['.mo, .po, .pot, .json files'],
  'property-based testing: round trip through gettext', 'Messages as they occur in Python sources.')
P('P39', 'A single-script application does the same as one that uses the package',
  'Building a single script from an application inlines every module it imports, directly or indirectly, exactly once and in a usable order, so that the script runs without the package and behaves exactly as the application does with it: '
  'the same messages, the same documents and projects, the same constants. The sources are not changed, and copies of modules made on request are exact and never replace existing files.',
  ['inputs'], 'All applications that follow the conventions of the project, and all projects they process.',
  'No test builds an application, and what inlining discards depends on the text of each module.',
  ['src/inliner.py', 'docs/conventions.md'], [('inline_module', 'src/inliner.py')], ['the generated script', 'files written by it'],
  'property-based testing: differential execution of packaged and inlined application', 'Imports of the package at the beginning of a line; multi-line strings in single quotes.')

P('P40', 'An import adds what the project lacks and keeps what the document lacks',
  'Importing a manuscript, notes, todo or description document that was made from another version of the project updates the elements that both have, adds the chapters, scenes, characters, locations and items that only the document has, '
  'under their IDs, in the order of the document and with its texts, descriptions and chapter titles, and leaves everything that the document does not contain, including elements it lacks and '
  'the order and chapter of existing elements, as it was. A proof document adds nothing.',
  ['inputs', 'histories'], 'All pairs of versions of a project, and all documents with sections.',
  'Tests import documents of exactly the same project only.',
  ['src/pywriter/odt_r/odt_reader.py', 'src/pywriter/odt_r/odt_r_manuscript.py', 'src/pywriter/odt_r/odt_r_scenedesc.py', 'src/pywriter/odt_r/odt_r_chapterdesc.py', 'src/pywriter/converter/yw_cnv_ui.py'],
  [('handle_starttag', 'src/pywriter/odt_r/odt_reader.py')], ['.yw7 file'],
  'property-based testing: reference model of the merge', 'New scenes whose chapter is not part of the document, the level of new chapters and the titles of new scenes are not specified.')

P('P41', 'User interfaces show what happened and what is open',
  'Every user interface (silent, console, message boxes, window, application frame) shows an outcome message that begins with "!" as an error without that mark and any other message unchanged as a success, '
  'asks a question as given and returns the answer, and displays warnings. In the application frame, after any sequence of opening (valid, damaged or missing files; by name, menu, key or dialog), closing, messages and quitting, '
  'the title, path bar, status bar, menu state and open project agree with each other; a failed opening leaves no project open and shows the error; opening and closing never change a project file. '
  'The text box shows inserted lines with their formats, and a missing window icon is reported as such.',
  ['inputs', 'histories'], 'All messages, questions and answers, and all sequences of user actions.',
  'No test uses the windows, and the state shown depends on the whole history.',
  ['src/pywriter/ui/ui.py', 'src/pywriter/ui/ui_cmd.py', 'src/pywriter/ui/ui_mb.py', 'src/pywriter/ui/ui_tk.py', 'src/pywriter/ui/main_tk.py', 'src/pywriter/ui/rich_text_tk.py', 'src/pywriter/ui/set_icon_tk.py'], [('open_project', 'src/pywriter/ui/main_tk.py')],
  ['what widgets, dialogs and streams show', '.yw7 file'],
  'property-based testing: model-based histories on a simulated toolkit', 'The toolkit behaves as the simulation does; no display is available.')

P('P42', 'Each sample application does what its conversion does',
  'Each sample application, started with a file, carries out exactly the conversion it is named for (or the import that belongs to a document): after any history of runs the files are those that the converter alone would have produced, '
  'questions are asked and answered in the same way, and one window is started that shows the outcome; an unsupported, missing or read-only type of file is reported and changes nothing.',
  ['inputs', 'histories'], 'All projects and all histories of application runs.',
  'No test runs the applications.',
  ['src/sample', 'src/pywriter/ui/ui_tk.py', 'src/pywriter/converter/yw7_exporter.py', 'src/pywriter/converter/yw7_converter.py'], [('run', 'src/sample/cnv_manuscript.py')],
  ['files in the project directory', 'the window'],
  'property-based testing: differential histories of applications and converter', 'The toolkit behaves as the simulation does; time stamps are not compared.')

P('P43', 'Translations do not change what conversions do',
  'With any catalogue of translations for the user\'s language, every sequence of conversions has the same outcome as without: the same conversions succeed, the same files are written, questions and warnings are the same, '
  'and projects, documents and messages differ only in that translated messages and labels replace the original ones. What was exported under a translation is imported exactly as without. The messages are shown in the language for which there is a catalogue.',
  ['inputs', 'histories', 'configurations'], 'All catalogues, languages, projects and histories of conversions.',
  'The tests run without translations only.',
  ['src/pywriter/pywriter_globals.py', 'src/pywriter/converter', 'src/pywriter/odt_w', 'src/pywriter/odt_r', 'src/sample/locale'], [('_', 'src/pywriter/pywriter_globals.py')],
  ['.yw7 file', 'documents', 'messages'],
  'property-based testing: metamorphic relation over catalogues', 'Translations keep the placeholders and contain no markup characters.')

P('P44', 'Opening the result opens exactly that file',
  'When a document is opened with the standard application of the system, exactly one program is started, once, with the path of that document as its only argument, whatever characters the path contains; no part of the path is executed or expanded, '
  'and a system without a suitable program is no error. A converter that is told to open its result opens the file it has written and then ends.',
  ['inputs', 'configurations'], 'All file names, and all combinations of available programs.',
  'No test opens documents.',
  ['src/pywriter/file/doc_open.py', 'src/pywriter/converter/yw_cnv_ui.py'], [('open_document', 'src/pywriter/file/doc_open.py')],
  ['programs started'],
  'property-based testing: recorded process starts', 'Programs are found by PATH.')

P('P45', 'A template-based exporter fills in exactly what the project contains',
  'An exporter defined by templates writes one filled-in template per part, chapter, scene, character, location, item and project note, chosen by type, level, position and export mark, in project order, with the elements its filters reject left out. '
  'Every placeholder of the level is replaced by the value of the element (scene numbers, running totals, combined dates and durations included), every text passes through the conversion of the exporter, and anything else in a template, '
  'unknown placeholders included, is kept as it is. If the document cannot be written, an error is raised and the previous document is kept.',
  ['inputs', 'configurations', 'fault_sequences'], 'All sets of templates, placeholders and filters, applied to all projects; errors at any operation of the writing.',
  'The tests use the templates of the shipped exporters, which use less than half of the placeholders, and no filters.',
  ['src/pywriter/file/file_export.py', 'src/pywriter/file/filter.py'], [('template-based export', 'src/pywriter/file/file_export.py')],
  ['the written text file', 'its backup'],
  'property-based testing: generated exporters against a reference implementation, fault injection', 'First-scene templates are not combined with templates for notes, todo and unused scenes.')

P('P46', 'Comments marked as titles set scene titles',
  'When a manuscript, notes or todo document is imported in which a comment within a scene stands between tildes, wherever in the scene it is and however the word processor wrote it, its text becomes the title of exactly that scene '
  'and the comment does not appear in the text. All other comments, also those that merely contain, begin or end with a tilde, remain comments at their places, and apart from the edited texts nothing else changes. In proof documents every comment remains a comment.',
  ['inputs'], 'All titles, places of comments and texts of scenes.',
  'No test has a comment that is marked as a title.',
  ['src/pywriter/odt_r/odt_r_manuscript.py', 'src/pywriter/odt_r/odt_parser.py'], [('handle_comment', 'src/pywriter/odt_r/odt_r_manuscript.py')],
  ['the .yw7 file'],
  'property-based testing: documents from an independent ODT builder, styled-text model as oracle', 'A marked comment has one paragraph and a scene has at most one of them.')

P('P47', 'Only the marked passages of a document are written back',
  'Whatever is added to an exported text document outside of the passages that hold the texts of the project (paragraphs, blank lines, headings, lists, tables, sections, comments, notes, a table of contents), and whatever happens to the '
  'titles and headings there, importing the document leaves every element of the project, its titles included, as it was. It neither appears in a neighbouring text nor shifts or formats it.',
  ['inputs'], 'All additions at all places outside of the texts, in all kinds of documents that can be written back.',
  'The tests import documents to which nothing was added.',
  ['src/pywriter/odt_r'], [('section state of the readers', 'src/pywriter/odt_r')],
  ['the .yw7 file'],
  'property-based testing: metamorphic relation, documents edited by a simulated word processor', 'Every chapter has a title; marks of the proof document are not touched.')

P('P48', 'Results do not depend on the text encoding of the system',
  'What exports, imports, new projects, data files and configuration files contain, which conversions succeed and what they report does not depend on the text encoding and the line end convention that the operating system uses by default: '
  'whatever characters the texts consist of, files that are written on one system are the same as on any other one, and are read in the same way there.',
  ['inputs', 'configurations', 'histories'], 'All texts, histories of conversions and default encodings.',
  'The tests run on the encoding of the machine they are run on.',
  ['src/pywriter/yw/yw7_file.py', 'src/pywriter/odf', 'src/pywriter/file/file_export.py', 'src/pywriter/config/configuration.py'],
  [('text files opened by the library', 'src/pywriter')],
  ['.yw7 file', 'documents', 'data files', 'configuration files', 'messages'],
  'property-based testing: metamorphic relation between simulated systems', 'File names are encoded in UTF-8; the line ends themselves are not compared.')
