"""The properties: text, anchors and the deciding method."""
PROPS = []
NOT_APPLICABLE = {}
MD2PO = 'src/mdpo/md2po/__init__.py'
PO2MD = 'src/mdpo/po2md/__init__.py'
HTML = 'src/mdpo/mdpo2html/__init__.py'
MPM = 'src/mdpo/md2po2md/__init__.py'


def prop(id, title, statement, over, quant, why, files, mechanism, technique,
         note=''):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'over': over.split(), 'quant': quant, 'why': why, 'files': files,
        'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
        'technique': technique, 'note': note})


def na(id, reason):
    NOT_APPLICABLE[id] = reason


prop('C01', 'md2po extracts exactly the messages its disable/enable commands '
     'allow',
     'Extracting a Markdown document puts a message into the catalogue if and '
     'only if, at the point where the message is completed, extraction is '
     'neither switched off by mdpo-disable nor suppressed by a pending '
     'mdpo-disable-next-block (or -next-line) command, or a pending '
     'mdpo-enable-next-block (or -next-line) command asks for it. A pending '
     'next-block command applies to exactly the next message, whatever kind '
     'of block contains it and whatever blocks without text come in between. '
     'The messages skipped are the ones reported as disabled entries.',
     'inputs', 'every document made of commands, paragraphs, headings, lists '
     '(nested in each other and in quotes), tables, code blocks and HTML, in '
     'any order and number',
     'The tests pair a handful of commands with a following paragraph; the '
     'flags interact with every block type that saves text, with nesting and '
     'with order, which no sample covers.',
     [MD2PO, 'src/mdpo/command.py'],
     [('disable flags set by commands', MD2PO + ' Md2Po.command'),
      ('flags consulted and reset when text is saved',
       MD2PO + ' Md2Po._save_current_msgid')],
     'abstract interpretation of the parser callbacks under a most-general '
     'document client, in product with a command automaton')

prop('C02', 'po2md translates exactly the messages the commands allow',
     'Translating a Markdown document replaces a message by its translation '
     'if and only if, at the point where the message is completed, '
     'translation is neither switched off by mdpo-disable nor suppressed by '
     'a pending mdpo-disable-next-block (or -next-line) command, or a '
     'pending mdpo-enable-next-block (or -next-line) command asks for it; '
     'otherwise its source text is written. A pending next-block command '
     'applies to exactly the next message, whatever kind of block contains '
     'it. Every message reaches the output, in one of the two forms.',
     'inputs', 'every document made of commands, paragraphs, headings, lists '
     '(nested in each other and in quotes), tables, code blocks and HTML, in '
     'any order and number',
     'The tests try a few command/paragraph pairs; the flags interact with '
     'every block type, nesting and order.',
     [PO2MD, 'src/mdpo/command.py'],
     [('disable flags set by commands', PO2MD + ' Po2Md.command'),
      ('flags consulted and reset when text is saved',
       PO2MD + ' Po2Md._save_current_msgid')],
     'abstract interpretation of the parser callbacks under a most-general '
     'document client, in product with a command automaton',
     'Line wrapping is modelled as the identity.')

CMDPY = 'src/mdpo/command.py'
MGC = ('abstract interpretation of the parser callbacks under a most-general '
       'document client, in product with a command automaton')

prop('C03', 'mdpo2html honours disable/enable commands and contexts',
     'Translating an HTML document replaces a message by its translation if '
     'and only if, at the point where the message is completed, translation '
     'is neither switched off by mdpo-disable nor suppressed by a pending '
     'mdpo-disable-next-block (or -next-line) command, or a pending '
     'mdpo-enable-next-block (or -next-line) command asks for it. Next-block '
     'commands and mdpo-context apply to exactly the next message, in '
     'paragraphs, headings, list items, quotes and table cells. Void '
     'elements and comments that are not commands change nothing.',
     'inputs', 'every HTML document made of command comments, paragraphs, '
     'headings, flat lists, quotes, tables, inline markup and void elements '
     'in any order and number',
     'The tests run a few files with one command each.',
     [HTML, CMDPY],
     [('flags set by commands', HTML + ' MdPo2HTML.handle_comment'),
      ('flags consulted and reset', HTML + ' MdPo2HTML._process_replacer')],
     'abstract interpretation of the HTML parser callbacks under a '
     'most-general document client, in product with a command automaton',
     'Markdown rendering of a translation is modelled as wrapping it in <p>.')

prop('C04', 'One command vocabulary with aliases in all three tools',
     'In md2po, po2md and mdpo2html every command the tool documents has the '
     'same effect when written under its own name and under any alias '
     'defined for it, whether the alias is resolved with or without the '
     'mdpo- prefix, and takes any text (punctuation included) as its '
     'argument. HTML comments that are not commands, including command '
     'names without the mdpo- prefix, change nothing.',
     'inputs configurations', 'every alias table of the forms above, every '
     'argument text and every sequence of such comments',
     'The tests alias a few commands in one tool each, with words as '
     'arguments.',
     [CMDPY, MD2PO, PO2MD, HTML],
     [('command recognition', CMDPY + ' parse_mdpo_html_command'),
      ('alias resolution', CMDPY + ' normalize_mdpo_command_aliases'),
      ('dispatch', MD2PO + ' Md2Po.command, ' + PO2MD + ' Po2Md.command, '
       + HTML + ' MdPo2HTML.handle_comment')], MGC)

prop('C05', 'Contexts and translator comments apply to exactly one message',
     'The context given by mdpo-context and the comment given by '
     'mdpo-translator are attached by md2po to exactly the next message '
     'completed after them, whether it is extracted or disabled, and to no '
     'other. po2md looks the next message up under exactly that context and '
     'every other message without one.',
     'inputs', 'every document made of context, translator and disable '
     'commands and of paragraphs, headings, lists, quotes, tables and code '
     'blocks',
     'The tests follow one command by one paragraph.',
     [MD2PO, PO2MD],
     [('pending context and comment', MD2PO + ' Md2Po.command'),
      ('attached and reset', MD2PO + ' Md2Po._save_current_msgid'),
      ('looked up', PO2MD + ' Po2Md._translate_msgid')], MGC)

prop('C06', 'md2po extracts exactly the code blocks asked for',
     'A code block is extracted if and only if no mdpo-disable-codeblock '
     'command is pending and either code blocks are switched on (by the '
     'option or the last mdpo-include-codeblocks / mdpo-disable-codeblocks '
     'command) or mdpo-include-codeblock is pending, and extraction is '
     'enabled. Pending single code block commands apply to exactly the next '
     'code block, and a code block that is left out consumes nothing else.',
     'inputs configurations', 'every document made of code block and '
     'enable/disable commands, fenced and indented code blocks (also in '
     'lists and quotes) and other blocks, with the option on or off',
     'The tests check single combinations of one command and one block.',
     [MD2PO],
     [('code block flags', MD2PO + ' Md2Po.command'),
      ('consulted and reset', MD2PO + ' Md2Po.leave_block')], MGC)

POPY = 'src/mdpo/po.py'
prop('C07', 'Messages without translation in their context keep their text',
     'po2md and mdpo2html write the source text of every message that has '
     'no active, non-empty translation in exactly its context: never '
     'nothing, never a translation recorded for another context or for no '
     'context, and without failing.',
     'inputs', 'every document of the C02/C03 item alphabets with contexts, '
     'and catalogues in which its messages are absent, untranslated, '
     'obsolete, or translated in another context only',
     'The tests translate with complete catalogues.',
     [PO2MD, HTML, POPY],
     [('lookup', PO2MD + ' Po2Md._translate_msgid'),
      ('lookup', HTML + ' MdPo2HTML._process_replacer'),
      ('translations', POPY + ' pofiles_to_unique_translations_dicts')],
     'abstract interpretation of the parser callbacks under a most-general '
     'document client for each class of catalogue')

ACI = ('abstract interpretation of whole runs on generic messages over an '
       'exhaustive set of catalogue shapes')
prop('C08', 'Every active translation of every catalogue file is used',
     'When the PO files given to po2md or mdpo2html (as a path, a list of '
     'paths or a glob) hold an active, non-empty translation of a message in '
     'its context, that translation is written, whatever other entries '
     '(obsolete, untranslated, of other contexts) of the same message are in '
     'the files and in whatever order; if they hold none, the source text '
     'is.',
     'inputs configurations', 'every ordered combination of up to 2 '
     '(thorough: 3) entries of a message over one or two files; the messages '
     'and translations are arbitrary',
     'The tests use catalogues without repeated messages.',
     [POPY, PO2MD, HTML],
     [('files', POPY + ' paths_or_globs_to_unique_pofiles'),
      ('translations', POPY + ' pofiles_to_unique_translations_dicts')], ACI)

CATQ = ('every ordered catalogue of up to 2 (thorough: 3) entries that are '
        'found or not, in a context or not, active or obsolete, translated, '
        'untranslated or fuzzy; every not-found policy; arbitrary texts')
CATM = [('merge with the existing entry', MD2PO + ' Md2Po._save_msgid'),
        ('not-found policy', POPY + ' mark_not_found_entries_as_obsoletes, '
         'remove_not_found_entries'),
        ('comparison', 'src/mdpo/polib.py poentry__cmp__')]
prop('C09', 'Re-extraction keeps the translations of found messages',
     'Extracting into an existing PO file never loses, replaces or '
     'unfuzzies/fuzzies the translation of a message that is still in the '
     'document, in its context, whether its entry was active or obsolete, '
     'whatever the options and the default msgstr; new messages get the '
     'default msgstr.',
     'histories configurations', CATQ,
     'The tests re-extract a few fixed catalogues; losses depend on the '
     'combination of entry states, their order and the options.',
     [MD2PO, POPY, 'src/mdpo/polib.py'], CATM, ACI)
prop('C10', 'Messages no longer found are treated as the options say',
     'After extraction into an existing PO file, the entries whose message '
     'is no longer in the document are removed if preserve_not_found is '
     'off, marked obsolete with everything else unchanged if '
     'mark_not_found_as_obsolete is on, and untouched otherwise. No entry '
     'appears that is neither in the document nor in the catalogue.',
     'histories configurations', CATQ,
     'The tests re-extract a few fixed catalogues.',
     [MD2PO, POPY, 'src/mdpo/polib.py'], CATM, ACI)
prop('C11', 'A found message has one active entry and no obsolete one',
     'After extraction into an existing PO file every message of the '
     'document has exactly one active entry in its context, however often '
     'it occurs and whatever entry it had, and no obsolete entry (unless '
     'not-found entries are kept as they are).',
     'histories configurations', CATQ,
     'The tests re-extract a few fixed catalogues.',
     [MD2PO, POPY, 'src/mdpo/polib.py'], CATM, ACI)
prop('C28', 'md2po and po2md build the same message texts',
     'For every document and the same options, the message texts that po2md '
     'looks up in the catalogue are exactly those that md2po stores in it: '
     'same markup characters, escapes, link and image forms, separators '
     'and message boundaries. Otherwise the translation of a message that '
     'md2po extracted can never be found by po2md.',
     'inputs configurations',
     'every sequence of up to two inline elements (40 kinds: spans, nested '
     'spans, links, images, references, math, wikilinks, underline, breaks, '
     'escapes) in every kind of block, and block structures up to the '
     'bound; texts arbitrary; with and without extensions, own markers',
     'Each tool is tested alone with its own expected texts; the two '
     'implementations agree only if every combination does.',
     [MD2PO, PO2MD],
     [('text building', MD2PO + ' and ' + PO2MD +
       ' not_plaintext_enter_span/enter_span, leave_span, text, '
       'leave_block')], ACI)

IO = 'src/mdpo/io.py'
CLIPY = 'src/mdpo/cli.py'
TEXT = 'src/mdpo/text.py'
EVENT = 'src/mdpo/event.py'
MAINS = ['src/mdpo/%s/__main__.py' % t for t in
         ('md2po', 'po2md', 'mdpo2html', 'md2po2md')]
RUNS = ('every combination of input (file, glob, content), catalogue, '
        'output options and flags of the small world of sa/rules/programs.py,'
        ' for the command line and the API of the four programs')
AIW = ('abstract interpretation of the whole program in a small abstract '
       'world of files, with a monitor on the recorded effects')

prop('C12', 'Nothing is written that the user did not ask for',
     'A run creates, changes or removes no file or directory other than the '
     'outputs requested: md2po the PO file (only with save) and the MO file, '
     'po2md and mdpo2html the file of save, md2po2md the files and '
     'directories built from the output schema. When a run ends normally '
     'every output requested holds the new content.',
     'configurations inputs', RUNS,
     'Tests check the files they expect; they do not look for others, nor '
     'try every combination of options.',
     [IO, MD2PO, PO2MD, HTML, MPM] + MAINS,
     [('saving', 'save branches of Md2Po.extract, Po2Md.translate, '
       'MdPo2HTML.translate; mdpo.io.save_file*')], AIW)
prop('C13', 'A run that fails leaves the files it would overwrite intact',
     'When a run fails before it has the whole content of an output (an '
     'error parsing, a content that can not be encoded in the encoding of '
     'the output), the previous version of that output is left as it was, '
     'not truncated.',
     'faults configurations', RUNS + '; a failure of the parser, and a '
     'content that can not be encoded',
     'The failures depend on contents and encodings that tests do not use.',
     [IO, MD2PO, PO2MD, HTML],
     [('encode before opening', IO + ' save_file, save_file_checking_file_'
       'changed; Md2Po.extract')], AIW)
prop('C14', 'Check mode reports exactly the changes of the files saved',
     'With --check the exit code is 2 if and only if some output did not '
     'exist or had another content (and 0 otherwise, if no other check '
     'fails); without --check it is never 2. In both cases the outputs end '
     'with the new content. Repeating a run reports no change.',
     'histories configurations', 'every assignment of absent / same / '
     'different to the outputs of each program',
     'Tests try one change and one repetition per program.',
     [IO, MD2PO, PO2MD, HTML, MPM] + MAINS,
     [('change detection', IO + ' save_file_checking_file_changed; '
       '_saved_files_changed in the four programs')], AIW)
prop('C15', 'Every text file is read and written in its chosen encoding',
     'Markdown files are read and written in md_encoding, HTML files in '
     'html_encoding (both UTF-8 by default), PO files in po_encoding or, if '
     'it is not given, in the encoding the file declares; never in the '
     'default encoding of the platform.',
     'configurations environments', RUNS + ', with each encoding option '
     'given or not',
     'The default of the platform is UTF-8 where tests run, so a missing '
     'encoding goes unnoticed.',
     [IO, POPY, MD2PO, PO2MD, HTML, MPM] + MAINS,
     [('open() calls', IO + ', Md2Po.extract, md2po/__main__.py'),
      ('catalogue loading', POPY + ' paths_or_globs_to_unique_pofiles')], AIW)
prop('C16', 'The programs print their result, and only that, on STDOUT',
     'Without --quiet, md2po prints the catalogue and po2md and mdpo2html '
     'print the output, unless they save it, followed by a line break; '
     'nothing else goes to STDOUT. With --quiet, md2po2md, and the API '
     'functions print nothing. Failed runs print nothing on STDOUT. (The '
     'debug mode is out of this property.)',
     'configurations', RUNS + ', with the document in STDIN too',
     'Tests compare the output of a few combinations.',
     MAINS, [('printing', 'run() of the four __main__.py')], AIW)
prop('C17', 'Every command line option does what the documentation says',
     'Each option of md2po, po2md, mdpo2html and md2po2md, in any of its '
     'spellings and given once or several times, has the effects of the API '
     'function called with the same setting (which are not those of the '
     'default); without options the command line does what the API does '
     'by default. --check, --no-obsolete, --no-fuzzy and --no-empty-msgstr '
     'end with codes 2 to 5 when there is something to report, --quiet '
     'prints nothing, --help and --version end the program.',
     'configurations', 'all documented options of the four programs in every '
     'spelling (short, long, =value, attached value, repeated); one document '
     'and world in which each option matters',
     'Tests run most options once, alone and mostly with the API only, and '
     'look at one result; an option read and passed nowhere, or under '
     'another name, goes unnoticed.',
     MAINS + ['src/mdpo/cli.py'], [
         ('option declarations and calls', 'run and parse_options of every '
          '__main__.py'), ('common options', 'src/mdpo/cli.py')],
     'abstract interpretation of the whole program from the words of the '
     'command line, parsed with the options that the source declares; '
     'comparison of effects with those of the API call')
prop('C18', 'The entry checks give the exit codes documented',
     'With --no-obsolete, --no-fuzzy, --no-empty-msgstr (in any combination) '
     'the exit code is 3, 4 or 5 respectively if some catalogue that the run '
     'used (after saving it) has an entry of that kind, the last of these '
     'when several fail, and is not altered otherwise; STDERR then names '
     'each file that has such an entry.',
     'configurations inputs', 'every subset of the checks; catalogues with '
     'every kind of entry, alone and combined, in each of the files used; '
     'with and without saving',
     'Tests try each option with one catalogue.',
     [POPY, MPM] + MAINS,
     [('checks', POPY + ' check_*_in_filepaths'),
      ('exit codes', 'run() of the four __main__.py')], AIW)
prop('C19', 'Invalid command line values end with a message and code 1',
     'A run without input, or with an invalid wrap width (not a number), a '
     'command alias or metadata pair without separator or repeated, or an '
     'event without separator, writes a message that quotes the value to '
     'STDERR and exits with code 1, without printing or saving. Valid values '
     'are accepted. The catalogue of po2md and mdpo2html, and the languages '
     'and output of md2po2md are required arguments.',
     'inputs', 'each option with a syntax, in each program, with valid '
     'and invalid values of each form',
     'Tests try one invalid value for some options of some programs.',
     [CLIPY, TEXT] + MAINS,
     [('parsing of values', CLIPY + ' parse_*; ' + TEXT +
       ' parse_wrapwidth_argument'), ('missing input', 'parse_options')], AIW)
prop('C20', 'The environment variables are left as they were found',
     'After any run of a command line program or API function, whether it '
     'ends normally, exits or raises, the environment variables of the '
     'process are those before it.',
     'faults configurations', RUNS + '; invalid values; failures opening, '
     'encoding and parsing; the variable set or not before',
     'Tests run the programs where the variable is not set and look at the '
     'environment once, after a success.',
     [IO] + MAINS, [('temporary variable', IO + ' environ')], AIW)
prop('C21', 'Custom events see every step and can skip it, and nothing else',
     'The functions given in events are called once, in order, for every '
     'block, span, text, command, message and link reference that md2po or '
     'po2md meets, with its data. They change nothing unless one returns '
     'False; then md2po and po2md go on as if that step were not in the '
     'document (a skipped message is not in the catalogue and its text is '
     'not part of another message). The debug mode changes no result.',
     'inputs configurations', 'documents with every kind of block, span and '
     'command; each event; each step skipped; one and several functions; '
     'plaintext mode too',
     'Tests skip one event of one kind in one document.',
     [MD2PO, PO2MD, 'src/mdpo/event.py'],
     [('events', 'raise_skip_event calls at the beginning of every handler'),
      ('reference events', '_dump_link_references, _append_link_references'),
      ('debug', 'src/mdpo/event.py debug_events')],
     'abstract interpretation of the whole program with opaque event '
     'functions; comparison with the run of the document without the step')

prop('C38', 'po2md keeps the structure of the document',
     'Translating a document gives a document with the same structure: the '
     'same blocks in the same order and nesting (headings and their levels, '
     'paragraphs, lists with their items, task marks and nesting, quotes, '
     'tables with their alignments, code blocks with their info string and '
     'exact lines, thematic breaks, HTML), and the same spans inside each '
     '(emphasis, strong, code, strikethrough, math, links, images and '
     'wikilinks with their targets and titles). Only the texts change, and '
     'mdpo commands are not written.',
     'inputs configurations',
     'every kind of block alone, nested and in sequences of 2 (3 in the '
     'thorough tier), every attribute of blocks and every kind of span in '
     'every kind of block; texts arbitrary; markers kept as they are in '
     'Markdown (start numbers, marks of bullets and tightness aside)',
     'Golden tests fix some documents; the state machine of po2md has '
     'dozens of flags whose combinations decide how each block is written.',
     [PO2MD],
     [('block writing', PO2MD + ' enter_block, leave_block, '
       '_save_current_line, _save_current_msgid'),
      ('span writing', PO2MD + ' enter_span, leave_span, text')],
     'abstract interpretation of the state machine; the symbolic output is '
     'read as Markdown and compared with the source tree')

prop('C35', 'Link references keep leading where the document says',
     'md2po extracts every link reference definition of a document that uses '
     'references, in whichever form it is written and with its whole '
     'destination and title, and nothing that only looks like one (lines of '
     'fenced code blocks, footnotes, plain text); po2md writes the '
     'definitions back, translated if the catalogue translates them and as '
     'they were otherwise. The links and images of messages and of '
     'translated documents keep the destination and title that the document '
     'gives them, and the first definition of a name counts. Pending '
     'commands (contexts, comments, disabled blocks) do not apply to '
     'definitions.',
     'inputs configurations',
     'every form of definition (names, bare and enclosed destinations, the '
     'three kinds of title, indentation, spaces) and of line that looks like '
     'one, in every place; every kind of link and image; definitions with '
     'and without translation',
     'Definitions are read by a separate line scanner with its own regular '
     'expression, independent of the Markdown parser; tests cover few forms.',
     ['src/mdpo/md.py', MD2PO, PO2MD],
     [('reading definitions', 'src/mdpo/md.py match_link_reference, '
       'parse_link_references'),
      ('writing definitions', MD2PO + ' _dump_link_references; ' + PO2MD +
       ' _append_link_reference'),
      ('links', MD2PO + ', ' + PO2MD + ' leave_span')],
     'abstract interpretation of both tools on documents with references; '
     'messages and output read as Markdown and compared with the source')

prop('C36', 'mdpo2html keeps the page and translates its messages',
     'The page that mdpo2html writes has the same tags, attributes, '
     'comments, declarations and texts, in the same order, as the page '
     'read, except that the contents of each paragraph, heading, list item '
     'and table cell whose message (the Markdown of its contents: text, '
     'emphasis, strong, code, links with their titles, images) has a '
     'translation in the catalogue are those of the translation rendered, '
     'also when the catalogue writes the links by reference. What has no '
     'translation, code blocks, and everything outside messages, stay as '
     'they are; nothing is lost, repeated, nor escaped differently.',
     'inputs configurations',
     'every kind of element that Markdown renderers write, alone and in '
     'every sequence of 2; every kind of inline markup in every kind of '
     'block with messages; catalogues with all, some or none of the '
     'messages',
     'The page is a stream of parser callbacks rewritten with a template '
     'and a queue kept between callbacks; golden tests cover a few pages.',
     ['src/mdpo/mdpo2html/__init__.py', 'src/mdpo/md.py'],
     [('callbacks', 'src/mdpo/mdpo2html/__init__.py handle_starttag, '
       'handle_endtag, handle_startendtag, handle_data, handle_comment'),
      ('message and template', 'src/mdpo/mdpo2html/__init__.py '
       '_process_replacer'),
      ('references', 'src/mdpo/md.py solve_link_reference_targets')],
     'abstract interpretation of the parser callbacks; the page written is '
     'compared with the page expected, tag by tag')

prop('C37', 'A message says what its block says',
     'Each message that md2po extracts, read as Markdown, has the text and '
     'the spans of the block it comes from: the same words in the same '
     'order, with the same emphasis, code, math, strikethrough, links, '
     'images and wikilinks, with their targets and titles; characters that '
     'are not markup in the document are not markup in the message. There '
     'is one message for each block of text (paragraph, heading, item, '
     'cell), in the order of the document, and nothing of the document is '
     'joined to the message of another block or lost.',
     'inputs configurations',
     'every kind of span in every kind of block, block structures and '
     'sequences up to the bound, default and own marks; texts arbitrary '
     '(line breaks are spaces)',
     'A test fixes the message of one text; whether delimiters, escapes and '
     'boundaries survive every combination of spans and blocks is a '
     'property of the whole state machine.',
     [MD2PO],
     [('message building', MD2PO + ' enter_span, leave_span, text, '
       'leave_block, _save_current_msgid')],
     'abstract interpretation of the state machine; the symbolic messages '
     'are read as Markdown and compared with the source spans')
prop('C34', 'Plaintext mode extracts the text without its markup',
     'With plaintext, each message is exactly the text a reader sees in its '
     'block: no delimiter, escape, target or title is left in it, and no '
     'word is lost or joined to another; titles of links and images are '
     'messages of their own.',
     'inputs configurations',
     'the documents of C37, with plaintext; texts arbitrary (entities are '
     'kept as written)',
     'Plaintext takes other branches of every callback; tests sample a few '
     'spans.',
     [MD2PO],
     [('plaintext branches', MD2PO + ' enter_span, leave_span, text, '
       'leave_block')],
     'abstract interpretation of the state machine; the symbolic messages '
     'are compared with the texts of the source blocks')

prop('C22', 'Events run the functions the user named',
     'Each function given for an event, as a callable, as '
     "'path.py::function' or as 'path.py::Class.method', alone or in a list, "
     'from the API or from --event, resolves to the member of that name of '
     'the module executed from that very file: not to a homonym of another '
     'imported module, which is never replaced. All the functions of an '
     'event run in the order given, and a file is executed once. A '
     'specification that can not be resolved is an error raised before '
     'anything is parsed or written.',
     'inputs configurations histories',
     'every form of specification, several functions and files, relative, '
     'nested and absolute paths, with every state of the imported modules '
     '(none, without file, same name and other file, same file)',
     'The result depends on what the process imported before; tests run in '
     'one fresh process with one file.',
     [EVENT, CLIPY],
     [('resolution', EVENT + ' parse_events_kwarg'),
      ('command line', CLIPY + ' parse_event_argument')],
     'abstract interpretation of the programs, with a symbolic module '
     'system; the identity of the functions called is checked')

prop('C23', 'Calls are independent of each other and of their arguments',
     'Calling an API function any number of times in one process gives each '
     'time the result and the effects that the call would have alone, '
     'whatever the options, documents, files and outcomes (errors included) '
     'of the calls before: nothing is remembered between calls, neither in '
     'modules nor in classes, default values or caches. The lists and '
     'dictionaries that the caller gives are not modified.',
     'histories configurations inputs',
     'every ordered pair of calls of the four API functions, with each '
     'option alone, all options, events, documents that end with pending '
     'commands, files that changed between the calls, and calls that raise',
     'Tests run each call once with fresh arguments; state that survives '
     'shows only in particular sequences of calls.',
     [MD2PO, PO2MD, HTML, MPM],
     [('construction', 'Md2Po, Po2Md, MdPo2HTML __init__'),
      ('functions', 'markdown_to_pofile, pofile_to_markdown, '
       'markdown_pofile_to_html, markdown_to_pofile_to_markdown')],
     'abstract interpretation of sequences of calls in one abstract process '
     '(modules, classes, defaults and caches are part of its state)')
prop('C24', 'Files processed together are processed as each one alone',
     'When md2po or md2po2md process several files, the messages of each '
     'file (texts, contexts, comments, locations) are those it gives when '
     'processed alone, in the order of the files, and the translations '
     'written for each file are those written when it is alone: commands '
     'that end a file pending, its disabled state, its references and its '
     'counts do not reach the next file.',
     'inputs histories configurations',
     'every pair of a first file that ends with any command pending or any '
     'kind of block, and a second file whose first message is of any kind; '
     'default, plaintext, code blocks and events',
     'Each command and kind of block would need a test with two files for '
     'each kind of block that follows.',
     [MD2PO, MPM],
     [('file loop', MD2PO + ' Md2Po.extract'),
      ('file loop', MPM + ' markdown_to_pofile_to_markdown')],
     'abstract interpretation of runs with two files, compared with the '
     'abstract runs of each file alone')

prop('C25', 'The same arguments and files give the same results',
     'The files written and their contents, the standard streams, the exit '
     'code and the values returned by any run depend only on the arguments '
     'and on the contents of the files: not on the order in which the file '
     'system lists them or in which a set is iterated (which changes from '
     'process to process), nor on the clock, random numbers or the process. '
     '(The lines of the debug mode show the time.)',
     'environments configurations',
     'every program with several files, globs, catalogues that disagree, '
     'languages and all options; two opposite orders of listings and sets',
     'Tests run where the order of listings and sets happens to be the same '
     'each time.',
     [IO, POPY, MD2PO, PO2MD, HTML, MPM] + MAINS,
     [('order of files', IO + ' filter_paths; ' + MPM +
       ' markdown_to_pofile_to_markdown')],
     'abstract interpretation of pairs of runs that differ only in the order '
     'of listings and sets; taint of the clock and random numbers')
prop('C26', 'A matched path is a path, not another pattern',
     'A file matched by a glob, a directory and a language whose names have '
     'characters special in globs ([, ], ?, *) are processed as any other: '
     'the file read, written or loaded is the one of that name, once, and '
     'not those that the name would match as a pattern. Apart from the name, '
     'the results do not depend on how files are named.',
     'inputs environments',
     'every program and kind of path, names with each special character '
     'next to files that they would match',
     'Tests give their files random names of letters and digits.',
     [IO, MD2PO, PO2MD, HTML, MPM] + MAINS,
     [('expansion', IO + ' to_files_or_content; Md2Po.__init__'),
      ('composition', MPM + ' markdown_to_pofile_to_markdown')],
     'abstract interpretation of pairs of runs that differ only in the name '
     'of a file')
prop('C29', 'References lead to the block of each message',
     'With location on, each entry that md2po extracts from files has one '
     'reference: the path of the file in which the message is first found, '
     'and the number and kind of the top-level block that contains it. '
     'Blocks are counted from 1 in each file, whatever is disabled, ignored '
     'or not extracted; blocks inside others are not counted, except a '
     'quote in a list (a message after it in the list may refer to either), '
     'nor are thematic breaks. With location off, or for a content that is '
     'not in a file, there are no references.',
     'inputs configurations',
     'block structures and sequences up to the bound, in two files, with '
     'default options, code blocks, plaintext and commands',
     'Counts go wrong in particular nestings and orders of blocks.',
     [MD2PO, 'src/mdpo/md4c.py'],
     [('counting', MD2PO + ' Md2Po.enter_block'),
      ('references', MD2PO + ' Md2Po._save_msgid')],
     'abstract interpretation of md2po on enumerated structures; references '
     'are compared with the blocks of the source events')
prop('C32', 'md2po2md does what md2po and then po2md do',
     'For each file of the glob and each language md2po2md leaves the files '
     'that md2po, saving the catalogue at the place given by the schema, and '
     'then po2md, saving the translation at its place, would leave with the '
     'same options: extensions, aliases, location, code blocks, widths, '
     'encodings, and the additional arguments of each. The places are those '
     'documented for schemas with and without {basename}, for files and '
     'directories; they are created if they do not exist.',
     'configurations histories',
     'every schema form, one and several files and languages, outputs new '
     'or already there with translations, every option and additional '
     'argument alone and together',
     'Tests look at one file with default options; an option passed to one '
     'of the two steps only goes unnoticed.',
     [MPM, MD2PO, PO2MD],
     [('composition', MPM + ' markdown_to_pofile_to_markdown')],
     'abstract interpretation of md2po2md and of the two separate programs; '
     'the files and settings are compared')

prop('C30', 'The header of a catalogue changes only in the fields given',
     'Every catalogue that md2po or md2po2md save, compile to MO, print or '
     'return has the header fields it had before, with those given by the '
     'metadata option added or updated and, with the xheader option, '
     'X-Generator naming mdpo and its version; no other field is added, '
     'changed or lost, in any mode.',
     'configurations histories',
     'catalogues with and without a header, new or from content, every way '
     'of giving fields (new, repeated in the header, several) with the API, '
     'the command line and md2po2md, in every mode',
     'Tests look at one catalogue in one mode; a header lost when a '
     'catalogue is updated is the metadata of the whole translation.',
     [MD2PO, CLIPY, MPM],
     [('metadata', MD2PO + ' Md2Po.__init__, extract'),
      ('arguments', CLIPY + ' parse_metadata_cli_arguments')],
     'abstract interpretation of md2po and md2po2md; the fields of every '
     'catalogue that comes out are compared with those expected')

prop('C31', 'Wrap widths are used as given and breaking lines keeps the text',
     'Any positive width given by API or command line is the one used for '
     'the catalogue or the Markdown output, for lists and quotes too; zero, '
     'negative and infinite widths mean no limit; other values are errors. '
     'Breaking lines in po2md never changes the document: headings, tables '
     'and code stay in their lines, and every other text is broken.',
     'inputs configurations',
     'widths from 1 up as numbers and strings, no limit in every spelling, '
     'wrong values, with every option; every block, span and structure of '
     'the fidelity documents with lines broken wherever they can be',
     'Tests wrap four documents at six widths, without headings.',
     [PO2MD, MD2PO, TEXT, MPM],
     [('wrapping', PO2MD + ' Po2Md._save_current_msgid'),
      ('parsing', TEXT + ' parse_wrapwidth_argument')],
     'abstract interpretation of the tools; widths reaching the wrapper and '
     'polib are compared with those given; the output with every line '
     'broken is read as Markdown and compared with the unbroken one')

prop('C33', 'What is ignored is left out, and nothing else',
     'With ignore_msgids, md2po gives the catalogue it gives without it less '
     'the messages that are exactly in the list, which are treated as not '
     'found in the documents; the other messages, their comments, contexts, '
     'references, order and commands are unaffected. With ignore, each tool '
     'uses the files matched but for those whose name, path, directory or '
     'name of directory is exactly in the list, in alphabetical order.',
     'inputs configurations',
     'every kind of document with each of its messages, all and none '
     'ignored, in every mode and with catalogues; ten files in seven '
     'directories and every form of naming them, for the three tools, by '
     'API and command line',
     'Tests ignore one message of one paragraph and one file; a message '
     'ignored by a wider comparison is silently untranslatable.',
     [MD2PO, IO, POPY, PO2MD, HTML],
     [('messages', MD2PO + ' Md2Po._save_msgid'),
      ('files', IO + ' filter_paths')],
     'abstract interpretation of pairs of runs, with and without the '
     'option; their catalogues and the files they read are compared')

prop('C39', 'The entries reported are those of the messages skipped or replaced',
     'After a run, the disabled entries of each tool are those of the '
     'messages that commands excluded and the translated entries of po2md '
     'are those of the messages replaced by a translation, each of them once '
     'and in order. Each entry has the text of its message and the context '
     'and the translator comment (in mdpo2html, the context) given for it, '
     'and the translated ones the translation that was used.',
     'inputs', 'every document or page made of commands and blocks in any '
     'order and number, with catalogues that translate some messages, in '
     'some contexts',
     'The tests check the texts of the entries of one document for each '
     'tool; contexts, comments and their leaks between blocks are not '
     'checked.',
     [MD2PO, PO2MD, HTML],
     [('skipped', MD2PO + ' Md2Po._save_current_msgid'),
      ('skipped and replaced', PO2MD + ' Po2Md._translate_msgid'),
      ('skipped in pages', HTML + ' MdPo2HTMLParser')],
     MGC)

prop('C27', 'No input makes the tools fail with an unexpected exception',
     'Every Markdown text, HTML page and catalogue that can be decoded is '
     'processed to its end: no input makes a tool raise anything but the '
     'errors documented.',
     'inputs', 'every text',
     'Tests use well formed documents.',
     [MD2PO, PO2MD, HTML],
     [('callbacks of the parsers', MD2PO + ' Md2Po.extract')], '')
na('C27', 'what the parsers and the catalogue library raise depends on the '
   'characters of the text, which the analysis leaves unknown; unhandled '
   'exceptions of the analysed code on every document of the clients are '
   'reported by C01-C06, C28, C29 and C36 instead')

prop('C40', 'Wrapped output fits the width where it can',
     'With a wrap width, no line of the Markdown written is longer than the '
     'width if it could be broken without changing the document.',
     'inputs', 'every text and width',
     'Tests wrap four documents at six widths.',
     [PO2MD], [('wrapping', PO2MD + ' Po2Md._save_current_msgid')], '')
na('C40', 'the length of lines is a run-time quantity of unknown texts, '
   'computed by md_ulb_pwrap with the Unicode line breaking algorithm, '
   'outside the repository; the widths and prefixes that reach it are '
   'decided by C31')

prop('C41', 'Untranslated round trips end at a fixed point',
     'Extracting a document, writing it back with the catalogue and '
     'extracting the result gives the same messages, for every text.',
     'histories inputs', 'every text',
     'Tests run one direction at a time.',
     [MD2PO, PO2MD],
     [('texts of both tools', MD2PO + ' Md2Po.text; ' + PO2MD +
       ' Po2Md.text')], '')
na('C41', 'whether characters of a text are markup once written depends on '
   'all of its neighbours (escapes, delimiter runs, lengths of backtick '
   'strings), which cannot be decided for unknown texts; C28, C35, C37 and '
   'C38 decide the parts that do not depend on the characters')

prop('C42', 'The entry checks find every failing entry in every file layout',
     'The checks of obsolete, fuzzy and untranslated entries report the '
     'location of each entry that fails them, exactly once, and nothing '
     'else, however the catalogue is laid out: with or without header, '
     'comments, references, flags, contexts or empty lines between entries, '
     'with texts in one line or several, with any end of line, and whatever '
     'comments and texts say. The exit code is that of the last check that '
     'some entry fails, or 0.',
     'inputs', 'catalogues of up to 2 (3) entries of 21 shapes, in 3 headers '
     'and 6 layouts, for the three tools with checks',
     'Tests check four catalogues written by polib.',
     [POPY], [('checks', POPY + ' check_*_in_filepaths')],
     'abstract interpretation of the command line programs on the lines of '
     'catalogues in every layout; what they report is compared with the '
     'entries laid out')

prop('C43', 'An object used again works as a new one',
     'Extracting twice with one Md2Po object, and translating several '
     'documents with one Po2Md or MdPo2HTML object, gives for each use the '
     'result, the files, the output attribute and the lists of found, '
     'disabled and translated entries that a new object gives: no text, '
     'entry, pending command, context, comment, link reference or open '
     'element of a previous document reaches the next. (The codeblocks '
     'commands of a Markdown content are kept in the include_codeblocks '
     'attribute, which can be read after an extraction.)',
     'histories',
     'pairs of documents: every command left pending and every block, in '
     'each tool, followed by documents of text, code, headings, lists and '
     'links',
     'Tests use each object once.',
     [MD2PO, PO2MD, HTML],
     [('extraction', MD2PO + ' Md2Po.extract'),
      ('translation', PO2MD + ' Po2Md.translate'),
      ('pages', HTML + ' MdPo2HTML.translate')],
     'abstract interpretation of two uses of one object in the same abstract '
     'process, compared with one use of a new object')
