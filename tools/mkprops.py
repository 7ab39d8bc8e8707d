#!/usr/bin/env python3
""" Writes /verif/properties.jsonl (kept as code because JSON lines are unreadable) """
import json, os
P = []
def prop (id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len (title) <= 80, (id, len (title))
    P.append (dict (id=id, title=title, statement=statement,
        quantifier=dict (over=over, text=text), why_tests_cant=why,
        anchors=dict (files=files,
            mechanism=[dict (name=n, where=w) for n, w in mechanism],
            state=[dict (name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

prop ('C01', 'Typing a text is lossless and always uses the longest match',
    'For every layout and every text, typing the text yields an ordered event sequence whose matched strings and skipped characters concatenate to exactly that text. '
    'At every position the longest string the layout can produce is matched, by a button combination the layout maps to exactly that string, and a character is skipped only if no string of the layout starts there. '
    'The events do not depend on how the input stream splits the text into reads.',
    ['inputs', 'configurations', 'schedules'], 'all texts, all layouts (shipped and user supplied, including overlapping multi-character strings and the empty layout), all splits of the text into reads',
    'The tests type two strings of four and three single-character keys on one layout from a StringIO; they never reach multi-character strings, buffer boundaries, overlapping prefixes or short reads.',
    ['lulua/writer.py', 'lulua/layout.py'],
    [('incremental buffer refilled to the longest string of the layout, longest-prefix trie lookup', 'lulua/writer.py Writer.type, lulua/layout.py KeyboardLayout.__call__')],
    ['Writer.type'], [('buf', 'not yet consumed characters', 'lulua/writer.py')])

prop ('C02', 'The writer always chooses the best combination among alternatives',
    'If a string can be typed by several button combinations the writer takes one with the fewest buttons; among those, one whose buttons are spread most evenly over both hands; among those, one whose main button best alternates with the hand used by the previously typed combination (the hand of its modifier, if it had one); remaining ties, and the very first choice, go to the combination listed first in the layout. '
    'The choice is a function of the alternatives and of the combination typed last only: skipped characters and earlier history do not influence it. '
    'Every button of the keyboard is assigned to exactly one hand and finger, left and right hand halves accordingly.',
    ['inputs', 'histories', 'configurations'], 'all alternatives of all strings of all layouts, all previous combinations, all histories of typed and skipped characters',
    'Eight hand-picked situations are tested directly on the selection function; the interaction with typing history and the full alternatives x history product is not.',
    ['lulua/writer.py', 'lulua/layout.py'],
    [('lexicographic effort of (number of keys, balance, balance with previous)', 'lulua/writer.py Writer.chooseCombination'), ('last combination remembered on press', 'lulua/writer.py Writer.press'), ('finger map', 'lulua/writer.py defaultFingermap')],
    ['Writer.chooseCombination', 'Writer.type'], [('lastCombination', 'combination typed last', 'lulua/writer.py Writer')])

prop ('C03', 'Button, combination, unknown and triad counts match the event stream',
    'For every sequence of typing events, each press of a combination counts the combination once and each of its buttons (modifiers included) once, and each skipped character is counted once under that character. '
    'Triads are exactly the windows of three successive combinations, ignoring those whose main button is space, return or tab, within a stretch of typing not interrupted by a skipped character, each counted once per occurrence. '
    'Anything that is neither a combination nor a skip is rejected and changes nothing.',
    ['histories', 'inputs'], 'all event sequences (typed combinations from any layer and hand, whitespace, skips) of any length',
    'The tests feed a handful of identical events; mixed sequences, whitespace inside windows and resets at other positions than the window edge are never run.',
    ['lulua/stats.py'],
    [('per-event accumulation', 'lulua/stats.py SimpleStats.process, TriadStats.process')],
    ['SimpleStats.buttons/combinations/unknown', 'TriadStats.triads'], [('_triad', 'sliding window', 'lulua/stats.py TriadStats')])

prop ('C04', 'Word and run-length statistics match the event stream',
    'For every sequence of typing events, the word statistics count exactly the maximal runs of letters (Unicode Lo) and non-spacing marks (Mn) in the typed text that are ended by another typed character; a run interrupted by a skipped character is not a word. '
    'The run-length statistics count, per hand and per finger, exactly the maximal runs of successive combinations whose main button is pressed by that same hand (that same finger), under that hand (finger) and with their length, once the next combination uses another hand (finger); a run interrupted by a skipped character is not counted.',
    ['histories', 'inputs'], 'all event sequences of any length',
    'Word and run-length statistics are only tested for rejecting invalid values and for being empty after one skip.',
    ['lulua/stats.py'],
    [('current word/run state machine', 'lulua/stats.py WordStats.process, RunlenStats.process')],
    ['WordStats.words', 'RunlenStats.perHandRunlenDist', 'RunlenStats.fingerRunlenDist'],
    [('_currentWord', 'letters of the unfinished word', 'lulua/stats.py WordStats'), ('lastHand/curPerHandRunlen', 'unfinished run', 'lulua/stats.py RunlenStats')])

prop ('C05', 'Merging statistics is exact, order-free and leaves its sources alone',
    'Merging statistics adds all counts of all kinds (buttons, combinations, unknown characters, triads, words, hand and finger run lengths) exactly, whatever the order, grouping or number of merges, with the statistics of nothing as identity; combining a stream of stored results therefore equals the counts of all of them together, however the corpus was split into texts and results. '
    'A merge never changes the statistics merged from, and statistics compare equal exactly when all their counts are equal.',
    ['histories', 'inputs', 'schedules'], 'all collections of statistics, all orders, groupings and splits, any further use of source or target after a merge',
    'One merge of one statistic into an empty one is tested; no test merges into non-empty statistics, merges twice, or uses the source afterwards.',
    ['lulua/stats.py'],
    [('recursive dictionary addition', 'lulua/stats.py updateDictOp'), ('per-class update and equality', 'lulua/stats.py *.update, *.__eq__'), ('lulua-analyze combine', 'lulua/stats.py combine, unpickleAll, makeCombined')],
    ['Stats.update', 'Stats.__eq__', 'lulua-analyze combine'])

prop ('C06', 'Stored statistics keep their meaning in every other process',
    'Statistics, layouts and button combinations written by one process and read by another denote the same named buttons with the same counts, whichever keyboards either process loaded, in whichever order, before or after reading. '
    'Loaded combinations equal, hash like and can be looked up and merged with those the reading process built itself, and a button is identified by its name alone, however many button objects carry that name.',
    ['histories', 'configurations'], 'all orders of loading keyboards and reading results in the writing and in the reading process',
    'No test serialises anything across processes; the button identity test creates three buttons in one process.',
    ['lulua/keyboard.py', 'lulua/layout.py', 'lulua/stats.py'],
    [('name to id table and pickling of buttons', 'lulua/keyboard.py Button'), ('hash recomputed when loading', 'lulua/layout.py ButtonCombination.__setstate__')],
    ['pickle streams between lulua-write, lulua-analyze and lulua-optimize'],
    [('Button._nameToId/_idToName', 'process-local button numbers', 'lulua/keyboard.py')])

prop ('C07', 'Parallel corpus import equals sequential import under every schedule',
    'For every input, number of workers and scheduling of the worker, status and main processes and their queues, the corpus import command terminates and its combined output equals the statistics of processing every input item exactly once, in sequence. '
    'Workers that processed no item write nothing, all processes are ended before the command returns, and the exit status is success.',
    ['schedules', 'inputs', 'configurations'], 'all interleavings of main, worker and status processes and of the asynchronous queue feeders, all inputs, all job counts',
    'The command is not tested at all; scheduling is chosen by the operating system.',
    ['lulua/text.py', 'lulua/stats.py'],
    [('bounded queues, one end marker per worker, one result per worker', 'lulua/text.py write, writeWorker, statusWorker')],
    ['stdout of lulua-write', 'exit status'], [('inq/outq/statusq', 'bounded multiprocessing queues', 'lulua/text.py write')])

prop ('C08', 'Corpus import never hangs on or hides a failure or an interrupt',
    'If processing any input item raises an error, then under every schedule and number of workers the corpus import command terminates and reports that error instead of success, also if its input goes on and on. '
    'If the user interrupts it (the interrupt reaches the whole process group), while reading its input, it stops reading, terminates, and writes results that cover exactly the items handed out before the interrupt, each once.',
    ['schedules', 'fault_sequences', 'inputs'], 'all positions and numbers of failing items, all interrupt points, all interleavings',
    'No test runs the command; the failures need particular queue states.',
    ['lulua/text.py'],
    [('errors sent through the result queue, checked after every item', 'lulua/text.py write, writeWorker'), ('KeyboardInterrupt handling', 'lulua/text.py write')],
    ['exit status and stdout of lulua-write'])

prop ('C09', 'Containers are unpacked exactly, for every read size, or rejected',
    'Reading a Brotli-compressed corpus file delivers exactly the compressed bytes in order, for every sequence of read sizes (including read-everything), every internal chunk size and every amount the underlying file returns per read. '
    'Unpacking a tar archive delivers exactly the contents of its non-empty regular files, in archive order, whatever their sizes and names and whatever other members are in between. '
    'A truncated Brotli stream, or one whose corruption Brotli can detect, ends with an error, never with endless waiting or invented data; so does a tar archive cut off within a file, whose incomplete content is never delivered.',
    ['inputs', 'schedules', 'fault_sequences'], 'all contents, all read-size histories, all chunkings, all truncation points, all member sequences',
    'One 11-byte string is read with one pattern of two reads; the tar reader has no test.',
    ['lulua/text.py'],
    [('decompressor loop with carry-over buffer', 'lulua/text.py BrotliFile.read'), ('512-byte block arithmetic', 'lulua/text.py filterTar'), ('filter chaining', 'lulua/text.py apply')],
    ['filters brotli, tar, file, text of lulua-write'], [('buf', 'decompressed but unread bytes', 'lulua/text.py BrotliFile')])

prop ('C10', 'Document filters extract exactly the readable text, in order',
    'The news site filters deliver exactly the text below the selected article containers, in document order, without scripts, styles, comments and anything outside, with each run of white space between elements becoming one space and a blank line after every paragraph and block; entities are decoded. '
    'The TEI, subtitle, EPUB, plain text, JSON, line and wiki dump readers deliver every sentence, subtitle, chapter, text, string, line or page exactly once, unmodified and in order. '
    'An invalid XML document is skipped without affecting the documents before and after it.',
    ['inputs', 'histories'], 'all documents of any nesting, all sequences of documents',
    'One HTML snippet is serialised without selection; selection and all other readers have no test.',
    ['lulua/text.py'],
    [('depth counting token filter', 'lulua/text.py Select'), ('serializer', 'lulua/text.py HTMLSerializer'), ('XML readers', 'lulua/text.py filterTEI2, filterOpenSubtitles, filterXml, extractMediawiki')],
    ['filters of lulua-write', 'lulua-extract-mediawiki'], [('inside/isScript', 'nesting depth in the selected element / in a script', 'lulua/text.py Select')])

prop ('C11', 'Character mapping before typing changes only what it must',
    'Before typing, exactly the lam-alef presentation forms (U+FEFB, FEF7, FEF9), the precomposed letters U+0622 to 0626, ASCII digits, the punctuation with an Arabic equivalent (comma, semicolon, question mark, percent sign) and no-break space are replaced by their equivalent (letters, Arabic-Indic digits and punctuation, space) and CR LF becomes a single line feed; every other character, in any context, is kept unchanged and in place. '
    'Precomposed letters are replaced by their canonical decomposition, the mapping is applied character by character, and applying it twice changes nothing further.',
    ['inputs'], 'all texts over all of Unicode',
    'The test compares the mapping table with itself; it does not notice wrong table entries or unmapped characters being changed.',
    ['lulua/text.py'],
    [('translation table', 'lulua/text.py charMap'), ('per-character mapping', 'lulua/text.py mapChars'), ('line ending conversion', 'lulua/text.py writeWorker')],
    ['mapChars', 'statistics produced by lulua-write'])

prop ('C12', 'Typing effort of every triad follows the carpalx model',
    'For every triad of combinations of buttons the model gives an effort for, and for every model, the effort is the weighted sum of base effort, penalty and stroke path: base effort and penalty combine the three strokes through the nested products of the model, where a stroke costs the sum over its buttons plus a fixed surcharge for every further simultaneous button, and penalties depend on hand, row and finger. '
    'The stroke path is the smallest, over all ways to pick one button per stroke, of the weighted hand, row and finger categories of the carpalx definition (hand alternation, row progression and jumps, finger monotony, rolling and key repetition); every triad has a category. '
    'The weights and key efforts are the published ones.',
    ['inputs', 'configurations'], 'all triads of buttons and of modifier combinations, all model parameters',
    'About 40 stroke paths are sampled for a single component each; no effort value is ever checked (the only test uses an all-zero model without triads).',
    ['lulua/carpalx.py', 'lulua/writer.py', 'lulua/keyboard.py'],
    [('effort formula and categories', 'lulua/carpalx.py Carpalx'), ('model parameters', 'lulua/carpalx.py models')],
    ['Carpalx.effort after Carpalx.addTriad'])

prop ('C13', 'Accumulated effort is exact after any history of updates',
    'After any history of adding, removing, resetting and copying, the effort is the weight-averaged effort of the triads currently contained, zero if the total weight is zero, as if computed from scratch. '
    'A copy and its original do not influence each other afterwards, and neither repetition, order nor previously evaluated triads (of this or any other instance) change a value.',
    ['histories'], 'all sequences of add, remove, bulk add, reset and copy over several instances',
    'No test adds a triad.',
    ['lulua/carpalx.py'],
    [('running sums', 'lulua/carpalx.py Carpalx.addTriad/removeTriad/reset/copy/effort'), ('shared memo table', 'lulua/carpalx.py Carpalx._cache')],
    ['Carpalx.effort', 'Carpalx.N'], [('_cache', 'triad to effort, shared by copies', 'lulua/carpalx.py')])

prop ('C14', 'Annealing returns the best accepted state and its exact energy',
    'For every sequence of mutations and energy changes, a mutation is kept if it lowers the energy or if its size relative to the largest change so far (if there was any) is below the cooling threshold ten to the minus six times progress; otherwise the previous state is restored completely. '
    'The returned state is the lowest-energy state among the start and all kept states (the earliest of equals), as it was when it was reached, together with its energy relative to the start; it is never worse than the start and later mutations never change it.',
    ['histories', 'inputs'], 'all sequences of mutation outcomes and all step counts',
    'One single improving step is tested; rejection, restoring, kept deteriorations and aliasing of the best state are not.',
    ['lulua/optimize.py'],
    [('accept/restore loop with copies', 'lulua/optimize.py Annealer.run')],
    ['result of Annealer.run', 'Annealer.state', 'Annealer.best'], [('best', 'best state and relative energy', 'lulua/optimize.py Annealer')])

prop ('C15', 'An optimised layout is a pinned permutation and reports its own energy',
    'For every random history, the optimised layout has the same modifiers and contains every string of every letter key of the original exactly once, all non-letter and modifier keys unchanged; pinned keys stay in place, keys of pinned layers stay on their layer, and explicitly requested swaps are applied. '
    'During the search the incrementally maintained effort always equals the effort of all triads under the current assignment. '
    'The energy reported for the result is the effort of the emitted layout for the given triads and is not higher than that of the layout the search started from. Positions of a layer with several modifier sets count with the first of them. An interrupted search emits no layout and does not report success.',
    ['histories', 'inputs', 'configurations'], 'all sequences of random choices, all pins, mutations, layouts, triad weights and step counts',
    'The optimiser is not tested beyond a dummy annealer; its behaviour depends on random choices.',
    ['lulua/optimize.py', 'lulua/carpalx.py'],
    [('swap with incremental removal and re-adding of affected triads', 'lulua/optimize.py LayoutOptimizer.mutate'), ('pin test', 'lulua/optimize.py LayoutOptimizer._acceptMutation, parsePin'), ('layout reconstruction', 'lulua/optimize.py optimize')],
    ['stdout of lulua-optimize', 'LayoutOptimizer.energy'], [('buttonMap', 'original position to current position', 'lulua/optimize.py LayoutOptimizerState')])

prop ('C16', 'Layouts and keyboards survive lookup and serialisation unchanged',
    'For every layout, adapting it to a keyboard keeps every layer, modifier and string: looking up a combination gives its string, looking up a string gives exactly the combinations that type it (one per position and modifier of the layer), and modifier and button queries agree with the layers. '
    'Serialising and deserialising layouts and keyboards in any order and number gives equal objects and changes neither the objects nor the data involved; copies are equal and independent. '
    'Every button is found by its name and belongs to the row it is listed in.',
    ['configurations', 'histories', 'inputs'], 'all layouts and keyboards, all sequences of serialise, deserialise, copy and lookup',
    'Round trips are tested once per shipped file; repeated serialisation, use after serialisation, copying and user supplied layouts are not.',
    ['lulua/layout.py', 'lulua/keyboard.py'],
    [('trie and modifier tables', 'lulua/layout.py KeyboardLayout.__init__'), ('serialize/deserialize', 'lulua/layout.py GenericLayout, lulua/keyboard.py Button, PhysicalKeyboard')],
    ['KeyboardLayout, GenericLayout, PhysicalKeyboard, Button API'])

prop ('C17', 'Layout and keyboard names resolve the same way every time',
    'A layout or keyboard name resolves to the file of that name if there is one, otherwise to the packaged resource of that name with or without the .yaml extension, and otherwise fails with a key error naming it; directories or other resources with similar names do not matter. '
    'Iterating yields every packaged resource exactly once and ignores local files. '
    'Every load returns an independent object.',
    ['configurations', 'histories'], 'all names and all combinations of local files, directories and packaged resources',
    'Tests load one existing and one missing name without any local files.',
    ['lulua/util.py', 'lulua/keyboard.py', 'lulua/layout.py'],
    [('ordered list of openers', 'lulua/util.py YamlLoader')],
    ['defaultLayouts[...], defaultKeyboards[...], -l and -k options'])

prop ('C18', 'Exported keyboard definitions type exactly what the layout says',
    'For every layout an export format can express, interpreting the exported file (X11 xmodmap, Keyman, macOS keylayout, AnySoftKeyboard, Klavaro) gives for every key and layer exactly the string of the layout (composed form where the format needs single characters), assigns nothing to keys the layout leaves empty, and makes exactly the layer modifiers of the layout modifiers (where the format has them). '
    'XML exports are well-formed, control characters are representable, and the Android export ends with working return, space and backspace keys. '
    'Key codes are those the platform uses for the physical key (Keyman: the key names of a US keyboard at that place). Different physical keys have different key codes on every platform, except for the divided space bar and Keyman, which has one name for both shift keys.',
    ['configurations', 'inputs'], 'all layouts, keys, layers and export formats',
    'The exporters have no tests; the build only checks that two of them run for one layout.',
    ['lulua/render.py', 'lulua/data/keyboards/ibmpc105.yaml'],
    [('per-format writers', 'lulua/render.py renderXmodmap, renderKeyman, renderKeylayout, renderAsk, renderKlavaro')],
    ['files written by lulua-render'])

prop ('C19', 'The generated Windows driver types exactly what the layout says',
    'Evaluating the tables of the generated Windows driver the way Windows does gives, for every scancode and every set of held modifier keys that selects a layer, exactly the character of the layout on that key and layer (line feed as carriage return), nothing for empty positions, and no character for modifier sets that select no layer. '
    'Key and name tables are complete, sorted and properly terminated, the standard keys keep their virtual key codes, and strings that do not fit a single character are refused.',
    ['inputs', 'configurations'], 'all scancodes, all sets of held modifiers, all character maps',
    'The driver generator has no tests; the build only checks that the C file compiles.',
    ['lulua/winkbd.py', 'lulua/render.py'],
    [('table generators', 'lulua/winkbd.py makeDriverSources'), ('scancode and layer assignment', 'lulua/render.py renderWinKbd')],
    ['keyboard.c written by lulua-render winkbd, makeDriverSources'])

prop ('C20', 'The rendered keyboard shows every key and string once, without overlap',
    'For every layout and keyboard, the SVG rendering draws every button exactly once at its row and in order, with its proportional width, inside the picture and without overlapping another, and labels it with exactly the display form of its string in every layer (or the layer arrow if it is a modifier) in the corner belonging to that layer. '
    'Buttons without text are marked unused, marked buttons get their marker, fingers and hands are labelled as used for typing, and a heat map highlights each button in proportion to its count relative to the maximum.',
    ['configurations', 'inputs'], 'all layouts, keyboards and heat maps',
    'Rendering has no tests (the fonts it embeds are not in the repository).',
    ['lulua/render.py', 'lulua/util.py'],
    [('position calculation and drawing', 'lulua/render.py Renderer')],
    ['SVG written by lulua-render svg'])

prop ('C21', 'KLC import keeps every key and character at its position',
    'Importing a Microsoft Keyboard Layout Creator file yields a layout that can be loaded on the standard keyboard and in which every character of the file is found, canonically decomposed, on the physical button of its virtual key and on the layer of the shift state its column belongs to (base, shift, control, shift and control, AltGr, shift and AltGr), whichever of them the file uses; different virtual keys go to different buttons. '
    'Absent entries, comments, other sections and keys without a button change nothing. Dead keys are not covered.',
    ['inputs'], 'all KLC files',
    'The importer has no test.',
    ['lulua/layout.py'],
    [('line parser and virtual key table', 'lulua/layout.py GenericLayout.fromKlc, importKlc')],
    ['YAML written by lulua-import'])

prop ('C22', 'Every analysis output agrees with the statistics it was given',
    'For all statistics of any layout, the heat map lists every pressed button with its count and the total; layout statistics give hand and finger presses, asymmetry and hamza shares; the triad list contains the most frequent text triads up to the cutoff, with summed weight and average effort, in the requested order and number; cumulative triad data is monotone, follows the triads from the most to the least frequent one and ends at one (if there is any effort), and the plot shows that of every layout; letter frequencies are the shares of each letter; the word list gives every word with its logarithmic frequency; corpus statistics give numbers of characters and words; the printed summary gives the totals and lists every button, combination, unknown character, hand run length, triad and word with its count. '
    'Positions typing the same text are counted together, and statistics without letters, hamzas or alefs are handled without failing.',
    ['inputs', 'configurations'], 'all statistics, options and layouts',
    'None of the analysis commands is tested.',
    ['lulua/stats.py', 'lulua/plot.py'],
    [('analysis commands', 'lulua/stats.py keyHeatmap, layoutstats, latinImeDict, corpusStats, pretty; lulua/plot.py letterfreq, triadfreq, triadEffortData, triadEffortPlot')],
    ['stdout of lulua-analyze'])

prop ('C23', 'Report numbers are rounded, scaled and localised faithfully',
    'Approximated numbers equal the original divided by the power of a thousand of their unit, rounded to one decimal, and stay below 1000 except in the largest unit, in both languages and on every call; fractions are the closest ones with a denominator up to the limit; Arabic number formatting replaces exactly the ASCII digits and separators, figure space formatting exactly the spaces. '
    'The report shows the numbers of every corpus, the sums of words and characters of all corpora and the values of every layout it was given, in both languages, however the corpora are distributed over files, and also if hands or fingers are not used at all.',
    ['inputs', 'histories'], 'all numbers, all strings, all call histories, all sets of corpora and layouts',
    'About a dozen English values of one function are tested.',
    ['lulua/report.py', 'lulua/data/report/index.html'],
    [('formatting filters', 'lulua/report.py approx, fraction, numspace, arabnum'), ('template', 'lulua/report.py render')],
    ['stdout of lulua-report'])

prop ('C24', 'Display text makes marks, invisible and white space characters visible',
    'For every non-empty string: one consisting of combining marks only is shown on a dotted circle, a single format control character is shown as the bracketed initials of its Unicode name without the word TO, tab, line feed, space, backspace and narrow no-break space are shown as their symbols, and every other string is shown unchanged; no text stays no text. '
    'Different single characters of a layout never share a display form unless they are control characters with the same initials.',
    ['inputs'], 'all strings over all of Unicode',
    'Four strings are tested, and only for their first character.',
    ['lulua/util.py'],
    [('case distinction on Unicode properties', 'lulua/util.py displayText')],
    ['displayText', 'labels of rendered layouts'])

prop ('C25', 'The documented pipelines turn corpora into exactly the statistics of their texts',
    'For every corpus stored in one of the documented formats, importing it with the documented filters, combining the results and running the analysis commands and the report on them yields the numbers of the texts in the corpus: '
    'the combined statistics are the sum of the counts of typing each extracted text (characters mapped, each text starting with a fresh writer), and heat map, layout statistics, letter frequencies, word list, corpus statistics, triad lists, cumulative effort and report show these very counts. '
    'This does not depend on how documents are distributed over archives, books, files and lines, on the number of workers, or on combining in one or several stages, and also holds for any other keyboard and layout selected by name or file.',
    ['inputs', 'configurations', 'schedules'], 'all corpora in all documented formats, all distributions over files, all numbers of workers, all layouts',
    'No test runs a pipeline; commands are tested, if at all, one by one with made-up inputs, so disagreements between them (a document dropped, counted twice or continued into the next one) go unnoticed.',
    ['lulua/text.py', 'lulua/stats.py', 'lulua/report.py', 'gen.sh'],
    [('filter chain applied to every input line, texts typed one by one', 'lulua/text.py apply, writeWorker, write'), ('combination of stored results', 'lulua/stats.py unpickleAll, combine'), ('analysis commands', 'lulua/stats.py, lulua/plot.py'), ('report', 'lulua/report.py render')],
    ['output of lulua-write, lulua-analyze, lulua-report'])

with open (os.path.join (os.path.dirname (os.path.dirname (os.path.abspath (__file__))), 'properties.jsonl'), 'w') as fd:
    for p in P:
        fd.write (json.dumps (p, ensure_ascii=False) + '\n')
