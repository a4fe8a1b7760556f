#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Typing splits any text losslessly into longest matches and skips',
 'Typing any text on any layout that can type at least one text splits the input, in order and without losing or inventing a character, into pieces. Each piece is either the longest text of the layout that matches at that position, reported together with one of the key combinations that type exactly that text, or a single character reported as skipped; a character is skipped only where no text of the layout matches. Typing a text never raises an error for layouts on the standard keyboard.',
 ['inputs','configurations'],'every input text of any length and content, every layout (any set of non-empty texts, any longest-text length)',
 'tests type a few fixed strings on one layout; neither multi-character look-ahead at every buffer boundary nor arbitrary layouts are covered',
 ['lulua/writer.py','lulua/layout.py'],[('Writer.type buffer refill and consumption','lulua/writer.py'),('KeyboardLayout.__call__ longest prefix','lulua/layout.py')],['Writer.type'],
 [('buf','look-ahead buffer, never longer than the longest text of the layout','Writer.type')])
p('C02','Layout lookup by text and by combination agree with the layout definition',
 'For every layout whose layers have pairwise different modifiers and non-empty texts, looking up an input returns the longest typable prefix together with exactly the combinations (every modifier alternative of every layer times the button) the definition assigns to that text, and fails with a key error exactly if no typable text is a prefix. The text, layer and modifier queries for a combination return what the definition says, also after specialising a generic layout for a keyboard, which replaces every button name by the keyboard button of that name and nothing else. Copying a layout gives an equal, independent layout for the same keyboard.',
 ['inputs','configurations'],'every layout definition and every lookup input',
 'tests look up a handful of keys of the shipped layouts',
 ['lulua/layout.py'],[('trie and modifier table construction','KeyboardLayout.__init__'),('GenericLayout.specialize','lulua/layout.py')],['KeyboardLayout.__call__','getText','getButtonText','modifierToLayer','isModifier','specialize','copy'],
 [('trie / modifier table','derived indices of the layer list','KeyboardLayout')])
p('C03','The combination chosen to type a text is optimal and deterministic',
 'When several combinations type the same text, the writer uses the one with the fewest keys, then with the most even distribution over both hands, then with the most even distribution over hands between the previously pressed keys (its modifiers if it had any, otherwise its button) and the new button; ties go to the first alternative. Without a previous combination the last criterion is a constant. Hands are those of the standard ten-finger assignment, and a single alternative is always used as is.',
 ['inputs','histories'],'every non-empty list of alternatives (each with fewer than 128 keys) and every previously pressed combination',
 'tests check a few shift/space examples on one layout',
 ['lulua/writer.py'],[('chooseCombination score packing','lulua/writer.py')],['Writer.chooseCombination','Writer.press','Writer.type'],
 [('lastCombination','previously pressed combination','Writer')])
p('C04','Button, combination and unknown-character counts are exact',
 'After any sequence of typing events the simple statistics hold, for every combination, every button (pressed as modifier or as key) and every skipped character, exactly the number of times it occurred, and nothing else. Anything that is not a typing event is rejected with a ValueError and changes nothing.',
 ['histories'],'every finite sequence of key-combination and skip events',
 'tests process two events',
 ['lulua/stats.py'],[('SimpleStats.process','lulua/stats.py')],['SimpleStats.buttons','SimpleStats.combinations','SimpleStats.unknown'])
p('C05','Triad counts are exactly the sliding windows of three relevant presses',
 'After any sequence of typing events the triad statistics count every window of three consecutive combinations, each exactly as often as it occurred, where presses of space, return and tab are left out of the sequence and a skipped character separates it, so that no window spans a skip. Anything that is not a typing event is rejected with a ValueError.',
 ['histories'],'every finite sequence of single-button combinations and skip events',
 'tests use one combination repeated a few times; mixed windows, ignored keys and resets in every phase are not reached',
 ['lulua/stats.py'],[('TriadStats.process window','lulua/stats.py')],['TriadStats.triads'],[('_triad','last up to three relevant combinations since the last skip','TriadStats')])
p('C06','Run lengths per hand and per finger count exactly the completed runs',
 'After any sequence of typing events the run-length statistics hold, per hand and per finger, how many maximal uninterrupted runs of each length were completed by a press of a different hand or finger; a run is attributed to the hand or finger that typed it. A run cut off by a skipped character or by the end of the events is not counted.',
 ['histories'],'every finite sequence of single-button combinations and skip events',
 'tests never look at the run-length tables',
 ['lulua/stats.py'],[('RunlenStats.process','lulua/stats.py')],['RunlenStats.perHandRunlenDist','RunlenStats.fingerRunlenDist'],[('current run','hand, finger and length of the run in progress','RunlenStats')])
p('C07','Word counts are exactly the maximal letter runs ended by a delimiter',
 'After any sequence of typing events the word statistics count exactly the maximal runs of letters and non-spacing marks (unicode categories Lo and Mn) in the typed text that are ended by a typed character of another category. A skipped character discards the word in progress, and a word that is not ended is not counted.',
 ['histories','inputs'],'every finite sequence of combinations (with texts of any length) and skip events',
 'tests never look at the word table',
 ['lulua/stats.py'],[('WordStats.process','lulua/stats.py')],['WordStats.words'],[('_currentWord','letters since the last delimiter or skip','WordStats')])
p('C08','Merging statistics adds all counts and leaves the source unchanged',
 'Merging statistics into another of the same kind makes every count of the target (buttons, combinations, unknown characters, triads, words, hand and finger runs) the sum of both counts and leaves the merged-in statistics unchanged. Merging is therefore independent of order and grouping, and combining a stream of saved results equals the counts over all of them.',
 ['inputs','histories'],'every pair of statistics of one kind, every sequence and grouping of merges',
 'tests merge two-entry dictionaries and a single-event statistic',
 ['lulua/stats.py'],[('updateDictOp and the update methods','lulua/stats.py'),('combine','lulua/stats.py')],['Stats.update','updateDictOp','lulua-analyze combine'])
p('C09','Stroke path classification is total and follows the carpalx tables',
 'For every triad of buttons the stroke path is defined and equals the classification published for carpalx: hand (both hands without alternation, alternating, same hand), row (eight classes of row progression) and finger (eight classes of finger progression with and without key repeat). No triad of rows, hands and fingers is left unclassified.',
 ['inputs'],'every triad of buttons with any hand, finger and row',
 'tests cover a list of example triads on one keyboard',
 ['lulua/carpalx.py'],[('_strokePathHand/_strokePathRow/_strokePathFinger','lulua/carpalx.py')],['Carpalx.addTriad','Carpalx.effort'])
p('C10','Triad effort equals the carpalx formula and ignores what was computed before',
 'The effort of a triad is the weighted sum of base effort, penalty and stroke path with the published model parameters, where base effort and penalty combine the three combinations by the nested carpalx formula with an extra cost per additional simultaneous key, and the stroke path is the cheapest over all choices of one key per combination. The value depends only on triad, model, keyboard and fingers: it is the same whether or not the triad, or any other, was evaluated before, in this instance or in a copy.',
 ['inputs','histories','configurations'],'every triad of combinations with any number of keys, every model, every evaluation history',
 'tests compare a few triads with hand-computed values',
 ['lulua/carpalx.py'],[('_triadEffort, _baseEffort, _penalty, cache','lulua/carpalx.py')],['Carpalx.addTriad','Carpalx.effort'],[('_cache','memoised triad efforts, shared by copies','Carpalx')])
p('C11','Accumulated effort is the weighted mean over the triads currently included',
 'After any sequence of adding, removing and resetting, the reported effort is the sum of weight times triad effort divided by the sum of weights over what is currently included, and 0 if the weights sum to zero. Adding a table of triads equals adding each entry once, removing undoes adding, and a copy starts with the same effort and evolves independently of the original.',
 ['histories'],'every sequence of add, remove, reset and copy with any weights (exact arithmetic)',
 'tests add one or two triads',
 ['lulua/carpalx.py'],[('addTriad/removeTriad/addTriads/reset/copy/effort','lulua/carpalx.py')],['Carpalx.effort'],[('absEffort, N','weighted sum and sum of weights','Carpalx')])
p('C12','Annealing returns the best state visited with its exact energy change',
 'For every number of steps and every sequence of mutations, the annealer returns a copy of the state with the lowest energy among the initial state and all states it accepted, together with the sum of the energy changes that led to it, which is never positive. A mutation that lowers the energy is always kept; a rejected mutation restores the state that was current before it, completely, and later mutations never change a state already remembered as best.',
 ['histories','inputs'],'every number of steps, every state type with an independent copy, every sequence of energy changes',
 'tests run one short deterministic annealing',
 ['lulua/optimize.py'],[('Annealer.run accept/restore/best','lulua/optimize.py')],['Annealer.run'],[('state, best','current state and best copy','Annealer')])
p('C13','Optimizer mutations permute the keys and never violate a pin',
 'After any number of mutations the button map is still a one-to-one map of the same set of layer-and-button slots onto itself. A pinned slot keeps its assignment and a key of a pinned layer never leaves that layer; everything else changes only by swapping two different slots per mutation.',
 ['histories','configurations'],'every initial button map, every set of pins, every sequence of random choices',
 'tests do a few random mutations on one layout',
 ['lulua/optimize.py'],[('_acceptMutation, mutate swap','lulua/optimize.py')],['LayoutOptimizer.mutate','LayoutOptimizer.state'],[('buttonMap','slot to slot permutation','LayoutOptimizerState')])
p('C14','Incrementally updated energy equals recomputation from scratch',
 'Starting from a computed initial energy, after every mutation the optimizer’s energy equals the effort of all triads mapped through the current button map, computed from scratch, and the change it returns is the difference of the energies before and after (in exact arithmetic). This holds for triads that use a swapped slot several times or use both swapped slots, and for weights of any size.',
 ['histories','inputs'],'every triad list, every button map and every sequence of mutations',
 'one test compares a few mutations on one layout and one random seed',
 ['lulua/optimize.py','lulua/carpalx.py'],[('stateToTriad index, remove/swap/add in mutate','lulua/optimize.py'),('_resetEnergy','lulua/optimize.py')],['LayoutOptimizer.mutate','LayoutOptimizer.energy'],[('stateToTriad','slot to indices of triads using it','LayoutOptimizer')])
p('C15','The optimizer emits a complete rearrangement with its true energy',
 'For every layout, keyboard, pin and mutation option the layout emitted by the optimizer command holds exactly the texts of the input layout, each moved to the slot the optimal map assigns to it and none lost or duplicated, with the modifiers unchanged; keys that are no letter keys or are modifiers keep their texts. The reported energy is the effort of the most frequent triads (as many as requested) on the emitted layout.',
 ['inputs','configurations','histories'],'every shipped layout, statistics file and option combination',
 'the command is not run by any test',
 ['lulua/optimize.py'],[('optimize() output construction','lulua/optimize.py')],['lulua-optimize'])
p('C16','Buttons are identified by name, also across processes',
 'Two buttons are equal (and hash alike) exactly if they have the same name, whatever their other attributes and in whatever order buttons were created. Buttons, combinations and statistics saved by one process and loaded by another have the same names, attributes and counts, no matter which keyboards either process loaded before; combinations are equal exactly if their modifier and button sets are equal.',
 ['histories','inputs'],'every order of creating and loading buttons in the saving and in the loading process',
 'tests create buttons in one process only',
 ['lulua/keyboard.py','lulua/layout.py'],[('name to id table, __eq__/__hash__/__reduce__','lulua/keyboard.py'),('ButtonCombination.__setstate__','lulua/layout.py')],['Button','ButtonCombination','pickle'],[('name/id tables','process-local interning of names','Button')])
p('C17','Keyboards and layouts survive (de)serialisation, without side effects',
 'Deserialising a keyboard or generic layout and serialising it again gives data equivalent to the original (up to defaults), and deserialising that gives an equal object. Neither operation modifies its input or the object, so both can be repeated any number of times, in any order, with the same result.',
 ['inputs','histories'],'every keyboard and layout description, every sequence of serialise and deserialise calls',
 'tests round-trip only the shipped data once',
 ['lulua/keyboard.py','lulua/layout.py'],[('serialize/deserialize','lulua/keyboard.py'),('GenericLayout.serialize/deserialize','lulua/layout.py')],['PhysicalKeyboard.serialize','PhysicalKeyboard.deserialize','GenericLayout.serialize','GenericLayout.deserialize'])
p('C18','Keyboard queries agree with the physical rows',
 'For every keyboard with distinct button names, its length is the number of its buttons, iterating its keys visits every button once, row by row and left half before right half, looking up a name gives the button of that name or a key error, and the row of a button is the index of the row it is in.',
 ['configurations'],'every keyboard: any number of rows, any number of buttons per half',
 'tests check the one shipped keyboard',
 ['lulua/keyboard.py'],[('PhysicalKeyboard','lulua/keyboard.py')],['PhysicalKeyboard.keys','__getitem__','find','getRow','__len__'])
p('C19','Decompressed streams are read exactly and never hang',
 'Reading a brotli stream returns the decompressed data, in order and without gaps: each sized read returns as many bytes as requested until the data ends, a read without size returns all of the rest, and reads after the end return nothing, however the compressed data is split into chunks. A truncated stream ends in an error and not in an endless loop.',
 ['inputs','fault_sequences'],'every data, every sequence of read sizes, every chunking of the compressed stream, truncation at every point',
 'tests do not exercise the decompressing reader',
 ['lulua/text.py'],[('BrotliFile.read','lulua/text.py')],['BrotliFile.read'],[('buf','decompressed but not yet returned bytes','BrotliFile')])
p('C20','Tar streams yield exactly the contents of their non-empty members',
 'Reading a tar stream in GNU format yields, in order, the exact content of every member with non-zero size and nothing else, for every member size, whether or not it is a multiple of the block size, and stops at the end-of-archive block or the end of the stream.',
 ['inputs'],'every sequence of members of any content and any size an octal size field can hold (below 8 GiB)',
 'tests read no tar stream',
 ['lulua/text.py'],[('filterTar','lulua/text.py')],['filterTar'],[('pos','position in the stream, for block alignment','filterTar')])
p('C21','HTML extraction yields all text inside the selected elements, no scripts',
 'From any HTML document the extraction yields, in document order, the text of every element matched by the selector including all of its nested content, and nothing from outside; text of script and style elements is left out entirely. White space at the edges of a piece of text becomes one space, and the end of each paragraph or division becomes a paragraph break.',
 ['inputs'],'every well-nested token stream, with any nesting of matching, script, style and other elements (selectors that do not match script or style)',
 'tests extract no HTML',
 ['lulua/text.py'],[('Select.__iter__ depth tracking','lulua/text.py'),('HTMLSerializer.serialize','lulua/text.py')],['filterHtml','Select','HTMLSerializer'],[('inside, isScript','nesting depth in selected / skipped element','Select.__iter__')])
p('C22','Text pipeline primitives transform streams exactly',
 'Character mapping replaces every character found in the map by its replacement and keeps all others, in order. Chaining filters feeds every result of a filter to the next in order and flattens the results, a chain of no filters passes items through, reading characters yields the exact content of the stream, and limiting yields the first n items and draws no more than that from its source.',
 ['inputs'],'every text, map, filter list, item sequence and limit',
 'tests try single characters and a few lists',
 ['lulua/text.py','lulua/util.py'],[('mapChars, apply, iterchar','lulua/text.py'),('limit','lulua/util.py')],['mapChars','apply','iterchar','limit'])
p('C23','A corpus worker delivers one result that accounts for every text it received',
 'A worker that receives any sequence of items followed by the end marker delivers exactly one result: the merged statistics of typing every extracted text from a fresh state, with the Arabic character map applied and DOS line endings converted, or an explicit empty result if there was no text. If processing any item raises an exception, the one result it delivers is that exception.',
 ['histories','inputs','fault_sequences'],'every sequence of items, every number of texts per item, failure at any item',
 'tests run no worker',
 ['lulua/text.py','lulua/stats.py'],[('writeWorker loop','lulua/text.py')],['writeWorker'])
p('C24','Keyboard exports contain exactly the texts of the layout',
 'The xmodmap, Keyman and macOS exports assign to every key of every layer exactly the character(s) of the layout at that key and layer, and no text to any other key; xmodmap columns follow the fixed level order with an explicit placeholder for unused levels. Modifier keys keep their modifier function.',
 ['configurations'],'every layout whose keys have codes for the target system (single characters for xmodmap)',
 'tests do not look at exports',
 ['lulua/render.py'],[('renderXmodmap, renderKeyman, renderKeylayout','lulua/render.py')],['lulua-render xmodmap','lulua-render keyman','lulua-render keylayout'])
p('C25','The generated Windows driver maps every key and shift state correctly',
 'In the generated driver source every scancode maps to the given virtual key and flags, all others to none, prefixed tables are sorted and terminated, every shift state of the modifier table selects the layer of exactly that modifier set or is disabled, and every virtual key lists exactly its characters per layer, with an explicit placeholder for missing ones. A text of more than one character, or one that does not fit into the 16 bits of a character of the driver, is rejected and never truncated.',
 ['inputs','configurations'],'every scancode map and every character map (without U+F000 to U+F002, which stand for missing, dead and combined characters in a driver)',
 'tests do not look at the driver',
 ['lulua/winkbd.py','lulua/render.py'],[('scancodeToVkTables, charModifiers, vkToWchar','lulua/winkbd.py'),('renderWinKbd','lulua/render.py')],['makeDriverSources','lulua-render winkbd'])
p('C26','Rendered keys do not overlap and lie inside the drawing',
 'For every keyboard and every render setting, each key is drawn exactly once, keys of a row follow each other from left to right at the distance of width plus margin with an additional gap between the halves, rows follow each other from top to bottom, no two keys overlap, and all keys lie within the reported drawing size.',
 ['configurations'],'every keyboard (any rows, any positive widths) and every setting with positive key size and non-negative margins',
 'tests do not look at the drawing',
 ['lulua/render.py'],[('Renderer._calcDimensions','lulua/render.py')],['Renderer.render','lulua-render svg'])
p('C27','Touch and typing-tutor exports follow the physical rows',
 'The AnySoftKeyboard export has one row per keyboard row with non-modifier letter keys (without the last row) plus a complete return/space/backspace row, and each key carries the composed first-layer text as code points and label and the other layers as popup characters. The Klavaro export lists, for the first two layers, the composed text of every letter key row by row, with a blank for every empty key.',
 ['configurations'],'every layout with at least two layers',
 'tests do not look at exports',
 ['lulua/render.py'],[('renderAsk, renderKlavaro','lulua/render.py')],['lulua-render ask','lulua-render klavaro'])
p('C28','Numbers in the report are rounded, scaled and localised correctly',
 'Approximate numbers are scaled by the smallest unit (one, thousand, million, billion) for which the shown value, rounded to one decimal, is below one thousand, or else by the largest, and the shown value times the unit differs from the number by at most half a shown digit (up to decimal precision). Fractions are the closest fraction with a denominator up to the limit. Arabic number conversion replaces exactly digits, comma and point, one to one.',
 ['inputs'],'every number and every string',
 'tests check a few numbers',
 ['lulua/report.py'],[('approx, fraction, arabnum, numspace','lulua/report.py')],['approx','fraction','arabnum','numspace'])
p('C29','Key labels are always visible and never change ordinary text',
 'Label conversion is total: nothing stays nothing, text of combining characters only is put on a dotted circle, a single invisible format character becomes its bracketed abbreviation, white space and backspace become their visible symbols, and every other text is returned unchanged.',
 ['inputs'],'every string but the empty one',
 'tests try a few characters',
 ['lulua/util.py'],[('displayText','lulua/util.py')],['displayText'])
p('C30','Derived layout statistics agree with the raw counts',
 'The layout statistics attribute every button press to the hand and finger of that button, so that the totals per hand and per finger each sum up to the total of button presses; asymmetry is the difference of the left and right share, and the hamza figures are the shares of the combinations that type these letters. The key heat map lists exactly the count of every button and their total, and the corpus statistics the totals of combinations and words.',
 ['inputs'],'every statistics file with at least one press (and, for the hamza figures, an alef)',
 'tests run no analysis command',
 ['lulua/stats.py'],[('layoutstats, keyHeatmap, corpusStats','lulua/stats.py')],['lulua-analyze layoutstats','lulua-analyze keyheatmap','lulua-analyze corpusstats'])
p('C31','Triad analysis bins by text and keeps the heaviest triads',
 'The triad frequency analysis merges triads that type the same three texts, with the sum of their weights and the weighted mean of their efforts, and lists the heaviest bins, in the requested order and number, that are needed to reach the requested share of the total weight: removing the lightest one listed would fall short of it.',
 ['inputs','configurations'],'every statistics file, cut-off, sort order and limit',
 'tests run no analysis command',
 ['lulua/plot.py'],[('triadfreq binning and cut-off','lulua/plot.py')],['lulua-analyze triadfreq'])
p('C32','XML corpora are extracted sentence by sentence without loss',
 'From United Nations (TEI.2) documents every sentence of every paragraph is extracted once per line in document order with an empty line after each paragraph, and from subtitle documents every sentence is extracted once per line in document order without surrounding white space. Only text directly inside the sentence element is taken.',
 ['inputs'],'every document tree (without nested text, body or paragraph elements)',
 'tests extract no XML',
 ['lulua/text.py'],[('getText, filterTEI2, filterOpenSubtitles','lulua/text.py')],['filterTEI2','filterOpenSubtitles'])
p('C33','The parallel corpus writer accounts for every line in every interleaving',
 'For every number of workers and every interleaving in which no worker fails, the parallel corpus writer terminates and emits results that together account for every input line exactly once.',
 ['schedules'],'every interleaving of the reader, the workers and the status process',
 'tests never start the parallel writer',
 ['lulua/text.py'],[('write() queues and end markers','lulua/text.py')],['lulua-write'])
p('C34','Imported Keyboard Layout Creator files keep every key, column and character',
 'Importing a Microsoft Keyboard Layout Creator file yields six layers (plain, shift, control, shift+control, AltGr, shift+AltGr) with the modifiers of the standard keyboard. Every key line of the layout section puts the canonically decomposed character of its column i into layer i at the key with the scan code of the line, and nothing for an unused column; no other section contributes. The result can be loaded for the standard keyboard.',
 ['inputs'],'every file with character keys and the decimal key, at most six columns in that order, no dead-key marks and no line-internal comments other than //',
 'tests import no file',
 ['lulua/layout.py'],[('GenericLayout.fromKlc, importKlc','lulua/layout.py')],['lulua-import klc'])
p('C35','The Android word list contains every word with its frequency class',
 'The exported word list has, after its header, one line for every counted word, each word exactly once and more frequent words first. The frequency class of a word is 255 plus the logarithm to base 1.15 of its share of all words, rounded to the nearest integer, and therefore never above 255.',
 ['inputs'],'every table of word counts, also an empty one',
 'tests run no export of words',
 ['lulua/stats.py'],[('latinImeDict','lulua/stats.py')],['lulua-analyze latinime'])
open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
