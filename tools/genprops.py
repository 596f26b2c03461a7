#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are unreadable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p('C01', 'Alignment adds exactly the missing cells and never alters the text',
  'For every string and target width, left, right and centre alignment return the string byte for byte with only spaces added: after it, before it, or on both sides with the odd space on the left. Exactly as many spaces are added as the displayed width of the string falls short of the target. A string already as wide as the target or wider comes back unchanged, never truncated.',
  ['inputs', 'configurations'], 'all strings (any bytes, any script, escape sequences), all widths 0..65535, both East-Asian settings, with and without a lookup table',
  'TestAlign samples 6 string/width pairs, one padding amount (3) and no string at or over the target.',
  ['alignment.go', 'width.go'], [('AlignmentLeft/Right/Center', 'alignment.go'), ('visualWidth', 'width.go')],
  ['table.AlignmentLeft', 'table.AlignmentRight', 'table.AlignmentCenter'])
p('C02', 'Displayed width counts visible cells only and never wraps around',
  'The width the library attributes to a cell is the number of terminal cells of its visible text: a complete ANSI escape sequence, introduced by ESC or by the single character U+009B, adds no width wherever it stands and takes none away from the text around it. (A complete sequence is ESC or U+009B, any of [ ( ) # ; ?, optionally semicolon-separated numbers of up to four digits, and a final character out of A-O, R, Z, c, f-n, q, r, y, =, > and <.) A text wider than 65535 cells counts as 65535. Adding or removing colour therefore never changes padding or column widths.',
  ['inputs', 'configurations'], 'all texts (any script, combining marks, invalid UTF-8), all placements and numbers of escape sequences, texts beyond 65535 cells, both East-Asian settings',
  'Test_visualWidth has 25 strings, 4 with ESC colours; none with U+009B, none long, none with combining or spacing marks next to a sequence.',
  ['width.go', 'runewidth/runewidth.go'], [('visualWidth', 'width.go'), ('ansiEscapeRE', 'width.go')],
  ['Table.FormatItem + Table.Width', 'table.AlignmentLeft'])
p('C03', 'Measured width does not depend on what was measured before',
  'However many strings have been measured before, in whatever order and repetition, a string measures the same as in a fresh process. This also holds after the East-Asian width settings have been changed in between: the width is always the one for the settings in force.',
  ['histories'], 'all histories of measurements and setting changes, including floods of more distinct strings than any internal cache holds, repeats, evicted strings, zero-width strings',
  'No test measures a string twice, fills the 10000-entry cache, or changes settings after measuring.',
  ['width.go'], [('width cache keyed by string and settings', 'width.go visualWidth')],
  ['table.AlignmentLeft', 'Table.Width'], [('widthCache', 'LRU of measured widths, 10000 entries', 'width.go')])
p('C04', 'Column width is the running maximum of everything seen for it',
  "After any history of formatting rows and merging in externally computed widths, a column's width is the maximum displayed width among the cells formatted for it and the widths merged for it; it never decreases, is never larger than the largest contributor, and is 0 for a column never seen. Tables built from the same specification keep separate widths.",
  ['histories'], 'all histories of row formatting (with and without getter errors) and width merges over several tables sharing a specification, any column names (also duplicate or unknown)',
  'No test formats a row or merges widths.',
  ['table.go'], [('FormatItem', 'table.go'), ('UpdateWidth', 'table.go'), ('NewTable', 'table.go')],
  ['Table.Width'], [('columnWidth', 'per-table map from column name to width', 'table.go')])
p('C05', 'Aligned rows occupy exactly the column widths and the table width',
  'Once all rows of a table have been formatted, aligning any of them pads each cell whose column has an alignment to exactly the width of its column using that alignment, and leaves the other cells alone. When every column has an alignment, each row joined by a separator of m cells therefore occupies exactly the reported table width for margin m (0 without columns, at most 65535). A row with the wrong number of cells is rejected with an error and is not aligned.',
  ['inputs', 'histories'], 'all column sets (alignments built-in, custom or none), all row sets, all margins, rows of wrong length',
  'No test aligns a row or asks for a table width.',
  ['table.go', 'alignment.go'], [('AlignFormattedItem', 'table.go'), ('TableWidth', 'table.go')],
  ['Table.AlignFormattedItem', 'Table.TableWidth'])
p('C06', 'Row formatting passes values through in column order; errors surface',
  'Formatting a row yields one cell per column, in column order, each being what that column\'s getter formats from the value it extracted from that item; the plain form is the getters\' value strings joined by the separator, with none before the first or after the last. If any getter step fails, that error is returned and no partial row is. The item and the separator reach the getters and the output unmodified.',
  ['inputs', 'fault_sequences'], 'all column sets, items, separators, and every position and stage at which a getter may fail',
  'No test calls either formatting function.',
  ['table.go', 'table_iface.go'], [('FormatItem', 'table.go'), ('FormatItemBasic', 'table.go')],
  ['Table.FormatItem', 'Table.FormatItemBasic'])
p('C07', 'Header cells are as wide as their columns and show the title that fits',
  'The header shows, in column order and each followed by the separator, one cell per column and ends with a newline. A column that has a width gets a cell of exactly that width holding, centred, its title if the displayed title fits, otherwise its short title if that fits, otherwise nothing; a column without a width shows its title as it is. Whether a title fits is decided by its displayed width, so coloured and non-ASCII titles are shown whenever they fit.',
  ['inputs', 'histories'], 'all titles and short titles (any script, colours, empty), all widths, separators and column counts',
  'No test produces a header.',
  ['table.go'], [('FormatHeader', 'table.go'), ('padColumnHeader', 'table.go')], ['Table.FormatHeader'])
p('C08', 'Grid layouts print every item exactly once, whole, in reading order',
  'Merging rows into a grid prints, to any writer, every item exactly once, with all its cells in column order and unaltered text, and nothing else but padding and separators: left to right then down for the horizontal layout, top to bottom then right for the vertical one. All lines of a horizontal grid but the last hold the same number of items, vertical columns differ only in that trailing ones are shorter, and no line is without items. An empty list prints nothing.',
  ['inputs', 'configurations'], 'all item counts (including 0, 1, primes, more or fewer than fit), column counts, widths, separators, compact or not, both layouts',
  'No test calls either merge function.',
  ['horizontal.go', 'vertical.go'], [('MergeRowsHorizontal', 'horizontal.go'), ('MergeRowsVertical', 'vertical.go')],
  ['Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C09', 'Grid lines never exceed the maximum width unless one item alone does',
  'Every line a grid layout prints is at most the given maximum width wide. The only exception is a grid with one item per line, when a single item padded to the column widths (one space between its cells) already exceeds the maximum. Maximum widths above 65535 mean 65535 and negative ones mean 0.',
  ['inputs', 'configurations'], 'all items formatted by the table (cells up to 65535 wide), all maximum widths (negative, tiny, huge), separators (empty, multi-character, multi-byte), compact or not, both layouts',
  'No test renders a grid; overflow and separator-width mistakes need particular combinations of width, separator and column count.',
  ['horizontal.go', 'vertical.go', 'table.go'], [('groupCount computation', 'horizontal.go, vertical.go'), ('compactCalcH/compactCalcV', 'horizontal.go, vertical.go')],
  ['Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C10', 'Grid columns line up on every line',
  "In a grid every cell is aligned by its column's alignment (left if it has none) to a width that is the same for all lines of that grid position: the table-wide column width or, in compact mode, possibly the widest cell of that position instead. Cells of an item are separated by one space and items by the given separator, so the same grid position starts at the same offset on every line.",
  ['inputs', 'configurations'], 'all items, alignments (built-in, custom, none), separators, widths, compact or not, both layouts',
  'No test renders a grid.',
  ['horizontal.go', 'vertical.go', 'alignment.go'], [('getWidth', 'horizontal.go, vertical.go'), ('mergedRowsWidthH/V', 'horizontal.go, vertical.go')],
  ['Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C11', 'Grids use the available width: no needless lines',
  'A non-compact grid puts as many items on a line as fit the maximum width at table-wide column widths (at least one). A compact grid never needs more lines than the non-compact one, and one more item per line would either not fit the maximum width or save no line. A larger maximum width never gives more lines.',
  ['inputs', 'configurations'], 'all items with some visible text formatted by the table, all maximum widths up to and beyond 65535 and below 0, separators of printable ASCII characters, compact or not, both layouts',
  'No test renders a grid, let alone compares two widths or modes.',
  ['horizontal.go', 'vertical.go'], [('groupCount computation', 'horizontal.go, vertical.go'), ('compactCalcH/compactCalcV', 'horizontal.go, vertical.go')],
  ['Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C12', 'Every rendering call returns normally for any table, list and width',
  'Formatting, header, table-width and grid calls finish without panicking for any column set (including none), any item list (including empty, or with only empty cells), any maximum width (negative, zero, huge) and any separator (including empty), as long as getters and the writer do not fail and every item has one cell per column.',
  ['inputs', 'configurations'], 'the whole argument space, with emphasis on empty, zero, negative and maximal values',
  'No test reaches these functions; divisions by zero and non-terminating loops depend on degenerate combinations.',
  ['horizontal.go', 'vertical.go', 'table.go'], [('groupCount computation', 'horizontal.go, vertical.go'), ('compact search loops', 'horizontal.go, vertical.go')],
  ['Table.MergeRowsHorizontal', 'Table.MergeRowsVertical', 'Table.FormatHeader', 'Table.TableWidth'])
p('C13', 'A failing writer is never ignored by a grid layout',
  'If the output writer reports an error at any point of a grid layout, the call panics with exactly that error instead of returning normally, and writes nothing after the failed write. Everything accepted before the failure is a prefix of what a healthy writer would have received.',
  ['fault_sequences', 'inputs'], 'every write and every byte position at which the writer may fail or accept only part, both layouts, compact or not',
  'No test uses a failing writer.',
  ['horizontal.go', 'vertical.go'], [('panic on write error', 'horizontal.go, vertical.go')],
  ['Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C14', 'Rendering is read-only and repeatable',
  'Producing a header, a table width or a grid changes neither the items, nor the column widths, nor the column set, so each such call, in any sequence of them, also after one whose writer failed, and with rows, widths, titles, alignments or columns changed in between, gives the same result it would have had alone, and what it returned stays as it is.',
  ['histories'], 'all sequences of rendering calls with differing widths, separators and modes over one table and item list',
  'No test renders twice.',
  ['table.go', 'horizontal.go', 'vertical.go'], [('rendering works on fresh slices', 'horizontal.go, vertical.go')],
  ['Table.FormatHeader', 'Table.MergeRows*', 'Table.Width'])
p('C15', 'Separate tables and the alignment functions can be used concurrently',
  'Goroutines that each work on their own table, or only call the alignment and width functions, never interfere: there is no data race or crash, and every call returns what it would return alone.',
  ['schedules', 'histories'], 'all interleavings of measuring, aligning, formatting and rendering on distinct tables that may share strings and a read-only specification',
  'All tests are single-threaded.',
  ['width.go', 'alignment.go', 'table.go', 'runewidth/runewidth.go'], [('synchronised width cache', 'width.go widthCache')],
  ['race detector', 'results of concurrent calls'], [('widthCache', 'process-wide cache shared by all tables', 'width.go')])
p('C16', 'Grapheme iteration is lossless and terminates',
  'For any string, also invalid UTF-8, iterating grapheme clusters or stepping through it yields non-empty pieces whose concatenation is exactly the string, and ends. The iterator reports the runes of the current cluster, nothing before the first or after the last cluster, and stays at the end once there; what it reported earlier stays as it was.',
  ['inputs'], 'all byte strings',
  'uniseg has no tests; it is reached only through about 15 string width samples.',
  ['runewidth/uniseg/grapheme.go', 'runewidth/uniseg/step.go'], [('Graphemes.Next', 'runewidth/uniseg/grapheme.go'), ('StepString', 'runewidth/uniseg/step.go')],
  ['uniseg.NewGraphemes', 'uniseg.StepString'])
p('C17', 'Grapheme cluster boundaries follow Unicode 14 UAX #29',
  'The clusters reported for a string are exactly the extended grapheme clusters that the rules of UAX #29 define with the Unicode 14.0 character data, for all code points and all combinations of them. Invalid bytes count as U+FFFD each.',
  ['inputs'], 'all strings; in particular every code point in every rule context',
  'uniseg has no tests and its 1800-entry table is not covered by any checksum.',
  ['runewidth/uniseg/graphemerules.go', 'runewidth/uniseg/graphemeproperties.go', 'runewidth/uniseg/properties.go', 'runewidth/uniseg/step.go'],
  [('grTransitions', 'runewidth/uniseg/graphemerules.go'), ('graphemeCodePoints', 'runewidth/uniseg/graphemeproperties.go'), ('propertySearch', 'runewidth/uniseg/properties.go')],
  ['uniseg.NewGraphemes', 'uniseg.StepString'])
p('C18', 'Stepping can be resumed: chained and fresh parsing agree',
  'Splitting a string cluster by cluster gives the same clusters and cluster widths whether each step is handed the state returned by the previous one, starts afresh on the remainder with an unknown state, or goes through the iterator. Text that follows does not change clusters already completed.',
  ['histories', 'inputs'], 'all strings, every mixture of chained and fresh steps',
  'No test calls the step function.',
  ['runewidth/uniseg/step.go', 'runewidth/uniseg/graphemerules.go'], [('state encoding', 'runewidth/uniseg/step.go'), ('transitionGraphemeState', 'runewidth/uniseg/graphemerules.go')],
  ['uniseg.StepString', 'uniseg.Graphemes'], [('state', 'parser state plus property of the first rune', 'runewidth/uniseg/step.go')])
p('C19', 'Reported monospace width of a cluster follows the documented rules',
  'The width reported with each cluster is the one the documentation defines from Unicode 14.0 data: controls and extenders 0, two-em dash 3, three-em dash 4, East-Asian wide and fullwidth 2, regional indicators 2, pictographs 2 if they have emoji presentation and else 1, everything else 1. In a cluster the widths add up, except that flags and clusters starting with a Hangul leading consonant keep the width of their first character, each further character sets a pictographic cluster to 2 (the text presentation selector to 1), and the emoji presentation selector sets any cluster to 2.',
  ['inputs'], 'all strings; in particular every code point alone and in clusters',
  'No test looks at the reported width; two of its tables are not covered by any checksum.',
  ['runewidth/uniseg/width.go', 'runewidth/uniseg/step.go', 'runewidth/uniseg/eastasianwidth.go', 'runewidth/uniseg/emojipresentation.go'],
  [('runeWidth', 'runewidth/uniseg/width.go'), ('StepString', 'runewidth/uniseg/step.go')], ['uniseg.StepString boundaries >> uniseg.ShiftWidth'])
p('C20', 'Every code point has its UAX #11 width under every setting',
  'For every value, a rune is 0 cells wide if it is out of range, a control, a format character listed as non-printing, a surrogate or a combining character, 2 if East-Asian wide or fullwidth, and otherwise 1. With the East-Asian setting on, ambiguous characters are 2 as well and, only if strict emoji handling is also off, so are emoji; with it off, the emoji setting changes nothing.',
  ['inputs', 'configurations'], 'all rune values including negative and beyond U+10FFFF, all four setting combinations',
  'Checksums cover two of the four setting combinations and no out-of-range rune; the rest is 28 samples.',
  ['runewidth/runewidth.go', 'runewidth/runewidth_table.go'], [('Condition.RuneWidth', 'runewidth/runewidth.go'), ('inTable', 'runewidth/runewidth.go')], ['Condition.RuneWidth'])
p('C21', 'String width is the sum over grapheme clusters',
  'The width of a string is the sum, over its grapheme clusters, of the width of the first rune in the cluster that has one (0 if none), under the settings in force. It is never negative, is 0 for the empty string, and the package-level function uses the default settings.',
  ['inputs', 'configurations'], 'all strings, all four settings, with and without a lookup table',
  'The tests sample about 13 strings in two settings.',
  ['runewidth/runewidth.go'], [('Condition.StringWidth', 'runewidth/runewidth.go')], ['Condition.StringWidth', 'runewidth.StringWidth'])
p('C22', 'Lookup tables never change an answer',
  'Creating, or creating again after a settings change, a lookup table leaves every rune and string width exactly as the settings at that moment define, for any history of setting changes, creations and queries. Lookup tables of one settings object never affect another, also not a copy of it.',
  ['histories', 'configurations'], 'all histories of setting changes, table creations and queries on several settings objects and the default one',
  'The tests create tables for two settings and never re-create one on a non-default object after a change.',
  ['runewidth/runewidth.go'], [('Condition.CreateLUT', 'runewidth/runewidth.go'), ('Condition.RuneWidth', 'runewidth/runewidth.go')],
  ['Condition.RuneWidth', 'Condition.StringWidth'], [('combinedLut', 'two 4-bit widths per byte', 'runewidth/runewidth.go')])
p('C23', 'Locale detection follows LC_ALL, LC_CTYPE, LANG and the character set',
  'The locale is the first non-empty of LC_ALL, LC_CTYPE and LANG. It is East Asian exactly if it is not C or POSIX (also not C. or C- prefixed), does not carry the @cjk_narrow modifier, and its character set is one of the known CJK multi-byte sets (JIS, EUC-JP, EUC-KR, EUC-CN, SJIS, CP932, CP51932, CP936, CP949, CP950, Big5, GBK, GB2312 in their short lower-case spellings such as eucjp), or UTF-8 (utf8, utf-8) while the locale begins with ja, ko or zh. The character set is what follows a two- or three-letter language, optional territory and dot, or else the whole string, compared case-insensitively and cut at the first @. Any other string, however malformed, is simply not East Asian.',
  ['inputs', 'configurations'], 'all values of the three variables, well-formed or not',
  'The tests use 14 values and never combine variables of differing verdict.',
  ['runewidth/runewidth_posix.go'], [('IsEastAsian', 'runewidth/runewidth_posix.go'), ('isEastAsian', 'runewidth/runewidth_posix.go')], ['runewidth.IsEastAsian'])
p('C24', 'Start-up settings follow RUNEWIDTH_EASTASIAN, else the locale',
  'At program start East-Asian width is on exactly if RUNEWIDTH_EASTASIAN is 1, or it is empty or unset and the locale is East Asian; any other value turns it off. The exported flag, the default settings, settings objects created later, string widths and the padding of table cells all agree with that decision, and strict emoji handling is on.',
  ['configurations'], 'all environments (variable unset, empty, 1, other) combined with all locale settings, each in a fresh process',
  'One test sets the variable to 0 and measures one character; none starts a process.',
  ['runewidth/runewidth.go', 'runewidth/runewidth_posix.go', 'width.go'], [('handleEnv', 'runewidth/runewidth.go')],
  ['runewidth.EastAsianWidth', 'runewidth.DefaultCondition', 'runewidth.NewCondition', 'table.AlignmentLeft in a fresh process'])
p('C25', 'Memory kept for measuring does not grow with the number of strings',
  'However many distinct strings are measured, aligned or formatted, the memory the library keeps for having measured them stays bounded.',
  ['histories'], 'all long histories of distinct strings of any length',
  'No test measures more than a few dozen strings or looks at memory.',
  ['width.go'], [('LRU capacity', 'width.go widthCache')], ['heap in use after garbage collection'])
p('C26', 'The column registry reflects exactly the columns added',
  'After any sequence of additions, a specification lists the columns in the order added, counts them all, reports a name present exactly if a column of that name was added, and resolves it to the latest one. A table sees columns added to its specification later, and a table created without a specification starts with none and does not share it with others.',
  ['histories'], 'all sequences of additions, also with duplicate and empty names, interleaved with tables built on the specification',
  'No test adds a column.',
  ['table.go'], [('AddColumn', 'table.go'), ('HasColumn', 'table.go'), ('NewTable', 'table.go')],
  ['TableSpec.HasColumn', 'TableSpec.ColumnCount', 'TableSpec.Columns', 'TableSpec.ColumnByName'])
p('C27', 'A new settings object takes the current flags and stands on its own',
  'A settings object created with NewCondition is a new one, has the East-Asian and strict-emoji flags of the package as they are at that moment, and measures by them at once. Changing it, a copy of it, another object, the default settings or the flags later, or creating lookup tables for any of them, changes neither its own settings and widths, nor, when it is the one changed, those of any other object or the flags.',
  ['histories', 'configurations'], 'all histories of flag changes, new objects, copies, setting changes and lookup tables',
  'No test creates more than one object or changes a flag before creating one.',
  ['runewidth/runewidth.go'], [('NewCondition', 'runewidth/runewidth.go'), ('Condition.CreateLUT', 'runewidth/runewidth.go')],
  ['runewidth.NewCondition', 'Condition.EastAsianWidth', 'Condition.StrictEmojiNeutral', 'Condition.RuneWidth', 'Condition.StringWidth'])
p('C28', 'Colour never changes a layout',
  'Inserting complete ANSI escape sequences anywhere into cells or titles changes nothing but that they are printed: column widths and table width stay the same, and header, aligned rows and grids, with the sequences taken out again, are exactly those of the uncoloured table.',
  ['inputs'], 'all tables, lists, widths, separators and modes, all complete sequences at all positions',
  'The tests align one coloured string; none renders a coloured table.',
  ['width.go', 'alignment.go', 'table.go', 'horizontal.go', 'vertical.go'], [('ansiEscapeRE', 'width.go'), ('visualWidth', 'width.go')],
  ['Table.Width', 'Table.TableWidth', 'Table.FormatHeader', 'Table.AlignFormattedItem', 'Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C29', 'Every platform computes the same',
  'For the same table, items, arguments and settings, every column width, table width, header, aligned row, grid, string and character width and grapheme cluster is the same in a 64-bit and in a 32-bit program, in one for WebAssembly, and in one built with the appengine tag (terminal widths within 32 bits). The package builds for these.',
  ['inputs', 'configurations'], 'all tables, texts, characters and arguments that fit 32-bit integers, on all these platforms',
  'The tests run on one platform; an intermediate result that overflows 32 bits, or depends on the size of int, shows only on another.',
  ['width.go', 'alignment.go', 'table.go', 'horizontal.go', 'vertical.go', 'runewidth/runewidth.go', 'runewidth/uniseg/step.go'], [('MergeRowsHorizontal', 'horizontal.go'), ('MergeRowsVertical', 'vertical.go'), ('visualWidth', 'width.go'), ('StepString', 'runewidth/uniseg/step.go')],
  ['the whole exported API of the three packages'])
p('C30', 'East-Asian width where there are no locale variables',
  'In a program for WebAssembly, and in one built with the appengine tag, IsEastAsian is false whatever LC_ALL, LC_CTYPE and LANG say. On Windows it is true exactly when the output code page of the console is 932, 51932, 936, 949 or 950, whatever those variables and the other code pages are. RUNEWIDTH_EASTASIAN, set and not empty, overrides this on every platform: "1" switches East-Asian width on, anything else off; and the flag, the default settings, new settings, widths and padding all follow.',
  ['configurations'], 'all environments and code pages',
  'No test covers these files.',
  ['runewidth/runewidth_js.go', 'runewidth/runewidth_appengine.go', 'runewidth/runewidth_windows.go', 'runewidth/runewidth.go'], [('IsEastAsian', 'runewidth/runewidth_js.go'), ('IsEastAsian', 'runewidth/runewidth_appengine.go'), ('IsEastAsian', 'runewidth/runewidth_windows.go'), ('handleEnv', 'runewidth/runewidth.go')],
  ['runewidth.IsEastAsian', 'runewidth.EastAsianWidth', 'runewidth.DefaultCondition', 'runewidth.NewCondition'])
p('C31', 'A finished table can be rendered from several goroutines at once',
  'Once its rows have been formatted, a table may be rendered by any number of goroutines at the same time: headers, widths, aligned rows (each of its own copy of the cells) and grids. There is no data race or crash, and every call gives what it would give alone.',
  ['schedules', 'inputs'], 'all schedules of rendering calls on one table, all tables, widths, separators and modes',
  'No test starts a goroutine.',
  ['table.go', 'horizontal.go', 'vertical.go', 'width.go'], [('MergeRowsHorizontal', 'horizontal.go'), ('MergeRowsVertical', 'vertical.go'), ('FormatHeader', 'table.go'), ('TableWidth', 'table.go')],
  ['Table.FormatHeader', 'Table.TableWidth', 'Table.Width', 'Table.AlignFormattedItem', 'Table.FormatItemBasic', 'Table.MergeRowsHorizontal', 'Table.MergeRowsVertical'])
p('C32', 'Nothing is kept once it is no longer used',
  'The library itself keeps no reference to a table, specification, column, getter, alignment, item, item list, writer or settings object: once the program has let go of it, it can be garbage collected, also after getters or the writer have failed and while rows of the table live on. (Cell texts may stay in the bounded cache of measured widths.)',
  ['histories'], 'all histories of building, formatting, rendering, failing and letting go',
  'No test looks at memory.',
  ['table.go', 'horizontal.go', 'vertical.go', 'width.go', 'runewidth/runewidth.go'], [('NewTable', 'table.go'), ('FormatItem', 'table.go'), ('MergeRowsHorizontal', 'horizontal.go'), ('MergeRowsVertical', 'vertical.go'), ('CreateLUT', 'runewidth/runewidth.go')],
  ['finalizers of the objects handed to and returned by the exported API'])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
