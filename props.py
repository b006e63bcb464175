#!/usr/bin/env python3
"""The properties (single source).  Running this file regenerates
properties.jsonl and MANIFEST.json."""
import json, os
from checks import CHECKS

V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level_note=""):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None),
        level_note=" ".join(level_note.split())))


U, K, J, Q, S = ("libs/utils/src/", "libs/kana/src/", "libs/kanji/src/", "libs/quiz/src/", "libs/stats/src/")

prop("C01", "UTF-8 <-> UTF-32 conversion is exact, total and never overreads",
     """Decoding any NUL-terminated byte string yields exactly the code points of its well-formed UTF-8 sequences, with one
     U+FFFD for every ill-formed sequence (decoding resumes at the first byte that cannot belong to it), never reading past
     the terminator, and a size limit of n yields exactly the first n of those code points. Encoding any 32-bit value gives
     its shortest UTF-8 form, or U+FFFD for surrogates and values above U+10FFFF. Decode followed by encode is the identity
     on well-formed text, and the String, char pointer, wide and single-code overloads all agree.""",
     ["inputs"], "every byte string / every 32-bit code value, checked completely up to the stated lengths",
     "Tests sample a few dozen strings; the decoder's branches depend on combinations of lead and continuation bytes at every "
     "position incl. truncation at the terminator, which only exhaustive enumeration covers.",
     [U + "Utf8.cpp", "libs/utils/include/kt_utils/Utf8.h"],
     [("fromUtf8/toUtf8/getCode conversion loops", U + "Utf8.cpp")], observe=["fromUtf8", "fromUtf8ToWstring", "getCode", "toUtf8"],
     level_note="""Real code, every byte string up to 3 bytes, class-complete 4 byte strings, words to 6-7 bytes and all
     1.1M code points against an independent RFC 3629 reference, under ASan+UBSan with exactly sized buffers.""")

prop("C02", "UTF-8 validation verdicts are exact for the first character",
     """Validating a byte string reports it as valid multi-byte UTF-8 if and only if its first character is a well-formed
     non-Ascii UTF-8 sequence (and, when a single character is demanded, nothing follows it); empty and Ascii-led input is
     'not multi-byte'. For anything else the reported reason is one that is true of the input: continuation byte first, lead
     byte too long, missing continuation bytes, overlong form, invalid code point, or extra characters; and the boolean
     helpers agree with the detailed verdicts.""",
     ["inputs"], "every byte string, completely up to the stated lengths, with and without the single character demand",
     "Tests use about forty handpicked strings; the verdict depends on every combination of lead/continuation byte classes.",
     [U + "Utf8.cpp", "libs/utils/include/kt_utils/Utf8.h"], [("validateMBUtf8 and friends", U + "Utf8.cpp")],
     observe=["validateMBUtf8", "validateUtf8", "isValidMBUtf8", "isValidUtf8"],
     level_note="Real code, byte-class-complete enumeration to 5 bytes plus all scalars against an independent reference.")

prop("C03", "Character classification follows the documented Unicode blocks",
     """For every code point, each character predicate (Hiragana, Katakana, Kana, common/rare/any Kanji, wide letter, wide
     punctuation, wide symbol, recognized) is true exactly for the members of its documented block set, optionally followed by one non-spacing mark
     (variation selector or combining voice mark), and with the 'one character' demand false for anything longer. The 'all'
     predicates hold exactly for strings made only of such characters, block lookup and code-point ranges agree with the
     predicates, and the regex ranges built from the blocks match exactly the same code points.""",
     ["inputs"], "every Unicode scalar value alone, doubled, and with every non-spacing mark; all short strings over class representatives",
     "Tests check block corners they know about; a wrong bound, a missing block or a mishandled mark affects code points no test names.",
     [U + "UnicodeBlock.cpp", "libs/utils/include/kt_utils/UnicodeBlock.h", "libs/utils/include/kt_utils/BlockRange.h"],
     [("UnicodeBlock tables and inWCharRange/inRange", "libs/utils/include/kt_utils/UnicodeBlock.h"), ("is*/isAll* predicates", U + "UnicodeBlock.cpp")],
     observe=["isHiragana..isRecognizedUtf8", "isAllHiragana..", "inRange/inWCharRange", "KanjiRange etc."],
     level_note="All 1.1M scalar values and all words over representatives, against a frozen transcription of the documented block lists.")

prop("C04", "Character iteration, sizes and combining marks agree with each other",
     """Iterating over a string yields its characters in order, each with its trailing variation selector or (when combining to a precomposed
     Kana exists) voice mark folded in, so that concatenating unchanged characters reproduces the multi-byte text, iteration ends exactly
     at the end of input, peeking never changes what is delivered next, and resetting replays the same sequence. Counts of variation
     selectors, combined marks and errors equal the number of such characters actually met. The
     size functions (with and without Ascii) equal the number of characters iteration delivers.""",
     ["inputs", "histories"], "every string up to the stated length over an alphabet of all character classes (Ascii, Kana, marks, selectors, malformed bytes), "
     "and every interleaving of next/peek/reset calls up to the stated depth",
     "Tests iterate over a few literal strings in one order of calls; combinations of marks with unsuitable base characters, errors and peeks are unbounded.",
     [K + "Utf8Char.cpp", "libs/kana/include/kt_kana/Utf8Char.h", U + "String.cpp"], [("Utf8Char::next/peek and doNext", K + "Utf8Char.cpp")],
     state=[("_curIndex/_curRow", "position and counters of the iteration", "libs/kana/include/kt_kana/Utf8Char.h")],
     observe=["MBUtf8Char", "Utf8Char", "mbUtf8Size", "utf8Size"],
     level_note="All words x all call sequences within bounds on the real code against an independent character model.")

prop("C05", "Column files are read exactly as written, or rejected naming the culprit",
     """Reading a tab separated file delivers every row's values under the requested column whatever the column order, with the number of rows
     and current row as in the file. A file with missing, duplicate or unrecognised headers, or a row with too few or too many columns, is rejected with a
     file error identifying file and row instead of being silently misread. Numeric and flag accessors return exactly the value
     written (empty optional fields give 'none') and reject everything else.""",
     ["inputs", "configurations"], "every file built from the bounded alphabet of header permutations/corruptions, row shapes and cell contents; every cell string up to the stated length for numeric/flag access",
     "Tests cover one example per error; column order x row shape x cell content combinations and unusual numeric spellings are unbounded.",
     [U + "ColumnFile.cpp", "libs/utils/include/kt_utils/ColumnFile.h"], [("ColumnFile constructor / nextRow / get*", U + "ColumnFile.cpp")],
     state=[("_rowValues", "values of the current row by global column number", "libs/utils/include/kt_utils/ColumnFile.h")],
     observe=["ColumnFile::nextRow,get,getBool,getU64,getOptU64,getU16..", "what() of thrown exceptions"],
     level_note="All files over the bounded grammar are written to a scratch directory and read back by the real class.")

prop("C06", "Enum lists, maps and bitmasks behave like mathematical sequences and sets",
     """Enum lists convert between values, names and indexes without loss, reject unknown names and any index outside the range, and
     their (random access) iterators obey all iterator laws, throwing rather than ever stepping or dereferencing outside the container.
     Enum maps hold exactly the last value stored per key and the default value for keys never stored; reading the none key gives the default value, storing under it or beyond it is refused. Bitmask operators obey Boolean algebra.""",
     ["inputs", "histories"], "every iterator operation sequence up to the stated depth over lists/maps with and without a none value, every offset in a range around all integer-width wrap points, all names up to the stated length, all bitmask pairs",
     "Tests check a handful of offsets; wrap-around offsets and sequences of iterator moves are unbounded.",
     [U + "EnumContainer.cpp", "libs/utils/include/kt_utils/EnumContainer.h", "libs/utils/include/kt_utils/EnumList.h", "libs/utils/include/kt_utils/EnumMap.h", "libs/utils/include/kt_utils/Bitmask.h"],
     [("EnumContainer iterator and checkIndex", "libs/utils/include/kt_utils/EnumContainer.h")], observe=["AllXxx lists", "EnumMap", "BaseIterator"],
     level_note="Breadth-first exploration of the iterator state machine of the real templates against an integer-index model.")

prop("C07", "Interned symbols are canonical",
     """Two symbols of the same kind are equal exactly when their names are equal, however many symbols were created in whatever order; a symbol
     always gives back exactly the name it was created from; the empty name is the one 'unset' symbol; kinds never affect each other; and the set of known names is exactly what was created.""",
     ["histories"], "every sequence of symbol creations/copies/queries up to the stated depth over a bounded name alphabet, and every count up to the documented maximum with overflow attempts",
     "Tests create three or four symbols; interning bugs depend on creation order and table growth up to the 16-bit limit.",
     [U + "Symbol.cpp", "libs/utils/include/kt_utils/Symbol.h"], [("BaseSymbol::getId and the per-type map/list", U + "Symbol.cpp")],
     state=[("_map/_list", "name to id and id to name tables per symbol kind", "libs/utils/include/kt_utils/Symbol.h")], observe=["Symbol<T>"],
     level_note="All creation histories to the bound on fresh kinds, plus one exhaustive growth history to the id limit.")

prop("C08", "Formatting and numeric helpers are exact inverses of their notations",
     """Unicode, hex, binary, bracket and zero-padding formatting of any value renders exactly that value in the documented notation at the documented minimum width; case conversion changes
     exactly the Ascii letters it should; narrowing to a byte succeeds exactly for values that fit; single-byte predicates match their definition for every string; argument lists give exactly their items and refuse counts or indexes outside the documented range.""",
     ["inputs"], "every 16/8-bit value, boundary values of wider types, all code points, all short strings over the bounded alphabet",
     "Tests check a few literals; widths and boundaries of each integer type are not covered.",
     [U + "String.cpp", U + "Args.cpp", "libs/utils/include/kt_utils/String.h", "libs/utils/include/kt_utils/Args.h"], [("toHex/toBinary/toUnicode/toUpper/toLower/Args", "libs/utils/include/kt_utils/String.h")],
     observe=["toHex", "toBinary", "toUnicode", "firstLower", "toUpper", "toLower", "isSingle", "Args", "BaseException"],
     level_note="Exhaustive over 8/16-bit and all code points against an independent renderer.")

prop("C09", "Romaji to Kana conversion follows the conversion chart",
     """Every Rōmaji spelling listed in the conversion chart (Hepburn, Kunrei, Nihon and wāpuro variants) converts to exactly its Hiragana/Katakana, in any letter case, alone or inside any longer
     text, including doubled consonants and 'tch' (small tsu), 'n' before consonants, apostrophe, dash or the end, and long vowels with macrons (prolong mark, or a second vowel in Hiragana when requested). Letters that are not
     part of a syllable pass through unchanged without affecting the syllables around them.""",
     ["inputs"], "all syllable sequences up to the stated length over the complete chart and all letter words up to the stated length",
     "Tests cover a few dozen words; conversion is a greedy stateful scan whose result depends on neighbouring syllables.",
     [K + "Converter.cpp", K + "Kana.cpp"], [("Converter::processRomaji / matchStart / processRomajiMacron", K + "Converter.cpp")], observe=["Converter::convert", "kanaConvert CLI"],
     level_note="Real converter vs an independent transducer built from a frozen copy of the chart.")

prop("C10", "Kana to Romaji conversion is complete and round trips",
     """Converting any sequence of Hiragana or Katakana to Rōmaji and back yields the same Kana, and Hiragana to Katakana to
     Hiragana (and the reverse) is the identity up to the documented irreversible cases (Hepburn and Kunrei styles, iteration marks in Rōmaji, a prolong mark that follows no Kana). The Rōmaji produced for every Kana is the documented
     one for the selected style (Hepburn or Kunrei), with an apostrophe after 'n' wherever needed to keep it unambiguous and never any Kana left unconverted.""",
     ["inputs", "configurations"], "all Kana sequences up to the stated length over the complete Kana table, small tsu, n, prolong and iteration marks; all flag combinations",
     "Tests check selected words and single Kana; whether concatenation stays unambiguous is a statement over all pairs/triples.",
     [K + "Converter.cpp", K + "Kana.cpp"], [("Converter::convertFromKana, processKana, romajiMacronLtr", K + "Converter.cpp")], observe=["Converter::convert"],
     level_note="All Kana pairs (triples thorough) x targets x flags on the real converter against an independent transducer and the round-trip law.")

prop("C11", "The Kana table is consistent in every direction",
     """For every Kana, looking it up by Hiragana, by Katakana or by any of its Rōmaji spellings gives the same entry; base, dakuten and han-dakuten forms link to each other in both
     directions and agree with Unicode composition; small forms differ from their large forms by the documented code point; no spelling maps to two different Kana; and iteration-mark expansion
     gives the voiced/unvoiced version of the previous Kana exactly when one exists.""",
     ["inputs"], "every entry of the Kana table, every pair of (previous Kana, iteration mark), every code point of the Kana blocks",
     "Tests check counts and a few entries; the table's relational constraints range over all entries.",
     [K + "Kana.cpp", "libs/kana/include/kt_kana/Kana.h"], [("Kana::getMap and populateDakutenMap, RepeatMark::get", K + "Kana.cpp")], observe=["Kana::getMap", "Kana::find*", "kanaConvert chart output"],
     level_note="Exhaustive over the whole table and every code point of the Kana blocks, cross-checked with a frozen chart.")

prop("C12", "Conversion passes everything else through, mapping delimiters reversibly",
     """Characters that are neither Kana nor Rōmaji (Kanji, symbols, digits, other scripts, malformed bytes apart) appear unchanged and in order in converted output, punctuation delimiters
     convert between narrow and wide forms exactly per the documented list and back, spaces are dropped only when requested, and splitting text at delimiters then
     converting the pieces gives the same result as converting the whole.""",
     ["inputs", "configurations"], "all words over tokens of each class (Kana, Rōmaji, delimiter, Kanji, other) up to the stated length x source x target x flags",
     "Tests use a few sentences; interaction of delimiters, mixed scripts and flags is combinatorial.",
     [K + "Converter.cpp"], [("Converter::convert, convertFromRomaji delimiters", K + "Converter.cpp")], observe=["Converter::convert"],
     level_note="All token words to the bound against an independent token-wise model and a compositionality law.")

prop("C13", "Interactive choice prompts only ever return an offered choice",
     """For any choices and any typed input, the prompt returns only one of the offered characters (or the default on an empty line, or the quit choice); every other line is refused and asked again, when input ends the result is the default, the quit choice or an error (never endless prompting),
     ranges like 1-4 accept exactly their members, and badly specified choices or defaults are rejected up front with an error instead of misbehaving. The prompt text lists exactly the offered choices with the default marked.""",
     ["inputs", "histories"], "every choice set over the bounded alphabet x default x quit setting x every sequence of typed lines up to the stated depth",
     "Tests try six or seven prompt configurations with a few replies; the guarantee is over all configurations and reply histories.",
     [K + "Choice.cpp", "libs/kana/include/kt_kana/Choice.h"], [("Choice::get/add/checkQuit", K + "Choice.cpp")], state=[("_quit", "the current quit choice", "libs/kana/include/kt_kana/Choice.h")], observe=["Choice::get", "prompt text"],
     level_note="All configurations and reply sequences to the bound on the real class against a prompt automaton.")

prop("C14", "Tables print every cell once, aligned by display width",
     """Printing a table (plain or Markdown) shows the title row and every row in order with every cell's text exactly once, each column as wide (in display columns) as its widest cell, section rows before their row as
     separators, missing trailing cells as blanks, and the Markdown variant has the same number of columns in every line. Any number of rows, sections and cells, including none, is accepted.""",
     ["inputs", "histories"], "every sequence of add/section calls up to the stated depth over cells of narrow, wide, empty and combining text, for all border/fill settings",
     "Tests check two or three layouts; alignment must hold for every combination of row lengths and widths.",
     [K + "Table.cpp", "libs/kana/include/kt_kana/Table.h"], [("Table::print/printMarkdown", K + "Table.cpp")], observe=["Table::print", "Table::printMarkdown"],
     level_note="All build sequences to the bound, output parsed back and compared to an independent layout model.")

prop("C15", "Display width of every character matches its East Asian width",
     """For every Unicode code point the computed display width is 2 for wide and fullwidth characters, 0 for non-spacing marks the tool knows about, and 1 otherwise, and the width of a string is the sum over its characters. Padding to a width with wide text therefore always
     fills exactly that number of terminal columns when the text fits.""",
     ["inputs"], "every code point; every string up to the stated length over width classes; every requested width",
     "Tests look at a few dozen characters; the width table has 121 ranges.",
     [K + "DisplaySize.cpp", "libs/kana/include/kt_kana/DisplaySize.h"], [("WideBlocks table, displaySize, wideSetw", "libs/kana/include/kt_kana/DisplaySize.h")], observe=["displaySize", "wideSetw"],
     level_note="All code points against a frozen East Asian Width table; all words over width classes against the sum law.")

prop("C16", "kanaConvert obeys its options in every mode and order",
     """The kanaConvert program converts each argument, piped line or interactive line exactly as the conversion library does under the options given, whatever the order and combination
     of options; bad or conflicting options are reported as errors without output being produced. In interactive mode every sequence of commands leaves the settings that the menu shows, quit always ends the session, and end of input ends it too.""",
     ["inputs", "configurations", "histories"], "every option sequence and interactive command sequence up to the stated depth",
     "Tests run a dozen option lists and short sessions; settings are a state machine driven by arbitrary command sequences.",
     [K + "KanaConvert.cpp", "apps/convertMain.cpp"], [("KanaConvert::processArg/getInput/processOption", K + "KanaConvert.cpp")], state=[("_charType/_targetType/_flags", "session settings", "libs/kana/include/kt_kana/KanaConvert.h")], observe=["KanaConvert with string streams"],
     level_note="All option/command words to the bound on the real class against a settings automaton.")

prop("C17", "Dictionary ids and stroke counts parse, print and order faithfully",
     """A Morohashi id is accepted exactly when it is empty, a number up to 65535 (leading zeros allowed), a positive number followed by P or ' (prime) or PP or '' (double prime), or a positive number after H (supplement); anything else is
     refused with an error naming it. It keeps its number and kind, prints in the canonical spelling (which reads back as the same id), and ids are totally ordered by number, then kind (plain, prime, double prime, supplement). Stroke counts accept exactly 1-64
     (with a variant: 2-64 and a different variant of 3-33), print as 'value' or 'value/variant', and are ordered by value, then variant.""",
     ["inputs"], "every string up to the stated length over the id alphabet, every number in and around the documented ranges, every pair/triple for ordering",
     "Tests check some spellings; rejecting all others and ordering laws are statements over all inputs.",
     [J + "MorohashiId.cpp", J + "Strokes.cpp"], [("MorohashiId constructor, Strokes constructors", J + "MorohashiId.cpp")], observe=["MorohashiId", "Strokes", "operator<<"],
     level_note="Every string to the bound against an independent grammar, all triples of ids for the order laws.")

prop("C18", "Kanji list files load exactly or are rejected with the reason",
     """Loading a list file keeps every entry once in file order with the right index (from 1), supports one or many space-separated entries per line as configured, and accepts exactly files whose entries are single valid multi-byte UTF-8 characters without
     repetition in the file or in earlier files of the same kind (plain, JLPT level or Kentei kyu lists), with one entry per line where one is expected and at most 65534 entries. Any other file is refused with an error naming the file and
     the row and entry (or, for entries repeated from earlier level/kyu files, all these entries).""",
     ["inputs", "histories"], "every small file over an alphabet of Kanji, Kana, separators and malformed text, in every file-type configuration, and every sequence of loading two such files",
     "Tests use a few fixed files; line shape x entry validity x duplicate position is combinatorial.",
     [J + "ListFile.cpp", "libs/kanji/include/kt_kanji/ListFile.h"], [("ListFile::load/validate/addEntry", J + "ListFile.cpp")], state=[("uniqueNames/otherUniqueNames", "names seen across files", "libs/kanji/include/kt_kanji/ListFile.h")],
     observe=["ListFile", "KanjiListFile", "LevelListFile"], level_note="All files over the bounded grammar on the real class in a scratch directory against a loader model.")

prop("C19", "Loaded Kanji data gives one consistent answer for every Kanji",
     """With any complete data directory, looking up any character by name, compatibility variant, frequency, JLPT level, Kentei kyu, grade, Morohashi id, Nelson id, stroke count or radical is consistent: every Kanji found one way reports the attribute it was found by, each list contains exactly the Kanji having that attribute, each official list entry of
     the data files is loaded with the file's values, variants resolve to their standard form, and unknown characters are reported as not found rather than misattributed.""",
     ["inputs", "configurations"], "every Kanji of the shipped lists and a full-size Unicode table, every code point of the CJK blocks (with and without selectors), every attribute value and values outside its range; every small data directory within the bound",
     "Tests check totals and some Kanji; agreement between the lookup indexes is over all ~20k entries.",
     [J + "KanjiData.cpp", J + "TextKanjiData.cpp", "libs/kanji/include/kt_kanji/KanjiData.h"], [("KanjiData::insertSafe, findBy*, getType", J + "KanjiData.cpp")], observe=["KanjiData public lookups"],
     level_note="Complete enumeration of all entries and indexes of the real data, cross-checked against an independent parse of the data files.")

prop("C20", "UCD data is loaded faithfully and links resolve",
     """Every entry of the Unicode data file is loaded with exactly the field values written (code, block, version, radical, strokes, ids, variant links, JLPT/joyo/jinmei flags, meanings, readings), rows with malformed or contradictory
     fields or repeating an earlier entry are rejected naming the file and row; looking up a Kanji with a variation selector gives exactly the Jinmei entry linked to it, if any, and readings are given in Kana.""",
     ["inputs"], "every row of a full-size file; every single and paired corruption of valid rows from the bounded catalogue; every short file over a set of related rows",
     "Tests load the file and check some totals and a dozen corruptions.",
     [J + "UcdData.cpp", J + "Ucd.cpp"], [("UcdData::processOne/processLinks", J + "UcdData.cpp")], observe=["UcdData::find, Ucd accessors"],
     level_note="Whole shipped file vs an independent parser, plus all single/paired corruptions in scratch files.")

prop("C21", "Kanji ordering is total and descriptions show exactly the requested facts",
     """Comparing Kanji by (qualifier as documented for qualified names, strokes, frequency, code point of the compatibility name) is a strict total order over all loaded Kanji, and so is the order by strokes alone, so sorted listings do not depend on input order; the qualified name shows the qualifier. A Kanji's information line shows every requested
     field that the Kanji has, with its value, and no field that was not requested.""",
     ["inputs", "configurations"], "all pairs of loaded Kanji under both orders; all 512 field masks of every Kanji",
     "Tests compare a few pairs and print a few masks.",
     [J + "Kanji.cpp", "libs/kanji/include/kt_kanji/Kanji.h"], [("Kanji::orderByQualifiedName, Kanji::info", J + "Kanji.cpp")], observe=["Kanji::orderByQualifiedName", "Kanji::info", "Kanji::qualifiedName"],
     level_note="All pairs and representative triples on the real data, every mask, against an independent formatter.")

prop("C22", "Radicals resolve uniquely",
     """Each of the 214 radicals is found by its number and by its name, with the readings and alternative forms of the data file, numbers outside 1-214 and unknown names are rejected, files whose radicals are not numbered 1, 2, 3... are refused naming file and row, and every loaded Kanji's radical is the one its data names.""",
     ["inputs"], "all numbers 0..65535, all Kanji, all file corruptions in the catalogue", "Tests check a few radicals.",
     [J + "RadicalData.cpp", J + "Radical.cpp"], [("RadicalData::load/find", J + "RadicalData.cpp")], observe=["RadicalData::find, Kanji::radical"],
     level_note="Complete enumeration against an independent parse of radicals.txt plus corrupted files.")

prop("C23", "A list quiz session grades every answer correctly and reports the true score",
     """In a list quiz the Kanji of the list that have a reading are asked once each, in the given order (from the beginning, from the end, or any permutation of it when random) beginning with the given one; every question offers the requested number of different choices, exactly one of which is right, and a list with fewer different readings than choices is refused. Giving the right choice counts as correct and any other as a mistake listed at the end, and the final score adds up: right answers, mistakes and questions skipped (including the ones before the starting question) over the number of questions passed, whatever sequence of answers, skips, toggles of meanings, bad input, refused lines and quits is typed. In a review each Kanji is shown with its details, and next, previous and finish move through the list by one. Input ending early ends the session as quit does.""",
     ["histories", "configurations"], "every answer sequence up to the stated depth for every list, question order, choice count and style within the bound",
     "Tests run a few scripted sessions; state after arbitrary answer/skip/toggle/quit histories is not covered.",
     [Q + "ListQuiz.cpp", Q + "Quiz.cpp"], [("ListQuiz::start/showChoices", Q + "ListQuiz.cpp")], state=[("_question,_score,_mistakes", "session score state", "libs/quiz/include/kt_quiz/Quiz.h")],
     observe=["quiz output for scripted input"], level_note="All answer words to the bound replayed through the real quiz with string streams against a session automaton.")

prop("C24", "A group quiz session grades assignments exactly and edits never lose answers",
     """In a group quiz the groups with at least two included members (those with a reading and of the requested Kanji type; for pattern groups those of the requested part) are asked once each in the given order (random orders are permutations) beginning with the given one, showing exactly the included members and their readings. Each reading is given to at most one member; answers can be edited (the old reading becomes free again, ending an edit without a reply keeps it), refreshed, meanings toggled, and the group skipped or the quiz quit at any point without losing other answers; what is displayed always agrees with what was assigned. A group is correct if every member was given a reading (and meaning when meanings are shown) equal to its own, otherwise the number of members that were is reported, and the final score lists exactly the wrong groups, for groups of any size up to the 58 members allowed. Reviews show the same groups and move by one.""",
     ["histories", "configurations"], "every sequence of member/answer/edit/skip/quit inputs up to the stated depth over groups of several sizes including ones needing more than one letter range",
     "Tests script three or four sessions.", [Q + "GroupQuiz.cpp"], [("GroupQuiz::getAnswers/editAnswer/checkAnswers", Q + "GroupQuiz.cpp")], state=[("_answers,_choices", "assignments of the current group", "libs/quiz/include/kt_quiz/GroupQuiz.h")],
     observe=["quiz output for scripted input"], level_note="All input words to the bound through the real quiz against a session automaton.")

prop("C25", "Quiz start-up options select exactly the requested quiz or are refused",
     """Every combination of quiz start-up options leads to exactly the quiz asked for: mode (-r, -t), order and starting question (its number: 0 random, negative from the end, at most 65535), type and list (-f -g -k -l -m -p), meanings (-s); whatever was not given is asked for, and nothing else, in the documented order with the documented choices and defaults, where a reply that isn't one of the choices is asked again, and quit or the end of input (where there's no default) ends without a quiz. -h shows the help, and a Kanji argument (a Kanji, frequency, m Morohashi ID, n Nelson ID or u Unicode) shows the details of exactly the Kanji it stands for, or how many there are, instead. An unknown, repeated, conflicting, out of range or unparsable option or argument is refused with the program's usage error and never another failure. Starting again after a quiz asks everything anew.""",
     ["configurations", "histories"], "every argument list up to the stated depth over the complete option vocabulary and malformed neighbours, every menu answer word",
     "Tests try some option lists.", [Q + "QuizLauncher.cpp"], [("QuizLauncher::processKanjiArg/processProgramModeArg/..", Q + "QuizLauncher.cpp")], observe=["QuizLauncher::run with streams"],
     level_note="All argument lists to the bound on the real launcher against an option automaton.")

prop("C26", "Meaning and pattern groups load exactly and partition as written",
     """Every group of the group files is loaded in order with its number, name, type, pattern type and members (the Kanji before the colon of a family first) as written, and looking a Kanji up finds exactly the groups that list it. Groups without a name or with single-byte characters in it, with a bad number, unknown, empty or repeated members, less than 2 or more than 58 of them, are refused naming file and row; a Kanji in a second pattern group is reported and keeps its first group.""",
     ["inputs"], "all shipped groups plus every small group file over the bounded grammar", "Tests use a few fixed rows.",
     [Q + "GroupData.cpp", Q + "Group.cpp"], [("GroupData::loadGroup/add/checkInsert", Q + "GroupData.cpp")], observe=["GroupData public API"],
     level_note="All shipped rows vs an independent parse and all bounded files vs a loader model.")

prop("C27", "Jukugo (compound word) data is loaded exactly and found by each of its Kanji",
     """Every compound of the data files is loaded once per distinct name and reading, with its grade, and is found exactly once, in file order, under each distinct Kanji it contains and under nothing else; lines without the documented form, names of less than two Kanji, readings that aren't Hiragana and compounds repeated in another grade's file are refused naming file and line.""",
     ["inputs"], "all shipped rows plus every small file over the bounded grammar", "Tests check a few entries.",
     [Q + "JukugoData.cpp", Q + "Jukugo.cpp"], [("JukugoData::load", Q + "JukugoData.cpp")], observe=["JukugoData::find"],
     level_note="Complete enumeration of shipped rows against an independent parse; bounded files against a loader model.")

prop("C28", "Text counting conserves every character",
     """Counting a text reports, for each distinct multi-byte character satisfying the filter, exactly its number of occurrences (a variation selector belongs to the character before it, a combining voice mark is merged into it), with the returned number of added characters and the totals of errors, selectors and combining marks equal to those present,
     however the text is split into lines, calls, files and directories: every regular file of a directory (and, when recursing, of the directories in it, links skipped) is counted once, and its name too if asked; tags attribute each occurrence to the name of the file it's in. When a pattern (furigana removal: Kana in wide brackets after a Kanji or wide letter) is set, exactly the matched parts are left out or replaced, also when a bracket continues on the next line, and the number of changed lines is reported; nothing else changes.""",
     ["inputs", "histories"], "every text up to the stated length over all character classes, every split into lines/files/calls, every filter",
     "Tests count a few files; conservation under splitting is over all texts and call histories.",
     [S + "Utf8Count.cpp"], [("Utf8Count::add/addFile", S + "Utf8Count.cpp")], state=[("_map,_tags,_errors,_replacements", "running counts", "libs/stats/include/kt_stats/Utf8Count.h")],
     observe=["Utf8Count/Utf8CountIf accessors"], level_note="All texts and splits to the bound on the real class against a counting model.")

prop("C29", "Statistics reports are correct totals in a well-defined order",
     """For any set of files the report's totals, unique counts and percentages per character class equal those of the text, and the per-Kanji listing contains every counted Kanji once, ordered by count (descending), then frequency, type and name — a strict weak order, so
     the listing is the same however the files are arranged.""",
     ["inputs", "configurations"], "every small corpus over the bounded alphabet, every option combination, all triples of count entries for the order laws",
     "Tests compare one report; order laws and totals are over all corpora.", [S + "Stats.cpp"], [("Stats::countKanji/Count::operator<", S + "Stats.cpp")], observe=["Stats output"],
     level_note="All bounded corpora through the real program against an independent report model.")

prop("C30", "Parallel counting is schedule independent and race free",
     """The statistics program gives byte-identical reports and errors, without data races, deadlocks or crashes, under every scheduling of its worker threads: the threads that count the character classes of each file or directory neither affect each other nor the order of the report's lines.""",
     ["schedules"], "every interleaving of the worker threads at their synchronisation points up to the preemption bound", "Tests run one schedule per execution.",
     [S + "Stats.cpp", S + "Utf8Count.cpp"], [("std::async workers joined in order", S + "Stats.cpp")], observe=["Stats output under controlled scheduling"],
     level_note="Every schedule of the real worker threads with up to the stated number of delays (from four base orders) is executed under a controlled scheduler, and every access of the program is checked by a happens-before race detector in each.")

prop("C31", "kanjiFormat joins furigana lines to their Kanji and loses nothing",
     """kanjiFormat copies a text line by line, unchanged and in order, except that a line consisting only of Kana right after a line ending in a Kanji is put in wide brackets directly after that line (and what follows continues on the same line); no line is dropped, repeated or reordered, a Kanji at the end of the input included, and the input file only needs to be readable.""",
     ["inputs"], "every text up to the stated length over the token alphabet", "There are no tests of this program.",
     ["apps/formatMain.cpp"], [("main loop", "apps/formatMain.cpp")], observe=["program output"], level_note="All token words to the bound through the real program against an independent formatter.")


prop("C32", "The details of a Kanji show exactly what the data says about it",
     """Asked for a Kanji (by itself, its compatibility form or its Unicode), the quiz program shows its code, Unicode block, version and sources, type, attributes, meaning, reading, the other members of its (family or peer) pattern group in order, Morohashi and Nelson IDs, the names of all of its meaning groups, and every compound it's part of exactly once, those of its own grade before the others when there are more than three and both kinds, aligned in columns; nothing that the data doesn't have is shown, Kanji that aren't in the Unicode data are shown as not found, and other characters are refused. The legends explain exactly the fields shown.""",
     ["inputs", "configurations"], "every loaded Kanji, every code point of the Kanji blocks with every selector, every small set of groups and compounds to the bound",
     "Tests compare the details of a few Kanji.", [Q + "QuizLauncher.cpp"], [("QuizLauncher::printDetails/printReviewDetails/printJukugo", Q + "QuizLauncher.cpp")],
     observe=["QuizLauncher output for Kanji arguments", "QuizLauncher::printReviewDetails/printLegend/printMeaning"],
     level_note="Complete enumeration of the Kanji and bounded enumeration of small data sets on the real launcher against a model of the layout.")


prop("C33", "The data directory and shared options are found from anywhere",
     """Every program finds its data in the directory given by -data, otherwise in the nearest directory called data (with exactly ten .txt files; others are passed over) in or above the current directory or else above the program's own; anything else given, and data that can't be found, is refused naming what was tried. At most one -debug or -info may be given. These options can be put anywhere among a program's own arguments, which are then seen in order exactly as without them.""",
     ["configurations"], "every small tree of directories with every kind of data directory, every argument list to the bound",
     "Tests try one or two directories and argument lists.", [J + "KanjiData.cpp"],
     [("KanjiData::getDataDir/getDebugMode/nextArg", J + "KanjiData.cpp")], observe=["KanjiData::getDataDir/getDebugMode/nextArg", "TextKanjiData::dataDir/fullDebug/infoDebug", "Stats output"],
     level_note="All trees and argument lists to the bound on the real functions and classes against an independent search.")

prop("C34", "Data reports give the true counts and every inconsistency",
     """With -info or -debug the programs report exactly what was loaded: how many Kanji of each type, grade, level and Kyu there are and how many of them have no frequency, what the lists contain that is not in the others, every Kanji whose strokes differ from the Unicode data, the Kanji of each radical (in order of strokes) and the radicals without any, the Unicode entries with each kind of data, links and variants, the groups with their members, how often Kanji are in them and which are missing, and the compounds per grade. Nothing is reported otherwise. A Kanji that is missing or not marked (or linked) as expected in the Unicode data is always reported as an error, numbered in order, and nothing else is.""",
     ["inputs"], "every loaded data set: the shipped one, every small one to the bound, and every single mistake in them",
     "Tests compare a few sample outputs.", [J + "KanjiData.cpp", J + "RadicalData.cpp", J + "UcdData.cpp", Q + "GroupData.cpp", Q + "JukugoData.cpp"],
     [("KanjiData::finishedLoadingData/insertSanityChecks/print*", J + "KanjiData.cpp"), ("RadicalData::print", J + "RadicalData.cpp"), ("UcdData::print", J + "UcdData.cpp"), ("GroupData::printGroups", Q + "GroupData.cpp")],
     observe=["output and errors of TextKanjiData, GroupData and JukugoData with -info and -debug"],
     level_note="Every line of the shipped data's reports and of those of all small data sets to the bound against an independent model; every single mistake in the Unicode table of the small ones.")


def manifest():
    checks, na = [], []
    for p in P:
        if p["id"] in CHECKS:
            c = CHECKS[p["id"]]
            checks.append(dict(
                property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick",
                thorough_cmd=f"python3 check.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                technique=c.get("technique", "bounded exhaustive model checking of the real code against an explicit reference model"),
                level="model_checking", level_note=p["level_note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "its check is not built yet")))
    return dict(version=1, setup_cmd="python3 -m py_compile check.py checks.py props.py && g++ --version >/dev/null",
                checks=checks, not_applicable=na,
                notes="check.py builds /repo's libraries and the harness of the property in a temporary directory on every run; no hooks in /repo.")


NA = {}

if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids)) and set(CHECKS) <= set(ids)
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            d = {k: v for k, v in p.items() if k != "level_note"}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(manifest(), f, ensure_ascii=False, indent=1)
        f.write("\n")
