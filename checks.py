"""What each check builds and runs (the statements are in props.py)."""
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
ASAN = ["-O1", "-fsanitize=address"]
FAST = ["-O1"]

CHECKS = {}


def add(pid, lib, src, rule, bounds, flags=SAN, **kw):
    CHECKS[pid] = dict(lib=lib, bins={"h": src} if isinstance(src, str) else src,
                       rule=rule, bounds=bounds, flags=flags, **kw)


add("C01", "utils", "c01_utf8.cpp",
    "a case is a byte string (or UTF-32 value) run through every conversion entry point and compared with an RFC 3629 "
    "reference decoder; states = distinct error/length shapes, transitions = bytes consumed, outcomes = distinct re-encodings",
    "all byte strings of <=3 bytes (<=2 plus all non-Ascii-led 3 in quick), 4 bytes: every lead x 31 byte classes^3, "
    "words of <=6 (7) over 12 bytes, all code points 0..0x111FFF plus 7 beyond")
add("C02", "utils", "c02_validate.cpp",
    "a case is a byte string validated with sizeOne on and off through every overload, compared with the set of verdicts true of it",
    "all byte strings <=2 bytes, all multi-byte-led of 3, 4 and 5 bytes over 31 byte classes, every Unicode scalar value alone and doubled")
add("C03", "utils", "c03_blocks.cpp",
    "a case is a block of code points (each alone, doubled, and next to marks/neighbours) or a set of words; all predicates are compared with the block sets; "
    "states = distinct (membership vector, 256-block) pairs, transitions = characters classified, outcomes = distinct predicate results",
    "every Unicode scalar value; words <=4 (thorough 6) over 17 representatives; regex ranges on every scalar value")
add("C04", "kana", "c04_chars.cpp",
    "a case is a set of strings iterated completely (with a peek before every step) or a set of call histories on a string, compared with a character model; "
    "states = distinct (size, counts) results and (position, string) pairs, transitions = calls compared, outcomes = distinct (first char, count)",
    "words <=4 (5) over 20 tokens, all histories of 5 (7) calls from next/nextAll/peek/peekAll/reset on words <=3 over 9 tokens, code points x modifiers")
add("C05", "utils", "c05_columns.cpp",
    "a case is a set of generated files read by the real class (every row, every column, every accessor) and compared with their text; "
    "states = distinct (row shape, position, result) and cell strings, transitions = rows read, outcomes = distinct results/errors",
    "headers: words <=4 over 6 names x 7 requests; rows: all 6x6 column orders x lines of <=4 cells over 3 cells, all pairs (triples thorough) of lines; "
    "interleavings <=6 of two files; cells: numeric words <=4 (5) over 13 chars and all width limits, flags, hex words <=6")
add("C06", "utils", "c06_enums.cpp",
    "a case is one iterator state (or name/index/map/bitmask family): every operation with every operand is applied to the real object and compared with an integer index model; "
    "states = distinct (container, position / index / stored values), transitions = operations applied, outcomes = distinct (operation, result)",
    "5 lists and 3 maps of 1..255 values; operands -1100..1100 and +-300 around 2^15..2^62 and the 64 bit limits; histories of 5 (6) moves; "
    "map store histories of <=4 (5); names words <=3 over 15 letters; all 8 bit and a grid of 16 bit bitmasks", flags=FAST)

add("C07", "utils", "c07_symbols.cpp",
    "a case is a creation history prefix (each continuation runs in a forked copy of the process, so it starts from exactly the state its prefix leads to); "
    "states = distinct sets of known names, transitions = creations, outcomes = results",
    "all creation histories of 4 (5) steps over 5 (6) names and two kinds, all orders of 6 names, growth in 3 orders to 65534 symbols with attempts beyond", flags=FAST)
add("C08", "utils", "c08_strings.cpp",
    "a case is a family of values formatted by every entry point and compared with an independent renderer; states = distinct values, transitions = calls, outcomes = distinct lengths / results",
    "all 8 and 16 bit values, all code points to 0x113FFF, all 1-2 bit patterns and boundaries of 32/64 bit values, widths 0..70; strings of <=4 (5) tokens over 16, all 1-2 byte strings; argument counts around every limit")

add("C09", "kana", "c09_toKana.cpp",
    "a case is a family of Rōmaji words converted to both scripts and compared with a reference transducer built from the frozen chart; "
    "states = distinct (spelling) and (sizes, first output) classes, transitions = bytes consumed, outcomes = distinct output prefixes (sampled 1 in 16)",
    "all 259 spellings in every letter case x 28x28 contexts, doubled letters, macrons; all pairs of 266 units (+8 thirds; thorough all triples); all words <=4 (5) over 39 symbols; <=6 (7) over 10", flags=FAST)
add("C10", "kana", "c10_fromKana.cpp",
    "a case is a family of Kana sequences, spelled in both scripts, converted to the other script and to Rōmaji under each flag set, compared with a reference transducer and converted back; "
    "states = distinct (Kana) and (Rōmaji prefix, length) classes, transitions = Kana consumed, outcomes = distinct Rōmaji prefixes (sampled 1 in 8)",
    "all pairs of 207 units (204 Kana and 3 marks) with each of 36 representatives as third (thorough: all triples); all words <=4 (5) over the representatives; Hepburn/Kunrei flag sets, all flags on single Kana", flags=FAST)
add("C11", "kana", "c11_kanaTable.cpp",
    "a case is a table entry (all its lookups, links, spellings under all flags and iteration marks), a family of strings looked up in every map, or a printed chart, compared with the frozen chart and Unicode composition; "
    "states = distinct entries, transitions = lookups/cells compared, outcomes = distinct Rōmaji",
    "all 204 entries x 16 flag sets x 2 marks, all strings of 1-2 code points of U+3030..310F, all Ascii words <=3 (4), both charts")
add("C12", "kana", "c12_passThrough.cpp",
    "a case is a family of texts converted between every pair of scripts (and from all scripts) and compared with the reference transducer, with the conversion of their pieces, or with the text converted there and back; "
    "states = distinct (scripts, flags, text prefix), transitions = bytes consumed, outcomes = distinct results (sampled 1 in 16)",
    "pairs of ~190 characters (all Ascii, all wide delimiters, other classes) in 18 contexts; words <=3 (4) over 25 tokens; 171x171 pieces around 78 delimiters; every code point to U+30FFF (1 in 8 outside the punctuation/Kana areas in quick) in 3 contexts; 16 flag sets on the shorter ones", flags=FAST)
add("C13", "kana", "c13_choice.cpp",
    "a case is a prompt configuration with every sequence of reply lines, or a history of quit option changes and prompts; returned choice, prompt text, number of prompts, input left and errors are compared with a prompt automaton; "
    "states = distinct configurations, transitions = lines read, outcomes = distinct choices/errors",
    "all 729 sets of 6 characters with/without descriptions x 7 defaults x 4 quit options x use x lines <=2 over 14 (+longer ones); 225 ranges x 5 sets x 3 x 5 x 2; all 256 characters as choice/default/quit/reply; all histories of 4 (5) operations; 5 configurations x all sequences of 3 (4) keys typed in a real (pseudo) terminal, one after each prompt, or read from a pipe, ended by a choice or by the end of input")
add("C14", "kana", "c14_table.cpp",
    "a case is a family of tables built row by row, printed plainly (under two stream states) and as Markdown and compared with an independent layout; "
    "states = distinct tables/histories, transitions = rows printed, outcomes = distinct first lines",
    "all tables of <=2 rows over 83 rows (cells of every width class, 0-5 columns) x sections x 5 titles x counting; all histories of 4 (5) additions over 8 with a comparison after each; to 1001 rows and 12 columns")
add("C15", "kana", "c15_displaySize.cpp",
    "a case is a block of code points or a family of strings; widths from every overload and padding to every width are compared with the frozen East Asian Width table; "
    "states = distinct (width, 64-block) pairs and strings, transitions = characters measured, outcomes = distinct (width, bytes)",
    "every value 0..0x11FFFF; words <=4 (5) over 24 tokens; padding to 0..299")
add("C16", "kana", {"h": "c16_kanaConvert.cpp", "app": "@repo/apps/convertMain.cpp"},
    "a case is a family of argument lists, interactive sessions or piped texts run through the real class (and the program) and compared with a settings automaton whose conversions are the library's; "
    "states = distinct settings shown, transitions = arguments/commands, outcomes = distinct (kind, error, size)",
    "all argument lists <=4 (5) over 25 words with and without an input stream; all sessions of <=5 commands over 21 (<=4 from two other starts), ending by quit or end of input anywhere; piped texts <=4 (5) lines over 10; the program on all lists <=2", flags=FAST, run=["h"])
add("C17", "kanji", "c17_ids.cpp",
    "a case is a family of spellings (or value pairs) given to the real constructors and compared with an independent grammar, printed, read back and ordered; "
    "states = distinct accepted ids/values, transitions = characters parsed and comparisons, outcomes = distinct kinds of result",
    "all words <=5 (6) over 14 characters, all numbers 0..69999 with 13 prefixes x 16 suffixes, numbers around 2^16/2^32/2^64 with 0-300 leading zeros, every byte; all pairs of ids 0..100 (300) and boundaries x 4 kinds; all 256x256 stroke pairs and all pairs of valid stroke counts", flags=FAST)
add("C18", "kanji", "c18_listFile.cpp",
    "a case is a family of files (or pairs/triples of files loaded one after the other) read by the real classes in every file type and compared with a loader model; "
    "states = distinct loaded lists, transitions = bytes read, outcomes = distinct sizes/errors",
    "all texts <=5 (6) over 8 tokens in 4 types; every byte in 16 contexts; every scalar value to U+2FFFF as an entry; all pairs of files <=4 (5) tokens over 4 in all 16 type pairs with a third file; sizes around 2^8/2^15/2^16 and the 65534 limit; lists of up to tens of thousands of entries in one or several files, any number per line, with an entry repeated at either end, in the middle or in the other file", flags=FAST)
add("C19", "kanji", {"full": "c19_kanjiData.cpp", "small": "c19_small.cpp"},
    "a case is a batch of Kanji, code points or numbers looked up in every index of the loaded data, or a small data directory loaded by the real class, each compared with a model built from the same files; "
    "states = distinct Kanji and small directories, transitions = attributes/lookups compared, outcomes = distinct (type, grade, level, kyu)",
    "every Kanji of the shipped lists plus a synthetic Unicode table (6818), every code point of the Kanji blocks alone and with selectors, all ids 0..65535 of every kind; all pairs (a fifth of the triples thorough) of roles of a Kanji across the list files, with three byte Kanji and with four byte Kanji having up to 8 linked forms, 7 ids and long readings", flags=FAST, data=True)
add("C20", "kanji", "c20_ucd.cpp",
    "a case is a batch of entries of the full table or a family of small files loaded by the real class, compared entry by entry (or refusal by refusal) with a loader model; "
    "states = distinct files/entries, transitions = fields and lookups compared, outcomes = distinct errors",
    "all 6818 rows of a full-size table with 1-10 values per cell and every Kanji-block code point with and without selectors; all single and paired (triple thorough) replacements of the fields of 5 rows from a catalogue of ~170 values; "
    "all combinations of the link columns; all files of <=4 (5) rows over 12; every character as name and as link; cells with up to dozens of links, readings, ids and words, with one missing or wrong at the end", flags=FAST, data=True)
add("C21", "kanji", {"full": "c21_order.cpp", "small": "c21_small.cpp"},
    "a case is a batch of Kanji compared with every other Kanji under both orders, or whose information line is produced for every set of fields, compared with sort keys and an independent formatter; "
    "states = distinct (Kanji, order), transitions = comparisons and lines, outcomes = distinct qualifiers and line starts",
    "all pairs of the 6818 Kanji of a full-size data directory under both orders; all 512 field sets of each; 8 start orders sorted; a quarter (all thorough) of the pairs of roles of four byte Kanji with up to 8 old forms", flags=FAST, data=True)
add("C22", "kanji", "c22_radicals.cpp",
    "a case is a batch of numbers, names or Kanji whose radical is looked up, or a family of small files loaded by the real class; compared with a model of the file; "
    "states = distinct radicals and files, transitions = lookups and rows, outcomes = distinct radicals/errors",
    "all 214 radicals (all pairs), all numbers 0..65535, every code point to U+323FF as name, all Kanji; all files of <=3 (4) rows over 12 numbers x 6 names; radicals with up to dozens of alternative forms and long readings", flags=FAST, data=True)
add("C26", "quiz", "c26_groups.cpp",
    "a case is the shipped group files, a family of small files loaded by the real class, or groups made directly; compared group by group (or refusal by refusal) with a loader model; "
    "states = distinct groups/files, transitions = attributes and lookups, outcomes = distinct sizes/errors",
    "all shipped groups; all single rows over 11 numbers x 19 names x 29 member lists in both files (alone and after a good row); all files of <=4 (5) of 9 groups; every pair of files of 2; every Kanji as member; sizes 0..66 and all member lists <=6 over 4", flags=FAST, data=True)
add("C27", "quiz", "c27_jukugo.cpp",
    "a case is a batch of characters looked up in the shipped compounds or a family of small file sets loaded by the real class; compared entry by entry (or refusal by refusal) with a loader model; "
    "states = distinct compounds/file sets, transitions = lookups and files, outcomes = distinct list sizes/errors",
    "every shipped compound and every code point to U+323FF; all texts <=5 (6) over 10/9 tokens in both formats (alone and after a name); 28 names x 22 readings in all files and positions; all sets of <=4 (5) of 6 compounds over 3 files; every character of the Kana and Kanji block edges in names and readings; every pair of characters as separator of the compounds of a Kanji; long names and readings; many compounds of one Kanji in one or two files; all ways to divide the same letters between names and readings", flags=FAST, data=True)
add("C31", "utils", {"h": "c31_format.cpp", "app": "@repo/apps/formatMain.cpp"},
    "a case is a family of text files given to the real program and its output compared with a line automaton; "
    "states = distinct files, transitions = lines, outcomes = distinct outputs",
    "all files of <=4 (5) lines over 14 kinds of line, with and without final line end; one file with every word <=6 (7) of 5 kinds; every scalar value to U+31FFF (and samples above) in 4 positions; long lines and runs; lines of every length up to hundreds, of each kind, as only, last and last but one line", flags=FAST, run=["h"])
QUIZ = FAST + ["-include", "rng.h"]
add("C23", "quiz", "c23_listQuiz.cpp",
    "a case is a quiz configuration played with every word of inputs (or every sequence of random draws); everything printed between inputs is compared with a session automaton; "
    "states = distinct (configuration, question, score) states, transitions = inputs, outcomes = distinct positions of the right choice and errors",
    "4 lists x choice counts x 2 styles x 3 orders x 4 starts x meanings, every word <=4-5 (5-6) over 6-10 inputs with end of input after each; reviews: words <=6 (7) over 6; all sequences of 4 (6) random draws over 12 grid points; 12 questions with two odd answers at every pair of places for 2-9 choices; long lists (reviews and quizzes) with one odd action at every place", flags=QUIZ, data=True)
add("C24", "quiz", "c24_groupQuiz.cpp",
    "a case is a group quiz configuration played with every word of inputs (or every sequence of random draws); everything printed between inputs is compared with a session automaton; "
    "states = distinct (configuration, question, assignments, score) states, transitions = inputs, outcomes = distinct verdicts",
    "4 sets of groups x 3 orders x 3 starts x meanings, every word <=5 (6) over 9 inputs (<=8 (9) over 4) with end of input after each; 4 member types; reviews: words <=5 (6) over 7; all sequences of 3-4 (5) random draws over 12 grid points; groups of 26-58 members with one odd action at every place; every part of the pattern groups; all shipped groups", flags=QUIZ, data=True)
add("C25", "quiz", "c25_launcher.cpp",
    "a case is a family of argument lists and/or menu replies given to the real launcher; everything printed, the input consumed and the outcome are compared with an option and menu automaton followed by the quiz started directly with the expected settings; "
    "states = distinct quizzes started, transitions = lines read, outcomes = distinct (result, output size)",
    "all lists <=2 of 61 arguments and <=4 (5) of 24 with 6 (2, 4) reply scripts; all 2 character options; mode numbers: all words <=5 (6) over 8 characters, 0..299 (2999) and limits; all paths through the menus with every deviation at every prompt; through standard input; repeated starts <=3 (4) of 8; Kanji arguments <=5 (6) characters, all ids; modes, lists and meanings in every order", flags=QUIZ, data=True)
add("C32", "quiz", "c32_details.cpp",
    "a case is a batch of Kanji or code points whose details are printed by the real launcher, or a family of small group and compound files loaded for it; compared with a model of the parts and their layout; "
    "states = distinct Kanji and small data sets, transitions = outputs compared, outcomes = distinct details",
    "every Kanji of the full-size data under each of its names; every code point to U+313FF as u argument and UTF-8, with all selectors; 512 legends; all lists of <=6 (7) compounds over 5 kinds of 3 Kanji; groups: 7 pattern situations x sizes x positions x all lists of <=4 of 3 meaning groups", flags=QUIZ, data=True)
add("C28", "stats", "c28_counts.cpp",
    "a case is a family of texts (added directly, split over several calls, or in files and directory trees) counted by the real class and by a counting model; "
    "states = distinct (map, errors, selectors, marks, replacements), transitions = characters counted, outcomes = distinct (sizes, totals)",
    "all words <=4 (5) over 16 tokens with and without the Furigana pattern, added and as files; every split of <=3 (4) tokens into three calls x 4 filters; bracketed words <=7 (8) over 6; lines: words <=7 (8) over 5, <=5 (6) over 8 whole lines; 4 other patterns; every character in every place of the pattern; "
    "all directory trees of <=3 (4) entries over 14 kinds x 8 flags; histories of <=4 (5) of 10 calls; read-only files; long lines; directory entries of every odd name; deep and large trees; many selector tags; large counts; brackets at every place of two or three lines of each length", flags=FAST)
add("C29", "stats", {"h": "c29_stats.cpp", "app": "@repo/apps/statsMain.cpp"},
    "a case is a family of texts, directory trees or argument lists reported by the real class (or the program) and compared line by line with a report model, or a batch of pairs and triples of entries put in order; "
    "states = distinct reports, transitions = report lines and comparisons, outcomes = distinct report sizes",
    "all texts <=4 (5) over 18 tokens; every vector of counts 0..2 of 8 (10) Kanji of every type and of 7 of one class; counts around powers of ten and all pairs <60 (200); every loaded Kanji; every character of the blocks alone and with selectors; 4^3 texts x 6 directory shapes x options; all argument lists <=3 over 14 (<=4 (5) over 6); all pairs of 230 entries; directories of many files with their counts in every kind of order; many arguments with the options at every place", flags=FAST, data=True, run=["h"])
add("C30", "stats", {"h": "c30_schedules.cpp"},
    "a case is a scenario (files and options) with a base order and the place of the first delay: every schedule of the real worker threads with up to the stated number of delays is executed under a controlled scheduler, its output compared byte by byte with that of running them one after the other, and every memory access of the program checked against the happens-before order; "
    "states = distinct sequences of threads, transitions = scheduling operations, outcomes = distinct outputs",
    "quick: kanjiStats on one file (plain; -b -v), a nested directory (-b), two files, an empty file, a file and a missing one; base orders child first, run to completion, reverse and round robin; preemption points = thread, lock, wait, once and file operations (coarse) or those and every atomic operation (fine); every schedule with at most 1 delay for each, at most 2 for the plain file (coarse, first two orders); thorough: at most 2 delays for all coarse ones (first two orders; all orders for the plain and the empty file), at most 3 for the empty file (child first); races: FastTrack-style vector clocks over every instrumented access, not only those that overlap in the schedule run",
    flags=["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], link_flags=["-O1"], ldflags=["-rdynamic", "-ldl"], harness_flags=["-fno-sanitize=thread"], runtime=["threads.cpp"], data=True,
    technique="stateless model checking: delay-bounded exploration of all schedules of the real threads under a controlled scheduler, with a happens-before race detector in every schedule")
add("C33", "stats", "c33_dataDir.cpp",
    "a case is a tree of directories searched from every current directory and program name, or a family of argument lists given to the real functions and programs, compared with an independent search and argument filter; "
    "states = distinct (tree or argument list, place, result), transitions = searches and arguments, outcomes = distinct results",
    "8 kinds of data directory at each of 3 levels and 3 beside them x 6-8 current directories x 11 program names x 2; all lists <=4 (5) of 13 arguments (<=2 (3) also loaded); statistics: all lists <=3 (4) of 11 parts; long argument lists with a shared option at each place", flags=FAST, data="shipped")
add("C34", "quiz", {"full": "c34_reports.cpp", "small": "c34_small.cpp"},
    "a case is a data directory (the shipped one, or a small one) loaded by the real classes with -info and -debug, and the groups and compounds loaded for it; every line reported, and every error about a mistake put into the data, is compared with an independent model of the data (layout is not compared); "
    "states = distinct data sets, transitions = report lines, outcomes = distinct lines",
    "the shipped data without an option, with -info and with -debug; small data: 1-2 Kanji with every pair of roles; each one with every row of the Unicode table missing, unlinked, unflagged or with the other flag; all choices of radicals for 3 of 6 (7) Kanji, of strokes for 2, 0-16 Kanji of one radical; all assignments of 4 (5) Kanji to any of 3 meaning groups, of 5 (6) to one of 3 pattern groups of 27 kinds", flags=FAST, data=True)
