#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Scanner position is always valid and the text is never altered",
"For every text (any bytes) and every sequence of scanning, reading and moving calls with any arguments, no call panics, the position stays between 0 and the length of the text, and the part before plus the part after the position is always exactly the original text. A move to a marker, by bytes or by runes whose target lies outside the text is refused and changes nothing; an accepted one lands exactly on its target, where a rune-wise step crosses exactly one rune and an invalid byte counts as one rune of one byte. The at-start, at-end and marker queries always agree with that position.",
["inputs","histories"],"all byte strings (valid UTF-8 or not), all argument values including negative, huge and empty ones, all call sequences",
"The tests call each function once on a short ASCII text with in-range arguments; nothing drives call sequences, invalid UTF-8 or out-of-range arguments.",
["scanner.go","scanner_rev.go","intl.go","read.go"],
[("bounds checks of the two functions that set the position","scanner.go Move, ToMarker"),("rune stepping","scanner.go MoveRunes, intl.go revItr")],
["return value, Head/Tail/Mark/AtStart/AtEnd after every call"],[("pos","current byte offset","scanner.go Scanner"),("full","text","scanner.go Scanner")])

p("C02","Forward scanning matches exactly what the text to the right contains",
"For every text, position and argument, a forward conditional (literal, any of several literals (the first listed one that matches), case-folded literal, rune, rune set, rune range, predicate) succeeds exactly when the text at the position starts with a match and then consumes exactly that match. A forward search stops in front of the first match and fails, without moving, only when there is none; a forward while-scan consumes the longest run of matching runes and reports true exactly when it moved. Reading n runes as a string succeeds exactly when n runes are left.",
["inputs"],"all texts, start positions, patterns, rune sets, ranges and predicates, including multi-byte runes, U+FFFD, invalid bytes, case pairs of different byte length, and the ends of the text",
"Each function is tested on one to four ASCII examples where the pattern is present; absent patterns, empty tails, invalid UTF-8 and the returned bool are mostly not looked at.",
["scanner.go","intl.go"],[("prefix, index and rune loops over the tail","scanner.go If*, To*, While*, ScanString"),("case folding","intl.go foldPrefix")],
["return value and position of every forward call"])

p("C03","Backward scanning is the exact mirror of forward scanning",
"For every text, position and argument, a backward conditional succeeds exactly when the text left of the position ends with a match and then moves back over exactly that match. A backward search stops directly behind the last match left of the position and fails, without moving, only when there is none; a backward while-scan moves back over the longest run of matching runes and reports true exactly when it moved.",
["inputs"],"all texts, start positions, non-empty valid patterns, rune sets, ranges and predicates, including U+FFFD, invalid bytes and case pairs of different byte length",
"The tables of the tests for the backward range and predicate functions are empty or call the forward function; the others hold one to four ASCII examples.",
["scanner_rev.go","intl.go"],[("suffix checks and reverse rune iterator","scanner_rev.go Rev*, intl.go revItr"),("case folding","intl.go foldSuffix")],
["return value and position of every backward call"])

p("C04","A failed read leaves no trace in the scanner position",
"Whenever a built-in reader, a wrapped read function, a value read, or a scoped, traced, captured or tokenized call reports failure, the scanner stands exactly where it stood before the call. Readers that go on after a failed part (alternatives, options, repetitions, searches, negation) therefore go on as if the failed part had never run, and a lookahead never moves the scanner, whether it succeeds or fails.",
["inputs","programs"],"all compositions of readers, nested failure at every depth, all texts and start positions",
"The tests read successful examples; failures in the middle of a composed reader are not sampled.",
["reader.go","scanner.go","token.go","read.go"],[("mark before, ToMarker on error","reader.go Use, UseFunc, seqReader, skipSeqReader, timesReader, anyReader, bodyReader; scanner.go Scope, Trace; token.go Tokenize, TokenizeUse")],
["position before and after every failing call, and of every sub-read inside a composition"])

p("C05","Composed readers accept and consume what their definition says",
"For every composition of the built-in readers and every text, reading succeeds or fails, and on success consumes exactly the bytes, that the ordered-choice definition of the readers gives: sequence reads all in order (skipping readers skip before, between and after), alternatives take the first that reads, option and zero-or-more never fail, one-or-more needs progress, times needs exactly n, lookahead consumes nothing, negation takes one rune where its part does not match, search readers stop in front of or behind the first match, body readers require that everything up to the first tail match is read by the body. Repetitions are greedy and never give back.",
["programs","inputs"],"all reader expressions up to the generated size (including recursive rules), all texts generated from and mutated around them",
"Two successful sequences and three negation examples are tested; the behaviour of combinations over arbitrary texts is a product space no table samples.",
["reader.go","grammar.go"],[("Read methods of all readers","reader.go"),("Rule indirection for recursion","grammar.go Rule")],
["error/nil and position after Use on every generated pair of reader and text"])

p("C06","Reading always terminates with work bounded by the text",
"Every built-in reader, every composition of them that is not left-recursive and the JSON, MXT and Lua grammars return on every text, whatever its bytes and wherever it is cut off. A repetition ends as soon as its part no longer advances, and a search ends at the latest at the end of the text.",
["inputs","programs"],"all texts including truncated, unterminated and invalid UTF-8 ones; all non-left-recursive compositions including repetitions of readers that can match nothing",
"No test reads an unterminated string, a text without the searched part, or a repetition of a possibly empty part.",
["reader.go","scanner.go","grammar/json.go","grammar/mxt.go","grammar/lua.go"],[("progress checks of Zom and Many","reader.go zomReader, manyReader"),("loops that advance by one rune","reader.go toReader, pastReader, bodyReader, bodyTailReader"),("end of text checks of single rune readers","reader.go holeyReader, notReader; scanner.go If*")],
["number of position updates and predicate calls during a read, CPU time of the read"])

p("C07","Values read from the text are exact",
"Reading a signed or unsigned integer of base 8, 10 or 16 and 8, 16, 32 or 64 bits yields exactly the value of the longest run of digits at the position that still fits the type, consumes exactly its optional sign (signed only) and those digits, and fails without moving when there is no digit. Reading a bool accepts exactly the spellings of its format and nothing else, reading a rune (either direction) yields the next valid rune including U+FFFD and fails at an end of the text or on an invalid byte; unsupported bases, sizes and formats are refused with an error. The value readers store exactly the value that was read.",
["inputs"],"all digit strings around every type boundary, all leading zeros, signs and letter cases, all following texts, all argument values",
"About 40 examples, none of them a number that overflows 64 bits by more than one digit, none at all for bool and rune.",
["read.go","reader.go"],[("digit loops with overflow guard","read.go ReadInt, ReadUint"),("spelling tables","read.go ReadBool"),("value readers","reader.go BoolReader, IntReader, UintReader")],
["returned value and error, position, Value field"])

p("C08","Captured strings and tokens are exactly the consumed text",
"Every captured, traced or tokenized read returns exactly the part of the text between the position before it and the position that its body reached, where the scanner stays, also when the position moved backwards, and a mapped reader reports exactly one token per successful read of its part, with the positions in the whole text, no matter how deep it is nested. Asking the scanner for a token or for the text since a marker returns exactly the bytes between the two positions in either order.",
["inputs","programs"],"all texts, start positions, readers and scope functions, including nesting inside body readers and lookahead",
"One capture example; tokens are compared only through two sorted tables.",
["token.go","scanner.go","reader.go"],[("Tokenize, TokenizeUse, Capture*, Since, Get","token.go"),("Trace*","scanner.go, reader.go"),("mapReader","reader.go")],
["returned strings and tokens, tokens passed to map functions"])

p("C09","Token relations agree with half-open intervals",
"For all tokens made from any two markers in either order: before, after, covers and length are the relations of the half-open byte intervals; clashes is true exactly when both share bytes and each has bytes the other lacks, and is symmetric; merge is the smallest interval that covers both; splitting by a covered part yields exactly what lies left and right of it, and a segment's parts keep its information. The text form of a token shows its two positions in order, that of a segment its information in front of them.",
["inputs"],"all pairs of intervals including empty, equal, touching and nested ones, and triples for the algebraic laws",
"Four fixed tokens are compared; none is empty, equal or touching.",
["token.go","segment.go"],[("interval comparisons","token.go")],["results of all token operations"])

p("C10","A basket holds exactly the picks of the successful read",
"After a read with a basket coupled to the scanner, the basket holds exactly one segment, with the picking name and the consumed range, for every picked part that belongs to the final successful derivation, in the order in which the parts were completed. Picks of alternatives, repetitions, lookaheads, searches or whole reads that were abandoned are gone as soon as the scanner moved back, and after a failed use only what was picked before it is left.",
["programs","inputs","histories"],"all compositions with picks at any depth, all texts, several uses with the same basket",
"The only test with a basket never looks at its content.",
["tracker.go","grammar.go","reader.go"],[("truncation of the segments when the scanner moves back","tracker.go Basket.Update"),("notification on every move","scanner.go Move, ToMarker"),("pickReader","tracker.go")],
["Basket.Picked and String after every use"],[("segments","picked segments in completion order","tracker.go Basket")])

p("C11","A graph is always the containment tree of the accepted segments",
"After any sequence of appends, every accepted segment is exactly one node below the root, every node covers its children, siblings do not overlap and are ordered by position, and the root spans exactly all accepted segments. An append is refused exactly when the segment clashes with an accepted one, and a refused append changes nothing; of equal non-empty ranges the later one encloses the earlier. Leafs, equality and the flame stack (one line per node: path, then length) show exactly that tree.",
["histories","inputs"],"all sequences of segments: nested, disjoint, equal, empty, touching and clashing, in any order",
"Four appends and one build of four nested segments are tested; order of arrival is always outermost first.",
["graph.go","token.go"],[("recursive placement","graph.go rankNodes, Append"),("sibling order","graph.go nodeByPos"),("printing","graph.go makeStackLines, appendLeafs")],
["Root tree, ok value, FlameStack text, Leafs, Equal"])

p("C12","Sorting and segmenting segments lose nothing and keep the order",
"Sorting segments yields a permutation of the input where a covering segment comes before every segment it covers and disjoint ones are in text order; segments with equal ranges keep their input order, or follow the given information order (names that are not listed first) when one is given. Segmenting a text or segment by ordered, non-overlapping parts returns a gapless, non-overlapping partition of exactly the whole range, with every given part in it unchanged and every gap carrying the information of the whole; parts that are out of order, overlapping or outside are refused with an error.",
["inputs"],"all lists of laminar segments of any length and initial order, all order lists, all part lists",
"One list of four or five segments each and one segmentation.",
["segment.go"],[("comparison functions with stable sort","segment.go SortSegments, SortSegmentsByOrder"),("left/rest splitting","segment.go Segmentate")],
["resulting slices and errors"])

p("C13","The monitor log is a complete and truthful call trace",
"For every monitored read the log holds exactly one entry per monitored reader that was entered, in the order of entering, with the nesting level, the position at entry, the position at exit and the error it returned (none on success), also when the log grows, branches fail and reads repeat. After the outermost reader returned the nesting level is back at the start, a reset empties the log and its nesting level even with open entries, a printed line shows level, position and info of its entry, and the printed preview shows the text at the position of the entry (nothing behind the end of the text).",
["programs","inputs","histories"],"all monitored grammars and texts, any depth and number of entries, several reads and resets",
"The log is only printed when a test fails; no test looks at its entries.",
["monitor.go","grammar.go"],[("Enter/Exit pairs around the sub reader","monitor.go monitorReader, Log"),("preview","monitor.go PrintWithPreview")],
["Log.Entries, printed output"],[("Entries","log records","monitor.go Log"),("level","current nesting","monitor.go Log")])

p("C14","A failing read names what failed and where",
"Every failure of a built-in reader caused by the text is a read error whose position is the byte offset at which the reported element was tried, never before the start of the read and never behind the text, and whose description is the description of that element. A sequence, skipping sequence, repetition count or lookahead reports the failure of its failing part, alternatives report the failure that got furthest (the last of equals), and an alternative of readers that are all invalid reports their error. The text of an error shows its position and description, also when the JSON, MXT or Lua grammar passes the error on.",
["programs","inputs"],"all compositions of readers and all texts on which they fail",
"Tests check that an error is nil or not, never its position or description.",
["error.go","reader.go"],[("ErrorFor/ErrorIfFalse at the position of the failed part","error.go"),("getDeepest","reader.go anyReader")],
["ReadError returned by Use/Read"])

p("C15","The JSON grammar accepts exactly JSON and picks its structure",
"The JSON grammar reads a text to its end exactly when the text is one RFC 8259 JSON value with optional white space around it; any other text is read only up to its longest prefix that is such a value, or rejected if no prefix is one (bytes inside a string that are no UTF-8 are taken as they are). Picking the rules for objects, arrays, strings, keys, numbers, bools and null yields exactly the ranges of these elements in the text, once each.",
["inputs"],"all texts: generated JSON values of any shape and depth with every escape and number form, and mutations, truncations and corruptions of them",
"Four well-formed documents; no rejected text, no escapes, no numbers.",
["grammar/json.go"],[("the rules","grammar/json.go JSON")],
["result and position of Use, basket content"])

p("C16","The MXT grammar recovers every chunk of a document",
"For every document made of chunks (marker, name, comment, arrow, optional salt, content, with either line ending), reading it succeeds to the end and the mapped names and contents, in order, are exactly those of the document: a chunk ends only at a line that starts with the marker followed by the salt its header set, so salted content may contain marker lines of its own, and content is never altered. A text that does not start with a chunk header is rejected.",
["inputs","histories"],"all names, comments, salts and contents that the format can represent, any number of chunks, several documents read with the same grammar value",
"Three documents, each read with a fresh grammar.",
["grammar/mxt.go","reader.go"],[("salt pair","grammar/mxt.go Salt, NextMarker; reader.go Janus"),("content search","grammar/mxt.go Content")],
["mapped names, comments, salts and contents, position"])

p("C17","The Lua grammar reads exactly Lua programs and picks their structure",
"The Lua grammar reads every well-formed Lua 5.4 program to its end, with LF or CRLF line ends and with white space (space, tab, CR, LF) or comments anywhere between its tokens, or nothing where the lexical rules allow that. A text whose token sequence is no Lua program, or that has a malformed token (a numeral, an escape sequence, a string or long bracket that does not end, a character outside the language; but the code points of \\u{} are not limited), is never read to its end, and the script rule skips a leading shebang line. Picking names, numerals, strings and comments yields exactly these tokens in text order, and picking functions, tables and statements yields one segment for each, spanning it up to surrounding white space and comments.",
["inputs"],"all programs generated from the Lua 5.4 reference grammar with every statement, operator, numeral, string and comment form and every separator between tokens; token deletions, insertions, swaps and truncations of them",
"About a dozen tests read fixed snippets of single rules; operators, separators and comments in odd places, and wrong programs, are not sampled.",
["grammar/lua.go"],[("the rules","grammar/lua.go Lua"),("word boundaries of keywords and names","grammar/lua.go")],["result and position of Use, basket content"])

p("C18","Readers keep no hidden state between reads or across goroutines",
"Reading a text gives the same result (success, position, error, picks of a fresh basket, value) whether the reader or grammar is new, has been used before on any other texts, or failed before. Distinct scanners, and readers without declared state (value fields, the Janus pair, picks, logs and maps) such as the JSON grammar shared between goroutines, can be used concurrently without data races and with the same results as alone.",
["histories","schedules"],"all sequences of earlier reads; all interleavings the race detector and repeated stress schedules produce",
"Every test builds a fresh reader and runs in one goroutine.",
["reader.go","grammar/json.go","grammar/mxt.go","grammar/lua.go","scanner.go"],[("readers are immutable after construction","reader.go"),("Janus memory is set by every begin","reader.go janusBeginReader")],
["results of repeated and concurrent reads; race detector reports"])

p("C19","Observing a read never changes it",
"Wrapping any part of a reader in a map, pick, monitor, name or rule, and coupling a tracker or basket to the scanner, never changes whether and how much of the text is read nor the position of the error that is reported, and only a name or rule changes its description. A coupled tracker is told the new position on every change of the scanner position, so the last position it was told is always the current one, and every position it is told is inside the text.",
["programs","inputs","histories"],"all readers with observers at any depth, all texts, all scanner calls",
"No test compares an observed with an unobserved read, and no test has a tracker of its own.",
["tracker.go","monitor.go","reader.go","scanner.go","grammar.go"],[("transparent wrappers","reader.go mapReader, namedReader; tracker.go pickReader; monitor.go monitorReader; grammar.go Rule"),("Tracker.Update after each move","scanner.go Move, ToMarker")],
["results with and without observers, Tracker.Update calls"])

p("C20","Invalid readers and rules are reported, valid ones never are",
"A list constructor that is given a value that is no rune, string or reader, or a malformed range list, returns a reader that never reads anything and whose description, also within every composition that describes its parts, carries the invalid marker; no other reader carries it. Collecting and naming the rules of a grammar touches exactly its exported rule fields in declaration order, a rule name is valid exactly when it is a letter followed by letters, digits, '+', '-', '.' or '_', and checking a grammar fails exactly when a rule has an invalid name or no reader.",
["inputs","configurations"],"all argument types and range strings, all names, all grammar struct shapes, all positions of an invalid part",
"One invalid argument and one three-rule grammar are tested.",
["reader.go","grammar.go"],[("asReader and the range parser","reader.go asReader, BetweenAny, Set, BuildBetweenAny"),("reflection over the grammar","grammar.go SetRuleNames, CollectRules, CheckRules, CheckRuleName")],
["What, Read, errors and panics of the Must variants"])

p("C21","A Janus pair matches its second half only with the text of the first",
"After the first reader of a pair has read some text, the second one reads exactly that same text and nothing else, however often it was tried before, also when the reader around it fails behind it and looks again further on, until the first one reads again. If the first reader fails the expected text does not change.",
["inputs","histories"],"all delimiters including empty and multi-byte ones, all bodies that contain partial or look-alike closing delimiters, repeated use",
"Two delimiters are tested on texts where the first candidate is already the end.",
["reader.go","grammar/lua.go","grammar/mxt.go"],[("remembered literal","reader.go janusBeginReader, janusEndReader")],
["consumed text of paired readers, Lua long strings and comments"])

p("C22","Line and column describe exactly the text left of the position",
"For every text, position and tab width the reported line is one more than the number of line feeds left of the position, and the column is one more than the width of the text since the last line feed, where a tab counts the given width and every other byte one; a carriage return in front of a line feed belongs to the line it ends.",
["inputs"],"all texts with any mix of LF, CRLF, CR, tabs and multi-byte runes, all positions and tab widths",
"Ten examples, none with CRLF, none with multi-byte runes.",
["scanner.go"],[("LineCol","scanner.go")],["returned pair at every position"])
p("C23","The demo programs print the tree of exactly the elements of a file",
"For every file whose text starts with a JSON value, json-stack prints, and prints only, the flame stack of the containment tree of the objects, arrays, keys, strings, numbers, bools and nulls of that value, with the file name as the root; full-lua-stack prints the flame stack of everything that the rules of the Lua grammar read of a program. A file that cannot be read or starts with no JSON value, and a wrong number of arguments, end the program with an error message, a non-zero exit code and no output.",
["inputs","configurations"],"all file contents, file names and argument lists",
"The demo programs have no test; nothing tests scanner, grammar, basket, graph and flame stack together.",
["demo/json-stack/main.go","demo/full-lua-stack/main.go","graph.go","tracker.go","grammar/json.go","grammar/lua.go"],[("read file, pick, build graph, print","demo/*/main.go"),("BuildGraph, FlameStack","graph.go")],
["standard output, standard error and exit code"])
p("C24","A reader's description shows what it was built from and never changes",
"The description of every reader is fixed when it is built: neither asking for it nor reading with it, successfully or not, changes it. A composition shows the descriptions of all its parts, complete and in order, a repetition count its number, a number reader its base and size; literals, runes, rune sets and the bounds of rune ranges are shown in quoted (escaped) form, whatever their length. A named reader or rule is described by exactly its name, a match or wrapped reader by the given text, a map, pick or monitor exactly like its part, and readers of different kinds over the same part have different descriptions. A rule is shown as its name and the description of its reader, and a grammar as one such line per rule, in order.",
["programs","inputs","histories"],"all compositions, all literals and ranges (also long ones and such with quotes, control characters and invalid bytes), all earlier reads",
"No test looks at descriptions except in two error messages.",
["reader.go","grammar.go","monitor.go","tracker.go"],[("the What methods","reader.go, grammar.go Rule.What, Rule.Rule, GrammarLines; monitor.go, tracker.go")],
["What of every node before and after reads, GrammarLines"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
