# Source of /verif/properties.jsonl (tools/gen.py writes it and MANIFEST.json).
# (id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)])
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, state=state or [], observe=observe or []))

p("T01", "multisplit splits at the greedy leftmost separators, for every option mix",
  "multisplit(s, separators, ...) yields exactly the pieces obtained by scanning s left to right (right to left with reverse), taking at each position the longest matching separator, merging adjacent separators unless separate is true, stopping after maxsplit splits, and stripping per strip (False, True, LEFT, RIGHT, PROGRESSIVE). The same holds for str and bytes, for separators given as any iterable of strings, a plain string, or the default whitespace, and for every keep mode. It never alters, reorders or invents text.",
  ["inputs", "configurations"], "all strings/bytes, all separator collections (overlapping, nested, regex-special), all keep/maxsplit/reverse/separate/strip combinations",
  "The suite checks a large but fixed set of strings with non-overlapping separators; overlapping separators, reverse+PROGRESSIVE+maxsplit interactions and one-shot iterables are an unbounded product of options it samples.",
  ["big/text.py"], [("multisplit", "big/text.py: multisplit, _separators_to_re, _multisplit_reversed")])
p("T02", "multisplit keep modes are lossless and carry the same split",
  "With strip off and keep true, joining the pieces of multisplit reproduces s exactly; keep=ALTERNATING, keep=AS_PAIRS and keep=True encode the same split as keep=False plus the separators between pieces. multisplit with the documented settings gives the same answers as str.split, str.rsplit and str.splitlines (and their bytes versions) on every input.",
  ["inputs", "configurations"], "all strings/bytes, separators, maxsplit and reverse values",
  "Losslessness and equivalence with the builtins are universally quantified claims; the suite compares a few literals.",
  ["big/text.py"], [("multisplit keep handling", "big/text.py: multisplit"), ("keep modes", "big/text.py: ALTERNATING, AS_PAIRS")])
p("T03", "multistrip removes all leading/trailing separators and nothing else",
  "multistrip(s, separators, left, right) removes from each requested end of s a run made only of concatenated separators, leaves a result that neither starts (if left) nor ends (if right) with any separator, and touches nothing else. The removed run at each end is what str.strip/lstrip/rstrip removes when all separators are single characters, for str and bytes, for any iterable of separators.",
  ["inputs"], "all strings/bytes, separator sets and left/right choices",
  "Tests use a handful of strings; anchoring mistakes at newlines or with overlapping separators need particular inputs.",
  ["big/text.py"], [("multistrip", "big/text.py: multistrip")])
p("T04", "multipartition agrees with str.partition generalised to many separators",
  "multipartition(s, separators, count) and multirpartition always return 2*count+1 pieces that join back to s, alternating text and separator; the separators are the first (last, when reverse) count separators in s, missing ones padded with empty strings at the end (start, when reverse). With one separator and count 1 they equal str.partition and str.rpartition, for str and bytes.",
  ["inputs", "configurations"], "all strings/bytes, separators, counts, reverse and separate settings",
  "Only a few literals are tested; padding, overlap and count interactions are unbounded.",
  ["big/text.py"], [("multipartition", "big/text.py: multipartition, multirpartition")])
p("T05", "re_partition and re_rpartition partition exactly at the regex matches",
  "re_partition(s, pattern, count, flags) returns 2*count+1 elements: the text between consecutive non-overlapping matches alternating with their match objects, in order, padded with None and empty string when fewer match; re_rpartition does the same for the last matches. Replacing each match object by the text it matched and joining gives back s, and each match's span is where that text sits in s.",
  ["inputs", "programs"], "all strings/bytes, patterns (including lookaround, anchors, word boundaries), counts, flags",
  "The suite uses patterns whose matched text first occurs at the match itself; context-sensitive patterns separate the two.",
  ["big/text.py"], [("re_partition", "big/text.py: re_partition, re_rpartition")])
p("T06", "reversed_re_finditer finds what a right-to-left regex search finds",
  "reversed_re_finditer(pattern, string, flags) yields non-overlapping matches from right to left, starting from the end of the string. Each is, of the matches re finds starting at any position before the previous one (and going no further than it), the one that ends rightmost and, of those, the longest, as a search running backwards finds; none is skipped, and each really matches the pattern at its span. For patterns whose matches cannot overlap it is exactly the reverse of re.finditer.",
  ["inputs", "programs"], "all strings/bytes and patterns built from literals, classes, groups, alternation and greedy quantifiers",
  "The suite has a table of patterns over short literals; overlapping-match bookkeeping depends on string shape.",
  ["big/text.py"], [("reversed_re_finditer", "big/text.py: reversed_re_finditer")])
p("T07", "normalize_whitespace collapses every separator run to one replacement",
  "normalize_whitespace(s, separators, replacement) equals s with every maximal run of separators, including runs at the very start or end, replaced by one replacement, and everything else unchanged; with the defaults it collapses runs of whitespace to one space. Applying it twice with the defaults changes nothing more.",
  ["inputs"], "all strings/bytes, separator sets and replacements",
  "Tests list a few strings; fast paths for default arguments and edge runs differ per input.",
  ["big/text.py"], [("normalize_whitespace", "big/text.py: normalize_whitespace")])
p("T08", "combine_splits cuts exactly at the union of the split points",
  "For splits that each join to s, combine_splits(s, *splits) returns pieces that join to s and whose internal boundaries are exactly the union of the boundaries of the given splits. The order of the split arrays does not matter, and splits shorter than s leave the remainder as it is. When none of the splits has a boundary at the end of s and one runs past it, ValueError is raised.",
  ["inputs"], "all strings/bytes and any number of splits of them",
  "A few literal examples are tested; the merge loop depends on how boundaries interleave.",
  ["big/text.py"], [("combine_splits", "big/text.py: combine_splits")])
p("T09", "split_title_case splits only at case changes and loses nothing",
  "split_title_case(s) yields non-empty pieces that join to s (the empty string yields itself), cutting before each uppercase letter that follows a lowercase letter and, with split_allcaps, before the last capital of an all-caps run that is followed by a lowercase letter; with split_allcaps false runs of capitals are not cut internally. str and bytes give corresponding results.",
  ["inputs"], "all strings and ASCII bytes",
  "The tests have a few example identifiers; single letters, digits and non-cased characters at each state of the scanner need generation.",
  ["big/text.py"], [("split_title_case", "big/text.py: split_title_case")])
p("T10", "gently_title only changes letter case, capitalising each word once",
  "gently_title(s) changes nothing but the case of letters: it uppercases the first letter of each word and never lowercases anything, where letters after an apostrophe stay as they are unless the apostrophe itself starts a word or follows a one-letter elision such as D' or O'. str and bytes inputs give corresponding results.",
  ["inputs"], "all strings and bytes, including custom apostrophe and quote collections",
  "Tests enumerate a fixed list of titles.",
  ["big/text.py"], [("gently_title", "big/text.py: gently_title")])
p("T11", "split_quoted_strings segments text exactly by quoting state",
  "split_quoted_strings(s, quotes, escape, multiline_quotes, state) yields (opening quote, text, closing quote) triples whose concatenation is s; text inside quotes runs to the first matching quote mark not preceded by an active escape (escapes act only inside quotes), and everything else is yielded as unquoted text. Feeding the text in pieces with state set to the quote mark still open continues the previous split, and a linebreak inside a single-line quote raises SyntaxError instead of mis-splitting; a quote still open at the end of s is yielded with an empty closing quote.",
  ["inputs", "histories"], "all strings/bytes, quote/escape/multiline configurations, initial states",
  "Tests sample short literals with the default quotes; escapes next to quotes, multi-character quotes and state carry-over are combinatorial.",
  ["big/text.py"], [("split_quoted_strings", "big/text.py: split_quoted_strings")])
p("T12", "split_delimiters is lossless and tracks nesting exactly",
  "split_delimiters(s, delimiters, state) yields (text, open, close) whose concatenation is s, where each delimiter reported opens or closes the innermost active delimiter exactly as a stack machine over the documented rules (nesting, quoting, escapes, multiline) would. Mismatched or forbidden closing delimiters, linebreaks inside non-multiline delimiters, and text ending just after an escape inside quotes raise SyntaxError, and resuming with state equal to the still-open delimiters continues the same parse.",
  ["inputs", "histories"], "all strings/bytes, delimiter tables and initial states",
  "Tests sample a few nested examples; the precompiled tables' behaviour depends on delimiter sets and the exact adjacency of tokens.",
  ["big/text.py"], [("split_delimiters", "big/text.py: split_delimiters, _delimiters_to_state_and_tokens"), ("Delimiter", "big/text.py: Delimiter")])
p("T13", "LineInfo always accounts for every character of its line",
  "lines(s) yields one (LineInfo, line) per line of s whose lines and end marks join back to s, with consecutive line numbers and correct column. After any pipeline of lines modifiers and clips, leading + line + trailing + end still equals the original line for every item (when tabs are not expanded and text is not otherwise rewritten), and column_number is the starting column plus the width of the leading text with tabs expanded.",
  ["inputs", "programs"], "all texts, separators, line/column/tab settings and all pipelines of lines modifiers",
  "Tests fix specific pipelines over specific texts; the invariant is about every composition.",
  ["big/text.py"], [("LineInfo.clip_leading/clip_trailing", "big/text.py: LineInfo"), ("lines", "big/text.py: lines")])
p("T14", "lines filters keep exactly the matching lines, in order",
  "lines_containing, lines_grep, lines_filter_empty_lines and lines_filter_line_comment_lines pass through exactly the lines their predicate selects (or, inverted, exactly the others), unchanged, in order, with their LineInfo; lines_sort outputs the same items stably ordered by line or key. Each is lazy about nothing it should not be: no line is lost, duplicated or invented.",
  ["inputs", "configurations"], "all texts, patterns, markers, invert/flags/match settings",
  "Tests check one literal text per function.",
  ["big/text.py"], [("line filters", "big/text.py: lines_containing, lines_grep, lines_sort, lines_filter_empty_lines, lines_filter_line_comment_lines")])
p("T15", "lines strippers remove exactly the documented text from each line",
  "lines_strip and lines_rstrip yield each line as str.strip/rstrip (or multistrip with separators) would leave it, and lines_strip_line_comments truncates each line at the leftmost comment marker that is outside quotes, honouring escapes and multi-line quotes that span lines. The removed text moves to the LineInfo leading/trailing fields, a wholly removed line moving to trailing, and no other line is affected.",
  ["inputs", "configurations"], "all texts, marker sets, quote configurations, separators",
  "Tests use a few fixed sources; repeated text, overlapping markers and quote state across lines need generation.",
  ["big/text.py"], [("line strippers", "big/text.py: lines_strip, lines_rstrip, lines_strip_line_comments")])
p("T16", "lines_strip_indent reports the nesting of the text's indentation",
  "lines_strip_indent yields every line with its leading whitespace removed and info.indent equal to its depth in the stack of enclosing indents, empty lines taking the indent of the following text; two lines at the same column within a block share an indent, deeper is one more. A dedent to a column matching no enclosing indent raises IndentationError; lines_convert_tabs_to_spaces yields each line as str.expandtabs(tab_width) makes it. (Blank lines at the end of the text have indent 0; indents are tabs and spaces.)",
  ["inputs"], "all texts mixing tabs, spaces, blank lines and dedents; all tab widths",
  "Tests use two or three literal blocks.",
  ["big/text.py"], [("lines_strip_indent", "big/text.py: lines_strip_indent, lines_convert_tabs_to_spaces")])
p("T17", "wrap_words never loses, splits or reorders words, and obeys the margin",
  "wrap_words(words, margin) outputs all the words in order, separated by one space or newline (two spaces after sentence-ending punctuation if two_spaces), with blank lines exactly where the words array has paragraph breaks. No line is wider than margin unless it is a single word, no word that fits on the current line is pushed to the next, and lines of preformatted code are kept verbatim on their own lines.",
  ["inputs", "configurations"], "all word arrays (including breaks and code), margins, two_spaces, str/bytes",
  "Tests compare a few literal paragraphs at two margins.",
  ["big/text.py"], [("wrap_words", "big/text.py: wrap_words")])
p("T18", "split_text_with_code preserves words, paragraphs and code lines",
  "split_text_with_code(s) yields, in order, every word of the text paragraphs of s, a paragraph break wherever blank lines separate paragraphs, and every code line (indented by at least code_indent columns, at the start of a paragraph or after code) verbatim apart from tab expansion and trailing whitespace. With allow_code false everything is words, and str and bytes give corresponding results.",
  ["inputs", "configurations"], "all texts, tab widths, code indents",
  "Tests compare one long literal document.",
  ["big/text.py"], [("split_text_with_code", "big/text.py: split_text_with_code, _column_wrapper_splitter")])
p("T19", "merge_columns lays every column's text side by side without loss",
  "merge_columns(*columns) outputs each column's lines, in order and unbroken, at that column's position, its width being the longest line clamped to its min and max, columns separated by column_separator and lines stripped of trailing whitespace. Lines wider than the maximum raise OverflowError under RAISE, and under INTRUDE_ALL and DELAY_ALL they intrude while later columns pause exactly on the overflowing region (widened by overflow_before and overflow_after), so that nothing overlaps and nothing is lost.",
  ["inputs", "configurations"], "all column texts, widths, separators, overflow strategies",
  "Tests compare a dozen literal layouts.",
  ["big/text.py"], [("merge_columns", "big/text.py: merge_columns")])
p("T20", "int_to_words spells every integer correctly",
  "int_to_words(i, flowery, ordinal) spells the English name of i for every int with |i| < 10**75: reading the words back gives i, negatives start with 'negative', flowery adds commas and 'and' without changing the words, and ordinal changes only the last word to its ordinal form. Outside that range it returns str(i), non-integers raise ValueError, and distinct integers have distinct names.",
  ["inputs", "configurations"], "all integers, both flags",
  "Tests cover listed values, most below one million; each power of 1000 and each irregular ordinal is its own case.",
  ["big/text.py"], [("int_to_words", "big/text.py: int_to_words")])
p("T21", "encode_strings encodes every str in a structure and keeps its shape",
  "encode_strings(o, encoding) returns an object of the same type and shape as o in which each str, at any depth of lists, tuples, sets and dict keys and values (including instances of namedtuple and defaultdict), is replaced by its encoding and bytes are unchanged; decoding gives back the original. o itself is never modified and unsupported or unencodable values raise rather than pass through.",
  ["inputs"], "all nested structures and encodings",
  "Tests cover a few shallow containers.",
  ["big/text.py"], [("encode_strings", "big/text.py: encode_strings")])
p("T22", "text functions treat str, bytes and their subclasses alike",
  "Every text function accepts instances of subclasses of str or bytes wherever it accepts str or bytes (text, separators, quotes, patterns, lines...), and gives the result it gives for the equal plain strings; given bytes it gives the encoded form of what it gives for the equal ASCII str. Functions taking several strings raise TypeError when str and bytes are mixed, rather than returning a mixture.",
  ["inputs"], "all text functions, all positions of arguments, subclasses and types",
  "Tests pass subclass instances to a few functions.",
  ["big/text.py", "big/builtin.py", "big/file.py", "big/time.py", "big/version.py"], [("text functions", "big/text.py")])
p("T23", "text functions leave no trace: arguments, later calls, other threads",
  "No text function changes the strings, collections, tables or Delimiters it is given. The result of a call depends on its arguments alone: not on the calls made before it (of the same function or others, with like or unlike arguments, successful or not), nor on what the caller does to the objects they returned, nor on other iterators from the same functions being advanced in between or abandoned, nor on other threads making calls at the same time.",
  ["histories", "schedules", "inputs"], "all programs of calls of the text functions, all interleavings of their iterators, several threads",
  "Tests call each function with fresh arguments and consume each result at once.",
  ["big/text.py"], [("_separators_to_re, _delimiters_to_state_and_tokens", "big/text.py: memoized helpers"), ("text functions", "big/text.py")])
p("T24", "text functions take any iterable, and refuse illegal arguments whatever the text",
  "Wherever a text function takes a collection of strings (separators, quotes, comment markers, apostrophes, lines, words, lists of text for columns), any iterable of the same strings, read once, gives the same result as a list of them. Illegal arguments are refused whatever the text and the other arguments: a collection with nothing in it (where it can't be empty), an empty string in one that can't contain one, a quote mark given twice or as both a quote and a multiline quote, an unknown state, a negative count, raise ValueError; a string of the wrong kind (bytes among str, str among bytes), or an object of another type, raises TypeError (a few functions document ValueError).",
  ["inputs"], "all collections in every iterable form, all ways of making one argument illegal, all texts and options",
  "Tests pass lists and tuples, and check each complaint with one call.",
  ["big/text.py"], [("argument checks", "big/text.py: multisplit, multistrip, multipartition, split_quoted_strings, split_delimiters, lines, lines_*, gently_title, merge_columns")])
p("V01", "Version orders versions exactly as PEP 440 does",
  "For any two PEP 440 version strings, the Version objects compare less-than, greater-than and equal exactly as PEP 440 (the packaging library) orders them, so sorting a list of Versions gives the PEP 440 order. Comparison is a strict total order, and equal Versions have equal hashes.",
  ["inputs"], "all pairs and lists of PEP 440 version strings in every accepted spelling",
  "Tests compare a fixed list of versions; ordering is a relation on all pairs.",
  ["big/version.py"], [("Version.__eq__/__lt__/__hash__", "big/version.py: Version")])
p("V02", "Version parses and prints every PEP 440 spelling faithfully",
  "Version(s) accepts every PEP 440 version string (any case, separators, 'v' prefix, spelling of pre/post/dev) and exposes the epoch, release, release level, serial, post, dev and local it denotes, trailing zeros of the release dropped; other strings raise ValueError. str(v) is in the documented form and the same for every spelling of the same version, Version(str(v)) == v, repr(v) evaluates to an equal Version, and building from keyword arguments with v's attributes gives an equal Version. Version(sys.version_info) is the version of the Python it describes.",
  ["inputs"], "all PEP 440 strings and near-misses; all keyword combinations",
  "Tests have a table of spellings; the grammar is infinite.",
  ["big/version.py"], [("Version.__init__/__str__/__repr__", "big/version.py: Version")])
p("H01", "Heap always behaves as a sorted list of its objects",
  "After any sequence of operations, a Heap behaves as a list of its objects kept in sorted order: indexing and slicing (positive, negative, stepped, out of range), queue, iteration, length, membership, truth and equality all agree with that list. popleft removes and returns the smallest, append_and_popleft and popleft_and_append are the two steps in that order, and remove drops one equal object. Popping or indexing what isn't there raises IndexError, removing what isn't there raises ValueError, and both leave the heap as it was.",
  ["histories", "inputs"], "all operation sequences on heaps of any size, all indices and slices",
  "Tests drive one short fixed script; negative indices, slices and the internal fast paths depend on heap size and index range.",
  ["big/heap.py"], [("Heap", "big/heap.py: Heap")], observe=["Heap methods"])
p("H02", "Heap iteration is ordered, isolated, and detects modification",
  "Iterating over a Heap yields all its objects in sorted order without changing the heap; its iterators are proper, independent iterators. If the heap is modified by any mutating method after an iterator is created, the iterator's next step raises RuntimeError; copies are independent of the original.",
  ["histories"], "all interleavings of iteration, mutation and copying",
  "Tests check one modification during iteration.",
  ["big/heap.py"], [("Heap.HeapIterator", "big/heap.py: HeapIterator, _version")])
p("I01", "PushbackIterator yields pushed items LIFO, then the underlying items",
  "A PushbackIterator yields pushed-back objects last-in first-out before the next object of the wrapped iterable, which is consumed in order, each object exactly once, whatever the mix of next, next(default), push, bool and for-loops. bool is True exactly when another object is available and consumes nothing visible; once exhausted it stays so, except that objects pushed afterwards are yielded.",
  ["histories"], "all operation sequences over all iterables and object values (including falsy ones)",
  "Tests run one script.",
  ["big/itertools.py"], [("PushbackIterator", "big/itertools.py: PushbackIterator")])
p("G01", "TopologicalSorter yields each node once, after all its predecessors",
  "Over any acyclic graph, each view yields every node exactly once, a node only after all its predecessors have been marked done, and as soon as they have; static_order lists every node after its predecessors and may be called any number of times. Views are independent of each other, reset restarts a view, and a view is falsy exactly when everything it can yield is yielded and done. The command python -m big.graph prints every name in its input once, on each line \"a b\" a before b, and refuses invalid lines and cycles.",
  ["inputs", "histories", "schedules"], "all graphs and all interleavings of ready/done over several views",
  "Tests run a few graphs with one consumption order.",
  ["big/graph.py"], [("TopologicalSorter and View", "big/graph.py: TopologicalSorter, View")])
p("G02", "TopologicalSorter stays right while the graph is modified during iteration",
  "Nodes and edges may be added and nodes removed at any time; afterwards every view yields exactly the nodes of the current graph that it has not already yielded, each once its current predecessors are done. A view becomes incoherent (its use raises RuntimeError) exactly when some node it has yielded depends on a node it has not marked done, and works again once one of the two nodes is removed or the view is reset; other views are unaffected. An add refused because a node isn't hashable changes nothing.",
  ["histories"], "all interleavings of add, remove, ready, done, reset, copy over multiple views",
  "Tests check a few scripted modifications; the conflict bookkeeping is history dependent.",
  ["big/graph.py"], [("View conflict tracking", "big/graph.py: View._add_successor, _remove_node, _mark_node_done")])
p("G03", "cycle detection is exact and copies are independent",
  "cycle() returns None exactly when the graph is acyclic, and otherwise a tuple of distinct nodes forming a cycle, each depending on the one before it and the first on the last, whatever additions and removals happened before; prepare, check_for_cycles and static_order raise CycleError exactly for cyclic graphs. copy() gives a graph with the same nodes and edges and the same iteration state, after which changes to either are invisible to the other.",
  ["inputs", "histories"], "all graphs and modification histories",
  "Tests have a few cycles of fixed shape; caching of the cycle-free state depends on history.",
  ["big/graph.py"], [("cycle", "big/graph.py: TopologicalSorter.cycle, check_for_cycles, copy")])
p("S01", "Scheduler delivers every event once, on time, in order",
  "Iterating over a Scheduler yields each scheduled and not-cancelled event exactly once, never before its time, ordered by time, then priority, then order of scheduling, sleeping exactly until the next event is due; cancelling removes exactly that event and cancelling twice raises ValueError. The non-blocking iterator yields exactly the events already due and never sleeps, queue lists the pending events in order, and truth tells whether any is pending.",
  ["histories", "schedules"], "all histories of schedule/cancel/iterate against a virtual clock, including changes made while the regulator sleeps",
  "Tests use a fixed script of events; ordering ties and changes during sleep are history dependent.",
  ["big/scheduler.py"], [("Scheduler", "big/scheduler.py: Scheduler._next, Event.__lt__")])
p("S02", "Scheduler keeps its lock discipline and wakes sleepers",
  "The scheduler holds the regulator's lock around every access to its event queue and never while sleeping, and calls wake whenever an event is added so that a sleeping thread re-evaluates what is due. With the thread-safe regulator, events scheduled or cancelled by any thread are neither lost nor duplicated nor delivered late by a full sleep; its wake ends every sleep in progress, and a sleep nobody wakes lasts its whole interval.",
  ["schedules", "histories"], "all interleavings of scheduling, cancelling and consuming threads at the regulator's lock/sleep/wake points",
  "Tests start a couple of threads with real sleeps and see one interleaving.",
  ["big/scheduler.py"], [("Regulator", "big/scheduler.py: Regulator, SingleThreadedRegulator, ThreadSafeRegulator")])
p("S03", "StateManager performs every transition in the documented order",
  "For every transition the sequence is: next is set, the old state's on_exit runs, every observer is called in order, the state changes, next returns to None, and the new state's on_enter runs, each exactly once and each able to see the documented values of state and next. Transitions to the current state, to an instance of the wrong class, to None, or while one is in progress raise the documented exception and leave the state unchanged, as does an exception raised by on_exit or an observer; on_enter may itself transition.",
  ["histories", "configurations"], "all machines, observer lists (mutated during transitions), transition sequences including nested and failing ones",
  "Tests drive three or four machines; observer mutation and recursion are history dependent.",
  ["big/state.py"], [("StateManager.state", "big/state.py: StateManager")])
p("S04", "accessor and dispatch always delegate to the current state",
  "An attribute installed by accessor always reads and sets the manager's current state, and a method decorated with dispatch always calls the like-named method (with prefix and suffix) of the state current at call time, passing all arguments and returning or raising what it does. This holds after any sequence of transitions, for several managers in one object, and across instances and subclasses.",
  ["histories", "configurations"], "all transition and call sequences, argument lists, attribute names",
  "Tests use one vending machine and one simple dispatcher.",
  ["big/state.py"], [("accessor, dispatch", "big/state.py: accessor, dispatch")])
p("B01", "bound inner classes bind to their own outer instance, consistently",
  "Accessing a bound inner class through an outer instance gives a subclass of the original class whose constructor receives that instance, cached so that repeated access, by whatever alias, gives the same class; different outer instances give different classes, and access via the outer class gives the original class. Bound and unbound inner classes inheriting from one another, in any order of access, give instances whose constructors run once each, base classes bound to the same outer instance, with consistent isinstance relations.",
  ["programs", "histories"], "all inheritance shapes of bound/unbound inner classes, all outer (sub)classes and access orders",
  "Tests define a few fixed class hierarchies.",
  ["big/boundinnerclass.py"], [("BoundInnerClass, UnboundInnerClass", "big/boundinnerclass.py")])
p("L01", "Log records exactly the events logged, with exact times and nesting",
  "Iterating over a Log yields the log start and then every event, enter and exit in order, with times relative to reset exactly as read from the clock, each event's duration the gap to the next one and depth the number of open subsystems, balanced even when exit is called by nesting. print shows one line per event with start and elapsed times that agree with those values, indented by depth.",
  ["histories"], "all sequences of log/enter/exit/reset/print with any clock values",
  "Tests use a fake clock over one or two scripts with sub-second values.",
  ["big/log.py"], [("Log", "big/log.py: Log")])
p("F01", "grep and fgrep return exactly the matching lines of the file",
  "fgrep(path, text) and grep(path, pattern) return exactly the lines of the file containing the text or matching the pattern, in order, without line endings, for text files and for binary ones (whose lines end with b'\n'), honouring encoding, case_insensitive and flags. With enumerate, each is paired with its 1-based line number.",
  ["inputs", "configurations"], "all file contents, texts, patterns and options",
  "Tests use two fixture files.",
  ["big/file.py"], [("grep, fgrep", "big/file.py: grep, fgrep")])
p("F02", "filesystem helpers leave exactly the documented state",
  "After safe_mkdir the path is a directory (existing directories and their contents untouched, a plain file in the way replaced); after safe_unlink a file at the path is gone and nothing else changed (a missing path is no error, and anything but a file is left alone); after touch it exists with unchanged contents and current modification times; file_size, file_mtime and file_mtime_ns report what stat reports. Within pushd the working directory is the given path and afterwards always the one that was current before, however many are nested and even when the body raises.",
  ["histories", "inputs"], "all directory trees and sequences of helper calls in a scratch directory",
  "Tests run each helper once on a fixed layout.",
  ["big/file.py"], [("filesystem helpers", "big/file.py: safe_mkdir, safe_unlink, touch, file_size, pushd")])
p("F03", "translated filenames are legal and legal characters survive",
  "translate_filename_to_exfat(s) contains none of the characters exFAT forbids and translate_filename_to_unix(s) contains neither slash nor NUL, for every s. Characters that are already legal are unchanged and in order, so a legal name translates to itself and translating twice is the same as once.",
  ["inputs"], "all strings",
  "Tests translate two or three names.",
  ["big/file.py"], [("translate_filename", "big/file.py: translate_filename_to_exfat, translate_filename_to_unix")])
p("D01", "timestamps denote the right instant and parse back to it",
  "timestamp_3339Z(t) denotes in UTC the same instant as t for every int, float, struct_time, naive or aware datetime, in strict RFC 3339 form with microseconds present exactly as requested (or as the input type implies), and parse_timestamp_3339Z gives that instant back. timestamp_human(t) shows the same instant in the local timezone in its documented format.",
  ["inputs", "configurations"], "all times, input types, timezones of the process and of the argument, microsecond settings",
  "Tests run in one timezone on a few instants.",
  ["big/time.py"], [("timestamps", "big/time.py: timestamp_3339Z, timestamp_human, parse_timestamp_3339Z")])
p("D02", "timezone helpers change only the timezone they are asked to",
  "datetime_set_timezone returns the same wall-clock fields with the given timezone; datetime_ensure_timezone does so only for naive datetimes and returns aware ones unchanged. parse_timestamp_3339Z applies a default timezone only to timestamps that carry none.",
  ["inputs"], "all datetimes and timezones",
  "Tests cover one or two datetimes.",
  ["big/time.py"], [("datetime helpers", "big/time.py: datetime_set_timezone, datetime_ensure_timezone")])
p("N01", "number conversion helpers never raise and convert exactly",
  "get_int, get_float and get_int_or_float return int(o), float(o), or the int-preferring number when the conversion works and otherwise the default (o itself when no default is given), never raising whatever o is; an exact int or float is never changed in value. try_int and try_float return True exactly when the conversion would work.",
  ["inputs"], "all objects: numbers, strings, bytes, infinities, NaN, huge values, objects with conversion methods, any default",
  "Tests list about a dozen objects.",
  ["big/builtin.py"], [("conversion helpers", "big/builtin.py: get_int, get_float, get_int_or_float, try_int, try_float")])
p("N02", "pure_virtual methods raise NotImplementedError until overridden",
  "Calling a method decorated with pure_virtual raises NotImplementedError whatever the instance, subclass, arguments or body of the function, which never runs; a subclass's override is called normally, however deep the hierarchy. The decorated method keeps the function's name, docstring, attributes and signature.",
  ["inputs", "configurations"], "all class hierarchies, method signatures and calls",
  "Tests call one method of one class.",
  ["big/builtin.py"], [("pure_virtual", "big/builtin.py: pure_virtual")])
p("X01", "deprecated parsers still segment text losslessly",
  "The deprecated split_quoted_strings and parse_delimiters yield pieces that join back to the input, with quoted pieces (and open/close delimiters) exactly where the documented quoting and nesting rules put them, raising only the documented errors. The deprecated lines_strip_comments truncates at the first comment marker outside quotes, leaving the rest in the line's info.",
  ["inputs"], "all strings/bytes and quote/delimiter configurations",
  "Tests use short literals.",
  ["big/deprecated.py"], [("deprecated parsers", "big/deprecated.py")])
