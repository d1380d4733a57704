H, I, S, F, C = "histories", "inputs", "schedules", "fault_sequences", "configurations"

prop("C01", "Quoting and unquoting round-trip every string",
 "For every string of any bytes, unquoting its quoted form gives the string back, whether quotes were forced or only added when needed, and the quoted form contains no raw control character and no unescaped quote inside. A string that does not need quotes is left alone, and decoding one escaped character reports exactly the number of characters it used. Unquoting malformed or unquoted text never reads outside it.",
 [I], "all byte strings, all escape sequences and all truncations of them",
 "One test quotes one hand-written sentence; escapes for other bytes, truncated escapes and unusual lengths are never reached.",
 ["flut/string_tools.cpp", "flut/string_tools.hpp"],
 [("encode_char / decode_char / quoted / needs_quotes / try_quoted / try_unquoted", "flut/string_tools.cpp")], "Quoting")

prop("C02", "Reading a text stream yields exactly the tokens the text contains",
 "A text stream over any text, with any delimiters, operators and quotation characters, returns the same sequence of tokens, lines, words, numbers and single characters that its grammar defines: delimiters separate, an operator character is a token of its own, quoted parts are decoded and may contain anything. Its end and failure flags are raised exactly when the text is exhausted and when nothing could be read, and reading until the stream is no longer good always terminates.",
 [I, H], "all texts, delimiter/operator/quote sets and interleavings of the read operations",
 "The tests only scan one three-word line; operators, quotes, flags and mixed operations are unexercised.",
 ["flut/char_stream.hpp", "flut/char_stream.cpp", "flut/string_tools.cpp"],
 [("get_token, get_line, operator>>, getc/peekc, skip_delimiters, process_end_pos", "flut/char_stream.*")], "CharStream")

prop("C03", "String helpers satisfy their definitions on every string",
 "Trimming removes exactly the surrounding trim characters; splitting returns the maximal separator-free pieces in order; left-of, right-of, key/value, left, middle, right, begins-with, ends-with, substring search, identifier tidying and filename helpers return exactly the part of the string their description names, for every string and separator set. The formatted-print helper returns the complete formatted text whatever its length.",
 [I], "all strings and separator sets (right/left counts within the string)",
 "The tests split two literals; empty strings, repeated separators, separators at the ends and long output are not tried.",
 ["flut/string_tools.cpp", "flut/string_tools.hpp", "flut/system_tools.cpp"],
 [("trim_str, split_str, left_of_str, right_of_str, make_key_value_str, str_ends_with, stringf, get_filename_*", "flut/string_tools.cpp"), ("tidy_identifier", "flut/system_tools.cpp")], "StrTools")

prop("C04", "Glob patterns match exactly the strings they describe",
 "A pattern matches a string exactly when the string can be obtained from it by replacing every '*' with any text and every '?' with one character, all other plain characters standing for themselves. A pattern matcher built from a delimited list matches when at least one of its patterns does, and its search returns the first matching element of a range, or the end.",
 [I], "all strings and patterns over plain characters, '*' and '?' (no brackets)",
 "No test compiled here calls pattern matching at all.",
 ["flut/string_tools.cpp", "flut/pattern_matcher.hpp"],
 [("pattern_match", "flut/string_tools.cpp"), ("pattern_matcher", "flut/pattern_matcher.hpp")], "Glob")

prop("C05", "Numbers and words survive conversion to text and back",
 "Converting any integer of any supported width (or an enumeration value) to text gives its decimal notation, and converting that text back gives the same integer; a real number of up to six decimals gives its notation with six decimals and reads back the same; converting a space-delimited list of numbers reads exactly the numbers present, up to the requested maximum; scanning several variables from a string assigns them in order and returns how many it read. Text that is no number is reported as such where the conversion is checked.",
 [I], "all integer values of all widths, all lists and maxima, all well-formed and malformed numerals",
 "One line with one integer is scanned by the tests; limits of the types, lists and failures are not.",
 ["flut/string_tools.hpp", "flut/system/string_cast.hpp", "flut/char_stream.hpp"],
 [("string_cast, to_str, from_str, string_is, str_to_vec, scan_str", "flut/system/string_cast.hpp, flut/string_tools.hpp")], "NumText")

prop("C06", "Path decomposition and composition agree on every path",
 "For every path, parent and filename split it at its last separator ('/' or '\\\\'), and stem and extension split the filename at its last dot, never looking into the folder part; joining puts exactly one separator between a non-empty folder without trailing separator and what follows. Replacing or removing the filename or extension changes only that part, and make-preferred changes only the separators.",
 [I, H], "all path strings, including dots in folders, trailing and double separators, empty parts, and all sequences of modifications",
 "Tests look at four literal paths with one dot each.",
 ["flut/system/path.cpp", "flut/system/path.hpp"],
 [("path", "flut/system/path.cpp")], "Path")

prop("C07", "Run-time and compile-time string hashes agree and are FNV-1a",
 "The hash computed at run time from a C string or a string object, the one computed by the constant-expression function and the literal operator are equal for every text; for 7-bit text it is the standard 64-bit FNV-1a value. Hashing a text in two parts, by passing on the intermediate value, gives the hash of the whole.",
 [I], "all zero-free strings",
 "Tests hash three Dutch fruit names.",
 ["flut/hash.hpp"], [("hash, hash_constexpr, _hash", "flut/hash.hpp")], "Hash")

prop("C08", "flat_map behaves as an insertion-ordered map",
 "After any history of operations a flat map holds exactly one entry per key ever added and not erased, in order of insertion, with the value last assigned; lookup by key, membership, count and size agree with that content. Checked access to an absent key raises an error and changes nothing, and indexing an absent key adds exactly one default entry at the end.",
 [H], "all histories of insert, assign, lookup, erase and clear",
 "Three keys are inserted once and read back.",
 ["flut/flat_map.hpp"], [("flat_map", "flut/flat_map.hpp")], "FlatMap")

prop("C09", "sorted_vector is always sorted and keeps what was inserted",
 "After any history of inserts and erases a sorted vector contains exactly the multiset of inserted and not erased elements in ascending order, equal elements in order of insertion, and insert returns the position of the new element. Finding an element returns its first occurrence if it is present and the end otherwise.",
 [H], "all histories of insert, find, erase and clear",
 "Only one insertion sequence appears in a test and find is not called.",
 ["flut/sorted_vector.hpp"], [("sorted_vector", "flut/sorted_vector.hpp")], "SortedVector")

prop("C10", "circular_deque behaves as a double-ended queue",
 "After any history of pushes and pops at either end, clearing and reserving, a circular deque holds exactly the elements of an ideal double-ended queue in the same order: front, back, indexing, iteration, size and emptiness agree with it, through const and non-const access alike. Its capacity is never less than its size, it is full exactly when they are equal, reserving never loses or reorders elements, and popping or reading an end of an empty deque raises an error and changes nothing.",
 [H], "all histories, any initial capacity, including growth while wrapped around",
 "circular_deque has no test here.",
 ["flut/circular_deque.hpp"], [("circular_deque", "flut/circular_deque.hpp")], "CircDeque")

prop("C11", "circular_frame_buffer keeps exactly the most recent frames",
 "A circular frame buffer of n frames gives access to the last n frames added and no others: each value written to a frame and channel is what is read back, by absolute frame, by distance from the most recent frame, or interpolated between adjacent frames, until n newer frames have been added. Checked access outside the retained frames or existing channels raises an error; resizing or adding a channel resets the contents to one value and keeps the number of retained frames as asked.",
 [H], "all histories of add frame, write, read, relabel, add channel and resize",
 "No compiled test uses it.",
 ["flut/buffer/circular_frame_buffer.hpp", "flut/buffer/data_header.hpp"], [("circular_frame_buffer", "flut/buffer/circular_frame_buffer.hpp")], "FrameBuffer")

prop("C12", "storage never loses, moves or mislabels a value",
 "After any history of adding frames and channels, labelling, resizing and writing, every cell of a storage holds the value last written to that frame and channel or the fill value given when it was created, and each label finds exactly the channel it was last given to. Adding a channel or frame, or growing, preserves all other cells; a duplicate label, a frame of the wrong width, out-of-range checked access and shrinking raise an error and change nothing. Values may be given as references into the storage itself.",
 [H], "all histories of structural and cell operations",
 "No compiled test uses storage.",
 ["flut/storage.hpp", "flut/buffer/data_header.hpp"], [("storage", "flut/storage.hpp"), ("data_header label index", "flut/buffer/data_header.hpp")], "Storage")

prop("C13", "table never loses, moves or mislabels a cell",
 "After any history of adding rows and columns, resizing and writing, every cell of a table holds the value last written to it or the default given when its row or column was created, addressed by index and by label alike. Growing preserves all existing cells, get-or-add adds only when the label is new, and out-of-range access, unknown labels on read-only access, duplicate labels and shrinking raise an error and change nothing. Values may be given as references to cells of the table itself.",
 [H], "all histories of structural and cell operations",
 "No compiled test uses table.",
 ["flut/table.hpp", "flut/buffer/data_header.hpp"], [("table", "flut/table.hpp")], "Table")

prop("C14", "dynarray copies and moves preserve contents and independence",
 "After any history of construction, element writes, fill, copy and move between dynamic arrays, each array holds exactly the elements assigned to it: copies equal their source and are independent of it, a move transfers the contents and leaves the source empty and usable, and self-assignment changes nothing. Checked access is an error exactly when the index is not below the size.",
 [H], "all histories over several arrays",
 "No test uses dynarray.",
 ["flut/dynarray.hpp"], [("dynarray", "flut/dynarray.hpp")], "DynArray")

prop("C15", "flag_set changes exactly the flags it is told to",
 "After any history of setting, clearing and assigning flags, individually, in lists, by constant or by variable index, each flag is set exactly when the last operation that named it (or cleared all) set it; other flags are never affected. 'Any' is true exactly when at least one flag is set, and copies are independent.",
 [H], "all histories over all flags that fit the storage type, for each storage width",
 "Flags are only used indirectly by tests, two at a time.",
 ["flut/flag_set.hpp"], [("flag_set", "flut/flag_set.hpp")], "FlagSet")

prop("C16", "memoize calls its function once per distinct argument list",
 "A memoized function returns for every call what the function returned for the first call with equal arguments, and calls the function exactly once for each distinct argument list, in order of first use. A call that throws is not remembered, and the next call with those arguments tries again.",
 [H], "all call sequences, with one or more arguments",
 "memoize has no test here.",
 ["flut/memoize.hpp"], [("memoize", "flut/memoize.hpp")], "Memoize")

prop("C17", "factory creates the class registered last under a name",
 "After any history of registrations a factory creates, for every registered name, an object of the class last registered under exactly that name with the arguments passed on unchanged, and reports the name as known. For any other name, creating and indexing raise an error, trying returns nothing, and nothing is created; a class registered without a name is known by its own unqualified class name.",
 [H], "all registration and creation histories",
 "The factory test does not compile here.",
 ["flut/factory.hpp", "flut/system_tools.cpp", "flut/flat_map.hpp"], [("factory", "flut/factory.hpp"), ("clean_type_name", "flut/system_tools.cpp")], "Factory")

prop("C18", "dictionary and lookup map names and elements consistently",
 "A dictionary returns for an element the name, and for a name the element, of the first matching entry in the order given; an unknown element or name raises an error, or yields the given default when there is one. Table lookup by name returns the value of the first entry with exactly that name and otherwise raises an error.",
 [I], "all entry lists, with duplicates, and all queries",
 "Tests query four names in one three-entry dictionary.",
 ["flut/dictionary.hpp"], [("dictionary, lookup", "flut/dictionary.hpp")], "Dictionary")

prop("C19", "prop_node is an ordered tree addressed by first matching key",
 "After any history of sets, adds, inserts, erases, clears, assignments and merges, a property node holds exactly the tree these operations define: children stay in order, a key addresses its first match, set replaces that match or appends, nested keys address the path they spell, and copies are independent even when a node is assigned one of its own descendants. Reading an absent key raises an error, returns the default or nothing, as its function promises, and changes nothing; equality holds exactly for equal values and equal ordered children.",
 [H], "all operation histories over trees of any shape, with duplicate keys and empty values",
 "The prop_node test does not compile here, and builds one small tree.",
 ["flut/prop_node.hpp", "flut/prop_node.cpp", "flut/prop_node_tools.cpp"],
 [("prop_node members", "flut/prop_node.hpp"), ("operator==", "flut/prop_node.cpp"), ("merge_prop_nodes", "flut/prop_node_tools.cpp")], "PropNode")

prop("C20", "Access tracking reports exactly the properties never read",
 "After a tree's access marks are cleared, any history of reads marks exactly the nodes whose value was read or whose children were looked up, iterated or searched, the child a trying lookup returns, and everything below a node that is printed; the number of unaccessed nodes and the warning listing name exactly the others, and clearing resets them all; a new or copied node counts as never read. Reading never changes values or structure. Printing shows each node below once, in order, indented by its depth, with its key and its value.",
 [H], "all read histories on all trees, after clearing",
 "No compiled test reads an accessed flag.",
 ["flut/prop_node.hpp", "flut/prop_node_tools.cpp"], [("access, is_accessed, count_unaccessed, clear_accessed_recursively", "flut/prop_node.hpp"), ("log_unaccessed", "flut/prop_node_tools.cpp")], "PropAccess")

prop("C21", "Saving and loading a property file gives the same tree",
 "Any property tree whose keys start with a letter, and whose keys and values have no leading or trailing white space, is reproduced exactly by saving it to a property file and loading that file, in the readable and in the compact form: same keys, order, values and nesting, whatever characters, quotes, escapes or operators they contain. Saving to a file that cannot be written reports failure, and loading a file that does not exist reports an error.",
 [I], "all trees with such keys and values (no zero bytes)",
 "No compiled test saves or loads anything.",
 ["flut/prop_node_tools.cpp", "flut/string_tools.cpp", "flut/char_stream.cpp"], [("save_prop, load_prop, parse_prop", "flut/prop_node_tools.cpp"), ("try_quoted", "flut/string_tools.cpp")], "PropFile")

prop("C22", "Layout, comments and quoting never change what a document means",
 "Parsing a well-formed property document gives the tree its tokens spell, regardless of white space, blank lines, line ending style, ';' or newline as separator, comments (from '%' to the end of the line), indentation, and whether a key or value is written bare or in single or double quotes. Parsing always terminates, also on truncated or garbled text, with a tree or an error and without reading outside the text.",
 [I], "all token sequences of the grammar and all layouts of them; all byte strings for termination",
 "No compiled test parses a property document.",
 ["flut/prop_node_tools.cpp", "flut/char_stream.cpp"], [("read_prop_node, get_prop_token, skip of comments", "flut/prop_node_tools.cpp")], "PropParse")

prop("C23", "Ini files round-trip and ignore comments and blank lines",
 "A tree of global values followed by groups of values is reproduced exactly by saving it as an ini file and loading it. Loading an ini file yields every 'key = value' line, trimmed, in its group and in order, the last assignment to a key in a group winning, with comment and blank lines having no effect wherever they are; a line that is neither raises an error.",
 [I], "all two-level trees with trimmed, non-empty keys and values without line breaks; all line sequences",
 "Ini files are not touched by a compiled test.",
 ["flut/prop_node_tools.cpp"], [("load_ini, save_ini", "flut/prop_node_tools.cpp")], "Ini")

prop("C24", "Xml files round-trip and yield attributes and elements in order",
 "A tree with a single root, in which each node has either a value or children, is reproduced exactly by saving it as xml and loading it, whatever markup characters its values (not of white space only) contain. Loading xml yields each element as a child with its text as value, its attributes first and its elements after them in document order; malformed xml or a missing file is reported as an error.",
 [I], "all such trees with names valid in xml; all well-formed documents of elements, attributes and text",
 "Xml is not touched by a compiled test.",
 ["flut/prop_node_tools.cpp", "contrib/rapidxml-1.13/rapidxml.hpp"], [("load_xml, save_xml, get_rapid_xml_node", "flut/prop_node_tools.cpp")], "Xml")

prop("C25", "Include directives are resolved completely and cycles are reported",
 "Loading a file with includes replaces every include node, at any depth and also inside included files, by the single root node of the file it names, relative to the file that names it; with merge-children the included root's children are merged into the including node without overwriting keys that are already there. The order of all other nodes is kept, no include node remains, nothing counts as accessed, and an include cycle or a missing file raises an error instead of looping.",
 [C, I], "all include graphs over sets of files, in all folder layouts",
 "Includes are not touched by a compiled test.",
 ["flut/prop_node_tools.cpp"], [("load_file_with_include, resolve_include_files, merge_prop_nodes", "flut/prop_node_tools.cpp")], "Include")

prop("C26", "Typed values survive being stored in a property node",
 "Integers, strings, booleans, enums, lists of them, and vectors, quaternions and transforms with small dyadic components read back from a property node equal what was stored under the same key, and reading with a default gives the default exactly when the key is absent, also through the initialisation macros and lists of alternative keys; the elements of a list are its children item0, item1 and so on, and components of vectors and quaternions their children x, y, z and w. Bounds read from 'a..b', a single value or min/max children are the bounds written.",
 [I], "all values of these types, all key sets and key preference lists",
 "No compiled test converts a typed value.",
 ["flut/prop_node.hpp", "flut/prop_node_tools.hpp", "flut/math/vec3_type.hpp", "flut/math/quat_type.hpp", "flut/math/transform.hpp", "flut/math/bounds.hpp"], [("prop_node_cast, get/set/get_any, INIT_PROP/SET_PROP", "flut/prop_node.hpp, flut/prop_node_tools.hpp")], "PropTyped")

prop("C27", "Every log sink receives exactly the messages at or above its level",
 "For any history of creating and destroying sinks, changing a sink's or the global level, and logging through any of the entry points, each existing sink receives, complete, once and in order, exactly the messages whose level is at least the sink's level at that time, with the text formed from all arguments. The global level query and test agree with the lowest sink level, and stream and file sinks write one line per message.",
 [H], "all histories over sinks, levels and entry points; all message lengths",
 "Tests log at two levels to one console sink and look at nothing.",
 ["flut/system/log.cpp", "flut/system/log.hpp", "flut/system/log_sink.hpp"], [("sink registry, level cache, log_string/log_vstring", "flut/system/log.cpp"), ("sink", "flut/system/log_sink.hpp")], "Log")

prop("C28", "The test framework counts every result exactly once",
 "After any history of test results and resets, the counters of performed, passed and failed tests equal the numbers since the last reset, performed always being the sum of the other two; each call returns the result it was given, each failure is logged as an error, a pass is logged only when asked, and the report is non-zero exactly when a test failed.",
 [H], "all result/reset histories",
 "The tests use the framework but never check it, and never fail or reset.",
 ["flut/system/test_framework.cpp", "flut/system/test_framework.hpp"], [("test_framework", "flut/system/test_framework.cpp")], "TestFw")

prop("C29", "A unique folder is handed out once, whoever else creates folders",
 "Creating a unique folder returns a folder that did not exist before and that this call created, named after the request with the lowest free suffix, also when other threads or processes create folders between any two of its steps; concurrent requests never get the same folder. When all attempts are taken it raises an error and creates nothing.",
 [S, H, F], "all interleavings of requests and rival creations, all attempt limits, all sets of existing folders",
 "No compiled test touches the filesystem.",
 ["flut/filesystem.cpp"], [("create_unique_folder, create_directories, folder_exists", "flut/filesystem.cpp")], "UniqueFolder")

prop("C30", "File operations do what they report",
 "In any sequence of file operations, loading a file returns exactly its bytes, copying makes the destination equal to the source when it reports success and leaves everything unchanged when it does not (no overwrite asked for, source missing), also when source and destination are the same file, removing deletes exactly the named file, creating folders creates all missing parents, and the existence tests tell files, folders and nothing apart. Changing the current folder is reflected by asking for it; failures are reported by result, error code or exception and never corrupt other files.",
 [H], "all operation histories over a small file tree; all file contents",
 "No compiled test touches the filesystem.",
 ["flut/filesystem.cpp", "flut/system_tools.cpp"], [("copy_file, load_string, exists, file_exists, folder_exists, create_directories, remove, current_path", "flut/filesystem.cpp, flut/system_tools.cpp")], "FileOps")

prop("C31", "Timers and stopwatches account for all elapsed time",
 "A timer reports, in every unit, exactly the clock time elapsed since its creation or last reset, and independent timers do not affect each other. A stopwatch attributes all time between consecutive measures to the tag of the later one, summing equal tags in order of first use, and its report lists each tag once with that sum followed by the internal time, and leaves the precision of other conversions alone.",
 [H], "all histories of clock advances, resets and measures",
 "The timer test prints a duration and asserts nothing.",
 ["flut/timer.hpp", "flut/stopwatch.cpp", "flut/stopwatch.hpp"], [("timer", "flut/timer.hpp"), ("stopwatch::add_measure, get_report", "flut/stopwatch.cpp")], "Stopwatch")

prop("C32", "The profiler attributes time to the right section of the call tree",
 "For any properly nested history of section starts and ends, the profiler's report contains one entry per distinct call path, identified by section name and parent, with the total time spent between its starts and ends; the exclusive share is the total minus that of its direct children, siblings are listed from longest to shortest, and the root covers the time since reset. Section names are compared by text.",
 [H], "all properly nested section histories with any clock advances, any depth and number of sections",
 "The profiler has no compiled test.",
 ["flut/system/profiler.cpp", "flut/system/profiler.hpp"], [("start_section, end_section, acquire_section, report_section", "flut/system/profiler.cpp")], "Profiler")

prop("C33", "Equal seeds give equal random sequences, within the requested range",
 "Two generators with equal seeds that are asked for the same sequence of numbers return the same values whatever other generators do in between, and reseeding restarts the sequence; copies continue independently. Uniform numbers lie within the requested range and spread over it, a uniform number for a wider or shifted range is the same draw scaled and so is a normal number for another mean and deviation, and the global functions draw from the global generator only.",
 [H], "all interleavings of draws, reseeds and copies over several generators, all ranges",
 "No test draws a random number.",
 ["flut/math/random.hpp", "flut/math/random.cpp"], [("random_number_generator", "flut/math/random.hpp")], "Random")

prop("C34", "Version numbers survive being written and read",
 "Writing a version with non-negative numbers as text and reading it gives the same major, minor, patch, build number and postfix (a postfix without white space); build and postfix are omitted from the text exactly when zero and empty, and are zero and empty when absent from the text.",
 [I], "all version numbers and postfixes",
 "No test reads a version.",
 ["flut/system/version.hpp"], [("version", "flut/system/version.hpp")], "Version")

prop("C35", "Filters, deltas, averages and delays follow their recurrences",
 "For every input sequence a digital filter's output equals its difference equation on the inputs and outputs so far starting from zero, a delta returns the change since the previous value, an average returns the weighted mean since its last reset (zero when empty), and a delay returns its initial value until the delay has passed and from then on the input delayed by its length, blended linearly between samples, a smooth delay the mean over its window. Butterworth low-pass filters have gain one at zero, none at the Nyquist frequency and half power at the cutoff. The state of one filter never depends on another.",
 [H], "all coefficient sets, non-negative weights and input sequences, interleaved over several filters (exact on integers and dyadic fractions)",
 "The filter and delay tests do not compile here.",
 ["flut/filter.hpp", "flut/math/delta.hpp", "flut/math/average.hpp", "flut/math/delayer.hpp"], [("iir_filter, delta, average_, delayer, smooth_delayer", "flut/filter.hpp, flut/math/*.hpp")], "Filters")

prop("C36", "Rotations and transforms obey the laws of their group",
 "Rotating by a product of unit quaternions equals rotating by one after the other, the conjugate undoes a rotation, rotation preserves lengths and angles and agrees with the quaternion's axes; composing transforms equals applying them in turn, and the inverse and inverse-transform undo them exactly. Quaternions made from axis and angle, Euler angles in any order, axes, or a pair of directions (also opposite ones) rotate as described, and so do, within the precision of the arithmetic, those close to the identity, a half turn or opposite directions. Pitch, yaw and roll of a rotation are the angles about x, y and z at which its rotated y, z and x axes are seen along these.",
 [I], "all rational unit quaternions (from integer quaternions) and multiples of 90 degrees, all integer vectors and directions, opposite ones included, all compositions of them",
 "The math test does not compile here and tries a few values.",
 ["flut/math/quat.hpp", "flut/math/transform.hpp", "flut/math/vec3.hpp", "flut/math/mat33.hpp", "flut/math/quat_type.hpp"], [("quat and transform operators", "flut/math/quat.hpp, flut/math/transform.hpp")], "Rotation")

prop("C37", "Interpolation passes through the samples and is linear in between",
 "Interpolating a series at a sample's position returns the sample, between two samples the linear blend of its neighbours, and outside the series, however far, the first or last sample; piecewise linear functions reproduce their function at the knots and interpolate linearly between them. Polynomials evaluate to the sum of their coefficients times powers, linear regression returns the least-squares line, Catmull-Rom splines pass through their points and follow their segment's cubic in between, and channel means and covariances equal their definitions.",
 [I], "all series with rising keys, positions and coefficients (exact on integers and dyadic fractions)",
 "Their tests do not compile here.",
 ["flut/buffer/interpolation.hpp", "flut/buffer/buffer_access.hpp", "flut/math/regular_piecewise_linear_function.hpp", "flut/math/polynomial.hpp", "flut/math/linear_regression.hpp", "flut/buffer/data_algorithms.hpp", "flut/math/catmull_rom.hpp"], [("interpolated_value, regular_piecewise_linear_function, polynomial, linear_regression, compute_covariance", "flut/buffer, flut/math")], "Interp")

prop("C38", "Scalar math helpers satisfy their definitions everywhere",
 "Clamping returns the nearest value in the range, wrapping a value in the range that differs by a whole number of periods, sign, parity, power-of-two, between, set-if-smaller and set-if-bigger tests agree with their definitions for every integer; bounds report membership, range, violation and clamp consistently, integer ranges visit exactly the values they name, and bounding boxes are the smallest boxes around the points added. Angles compare, add and convert between units consistently.",
 [I, H], "all values and ranges, including negative and boundary values",
 "The math test does not compile here.",
 ["flut/math/math.hpp", "flut/math/bounds.hpp", "flut/math/bounding_box.hpp", "flut/math/irange.hpp", "flut/math/angle.hpp"], [("clamp, wrap, sign, ..., bounds, bounding_box_, irange, angle_", "flut/math")], "Scalar")

prop("C39", "Container statistics agree with their definitions",
 "For every container, minimum, maximum, average, median, average of the lowest n, sorted copy, sorting permutation, index of the first equal element, first smallest or greatest element, printed form and predicate-filtered views return exactly what their names define, and leave the container unchanged. Asking for the median or last index of an empty vector raises an error.",
 [I], "all sequences, including duplicates, single elements and ties",
 "container_tools has no compiled test.",
 ["flut/container_tools.hpp"], [("median, top_average, sort_indices, sorted_copy, find_index, view_if, ...", "flut/container_tools.hpp")], "Stats")

prop("C40", "Optional values, errors and interrupts hold exactly what was stored",
 "An optional is empty until a value other than the type's reserved marker is assigned and afterwards yields the last value assigned; reading one from text stores a value exactly when the text holds one. An error code reports error or success, code and message as last set, setting an error through an absent error code is refused, and an interruptible object reports interruption exactly after it was interrupted.",
 [H], "all histories of assignments, reads and queries for each kind of value",
 "None of these is touched by a compiled test.",
 ["flut/math/optional.hpp", "flut/system/error_code.hpp", "flut/interruptible.cpp"], [("optional, error_code, interruptible", "flut/math/optional.hpp, flut/system/error_code.hpp")], "Cells")

prop("C41", "Debug output writes every value to its own cell",
 "Values written under labels during a run are saved at exit as one table with a column per label in order of first use, in which a label's successive values appear in successive rows, cells without a value hold the lowest number, and a new row starts exactly when a label is written that already has a value in the current row. Nothing is written when nothing was recorded, and the file is the one last asked for. Sampling a function to a file writes one line per sample, two or more, evenly spaced from the first point to the last, each with the function's value there.",
 [H], "all write histories over any labels",
 "debug output has no compiled test.",
 ["flut/system/debug_storage.cpp", "flut/storage.hpp", "flut/debug_tools.hpp"], [("auto_storage_writer, output_function", "flut/system/debug_storage.cpp, flut/debug_tools.hpp")], "DebugStorage, FuncTable")

prop("C42", "Vector arithmetic is componentwise and obeys vector algebra",
 "Sums, differences, negation, scaling, division and masking of three- and four-component vectors act on every component, and the in-place forms give the same result; dot and cross products, length, distance, normalisation, polar construction, unit vectors, comparison and conversion between number types agree with their definitions; a vector written to text or to a property node reads back equal.",
 [I], "all vectors and scalars (exact on integers and dyadic fractions), single and double precision",
 "The math test does not compile here; four-component vectors are used nowhere.",
 ["flut/math/vec3.hpp", "flut/math/vec4.hpp", "flut/math/vec3_type.hpp", "flut/math/vec4_type.hpp"], [("vec3_ and vec4_ operators and functions", "flut/math/vec3.hpp, flut/math/vec4.hpp")], "Vec")

prop("C43", "Cloned objects equal their originals and share nothing with them",
 "Cloning an owned object, or a vector of owned objects, gives new objects with equal values in the same order and of the same number; afterwards neither side's changes or destruction affect the other, and every object is destroyed exactly once.",
 [H], "all histories of cloning, writing and dropping, over any number of objects",
 "clone has no compiled test.",
 ["flut/memory_tools.hpp"], [("clone", "flut/memory_tools.hpp")], "Clone")
