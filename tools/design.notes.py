N = {}
N["C01"] = ("Stateless: quoted, needs_quotes, try_quoted, try_unquoted, decode_char as functions on byte sequences; the model checks the round trip of every string of the alphabet. All byte strings of length <= 4 over quote, backslash, octal digits, n, newline, a letter; all 3-character escapes; random strings of all bytes.", "")
N["C02"] = ("State: text, position, fail and end flag. Every interleaving of up to 6 reads (token with operators and quotes, line, word, numbers, getc, peekc) on all texts over a 7-letter alphabet; action properties: reading moves on, a bad stream stays bad, no text is lost.", "getc/peekc only while the stream is good (as documented); no zero bytes.")
N["C03"] = ("Stateless: each helper is defined from scratch on sequences (trim, split, key/value, begins/ends, tidy, filename helpers, stringf).", "right_str counts within the string.")
N["C04"] = ("Two independent definitions of matching (recursive and by segmentation) are shown equal by TLC for all texts and patterns of the bound; the code is compared with one of them.", "")
N["C05"] = ("Numbers are canonical numerals (TLC integers have 32 bits), so all 64-bit widths are covered; to text, from text, scan, vectors.", "booleans are 1/0; doubles keep 6 decimals.")
N["C06"] = ("A path is a text; the parts and the joins are defined on it; invariants: the parts concatenate to the whole, no separator in a name; action properties: replacing a part touches only that part.", "")
N["C07"] = ("64-bit FNV-1a on tuples of eight bytes computed by TLC itself; compile-time, run-time, template and streaming forms compared.", "canonical only for 7-bit text (char is signed in the code).")
N["C08"] = ("State: entry list. All histories of set/index/at/find/erase/clear/copy to 3 keys; order kept, one key touched, errors change nothing.", "")
N["C09"] = ("Elements carry a tag that is not compared, so stability is visible; insert, find, bounds, custom comparators.", "")
N["C10"] = ("State: sequence and capacity; push/pop at both ends, reserve, resize, clear, copies; every wrap position of buffers up to capacity 5 is reached.", "")
N["C11"] = ("State: frames ever added, window, channels; refused calls leave everything as it was.", "")
N["C12"] = ("State: labels and a rectangular list of frames; cells are distinct, so a displaced cell is noticed.", "")
N["C13"] = ("As C12 for tables with row and column labels.", "")
N["C14"] = ("Several arrays: construction, copy, move, assignment (also to itself), resize; independence of objects is an action property; use of freed memory is seen by the sanitizer.", "")
N["C15"] = ("State: sets of flags for 8, 32 and 64 bit storage.", "")
N["C16"] = ("The n-th invocation of the memoized function returns n, so a repeated or missing invocation is visible; throwing functions; arguments by reference and temporaries.", "")
N["C17"] = ("Registrations, creation by name, by missing name, re-registration, several factories side by side; creating calls exactly one constructor.", "")
N["C18"] = ("Lookup in both directions; the two are inverse.", "unique names and values per dictionary.")
N["C19"] = ("Two property trees (`Tree`), all mutators and queries addressed by place; independence of the trees and algebraic laws of Tree.", "")
N["C20"] = ("State: tree and set of accessed places.", "a child returned by a trying lookup is marked; printing marks all below.")
N["C21"] = ("State: files and trees; save in both forms, load, fail; all values over 13 special characters up to length 3.", "keys start with an ASCII letter, no leading or trailing white space in keys and values, no zero bytes.")
N["C22"] = ("A document is a sequence of pieces (layout, key and value in four quoting styles, operators); its meaning is defined without looking at the layout (invariant LayoutFree), then all pieces are spelled out and parsed by the code. Truncated and garbled texts: only termination and memory safety.", "")
N["C23"] = ("Documents are lists of lines of 16 kinds, all lists up to 3.", "globals precede groups; keys have no '=' and do not start with '#' or '['.")
N["C24"] = ("Elements with attributes, text, comments and white space, and their trees; malformed documents.", "value or children, not both; values not of white space only.")
N["C25"] = ("A file system of trees with include nodes in all folder layouts; the resolved tree is a recursive definition with a set of open files for cycles.", "chains up to 100 files; merge_children is 0 or 1.")
N["C26"] = ("Values of 24 kinds written and read back through property nodes, with missing, default and unparsable values.", "reals in 64ths.")
N["C27"] = ("State: registered sinks with levels and what each received; files, streams and memory sinks, long formatted messages.", "levels asked for without any sink are unspecified.")
N["C28"] = ("Counters of a local and of the global framework, tests that pass, fail and throw, the log. The known finding (reset after failures) is admitted by the constant `ResetKnown`, only while it is listed.", "")
N["C29"] = ("Processes asking for a unique folder while others create folders in between: requests run in threads that stop before every system call that looks at or makes folders, so that the history decides the interleaving; rivals create folders at any such point. The step relation is a refinement of 'each caller gets a folder that did not exist' (property Refines).", "")
N["C30"] = ("A model file tree with files, folders and limits on what can be written (RLIMIT_FSIZE and unreadable/missing files); after each call the whole tree is compared. Everything happens in a scratch folder.", "copy_file from != to.")
N["C31"] = ("Virtual clock; all times in nanoseconds are exact. Invariant: the measures of a stopwatch add up to the time since it started.", "")
N["C32"] = ("Virtual clock; nested sections in all orders, reports, reset.", "totals count closed intervals; names are kept alive by the caller.")
N["C33"] = ("A generator is its seed and its requests; the number is chosen by the code, and whatever came out for a seed and requests must come out again, within range, scaled alike.", "")
N["C34"] = ("Stateless; numerals of any width, postfixes.", "texts M.m.p[.b][ postfix].")
N["C35"] = ("State: everything ever put in; outputs are defined from the complete input sequence, not by the recurrence's state. Coefficients and inputs are chosen so that all results are exact.", "weights non-negative.")
N["C36"] = ("Integer quaternions stand for rational rotations, so all results are rational and exact in the model; invariants: homomorphism, isometry, inverse. Float and double.", "")
N["C37"] = ("Rational functions with the denominator named in the call.", "keys strictly rising; piecewise functions inside their range.")
N["C38"] = ("Stateless; integers to the limits of their type.", "wrap may return either end of the closed range.")
N["C39"] = ("Stateless; permutations chosen by the code are checked for being sorting permutations; vectors and deques of ints, reals and strings.", "top_average counts within the vector.")
N["C40"] = ("State: optionals of seven kinds, error codes, interrupt flags; several optionals read from one stream, through std::istream and char_stream.", "")
N["C41"] = ("Each history runs in a child process that ends normally; the files it leaves behind are compared with the specified table.", "labels without tabs and newlines; the lowest float stands for 'no value'.")
N["C42"] = ("Stateless; the model checks the laws of vector algebra; float and double in two units.", "")
N["C43"] = ("State: vectors of owned objects; the driver's objects own heap memory and count themselves, so a shared or lost object shows.", "")
