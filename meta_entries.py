NOTE = "Exhaustive over the abstract paths of the analysed functions for all inputs; relies on the library models in lib/models.py and on clang's AST. Refuted obligations are violations, undecided ones are only counted in the evidence."

p("R01", "Bounded readers accept exactly the half-open interval they were given",
  "A reader given a lower and an upper bound hands a value to the caller exactly when the token is a well-formed value with lower <= value < upper (for strings: its length; for strict reals also minDecimals <= number of decimals < maxDecimals); the tolerant real reader additionally accepts values equal to a bound within the configured tolerance. Every other token is rejected and an accepted value is returned unchanged.",
  ["inputs"], "every token, every pair of bounds, both whitespace and both case modes, both number parsers",
  "tests sample a handful of tokens and bounds; the interval has off-by-one points at both ends for every bound and type",
  [V], [("InputStream::string/integer/real/realStrict with bounds", "src/validate.h class InputStream")], ["value returned to the caller", "exit status and judge message"],
  ABS + "; acceptance conditions compared with every path summary", NOTE)
p("R02", "Pattern and expectation readers accept exactly the matching tokens",
  "A string reader given a regular expression returns the token exactly if the complete token matches it; the expectation readers return exactly if the token equals the expected string (in the stream's case mode), the expected integer, or the expected real within the stream's absolute or relative tolerance. Anything else is rejected.",
  ["inputs", "configurations"], "every token, pattern and expected value, every case mode and tolerance",
  "tests use a few literal tokens; the expectation readers on reals were not tested at all",
  [V], [("InputStream::string(pattern)", "src/validate.h"), ("InputStream::expectString/expectInt/expectReal", "src/validate.h")], ["return to the caller", "exit status"],
  ABS, NOTE)
p("R03", "A rejection is final and carries the verdict of its stream",
  "Once an input stream reports a problem the process ends with the exit code of the verdict that stream was constructed with: no reader ever returns to the caller after a report, and no reader reports anything when it returns.",
  ["inputs", "configurations"], "every reader, every rejected input, every configured verdict",
  "needs every rejecting path of every reader; tests cover a few of them",
  [V], [("InputStream readers and their rejection helper", "src/validate.h class InputStream"), ("OutputStream verdict output", "src/validate.h class OutputStream")], ["exit status", "return of a reader"],
  ABS + " with no-return analysis", NOTE)
p("R04", "Whitespace and end of input are handled as the whitespace mode demands",
  "In whitespace-sensitive mode a token must start exactly at the read position with a printable character, the separator checks consume exactly one blank respectively newline and reject everything else, and end-of-input checks look at the very next character; in insensitive mode leading whitespace is skipped before tokens and end checks, and separator checks demand nothing. A token reader consumes exactly one token.",
  ["inputs", "configurations"], "every character at the read position, both whitespace modes",
  "256 characters plus end of input at every read position in two modes; tests check a few files",
  [V], [("InputStream::string/space/newline/eof/noteof", "src/validate.h class InputStream")], ["position of the underlying stream", "exit status"],
  ABS + " with complete character value sets", NOTE)
p("R05", "Case-insensitive mode folds ASCII letters only, and comparison is exact",
  "In case-sensitive mode a token is returned byte for byte; otherwise exactly the ASCII letters are mapped to one common case and every other byte is unchanged. Two strings compare equal exactly if they have equal length and equal (in insensitive mode: folded) characters, and a reported difference position is the first one.",
  ["inputs", "configurations"], "all 256 byte values; string comparison for all contents up to a length bound (2 quick, 3 thorough)",
  "tests use a few words", [V], [("toLower/toUpper/toDefaultCase", "src/validate.h"), ("stringEqual", "src/validate.h")], ["returned token", "result of the comparison"],
  ABS + "; per-character loops folded to 256-entry tables", NOTE + " String comparison: lengths up to the stated bound.")
p("R06", "Reading several values equals reading them one by one with separators",
  "Reading n values performs n single reads with the same arguments in order, checks the separator between consecutive values and nowhere else (not before the first, not after the last), and returns the values in reading order. A separator other than blank or newline is refused before any input is consumed.",
  ["inputs"], "all arguments and values; counts 0 to 3 (quick) or 0 to 4 (thorough)",
  "fourteen overloads times count edge cases; tests cover few of them", [V], [("InputStream::strings/integers/reals/realsStrict", "src/validate.h")], ["sequence of single reads and separator checks", "returned vector"],
  ABS + "; event sequences of all paths compared with the specification", NOTE + " Bounded: counts up to 3 (4 thorough).")
p("R07", "Readers with a constraint report each accepted value once, with its bounds",
  "A reader given a constraint accepts and returns exactly what the same reader without it does; on acceptance it reports the value with exactly the bounds it was given, once, and on rejection it reports nothing.",
  ["inputs"], "every token and all bounds", "the report is a side effect no test observes for every path", [V], [("readers with a Constraint parameter", "src/validate.h class InputStream")], ["calls that update the constraint", "value returned"],
  ABS, NOTE)
p("R10", "Numbers are accepted only in the documented grammar and are parsed completely",
  "An integer token is 0 or an optional minus sign followed by digits without a leading zero; a real token is an optional sign, digits with an optional decimal point (at least one digit) and an optional exponent; a strict real is an optional minus sign, digits without a superfluous leading zero and an optional decimal point with digits. A token is accepted only if the conversion consumes all of it and succeeds, and every well-formed token whose conversion succeeds is accepted.",
  ["inputs", "configurations"], "every token, both number parsers", "the language is infinite; tests list examples",
  [V], [("number patterns and parse", "src/validate.h"), ("isInteger/isReal", "src/validate.h")], ["accepted tokens", "returned value"],
  ABS + "; regular expressions compiled to DFAs and compared by language inclusion", NOTE)
p("R15", "Every role opens exactly its streams, with the modes and verdicts due",
  "After initialisation each input stream of the input validator, answer validator, output validator and interactor reads the documented source (standard input or the file given by argument position) with the sensitivity modes of the role, the configured absolute and relative tolerance, and the documented verdict on malformed input (FAIL for judge files, WA for contestant or validated data); every output stream writes to the documented sink (standard output, standard error, or the message file in the feedback directory). Nothing else is opened, and the constraints log goes to the file given with --constraints_file and nowhere otherwise.",
  ["inputs", "configurations"], "every role, every settings value, representative flag combinations",
  "tests run each role in one configuration and cannot see with which tolerance or verdict a stream was built",
  [V], [("init of the roles", "src/validate.h namespaces InputValidator, AnswerValidator, OutputValidator, Interactor, Generator")], ["stream objects after init", "files opened"],
  ABS + "; stream objects after init compared structurally with the specified ones", NOTE)
p("R17", "Command line flags set exactly the settings they name",
  "After initialisation the float tolerances and the whitespace and case sensitivity are exactly what the flags float_tolerance, float_absolute_tolerance, float_relative_tolerance, space_change_sensitive and case_sensitive ask for, independent of their order, with the specific tolerance flags winning over the common one; without a flag they are what the program set before (input and answer validators: sensitive). --seed seeds the random generator with exactly that number, and no seeding happens without it. A number that does not convert makes initialisation fail.",
  ["inputs", "configurations"], "every role, all 64 combinations of the six flags, arbitrary values and previous settings",
  "the flags interact; tests use each flag alone", [V], [("initialisation of the settings", "src/validate.h namespaces ValidateBase, SettingBase and the roles"), ("Random::seed call", "src/validate.h")], ["settings after init", "call of Random::seed"],
  ABS, NOTE)
p("R18", "Command line words are grouped under their option names",
  "CommandParser puts every word after an option word (starting with two dashes and longer than that) into the group of that option, up to the next option word, and words before the first one into the unnamed group; giving the same option twice is refused. A lookup by name finds exactly that group, the raw lookup finds the words after the first occurrence of a word, the index lookup yields the word at that position and throws out of range; a missing name is reported as not existing with no parameters, and names containing whitespace are refused.",
  ["inputs"], "all argument vectors of 0 to 3 (quick) or 0 to 4 (thorough) arbitrary words, all query names",
  "the partition of words into options, repeats and parameters has many cases; tests use one command line", [V], [("CommandParser, Command, Parameter", "src/validate.h")], ["result of the lookups", "exceptions"],
  ABS + "; results compared with a reference partition for every case of word equality and option form", NOTE + " Bounded: number of words.")
p("R19", "Typed access to command line parameters converts fully or fails",
  "asString, asInteger and asReal of a parameter or command convert the (first) word completely or throw; the variants with a default yield the default exactly if the word is missing and still throw if a present word does not convert. asStrings, asIntegers and asReals convert all words in order, their fixed-size variants the first N and throw if there are fewer than N.",
  ["inputs"], "commands with 0 to 3 parameters, arbitrary words and defaults", "error paths of every accessor; tests cover a few", [V], [("Command and Parameter accessors", "src/validate.h")], ["returned values", "exceptions"],
  ABS, NOTE + " Bounded: up to 3 parameters.")
p("R16", "A program initialises once, before anything else, and settings freeze",
  "After one role was initialised every further init of any role throws std::logic_error before it opens a stream, touches a file or seeds the random generator; settings can be assigned before init and keep their value afterwards, where assigning throws std::logic_error; Multipass::init before init throws std::logic_error; a program that never called init and ends without a propagating exception is told so by a std::logic_error; reading from an InputStream that was never opened throws before anything is read.",
  ["histories"], "every pair of roles, all settings values, every reading operation",
  "the order of calls is a history; tests call init once, correctly", [V], [("details::initialized, InitGuard, SettingBase, init of the roles", "src/validate.h"), ("InputStream default constructor", "src/validate.h")], ["exceptions", "settings", "files touched"],
  ABS, NOTE)
p("R20", "Writing a verdict ends the process with the code of that verdict",
  "AC has exit code 42, WA and PE 43 and FAIL 1; a user-defined verdict has the code it was given. Writing a verdict to a std::ostream or an OutputStream prints exactly a newline after the message, flushes the stream and ends the process with the verdict's code through std::exit; it never returns. Verdict::exit and exitVerdict end the process with exactly the given code.",
  ["inputs"], "all verdict codes, messages and streams", "tests look at the exit status of the predefined verdicts only, not at the flush",
  [V], [("Verdicts::Verdict and exitVerdict", "src/validate.h"), ("OutputStream::operator<<", "src/validate.h")], ["exit status", "text and flush on the stream"], ABS, NOTE)
p("R21", "Multipass state and pass number carry from each pass to the next",
  "In the first pass Multipass::pass is 0 and no previous state is opened; in later passes it is the number stored in .pass of the feedback directory plus one. The state written in a pass (.state0 for even, .state1 for odd passes, emptied first) is exactly the one the next pass reads, and it is never removed or written in the pass that reads it. The number is stored only after the state files could be opened. NEXT writes exactly what was written to nextpass to nextpass.in in the feedback directory, closes it, and ends the process with 42; NEXT written to a stream first ends and flushes its line.",
  ["histories", "inputs"], "every stored pass number (symbolic; plus the constants 0 to 7, thorough 0 to 15), every content of nextpass",
  "a history of several processes; tests run a single pass", [V], [("Multipass::init, Multipass::NEXT", "src/validate.h namespace Multipass")], ["files opened, removed and written", "exit status", "Multipass::pass"], ABS, NOTE)
p("R22", "Formatted output puts separators strictly between elements",
  "An OutputStream bound to a stream or a file prints booleans as words and reals in fixed notation with six decimals; an unbound one discards everything; a file that cannot be opened is an error. Values a standard stream can print are printed as it prints them. Elements of containers, arrays, pairs and tuples (nested ones too) are printed in order with one blank between neighbours and nothing before or after. join does the same with the given separator, prints the bare elements with NOSEP, accepts iterators, containers, arrays, tuples, string literals (without the terminator) and braced lists, and its asString yields the same text.",
  ["inputs"], "all element values and separators; containers of 0 to 3 (thorough 0 to 4) elements; the listed collection types",
  "combinations of collection kind, value category and separator; tests print a few", [V], [("OutputStream::operator<< and join", "src/validate.h"), ("join and details::TempWriter", "src/validate.h")], ["text written to the stream", "formatting state of the stream"], ABS + "; emitted token sequences compared with the specification", NOTE + " Bounded: container sizes.")
p("R12", "Floats compare within absolute or relative tolerance",
  "floatEqual holds for finite values exactly if |given - expected| is at most the absolute tolerance or |(given - expected) / expected| is at most the relative tolerance, bounds included; NaN equals exactly NaN, an infinity equals exactly the infinity of the same sign, and neither ever equals a finite value. floatLess (floatGreater) holds exactly if given <= (>=) expected or the two are equal in that sense. A negative or NaN tolerance is refused with an exception, every other tolerance is accepted.",
  ["inputs"], "all real values given and expected, all tolerances, every case of NaN and infinity on either side",
  "the comparison has a case for every combination of sign, special value and tolerance; tests use a few constants", [V],
  [("floatEqual, floatLess, floatGreater", "src/validate.h"), ("boundedFloatTolerance settings", "src/validate.h")], ["returned boolean", "exception"], ABS + "; the path conditions are compiled into a decision table and compared with the definition", NOTE + " Rounding of the differences and quotients themselves is not modelled.")
p("R14", "Character classes, case mapping and tokens follow their ASCII definition",
  "isLower, isUpper, isLetter, isDigit, isVowel and isConsonant of a character hold exactly for the ASCII members of that class (vowels are aeiou, in both cases), for all 256 byte values; of a string they hold exactly if every character is in the class, and otherwise name the first character that is not. toLower, toUpper and toDefaultCase change ASCII letters only, for characters and in place for every character of a string. isToken holds exactly for non-empty strings without white space. The alphabet constants LETTER, UPPER, LOWER, VOWELS, CONSONANTS and DIGITS hold exactly the members of their class in order.",
  ["inputs"], "all 256 byte values; strings of 0 to 3 arbitrary characters", "256 values times a dozen functions, including bytes above 127; tests sample letters",
  [V], [("isLower .. isConsonant, toLower, toUpper, toDefaultCase, isToken", "src/validate.h"), ("alphabet constants", "src/validate.h")], ["returned boolean or character", "the string afterwards"], ABS + "; every byte value is evaluated in the abstract semantics", NOTE + " Bounded: length of strings.")
p("R24", "Order, distinctness and permutation predicates name the right witness",
  "anyAdjacent, noneAdjacent and allAdjacent hold exactly if the predicate holds for some, no and every neighbouring pair, applied as (earlier, later), and name the first deciding position. areIncreasing, areNonDecreasing, areDecreasing and areNonIncreasing hold exactly if every neighbouring pair is ordered strictly or weakly as named. areDistinct holds exactly if all elements differ pairwise and otherwise names an element that occurs twice. isPerm(c, offset) holds exactly if the elements are offset..offset+n-1 in some order, isPerm(a, b) exactly if both hold the same elements equally often; otherwise an element that does not fit is named.",
  ["inputs"], "sequences of 0 to 4 arbitrary elements, every offset", "the predicates depend on every ordering of the elements; tests sample a few sequences",
  [V], [("anyAdjacent, allAdjacent, areIncreasing.., areDistinct, isPerm", "src/validate.h")], ["returned boolean and witness"], ABS + "; the summaries are evaluated on every weak ordering of the elements", NOTE + " Bounded: length of the sequences.")
p("R25", "Modular arithmetic is exact for every operand that fits",
  "For mod > 0 applyMod(x, mod), mulMod(a, b, mod) and powMod(b, e, mod) lie in [0, mod) and are congruent to x, a*b and b^e modulo mod for all 64 bit operands, negative ones too, without overflow on the way. mod <= 0 (except for applyMod) and negative exponents throw std::domain_error, nothing else throws. multInv(n, mod) is -1 if gcd(n, mod) is not 1 and otherwise lies in [0, mod) with n*multInv(n, mod) congruent to 1; extendedEuclid yields d, x, y with a*x + b*y = d = gcd(a, b).",
  ["inputs"], "all 64 bit operands; exponents from a list of 52 (thorough: about 300) constants", "overflow appears only for operands near the ends of the 64 bit range; tests use small ones",
  [V], [("applyMod, mulMod, powMod, multInv", "src/validate.h"), ("details::mulMod, details::powMod, details::extendedEuclid", "src/validate.h")], ["returned value", "exceptions"], ABS + "; congruence normal form of the result, interval facts for wrap-around, induction on the recursion of extendedEuclid", NOTE + " Bounded: exponents.")
p("R28", "range and thueMorse list exactly the documented values",
  "range(from, to, step) lists from, from+step, from+2*step, ... as long as the value is strictly before to in the direction of step, without overflow at the ends of the integer range, and is empty if there is none; range(to) starts at 0, range(from, to) has step 1 and to-from elements if from < to and none otherwise. A step of zero throws std::domain_error and nothing else does. thueMorse(lower, upper) lists the parity of the number of one bits of lower..upper-1, and throws std::invalid_argument exactly if lower >= upper or lower < 0.",
  ["inputs"], "symbolic bounds and steps with 0 to 4 elements, lists of constants including the ends of the integer range", "overflow and off-by-one cases appear only at particular bounds", [V],
  [("range, thueMorse", "src/validate.h")], ["returned container", "exceptions"], ABS, NOTE + " Bounded: number of elements for symbolic steps.")
p("R29", "Plane geometry predicates agree with their exact definition",
  "dot(a, b), cross(a, b) and cross(a, b, c) are ax*bx + ay*by, ax*by - ay*bx and cross(b-a, c-a) for every supported point type; sign is -1, 0, 1 as the value is negative, zero, positive; dist is the absolute difference, also of unsigned values. isCCW holds exactly if the signed area of the polygon is positive. isConvex holds exactly for polygons of positive area with pairwise distinct points all of which lie on or left of every edge; isStrictlyConvex additionally demands that no three neighbouring points are collinear. Coordinates beyond +-0x3FFFFFFF are refused with an exception and all others are accepted.",
  ["inputs"], "all coordinates (symbolic) for the products and the area; polygons of 3 to 5 points: every polygon on a small grid", "predicates over all point configurations; tests use a handful of polygons",
  [V], [("dot, cross, sign, dist, isCCW, isConvex, isStrictlyConvex", "src/validate.h")], ["returned value", "exceptions"], ABS + "; polynomial identities, and the path summaries (conditions over coordinates) compared with the definition", NOTE + " Bounded: number of points of polygons.")
p("R30", "Container helpers preserve elements and order",
  "contains(c, key) holds exactly if the key is in the map or set. append(a, b) and its operators add the elements of b in order at the end of a, also if both are the same object. asFunction(c)(i) is c[i]; a container passed as lvalue is referred to, a temporary is kept alive by the result. flatten lists the elements of the requested depth in order. shorter and longer compare sizes strictly; MinPQ yields the smallest element first. getX, getY and getZ read and write the named coordinate of every supported point type, and convert keeps the coordinates.",
  ["inputs", "configurations"], "all element values; containers of 0 to 3 elements; the listed container and point types", "aliasing and value category matter; tests use one combination each", [V],
  [("contains, append, asFunction, flatten, shorter, longer, MinPQ, getX.., convert", "src/validate.h")], ["container afterwards", "returned value"], ABS, NOTE + " Bounded: container sizes.")

RND = ("namespace Random", "src/validate.h")
p("N01", "Random output is a function of the seed alone",
  "Everything the functions of namespace Random produce is determined by the seed and the sequence of calls, on every platform: they reach no source of entropy, no clock and no standard facility whose result is implementation-defined (distributions, shuffle, sample), keep no mutable state besides the engine, use the engine only by asking for its next word, and never draw in two operands whose order of evaluation the language leaves open. Random::seed(s) replaces the engine by one seeded with exactly s, whatever happened before, without drawing; a program that never seeds starts from a constant seed.",
  ["histories", "configurations"], "all functions of namespace Random and everything of the header they reach; every call, every expression", "a test sees one compiler and one library, where the order of evaluation and the distributions are fixed",
  [V], [("Random::seed, Random::details::randomNumberGenerator", "src/validate.h"), RND], ["calls and variables reached", "drawing operands of one expression", "state of the engine after seed"],
  "effect analysis over the call graph, evaluation-order lint, abstract interpretation of seed", "Sound for the functions instantiated by drivers/rand.cpp; calls through pointers are not followed (there are none).")
p("N02", "Random numbers stay inside the requested range",
  "integer(l, u), bit, real(u), real(l, u), the bounded normal, exponential, geometric and binomial, maximum, minimum, minmax and prime never leave [lower, upper), real() lies in [0, 1), exponential and geometric are never negative, binomial(n, p) lies in [0, n]. prime returns only numbers isPrime accepts, discrete returns an index of non-zero weight with probability proportional to the weights. This holds for every engine output and every valid bound, up to the ends of the 64 bit range.",
  ["inputs", "schedules"], "all bounds and parameters, all outputs of the engine", "a test draws a few thousand values from a few ranges; rounding and overflow show up for particular bounds and draws",
  [V], [("integer, real, normal, exponential, geometric, binomial, maximum, minimum, minmax, prime, discrete", "src/validate.h namespace Random")], ["returned value"],
  ABS + " with inductive bounds for the loops", NOTE + " The range of std::ldexp, log, round and lgamma is modelled; the sampled distribution of the real-valued samplers is not judged. maximum, minimum and minmax: n from a list of constants and symbolic.")
p("N03", "Uniform choices are exactly uniform",
  "integer(l, u) is the high word of an engine word times the size of the range and rejects exactly the words whose low product is below 2^64 modulo that size, so every value is equally likely. bit is the parity of a word. select picks every element (position) with the same probability and refers to it, shuffle produces every permutation of the given elements with the same probability and loses none, rotate performs the left rotation it returns and every rotation is equally likely; all overloads (iterators, containers, arrays, braced lists, pairs, complex) agree.",
  ["inputs", "schedules"], "ranges of 25 sizes (including the ends of the 64 bit range) with every engine word; sequences of 1 to 4 (thorough 5) arbitrary elements with every sequence of draws", "bias of 2^-40 or a permutation missing for one length is invisible to sampling",
  [V], [("integer, bit, select, shuffle, rotate", "src/validate.h namespace Random")], ["returned value", "sequence afterwards", "probability of each path"],
  ABS + "; draws partitioned into values or intervals, path masses summed", NOTE + " Bounded: number of elements, list of range sizes.")
p("N05", "Random sequences have the named shape and are equally likely",
  "distinct(count, l, u) yields every sequence of count different values of [l, u) with the same probability; multiple the same with repetition; increasing and decreasing every strictly ordered sequence; nonDecreasing and nonIncreasing yield exactly the weakly ordered ones, each equally likely. A negative count and a range with fewer than count values throw std::invalid_argument for the distinct kinds, nothing else throws.",
  ["inputs", "schedules"], "0 to 3 (thorough 4) values out of ranges of 0 to 4 (5) values starting anywhere, every sequence of draws", "the probability of every outcome cannot be sampled, and a wrong border value appears rarely",
  [V], [("distinct, multiple, increasing, decreasing, nonDecreasing, nonIncreasing", "src/validate.h namespace Random")], ["returned sequence", "exceptions"],
  ABS + "; draws partitioned into values, path masses summed", NOTE + " Bounded: length and size of the range. Known finding: nonDecreasing and nonIncreasing are not uniform.")
p("N06", "Random permutations honour offset, cycles and fixed points",
  "perm(n, offset) yields every permutation of offset..offset+n-1 with the same probability; perm(cycles, offset) exactly the permutations with these cycle lengths, each equally likely; perm(n, fix, offset) exactly the permutations with p(x) = x for every listed point, each equally likely, also if a point is listed more than once. A negative length, a cycle length below one and a fixed point outside of the range throw std::invalid_argument, nothing else throws.",
  ["inputs", "schedules"], "n up to 4 (thorough 5), every offset for the plain variant and three for the others, all cycle types and all sets of fixed points of that size, every sequence of draws", "needs every outcome for every combination of offset and structure",
  [V], [("perm", "src/validate.h namespace Random")], ["returned permutation", "exceptions"], ABS + "; draws partitioned into values, path masses summed", NOTE + " Bounded: length.")
p("N07", "Random partitions, strings and brackets are valid and equally likely",
  "partition(n, k, min) yields exactly the sequences of k values of at least min with sum n, each with the same probability, and throws std::invalid_argument exactly if n or k is not positive or there is none. string(n, alphabet) draws every character of the alphabet with the same probability for every position, lower case letters by default, and refuses a negative length and an empty alphabet. bracketSequence(n, open, close) yields every proper bracket sequence of n pairs with the same probability and refuses a negative n.",
  ["inputs", "schedules"], "n up to 6 (thorough 8), k up to 4, min up to 3; strings of up to 3 characters over four alphabets and the default one; up to 5 (7) pairs of brackets; every sequence of draws", "the probability of every outcome cannot be sampled",
  [V], [("partition, string, bracketSequence", "src/validate.h namespace Random")], ["returned value", "exceptions"], ABS + "; draws partitioned into values or intervals, path masses summed", NOTE + " Bounded: sizes.")
p("N08", "nonCollinearPoints yields distinct points with no three on a line",
  "For 2 <= dim <= 0x1FFFFFFF and 0 <= n < dim nonCollinearPoints(n, dim) throws nothing and yields n points with coordinates strictly between -dim and dim, no two equal and no three on a common line. n < 0, n >= dim and dim > 0x1FFFFFFF throw std::invalid_argument.",
  ["inputs", "schedules"], "every dim (symbolic), every prime, rotation, parabola and shift drawn; n from 0 to 3 (thorough 4): collinearity concerns three points", "fails only for particular primes and rotations, e.g. if the sum of the squares of the rotation vanishes modulo the prime",
  [V], [("nonCollinearPoints", "src/validate.h namespace Random")], ["returned points", "exceptions"],
  ABS + "; the coordinates are compared modulo the prime: polynomials of degree two in different arguments whose coefficient determinant factors into units", NOTE + " Bertrand's postulate supplies the prime. dim = 1 is outside of the property (no prime below 2: std::domain_error).")
p("N04", "Distributions transform uniform draws as their definition demands",
  "normal is mean + stddev*sqrt(-2 ln u)*cos(2 pi v) (or sin) for independent uniform u and v, exponential lower - ln(u)/lambda, geometric lower + floor(ln u / ln(1-p)). maximum, minimum and minmax of fewer than 5 draws have exactly the probabilities of the extreme of that many independent uniform draws; for more draws maximum is lower + floor(size * u^(1/n)) and minimum its mirror image. prime gives every prime of the range the same number of values of the underlying draw.",
  ["inputs", "schedules"], "symbolic parameters for the real-valued samplers; n from 1 to 4 with ranges of 1 to 4 values and n in {5, 6, 13, 1000} for the extremes; twelve ranges for prime", "a wrong scale or a biased extreme changes no value a range test looks at",
  [V], [("normal, exponential, geometric, maximum, minimum, minmax, prime", "src/validate.h namespace Random")], ["returned value as an expression of the draws"],
  ABS + "; results compared as expressions over the draws, draws partitioned into values", NOTE + " Rounding is not modelled. The rejection branch (BTRS) of binomial is not judged.")

GG = "src/graph_gen.h"
GV = "src/graph_val.h"
SMALL = "Abstract interpretation partitioned by the size and the edges of the graph: ids and data are symbolic or constant, sizes are bounded. Refuted obligations are violations, undecided ones are only counted in the evidence."
p("G01", "The undirected validators' graph answers for exactly the added edges",
  "After any sequence of addEdge calls, loops and repeated edges included, Graph of graph_val.h reports: nodeCount and size the number of vertices; edgeCount the number of calls; hasEdge(a, b) and hasEdge(b, a) exactly for added edges; operator[] the distinct neighbours in ascending order and degree their number; hasSelfloop and hasMultiedge a loop or repeated edge (in either orientation) exactly if there is one; areConnected, isConnected, isForest (no circuit, loops and repeated edges count as circuits), isTree and isBipartite exactly as the added edges imply, for every first id.",
  ["inputs", "histories"], "all edge sequences of length up to 3 on up to 3 vertices, all simple graphs on 4 vertices, chosen circuits, chains and trees on 5 to 8 vertices; first id symbolic or constant, also the constructor without first id", "incremental answers (union-find, colours, multi-edges) go wrong only for particular histories of insertions",
  [GV], [("Graph, UnionFind, details::BaseGraph", GV)], ["returned values"], ABS + "; all queries after every insertion", SMALL)
p("G02", "The directed validators' graph answers for exactly the added edges",
  "After any sequence of addEdge calls, loops and repeated edges included, DiGraph of graph_val.h reports counts, hasEdge, hasReverse, out- and in-neighbours with their degrees, loops and repeated edges exactly as added. isDAG returns an order of all vertices in which every edge points forward if there is no directed circuit, and nothing otherwise. isTree returns the root exactly if every vertex is reached from it on exactly one path, and nothing otherwise.",
  ["inputs", "histories"], "all edge sequences of length up to 3 on up to 3 vertices, a sample of the simple directed graphs on 4 vertices (thorough: half of them), chosen circuits, chains and trees on 5 to 8 vertices; first id symbolic or constant", "root and order are kept incrementally; wrong answers need particular histories",
  [GV], [("DiGraph, UnionFind, details::BaseGraph", GV)], ["returned values"], ABS + "; all queries after every insertion", SMALL)
p("G03", "The named graphs have exactly the documented vertices and edges",
  "independent, clique, bipartite, star, path, cycle, wheel, lolly, broom, grid, hypercube, booleanLattice and rado produce exactly the vertices and (directed where offered) edges of their description, each edge once, and consistent views (edge list, neighbours, degrees, hasEdge). completeTree is a tree with root 0 (edges away from it if directed), consecutive ids in every subtree, the requested number of children everywhere, all leaves on one level, and one level more per step.",
  ["inputs"], "every parameter up to 6 (second parameter up to 5), dimensions up to 4, rado up to 18 vertices; thorough up to 9 and 35", "wrong edges appear for particular parameters and ids",
  [GG], [("independent .. rado", GG), ("combine, append, cartesian, setMinId", GG)], ["vertices, edges and views of the result"], ABS, SMALL + " The vertex count in the comment of completeTree contradicts the code for small levels; only the shape from level 2 on is judged.")
p("G04", "Graph transformations yield the documented graph",
  "complement, power, transitiveClosure, lineGraph, reverse, undirected, directed (with and without predicates), copy, conversions, cartesian, product and strongProduct yield exactly the vertices and edges of their definition with ids in the documented range and the data of the edges where they keep any, consistent views, and leave the original unchanged (reverse excepted).",
  ["inputs"], "all simple graphs on up to 3 vertices, undirected ones also on 4 (directed: every eighth; thorough: all), chains and circuits on 4 and 5; edges in mixed order and orientation; first id symbolic or constant; products of graphs with up to 3 vertices", "closure, power and products depend on every pair of vertices and on the order of edges; tests use one or two graphs",
  [GG], [("GraphDetail::GraphType", GG)], ["vertices, edges, data and views of the result"], ABS, SMALL)
p("G05", "A generated graph stays consistent through every history of edits",
  "After every sequence of addEdge and eraseEdge the edge list, neighbour lists, degrees, hasEdge, findEdge, getEdgeById and edgeCount show exactly the edges added and not removed, each once, with the data given last. Ids outside the graph and loops are refused. setMinId, normalize, range, combine, append (also with itself), permutate(perm) and assignment yield exactly the documented graph; other graphs stay untouched. permutateEdges, permutate() and subgraph(k) yield every order and orientation, renumbering or k-subset of the edges with the same probability, and a permutation of the wrong size or content is refused.",
  ["histories", "inputs", "schedules"], "all edit sequences of length 3 (thorough 4) on 3 vertices, all graphs on up to 3 vertices for the operations, all draws; first id symbolic or constant", "the adjacency sets hold pointers into the edge list, which edits relocate: breakage needs particular sequences",
  [GG], [("GraphDetail::GraphType", GG)], ["all views of the graph after each step", "probability of each result"], ABS + "; pointers into the edge list followed through copies and moves; draws partitioned, path masses summed", SMALL)
p("G06", "Random graphs have the promised edges, degrees and probabilities",
  "randomGraph(n, m) and randomBipartite(n, m, k) yield every set of that many possible edges (directed ones too) with the same probability and refuse impossible numbers. With a probability p the number of edges is binomial over all possible edges. pruefer(code) is the tree of the code, randomTree every labelled tree with the same probability, with root 0 if directed. randomGraph(degrees) is a simple graph with exactly these degrees, also after switching edges, and std::invalid_argument is thrown exactly if there is none. randomGrowingGraph(n, p) joins vertex i to floor(p*X) distinct earlier vertices, X uniform over [0, i+1), and refuses p outside of [0, 1].",
  ["inputs", "schedules"], "n up to 4 (directed 3; thorough 4) with every number of edges, up to 8 (13) with one edge; bipartite up to 2+3 vertices and 5+5 with one edge; Pruefer codes and trees up to 5 (6) vertices; all degree sequences of up to 4 values from -1 to n, all choices of the first pair of edges to switch; p symbolic", "an edge that is never drawn or drawn twice as often is invisible to sampling of a few graphs",
  [GG], [("randomGraph, randomBipartite, randomTree, pruefer, randomGrowingGraph", GG)], ["edges of the result", "probability of each result", "exceptions"], ABS + "; draws partitioned into values, path masses summed", SMALL + " randomTree<..., true>(0) (which throws) is not judged.")
p("G07", "Graphs print in the documented format and depend on the seed alone",
  "Writing a graph to a std::ostream or an OutputStream prints the numbers of vertices and edges separated by a blank and then, each after a newline, the edges in the order of getEdges with end points and data separated by single blanks, and nothing else. The graph generators reach no source of entropy, no clock, no implementation-defined facility and no mutable state but the library's engine, never draw in two operands whose order of evaluation is open, and no container they use orders or hashes elements by address.",
  ["inputs", "configurations", "histories"], "printing: all graphs with up to 3 vertices and 3 edges, with and without data, first id symbolic or constant; determinism: all functions of graph_gen.h and everything of the headers they reach", "order by address or of evaluation changes between compilers and runs, not within one test",
  [GG, V], [("operator<<", GG), ("generators", GG)], ["text written", "calls and variables reached", "container types"], ABS + "; effect analysis over the call graph, evaluation-order lint, lint of container types", SMALL)

RNG, SRNG = "src/rng.h", "src/secure_rng.h"
BITS = "abstract interpretation over the clang AST in a bit-level domain (GF(2)-affine forms of the input bits plus canonical tables of non-linear byte functions)"
EXACT = "Canonical forms that agree are equal for every input. Forms that differ are reported only with an assignment of the input bits under which they do."
p("E01", "Xoshiro256ss steps and outputs as published, with full period",
  "For every state, one call of Xoshiro256ss::operator() returns rotl(s1*5, 7)*9 and replaces the four 64 bit words of state by the published xoshiro256** successor. The successor map is linear over GF(2) with order 2^256-1, so every nonzero state is on one cycle of that length. min() is 0 and max() is 2^64-1.",
  ["inputs"], "all 2^256 states: the four words are symbolic", "a wrong rotation or shift still gives random looking numbers; only the cycle structure degrades",
  [RNG], [("Xoshiro256ss", RNG)], ["returned word", "state after the call"], BITS + "; order of the transition matrix by squaring, with the factors of 2^256-1", EXACT)
p("E04", "Xoshiro256ss jumps 2^128 calls and is seeded as documented",
  "jump() changes every state exactly as 2^128 calls of operator() would. The array constructor uses the given words as state. The seed constructor combines each of the four leading words of pi with the seed and jumps once, so that different seeds give different, nonzero states.",
  ["inputs", "histories"], "all 2^256 states, all 2^64 seeds", "the effect of jump cannot be compared with 2^128 calls by running them, and a wrong constant still yields random looking numbers",
  [RNG], [("Xoshiro256ss::jump, constructors", RNG)], ["state after the call"], BITS + "; matrix of jump() compared with the 2^128th power of the matrix of operator()", EXACT)
p("E02", "AES encrypts every block under every key as FIPS-197 AES-256",
  "For every 256 bit key and every block, AES(key)(block) is the AES-256 encryption of FIPS-197. Encryption changes nothing in the key schedule and reads no table outside of its bounds.",
  ["inputs"], "all keys and blocks: 384 symbolic bits through the key expansion and all 14 rounds", "a wrong table entry or key schedule branch shows for few keys and blocks only, and nothing in the output looks wrong",
  [SRNG], [("AES", SRNG)], ["encrypted block"], BITS + "; compared with a reference built from field arithmetic, not from tables", EXACT)
p("E05", "AES_RNG encrypts a 128 bit counter that never repeats early",
  "Each call of AES_RNG::operator() adds one to the 128 bit little endian counter, with every carry, encrypts the new counter once under the unchanged key and returns the xor of the two little endian halves. AES_RNG(key, iv) starts from the given key and counter, AES_RNG(seed) from the digits of pi with the low half of the counter combined with the seed. min() is 0 and max() is 2^64-1.",
  ["inputs", "histories"], "all counters: one case per position of the lowest zero bit, the other bits symbolic; all seeds", "a carry that is lost after 8 bytes needs 2^64 calls or a special counter to show",
  [SRNG], [("AES_RNG", SRNG)], ["state after the call", "returned word"], BITS + "; the cipher replaced by an opaque result whose argument is recorded", EXACT)
p("E03", "The alternative engines replace the Mersenne Twister in validate.h",
  "With RandomEngine set to Xoshiro256ss or AES_RNG, validate.h and graph_gen.h compile, seed(s) leaves the engine in exactly the state of a new engine constructed from s, the random functions only ask the engine for its next word, and neither they nor the engines depend on anything but the engine object and constants. So equal seeds give equal sequences.",
  ["configurations", "histories"], "both engines, every function of the random namespaces, symbolic seed", "the configuration point is compiled by no test; hidden state shows in the second use of a seed only",
  [V, RNG, SRNG], [("RandomEngine, Random::seed, randomNumberGenerator", V), ("Xoshiro256ss", RNG), ("AES_RNG", SRNG)], ["compile errors", "state after seed", "variables read"], "type check and analysis of the headers with the alias replaced: effect analysis over the call graph, evaluation-order lint, " + BITS + " for the state after seed()", EXACT + " That the alias RandomEngine is the configuration point is taken from the comment in validate.h.")

PNG, SVG = "src/visualizer_png.h", "src/visualizer_svg.h"
PIC = "Abstract interpretation partitioned by the size of the image and the position of the shape; pixels and colours are symbolic where the operation does not compute with them. Refuted obligations are violations, undecided ones are only counted in the evidence."
p("H01", "Every header compiles on its own and in every order of inclusion",
  "Each header compiles as the only include of a translation unit under g++ and clang with C++17 and C++20 (graph_gen.h: C++20), in 64 and 32 bit, and again when included twice. The headers of a validator (validate.h, graph_val.h and the engines) and those of a generator (validate.h, graph_gen.h and the engines) compile together in every pairwise order. validate.h compiles with DOUBLE_FALLBACK.",
  ["configurations"], "all headers, all pairs in both orders, two compilers, two standards, two word sizes", "the tests include one header in one order; a missing include is hidden by whatever else was included",
  [V, GG, GV, RNG, SRNG, PNG, SVG], [("include lists", "src/*.h")], ["diagnostics of the front end"], "type check of one translation unit per configuration by two compiler front ends", "Complete for the listed configurations. Bodies of templates are checked as far as non-dependent; the other checks instantiate them.")
p("P01", "PNG drawing changes exactly the pixels of the shape",
  "clear(w, h, c) gives an image of that size with every pixel c; a written pixel reads back and no other changes. A rectangle or filled box combines exactly the pixels of the closed rectangle, each once: the rim with the border colour, the inside with the fill colour. A flood fill combines exactly the 4-connected pixels that have the colour of the start, each once. A line combines a shortest 8-connected chain of pixels between its ends, each once, at most half a pixel off the segment. No operation inside the image touches memory outside of it, and all end.",
  ["inputs"], "rectangles: all corner pairs of 4x3; flood fill: all 512 two-coloured 3x3 images and mazes up to 6x5, two starts each (thorough: all); lines: all pairs of ends in 5x5 (7x7) and all directions from the centre of 11x11 (17x17); all four blend modes; colours symbolic or chosen to collide", "the image is compared with nothing by the tests; a wrong pixel is seen by nobody",
  [PNG], [("PNG::drawLine, drawRectangle, fillRectangle, floodFill, operator(), clear", PNG)], ["colour of every pixel"], ABS, PIC)
p("P02", "PNG colours are clamped, compared and blended per part",
  "A colour consists of the bytes it is constructed from and is opaque unless alpha is given. operator[] reads and writes exactly the numbered part and throws for any other number. == holds exactly if all parts agree. Sums and differences are clamped to 0..255 per part, multiples are rounded to nearest and clamped, lerp yields its ends and is within one of the exact value in between. blend never divides by zero, an opaque upper colour covers, an invisible one changes nothing, otherwise parts are means weighted by alpha up to rounding. The named colours have their values.",
  ["inputs"], "all colours (parts symbolic) for construction, access, comparison, sums, differences and multiples; blend: a grid of 315 pairs including all corner cases of alpha", "overflow of a byte and division by a zero alpha need particular pairs of colours",
  [PNG], [("Color, clamp_color, lerp, blend", PNG)], ["parts of the result"], BITS + "; " + ABS, PIC)
p("P03", "The PNG file encodes the picture",
  "PNG::write writes a file that is the PNG signature followed by the chunks IHDR, IDAT and IEND with correct lengths and CRC-32. The header names width and height, 8 bit true colour with alpha, no interlacing. The data is a zlib stream of stored blocks with correct lengths, complements, final flag and Adler-32, and contains exactly the pixels, the row with the largest y first, with filter type 0. It is written exactly if the image has a name and a pixel: by write and at the end of life. Visualizer::init binds the image to the .png file of the name given and opens its .in and .ans file.",
  ["inputs"], "sizes from 1x1 to 3x2 with every pixel symbolic, up to 1x260 (thorough 3x400) with symbolic corners and several stored blocks; names symbolic", "viewers ignore wrong checksums, and only images beyond one block exercise the block lengths",
  [PNG], [("PNG::write, Visualizer::init", PNG)], ["bytes written", "files opened"], BITS + "; the bytes of the file decoded by an independent reader of the format", EXACT)
SV = "Abstract interpretation: coordinates and dimensions are exact rational symbols (the rounding of long double is not modelled), texts are symbols; all orders of the coordinates are covered by the paths. Refuted obligations are violations, undecided ones are only counted in the evidence."
p("S01", "SVG shapes are written as their element with exact geometry and style",
  "A rectangle, circle, ellipse, line, polygon or polyline writes one empty, well formed SVG element of its kind whose attributes are exactly its geometry (y axis flipped) and its style: stroke colour, width, cap, join and non-scaling effect as set, \"none\" where stroke or fill is missing. A colour is # and two hexadecimal digits per part and leaves the number base of the stream alone. Numbers are decimal with at least six significant digits. A comment writes exactly its text between comment delimiters.",
  ["inputs"], "all coordinates, sizes and colours (symbolic); 15 combinations of style settings; polygons of 0 to 3 (thorough 8) points; streams in base 8, 10 and 16", "the tests draw nothing; a swapped attribute or a stream left in base 16 shows in the next number only",
  [SVG], [("operator<< of the shapes, Stroke, Fill, Color; attribute; flipY", SVG)], ["text written"], ABS + "; the text read by an independent reader of the markup", SV)
p("S02", "The SVG bounding box is the smallest box around what was drawn",
  "After includeInBB or the insertion of a shape, origin and dimension of the image describe the smallest axis-parallel box that contains the box before and the extent of the shape: corners of a rectangle, ends of a line, all points of a polygon or polyline, centre plus and minus the radii of a circle or ellipse. Comments and text leave the box alone.",
  ["inputs", "histories"], "all boxes of non-negative size and all points, rectangles, circles, ellipses and lines (symbolic, every order of the coordinates); polygons of 0 to 3 points over a grid; every history, as the box before is arbitrary", "a box that is too small cuts the picture only if the shapes come in a particular order at particular sides",
  [SVG], [("SVG::includeInBB, operator<<(SVG&, ...)", SVG)], ["origin and dimension after the call"], ABS + "; the sides compared by linear arithmetic (Fourier-Motzkin) on every path", SV)
p("S03", "The SVG document contains exactly what was inserted and shows all of it",
  "An image with a name and content is written to the file of its name by write() and once at the end of its life, also after it was assigned; without name or content no file is opened. The file is an optional XML declaration and one svg element in the SVG name space that contains exactly what was inserted, in order, and whose view box is the bounding box with the y axis flipped. Visualizer::init binds the image to the .svg file of the name given and opens its .in and .ans file.",
  ["inputs", "histories"], "shapes with six constellations of constants, any text and any box (symbolic), named and unnamed, moved and written repeatedly", "the order of destruction and assignment decides which file is written, with which content",
  [SVG], [("SVG::write, ~SVG, SVG move; Visualizer::init", SVG)], ["files opened", "bytes written"], ABS + "; the text read by an independent reader of the markup", SV)
p("S04", "SVG colours are clamped per part; points and dimensions add per coordinate",
  "A colour consists of the bytes it is constructed from. operator[] reads and writes exactly the numbered part and throws for any other number. == holds exactly if all parts agree. Sums and differences are clamped to 0..255 per part, multiples are rounded to nearest and clamped, lerp yields its ends and is within one of the exact value in between. The named colours have their values. Points and dimensions are added and subtracted per coordinate, and the compound forms assign exactly that.",
  ["inputs"], "all colours, points and dimensions (symbolic); lerp on a grid", "overflow of a byte needs particular pairs of colours",
  [SVG], [("Color, clamp_color, lerp, Point, Dimension", SVG)], ["parts of the result"], BITS + "; " + ABS, PIC)

p("R08", "The constraint log keeps the exact range of every name",
  "The line written for a constraint tells whether any logged value met its lower and whether any met its upper bound, then the smallest and the largest value logged, then the smallest lower and the largest upper bound. Upper bounds of integers and of sizes are written inclusive. A real meets a bound if it is within the default absolute or relative error. Reals are written in fixed notation with at least six decimals, the two flags as 0 or 1. A constraint that was used for one type refuses every other type with std::logic_error and nothing else does; a container counts with its size.",
  ["inputs", "histories"], "symbolic values and bounds for up to two calls, lists of values for up to three calls; every pair of types", "which bound is met depends on the order of values that tests log in one order only", [V],
  [("Bounds, Constraint, ConstraintsLogger::write", V)], ["text of the file", "exceptions"], ABS + "; enumeration of the histories of constraint calls", NOTE + " Bounded: number of calls per constraint.")
p("R09", "The constraints file lists the used names in order of first use",
  "The log is written exactly if a file was named, to that file, by write() and at the end of its life, also if it was moved before. It has one line for every name under which a value was logged, in the order in which the names were first used, starting with LocationNotSupported: and twice the name, and none for other names. A name that is no token is refused with std::invalid_argument, every other name is accepted, and the same name yields the same constraint.",
  ["histories"], "all sequences of up to three uses of names in any alphabetical order, with and without a file, moved or not", "the order differs from the alphabetical one only for some names", [V],
  [("ConstraintsLogger", V), ("details::isToken", V)], ["text of the file", "files opened", "exceptions"], ABS + "; enumeration of the histories of the logger", NOTE + " Bounded: number of names.")
p("R26", "isPrime is exact for 64 bit numbers, primes lists exactly the primes of a window",
  "isPrime(n) holds exactly if n is prime: it accepts a number above the trial divisors only if that is a strong probable prime to bases for which there is no composite one below 2^64, and refuses only numbers that have a divisor or fail a test that all primes pass. primes(lower, upper) lists exactly the primes p with lower <= p < upper in increasing order, whatever the size and the position of the window up to the end of the 64 bit range, stays within its tables and does not overflow. primes(upper) starts at 0. lower >= upper throws std::invalid_argument, nothing else does.",
  ["inputs"], "all odd n above the trial divisors with n-1 divisible by exactly 2, 4 or 8 (thorough: up to 2^7), all n up to 599 (thorough: 2999) and special n; windows from lists, with the limit of the sieve lowered to cover windows beyond it", "pseudoprimes and overflow appear only at particular 64 bit numbers; tests know small ones", [V],
  [("isPrime, primes", V), ("details::TRIAL_PRIMES, details::MILLER_RABIN_WITNESS", V)], ["returned value", "exceptions", "indices"], ABS + "; modular powers kept opaque, one base at a time; known sets of bases without a strong pseudoprime", NOTE + " Bounded: windows; power of two in n-1. Trusted: the published sets of bases.")
