ST = ['string/string_tools.h', 'string/string_tools.cpp']
p('S01', 'Quoted and escaped text can always be restored',
  'Quoting any text without zero characters gives text between double quotes in which control characters, quotes and backslashes are escaped, and unquoting that gives back exactly the original text. Text is only quoted on demand when it is empty or contains whitespace, control characters, quotes or one of the given special characters. Decoding arbitrary, also malformed, escape sequences never reads outside the text and always makes progress.',
  'all texts up to the length bound, all byte values, well formed or not', 'The tests quote a handful of ASCII literals; the interplay of escapes, octal codes, non-ASCII bytes and text that ends halfway an escape is never sampled.',
  ST, [('quoting and unquoting', 'string/string_tools.cpp'), ('escape encoding and decoding', 'string/string_tools.cpp')])
p('S02', 'Splitting and trimming text loses nothing but delimiters',
  'Trimming removes exactly the leading and/or trailing characters of the given set. Splitting gives all non-empty pieces between separators, in order. Splitting at the first or last separator gives everything before and after it, and splitting into a key and value does so at the first separator and trims both.',
  'all texts and separators up to the length bound', 'Tests check a few literals; empty pieces, separators at the ends, repeated separators and non-ASCII characters are not covered.',
  ST, [('trim and split functions', 'string/string_tools.cpp')])
p('S03', 'Substrings, searches and prefix tests respect their definition',
  'Taking the left, right or middle part of a text gives exactly the requested characters, clipped to the text, where a negative count removes characters from the other side. Finding the first or nth occurrence and testing for a prefix, suffix or contained text agree with their definition for every text, pattern and position.',
  'all texts, patterns, counts and positions up to the bounds', 'Tests use fixed literals; negative counts, positions at the end, overlapping occurrences and empty patterns are not enumerated.',
  ST, [('substring functions', 'string/string_tools.cpp'), ('search functions', 'string/string_tools.cpp')])
p('S04', 'Replacing, joining and formatting text is exact and stays in its buffer',
  'Replacing characters or texts changes exactly the occurrences of what is searched and nothing else, and joining puts exactly one separator between non-empty elements. Text that is copied or formatted into fixed size storage is truncated to what fits, stays zero terminated and never writes outside that storage.',
  'all texts and buffer sizes up to the bounds', 'Tests never combine all lengths around the buffer size, or replacements that contain what is replaced.',
  ST + ['string/stack_string.h'], [('replace and join', 'string/string_tools.cpp'), ('fixed size strings', 'string/stack_string.h')])
p('S05', 'Numbers, booleans and their text convert without loss',
  'Converting any integer or boolean to text and back gives the same value. Reading an integer from text succeeds exactly when the text starts with one, after optional whitespace, and gives the value that is written; text that is not a number or boolean is rejected.',
  'all values of the integer types, and all texts up to the length bound', 'Tests convert a few values; limits of the types, signs and malformed text need all inputs.',
  ['string/string_cast.h', 'string/string_cast.cpp'], [('conversion to text', 'string/string_cast.h'), ('conversion from text', 'string/string_cast.h')])
p('S06', 'Pattern matching follows the wildcard definition',
  'A text matches a pattern with * and ? exactly when the wildcards can be expanded to that text, and a list of patterns matches when any of its patterns does. Looking up names in a dictionary gives the value that belongs to the name, and the name that belongs to a value, and reports absence otherwise.',
  'all texts and patterns up to the length bound', 'Tests match a few fixed patterns; combinations of several wildcards and all alignments are not covered.',
  ['string/pattern_matcher.h', 'string/dictionary.h', 'string/string_tools.cpp'], [('pattern matching', 'string/pattern_matcher.h'), ('dictionary', 'string/dictionary.h')])
p('S07', 'Version numbers are totally ordered and survive conversion to text',
  'Versions are ordered by major, minor, patch and then, if both have one, build number, consistently for all comparison operators. Writing a version without postfix as text and reading it back gives the same numbers, and reading a version text sets each part that is written and clears the others.',
  'all version numbers within the bounds, all pairs and triples for the order', 'There are no tests for versions.',
  ['system/version.h'], [('version', 'system/version.h')])
p('F01', 'Paths decompose into directory, stem and extension',
  'The directory is what comes before the last separator (slash or backslash) and the filename what comes after it; stem and extension together always form the filename. The extension starts at the last dot of the filename and never contains a part of the directory. A path is absolute exactly when it starts with a slash or tilde or contains a colon, and paths compare as their texts.',
  'all texts up to the length bound', 'Tests decompose a single path; dots in directories, files without extension, roots and mixed separators are not sampled.',
  ['filesystem/path.h', 'filesystem/path.cpp'], [('path decomposition', 'filesystem/path.cpp')])
p('F02', 'Changing one part of a path keeps the other parts',
  'Replacing the extension keeps directory and stem, replacing or extending the stem keeps directory and extension, and replacing the filename keeps the directory, including the root. Joining two paths puts exactly one separator between them when the first ends in a name, and adds none otherwise. Normalizing separators changes backslashes to slashes and nothing else.',
  'all texts up to the length bound', 'Tests change one path of one form; dots in directories and paths in the root are not covered.',
  ['filesystem/path.h', 'filesystem/path.cpp'], [('path modification', 'filesystem/path.cpp'), ('joining', 'filesystem/path.cpp')])
p('C01', 'Text streams are split in tokens exactly and completely',
  'A text stream gives the tokens between delimiters in order, with longest-first operators as separate tokens and quoted parts decoded and taken literally, without losing or inventing characters. Reading tokens always ends, reports the end of the stream exactly when there is nothing left, and never reads outside the text, for arbitrary bytes.',
  'all texts up to the length bound over all byte values, with delimiters, quotes and operators of one to two characters', 'No test tokenizes malformed text; unterminated quotes, adjacent quotes and operators, and zero bytes are not sampled.',
  ['serialization/char_stream.h', 'serialization/char_stream.cpp'], [('tokenizer', 'serialization/char_stream.cpp')])
p('C02', 'Navigation and number reading in text streams moves exactly as far as it should',
  'Seeking moves to (or past) the first occurrence at or after the current position and fails without it, conditional reads only consume text that matches, and reading a line leaves its end in the stream. Reading a number consumes exactly the number and gives its value, and fails when there is none; the line number counts the line ends before the position.',
  'all texts, searched texts and positions up to the bounds; integers up to the digit bound', 'Tests read a few well formed files; failed reads, positions at the end and numbers followed by other text are not covered.',
  ['serialization/char_stream.h', 'serialization/char_stream.cpp'], [('seek, try_get, get_line, numbers', 'serialization/char_stream.cpp')])
p('Z01', 'A tree written as ZML reads back identically',
  'For any tree of labelled groups, arrays and values, writing it as ZML, in normal or concise form, and reading the result gives an identical tree: same labels, values, order and duplicates. This includes values and labels that contain whitespace, quotes, braces, comment markers or non-ASCII text, but not zero characters, macros ($) or references (@).',
  'all labels and values up to the length bound in trees of all listed shapes, both output forms', 'The tests save and load one tree; which characters need quotes, and when a group is written on one line, cannot be sampled exhaustively.',
  ['serialization/prop_node_serializer_zml.cpp', 'serialization/char_stream.cpp', 'string/string_tools.cpp'], [('ZML writer', 'serialization/prop_node_serializer_zml.cpp'), ('ZML parser', 'serialization/prop_node_serializer_zml.cpp')])
p('Z02', 'The ZML parser handles any text without crashing or hanging',
  'Parsing arbitrary text as ZML always ends, never accesses memory outside the text or the tree, and either gives a tree or reports an error with a message. Errors are stored in the error code if one is given and thrown otherwise; both ways of parsing accept the same texts and give the same tree.',
  'all byte strings and all strings of structural characters up to the length bounds, except file inclusion', 'Tests only parse well formed files.',
  ['serialization/prop_node_serializer_zml.cpp', 'serialization/char_stream.cpp'], [('ZML parser', 'serialization/prop_node_serializer_zml.cpp')])
p('Z03', 'ZML layout, comments, quotes, references and macros have their defined meaning',
  'Whitespace and comments never change the tree, quoted text is always taken literally as a label or value, and the different notations for a value, group or array give the same tree. A macro is replaced by its last definition in scope and is unknown outside that scope, a reference gives a copy of the earlier value, and unknown macros or references, unmatched brackets and missing values are errors that mention the line.',
  'all words and quoted texts up to the length bound, comments and whitespace at all positions of a document', 'No test has comments, macros or references in combination.',
  ['serialization/prop_node_serializer_zml.cpp', 'serialization/char_stream.cpp'], [('ZML parser', 'serialization/prop_node_serializer_zml.cpp')])
PN = ['container/prop_node.h', 'container/prop_node.cpp']
p('P01', 'Trees are equal exactly when their values, keys and order are',
  'Two trees (prop_node) compare equal exactly when they have the same value and the same children with the same keys in the same order, at every level. Copying or assigning gives an equal tree that is independent of the original, moving gives the original content, and the number of children and layers is counted over all levels.',
  'all trees up to the depth and width bound with keys and values of up to one arbitrary character', 'Tests compare one tree with its copy; which difference at which level goes unnoticed cannot be sampled.',
  PN, [('operator==, count_children, count_layers', 'container/prop_node.cpp')])
p('P02', 'Children are found by key and by index in order of addition',
  'After any sequence of additions, settings and removals a tree has exactly the children that were added and not removed, in order of addition and with the values last set. Access by key gives the first child with that key, access by index the child at that position; a missing key or index throws, gives a null pointer or the default value, as the function says, and never changes the tree. Removing a key removes only the first child with that key.',
  'all sequences of operations up to the bound, on keys and values that may be equal or different', 'Tests use a fixed tree; duplicate and empty keys and the order of operations are not sampled.',
  PN, [('child access', 'container/prop_node.cpp')], over=('inputs', 'histories'))
p('P03', 'Path queries find, create and remove exactly the addressed node',
  'A query of keys separated by a delimiter follows per level the first child with that key, or the nth child for #n, and gives nothing if any part is missing. Setting through a query creates only the missing nodes and changes no other value; erasing through a query removes exactly the addressed node. The query made for a node leads back to that node.',
  'all queries up to the length bound over keys, delimiters and index characters, on the listed trees', 'Tests use one query; empty parts, indices out of range and repeated delimiters are not sampled.',
  PN + ['container/prop_node_tools.cpp'], [('queries', 'container/prop_node.cpp'), ('find_query_to_node, make_prop_node_query', 'container/prop_node_tools.cpp')])
p('P04', 'Merging and appending trees combine both without losing data',
  'Merging keeps every value that is already there unless overwriting is asked for, adds everything that is only in the other tree, and works recursively on children with the same key. Appending adds all children of the other tree at the end in order, also duplicates; inserting puts a range at the given position. The other tree is not changed.',
  'all pairs of trees up to the depth and width bound', 'Tests merge one pair of trees; combinations of present and missing values per level are not sampled.',
  PN, [('merge, append, insert', 'container/prop_node.cpp')])
p('P05', 'Unused values are reported, used values are not',
  'A value counts as accessed exactly when it, or the group it belongs to by iteration, was read; looking whether something exists does not count. The number of unaccessed values and the report of unaccessed values mention exactly the values that have not been read, at every level.',
  'all sequences of read operations up to the bound on trees of two levels with any values', 'Tests do not look at which ways of reading count as access.',
  PN + ['container/prop_node_tools.cpp'], [('access tracking', 'container/prop_node.cpp'), ('to_str_unaccessed', 'container/prop_node_tools.cpp')], over=('inputs', 'histories'))
p('P06', 'Typed values and containers can be stored in a tree and read back',
  'A number, boolean, text, vector (also nested), array or map that is stored in a tree is read back equal, by key, by index, with or without default. A value that cannot be converted is refused: reading throws or gives an empty optional, and a default value only replaces missing keys. Reading any of several keys follows the order in which they are given; reading all gives all in order. Command line arguments become the keys and values they stand for.',
  'all values within the bounds, all texts up to the length bound, all vectors up to the size bound, all argument lists up to the bound', 'Tests read well formed values; conversion failures and element order are not sampled.',
  PN + ['container/prop_node_tools.cpp', 'container/flat_map.h', 'string/string_cast.cpp'], [('typed access', 'container/prop_node.h'), ('map conversion', 'container/flat_map.h'), ('prop_node_from_arg', 'container/prop_node_tools.cpp')])
p('P07', 'Trees are printed completely, and what was not used is reported',
  'Printing or logging a tree gives a line for each property, in order, with its key indented by depth and its value in one column; a key that starts with a level is logged at that level. As one line it has the same keys and values. What was not accessed is reported, with the groups it is in and nothing else, however often it is reported: neither printing nor reporting changes the tree, and reporting does not count as access.',
  'all trees up to the number of nodes, every subset of them accessed, all short values, all levels', 'Tests print no trees, and do not report twice.',
  ['container/prop_node.cpp', 'container/prop_node_tools.h', 'container/prop_node_tools.cpp'], [('text', 'container/prop_node.cpp'), ('log and report', 'container/prop_node_tools.cpp')])
p('I01', 'Ini files keep their groups, keys and values',
  'Writing a tree of main items and groups of items as ini and reading it back gives the same groups, keys and values for everything that ini can represent, main items always staying main items. Reading arbitrary text ends, never accesses memory outside the text, and gives a tree or an error.',
  'all keys and values that ini can represent, all texts, up to the length bounds', 'Tests write one ini file; order of groups and items, equal signs and comment characters in values are not sampled.',
  ['serialization/prop_node_serializer_ini.cpp'], [('ini reader and writer', 'serialization/prop_node_serializer_ini.cpp')])
p('X01', 'XML elements, attributes and text are read without loss',
  'Reading an XML document gives per element its name, its text as value, its attributes and its child elements, in document order, with character references decoded. Writing a tree as XML and reading it gives the same tree for names and values that XML can represent.',
  'all element texts and attribute values up to the length bound, trees of up to the size bound', 'There are no tests for XML.',
  ['serialization/prop_node_serializer_xml.cpp'], [('XML reader and writer', 'serialization/prop_node_serializer_xml.cpp')])
OPS = 'all sequences of operations up to the length bound, with any keys and values'
p('K01', 'flat_map and flat_set contain exactly what was added and not removed',
  'A flat_map or flat_set holds each key once, in increasing order, and exactly the keys that were added and not removed, whether through an initializer list, insert, operator[] or erase. Inserting an existing key changes nothing and says so. Finding, counting, lower_bound, upper_bound, at and operator[] give the answer of that content; reading an unknown key through a const map or at throws. Copies are independent.',
  OPS, 'Tests insert a few keys; the order of operations, duplicates and absent keys are not sampled.',
  ['container/flat_map.h', 'container/flat_set.h'], [('flat_map', 'container/flat_map.h'), ('flat_set', 'container/flat_set.h')], over=('inputs', 'histories'))
p('K02', 'Sorted and indexed containers keep order and indices consistent',
  'A sorted_vector is sorted after every operation and contains exactly the values that were inserted. indexed_map, indexed_set and label_vector give every key one index that does not change when others are added, lead from the key to the index and from the index to the key, and do not find keys that are absent or were replaced. When the index type is exhausted, adding throws and changes nothing.',
  OPS, 'Tests add a few keys; renaming, lookups of absent keys and full index types are not sampled.',
  ['container/sorted_vector.h', 'container/indexed_map.h', 'container/indexed_set.h', 'container/label_vector.h'], [('sorted_vector', 'container/sorted_vector.h'), ('indexed_map', 'container/indexed_map.h'), ('indexed_set', 'container/indexed_set.h'), ('label_vector', 'container/label_vector.h')], over=('inputs', 'histories'))
p('K03', 'Circular containers keep their elements in order when wrapping around',
  'A circular_deque gives its elements in the order of a double ended queue for any sequence of push, pop and reserve, also when it wraps around or grows while wrapped, by index, from front and back, and by iteration. A circular_buffer of n frames keeps the values of the last n frames, oldest in front.',
  OPS, 'Tests push in one order; wrapping at every position combined with growth is not sampled.',
  ['container/circular_deque.h', 'container/circular_buffer.h'], [('circular_deque', 'container/circular_deque.h'), ('circular_buffer', 'container/circular_buffer.h')], over=('inputs', 'histories'))
p('K04', 'dynarray, handles and collections follow their elements',
  'A dynarray has the size and elements it was given through construction, copy, move, resize and assignment. Handles into a handle_vector address the element they were made for; after erasing a range, the handle that is computed for an element that moved addresses that element, and handles of removed elements become invalid. A collection gives its elements by index and by name in the order of addition, and no longer after removal.',
  OPS, 'There are no tests for erasing ranges or for moved-from arrays.',
  ['container/dynarray.h', 'container/handle_vector.h', 'container/collection.h', 'container/collection_ic.h'], [('dynarray', 'container/dynarray.h'), ('handle_vector', 'container/handle_vector.h'), ('collections', 'container/collection.h')], over=('inputs', 'histories'))
p('K05', 'Storage keeps values per frame and channel, in memory and as text',
  'Every value written to a storage is read back from the same frame and channel, by index, by label, by frame and by channel, whatever frames, channels and labels are added later; new cells have the given value or zero. A storage written as text and read gives the same labels and values. Values between frames are interpolated, and refused before the first and after the last frame. The frame nearest to a value, channel means and covariance follow their definition.',
  OPS + '; all real values for the derived quantities', 'Tests fill one storage in one order; adding channels to existing frames and labels that look like numbers are not sampled.',
  ['container/storage.h', 'container/storage_tools.h'], [('storage', 'container/storage.h'), ('text and derived quantities', 'container/storage_tools.h')], over=('inputs', 'histories'))
p('K06', 'A table keeps every value at its row and column',
  'Every value in a table stays at its row and column, by index and by label, when rows and columns are added or the table is resized; new cells have the given value; shrinking is refused. Labels lead to the row or column they were given for. Writing a table as text and reading it gives the same labels and values.',
  OPS, 'Tests fill one table; growth in both directions in any order is not sampled.',
  ['container/table.h'], [('table', 'container/table.h')], over=('inputs', 'histories'))
p('K07', 'Container algorithms give the result of their definition',
  'Finding, counting, copying, sorting, removing, joining and comparing functions on containers do what their definition says for any content: the element they find is the first that qualifies, nothing is found where nothing qualifies, sorted and partly sorted results are ordered permutations, and sums, means, medians, variances, extremes, norms and averages of the largest values follow their formula, also for containers of no or one element where that is allowed.',
  'all containers up to the size bound with any values; all real values for the statistics', 'Tests sort one range; duplicates, absent elements and small sizes are not sampled.',
  ['container/container_tools.h', 'container/container_algorithms.h'], [('container tools', 'container/container_tools.h'), ('statistics', 'container/container_algorithms.h')])
p('K08', 'Views, zips and ranges visit exactly the elements they stand for',
  'Iterating a filtered view visits exactly the elements that satisfy its condition, in order, and writing through it changes them. A zip visits pairs up to the end of the shortest range. Integer ranges visit begin up to but not including end with the given step, floating point ranges visit evenly spaced values including both ends and know their number. Iterators over pointers follow their pointers, and a stream wrapper reads all elements.',
  'all ranges up to the size bound with any values, steps and conditions', 'Tests iterate a few fixed ranges; steps that do not hit the end and empty or fully filtered ranges are not sampled.',
  ['container/view_if.h', 'container/zip.h', 'utility/irange.h', 'utility/frange.h'], [('view_if', 'container/view_if.h'), ('irange', 'utility/irange.h'), ('frange', 'utility/frange.h')])
p('U01', 'Flags, optional values, results and error codes keep their state',
  'A flag_set changes exactly the given flags and answers get, any and count from exactly the flags that are set. An optional value is empty until it is given a value; comparison treats two empty values as equal and an empty value as different from any other. A result holds the value given last, or the error given last. An error code holds its code and message, and errors are thrown only if there is no error code to report them to.',
  'all flags and sequences of operations up to the bound, all values', 'Tests set some flags and compare two optional values; combinations of empty and filled, and of flags beyond the lower 32, are not sampled.',
  ['container/flag_set.h', 'utility/optional.h', 'utility/result.h', 'system/error_code.h'], [('flag_set', 'container/flag_set.h'), ('optional', 'utility/optional.h'), ('result', 'utility/result.h'), ('error_code', 'system/error_code.h')], over=('inputs', 'histories'))
p('U02', 'Indices, proxies and value types behave as the values they stand for',
  'An index_class is invalid exactly if it has the reserved value (also when made from a number that does not fit), compares as its number, and is reset when moved from; an index_span visits all indices in order. A proxy gives the value it was made from or assigned, and two proxies are equal exactly if their values are. Arithmetic value types and pairs compute as their elements. A converted variant keeps its value, clones are independent copies.',
  'all index values of two index types, all values', 'Tests use a few small indices; the reserved value, overflow and moved-from indices are not sampled.',
  ['utility/index.h', 'utility/proxy.h', 'utility/arithmetic.h', 'utility/pair_math.h', 'utility/variant_cast.h'], [('index_class', 'utility/index.h'), ('proxy', 'utility/proxy.h'), ('arithmetic', 'utility/arithmetic.h'), ('pair math', 'utility/pair_math.h')])
p('U03', 'Caches, factories and argument parsing give what was asked for',
  'A memoized function gives the result of the function for those arguments, and calls it once for every combination of arguments, except when it throws: then nothing is kept. A cached variable gives its value or, when invalidated, the value that is computed. A factory makes the type that was registered under the name and throws for other names. An argument parser finds each positional argument, option and flag, whatever their order, and reports missing ones.',
  'all sequences of calls, registrations and argument lists up to the bound', 'Tests call with few arguments; order, repetition, failure and absence are not sampled.',
  ['utility/memoize.h', 'utility/cached_var.h', 'utility/factory.h', 'utility/arg_parser.h'], [('memoize', 'utility/memoize.h'), ('factory', 'utility/factory.h'), ('arg_parser', 'utility/arg_parser.h')], over=('inputs', 'histories'))
p('U04', 'Enums, side names and hashes translate both ways without confusion',
  'Every name of a smart enum leads to its value and every value to its name, also through streams and trees; unknown names are refused and change nothing. The side of a name is derived from its ending, mirroring a name gives the name of the other side and mirroring twice the original. The hash of a text is the same at compile time and at run time, and depends on every character.',
  'all texts up to the length bound', 'Tests use a few names; prefixes of names, unusual endings and empty names are not sampled.',
  ['utility/smart_enum.h', 'utility/side.h', 'utility/hash.h'], [('smart_enum', 'utility/smart_enum.h'), ('side', 'utility/side.h'), ('hash', 'utility/hash.h')])
p('N01', 'Clamped, bounded and wrapped values lie within their bounds',
  'Clamping gives the nearest value within the bounds; the violation is the distance to them. Soft and smooth clamping never leave the bounds, keep values away from the edge unchanged and, soft clamping, preserve order. A bounded value refuses values out of bounds and is then unchanged. Wrapping and positive modulo give a value in range that differs by whole periods. Bounds are restored from their text and from a tree with names in any order or with two values.',
  'all real values and bounds (wrapping: up to two periods away), all integers', 'There are no tests for bounds; edges, negative multiples and infinite values are not sampled.',
  ['numerical/bounds.h', 'numerical/bounded.h', 'numerical/math.h'], [('bounds', 'numerical/bounds.h'), ('bounded', 'numerical/bounded.h'), ('clamp, soft_clamp, smooth_clamped, wrap, pos_mod', 'numerical/math.h')])
p('N02', 'Scalar functions follow their mathematical definition',
  'Minimum, maximum, sign, absolute value, powers, roots, rounding, greatest common divisor, number of digits, bytes of numbers, comparison within a tolerance, waves, minimum jerk and the arc cosine approximation (within its error) give the value of their definition, for all arguments within the bounds.',
  'all integers and real numbers within the listed ranges', 'Tests evaluate a few points.',
  ['numerical/math.h', 'numerical/compare.h', 'numerical/functions.h'], [('scalar functions', 'numerical/math.h'), ('compare', 'numerical/compare.h'), ('functions', 'numerical/functions.h')])
p('N03', 'Interpolation goes through its points and is linear in between',
  'Interpolation between two values, in a map, in a vector, through a piecewise linear or regular function and in a color gradient gives the given value at every point and lies on the line between the neighbouring points in between; outside of the points it is constant or extends the line, as the function documents. A piecewise constant function gives the value of the last point. The order in which points are inserted does not matter. Polynomials have the value of their coefficients.',
  'all real points, values and arguments, up to the number of points', 'Tests interpolate one map; points outside, coinciding points and insertion order are not sampled.',
  ['numerical/interpolation.h', 'numerical/piecewise_linear_function.h', 'numerical/piecewise_constant_function.h', 'numerical/regular_piecewise_linear_function.h', 'numerical/polynomial.h', 'utility/color_gradient.h'], [('interpolation', 'numerical/interpolation.h'), ('piecewise functions', 'numerical/piecewise_linear_function.h'), ('polynomial', 'numerical/polynomial.h')])
p('N04', 'Regression gives the best line, means and covariance their formula',
  'Linear regression gives the least squares line, for given x values and for regular steps. Median regressions give the line on which all points lie, and the repeated median is not changed by a single outlier. Ranges of different sizes are refused. Channel means and covariance of a storage follow their definition.',
  'all real data of up to the number of points', 'Tests fit one data set.',
  ['numerical/regression.h', 'utility/data_algorithms.h'], [('regression', 'numerical/regression.h'), ('covariance', 'utility/data_algorithms.h')])
p('N05', 'Averages, filters and delays follow their difference equations',
  'A weighted average is the sum of weighted values divided by the weights. A digital filter follows its difference equation from any history; the second order Butterworth low pass is stable, passes a constant and removes the highest frequency. A first order filter moves towards its input without passing it. A delay gives the signal of the given time ago, the initial value before that, and never leaves the range of what it has seen.',
  'all real signals and coefficients, up to the number of steps', 'There are no tests for filters and delays.',
  ['numerical/average.h', 'numerical/delta.h', 'numerical/filter.h', 'numerical/filter_1st_order.h', 'numerical/delayer.h'], [('iir_filter', 'numerical/filter.h'), ('filter_1st_order', 'numerical/filter_1st_order.h'), ('delayer', 'numerical/delayer.h'), ('averaged', 'numerical/average.h')], over=('inputs', 'histories'))
GE = 'geometry/'
p('N06', 'Random numbers are within their range and follow from the seed',
  'Random numbers are within the range that was asked for, also when it is given as bounds, or of one value: whole numbers include both ends, each of which can occur, real numbers are below the upper one. Each element of a random vector is drawn on its own. The same seed gives the same numbers, another seed others; without a seed it is 123.',
  'all numbers that an engine of 256 values can give; real ranges of any ends; whole ranges up to the bound', 'Tests draw from one seed.',
  ['numerical/random.h', 'numerical/bounds.h'], [('random_number_generator_', 'numerical/random.h')])
p('N07', 'A console plot shows every function at its place in a full frame',
  'A plot has the given width and height. Its columns are evenly spaced over the range of the argument, its rows over the range of the values of all functions. In each column, each function has its mark in the row nearest to its value, except where a later function has its own. Constant functions are drawn as well. Sizes and ranges that can not be plotted are refused.',
  'all real values of a function in two or three columns, all combinations of a few values of more functions, all sizes up to the bound', 'There are no tests for plots.',
  ['numerical/console_plot.h'], [('console_plot', 'numerical/console_plot.h')])
p('G01', 'Vectors and matrices follow their algebra',
  'Sums, differences, scaling and products of vectors and scales are those of their elements; the cross product is perpendicular to both arguments, a normalized vector has length one and keeps its direction, and projections and reflections agree with their definition. Dynamic vectors and matrices do the same for every size, matrix products add rows times columns, and elements are found at the (row, column) or (column, row) that was set. Vectors written as text and read back have the same elements.',
  'all real vectors and matrices, for dynamic sizes up to the bound', 'Tests calculate a few constants; that an identity holds for all vectors, or that an element is not swapped or aliased, needs symbolic elements.',
  [GE + 'vec.h', GE + 'vec3.h', GE + 'vec4.h', GE + 'scale3.h', GE + 'dynvec.h', GE + 'dynmat.h'], [('three dimensional vectors', GE + 'vec3.h'), ('four dimensional vectors', GE + 'vec4.h'), ('dynamic vectors', GE + 'dynvec.h'), ('dynamic matrices', GE + 'dynmat.h')])
p('G02', 'Quaternions represent rotations consistently',
  'Multiplying quaternions composes their rotations, the inverse undoes the rotation, rotating keeps lengths, and rotating by a quaternion, by its matrix or by its local axes gives the same. Conversions from and to matrices, axis and angle, rotation vectors and directions restore the rotation; the rotation around a given axis has that axis and leaves a remainder without any. Storing a quaternion in a tree and reading it gives the same.',
  'all real unit quaternions, vectors, axes and angles (except documented singularities)', 'Tests compare random samples with tolerance against older versions of the same code; special cases such as half turns are hardly ever sampled.',
  [GE + 'quat.h', GE + 'mat33.h', GE + 'quat_type.h'], [('products and conversions of quaternions', GE + 'quat.h'), ('matrices', GE + 'mat33.h')])
p('G03', 'Angles and Euler angles convert consistently',
  'Angles in degrees and radians are converted by the factor pi / 180 and calculate and compare as their values. A quaternion from Euler angles is the product of the rotations around the axes in the given order, in degrees or radians; Euler angles from a quaternion, in any order, are the angles whose rotations give that quaternion again, away from the singularity. Angles in a tree are read in degrees with the given order, xyz by default. Pitch, yaw and roll of a rotation around one axis are its angle; polar coordinates follow their definition.',
  'all real angles; all orders; rotations of which one angle is arbitrary and the others are taken from a list', 'Tests sample a few angles in some of the orders with wide tolerance; signs in other orders and quadrants are not sampled.',
  [GE + 'angle_type.h', GE + 'angle.h', GE + 'quat.h', 'utility/arithmetic.h'], [('angle units', GE + 'angle_type.h'), ('Euler angles', GE + 'quat.h')])
p('G04', 'Transforms compose, invert and mirror consistently',
  'Applying a transform rotates and then translates; the product of transforms applies one after the other, and the inverse and inverse products undo that. With uniform scale the same holds for transforms with scale. Mirroring is its own inverse and commutes with rotating, composing and transforming; mirrored bounds contain exactly the mirrored values. A transform that is stored in a tree is restored.',
  'all real positions, orientations and uniform scales', 'There are no tests for transforms and mirroring.',
  [GE + 'transform.h', GE + 'transform_srt.h', GE + 'mirror_tools.h'], [('transform', GE + 'transform.h'), ('transform with scale', GE + 'transform_srt.h'), ('mirroring', GE + 'mirror_tools.h')])
p('G05', 'Distances, intersections, paths and curves are exact',
  'Closest points of two lines are on the lines and their connection is perpendicular to both, also for parallel lines. The distance to a segment is that to its closest point, the intersection with a plane is in the plane and on the line. The length of a path is the sum of its segments, and inserting a point at a given length puts one there and changes nothing else. A Catmull-Rom curve goes through its points at their times with the specified tangents.',
  'all real points and directions; paths and curves up to the number of points', 'There are no tests for these.',
  [GE + 'line.h', GE + 'segment.h', GE + 'path_alg.h', GE + 'catmull_rom.h', 'shape/shape_tools.h'], [('closest points', GE + 'line.h'), ('distance to a segment', GE + 'segment.h'), ('points on a path', GE + 'path_alg.h'), ('curves', GE + 'catmull_rom.h'), ('intersection', 'shape/shape_tools.h')])
p('G06', 'Volume, inertia, bounds and surface of shapes are consistent',
  'Volume, dimensions and inertia of spheres, boxes, cylinders, capsules and cones (as far as implemented) follow the closed formulas and scale accordingly. The bounds of a rotated and moved sphere or box are exactly the range of its points. The point in a given direction from the center of a shape is on its surface. A shape that is stored in a tree is restored, of the same kind and size, and unknown kinds are refused.',
  'all positive real dimensions, all directions; rotations around one axis and half turns for bounds', 'There are no tests for shapes.',
  ['shape/shape.h', 'shape/shape.cpp', 'shape/shape_tools.h', 'shape/box.cpp', 'shape/sphere.h', 'shape/cylinder.h', 'shape/capsule.h', 'shape/cone.h', 'shape/aabb.h'], [('shapes', 'shape/shape.h'), ('surface', 'shape/shape_tools.h'), ('box', 'shape/box.cpp'), ('bounds', 'shape/aabb.h')])
p('T01', 'Times are exact nanoseconds, dates and times convert to text and back',
  'A time is a whole number of nanoseconds: times compare, add, subtract and divide as those numbers, also when negative. Conversion from seconds, milliseconds or nanoseconds gives the nearest time, conversion back gives the value. An interval checker is true exactly when the interval has passed since it was true the last time. A date is read from year, month and day and written such that it is read again; a time is written in hours, minutes and seconds.',
  'all times, fractions of seconds within a range, all dates of up to four digits, all sequences of checks up to the bound', 'There are no tests for time; negative times, halves and large values are not sampled.',
  ['time/time.h', 'time/date.h', 'time/interval_checker.h'], [('time', 'time/time.h'), ('date', 'time/date.h'), ('interval checker', 'time/interval_checker.h')], over=('inputs', 'histories'))
p('T02', 'Timers, stopwatches and profilers measure exactly the time that they run',
  'The time of a timer is the sum of the intervals in which it was running, whatever the sequence of pause, resume, restart and set. A stopwatch sums the time of each split over all rounds. A profiler reports for each section, in its own place in the nesting, the time spent and the number of calls.',
  'all sequences of operations up to the bound, all advances of the clock (which is symbolic)', 'Tests measure real time with wide tolerance, or not at all; pausing twice or restarting while paused is not sampled.',
  ['time/timer.h', 'time/stopwatch.h', 'time/stopwatch.cpp', 'system/profiler.h', 'system/profiler.cpp'], [('timer', 'time/timer.h'), ('stopwatch', 'time/stopwatch.h'), ('profiler', 'system/profiler.h')], over=('inputs', 'histories'))
p('F03', 'Files are found, created, copied, saved and loaded without loss',
  'A file exists if it is a file, a directory if it is a directory; removing removes only that. Searching finds the first candidate, in order, that is a file, or reports that there is none. Creating directories leaves a directory with all parents or reports failure, and never harms a file; a unique directory did not exist. Text that is saved is loaded byte for byte, appending adds to the end, copying copies everything and only overwrites when asked. What cannot be done is reported.',
  'all contents of a small disk (each name is absent, a file or a directory), all short texts', 'Tests do not touch the disk, other than to load fixed files.',
  ['filesystem/filesystem.h', 'filesystem/filesystem.cpp', 'filesystem/path.h'], [('filesystem functions', 'filesystem/filesystem.cpp')], over=('inputs', 'histories'))
p('F04', 'Trees in files are loaded as saved, with all included files',
  'A tree saved with the extension of a format is loaded as it was; an unknown format, a missing directory or an absent file is an error. Included files are inserted in place or merged without overwriting, relative to the including file, and all are reported; an error in any of them, or a loop, is an error of the whole. Numbers in a data file are read in order, the last included.',
  'all short values, all combinations of nesting, absence, malformed content and loops', 'Tests load one file with an include; nesting, errors in included files and loops are not sampled.',
  ['serialization/serialize.h', 'serialization/serialize.cpp', 'container/prop_node_tools.cpp', 'serialization/prop_node_serializer_zml.cpp'], [('load and save', 'serialization/serialize.cpp'), ('include', 'serialization/serialize.cpp'), ('zml include', 'serialization/prop_node_serializer_zml.cpp')])
p('F05', 'Files are found by name and depth, special directories by environment',
  'Finding files gives each entry of a directory, and of the directories in it up to the given number of levels, whose name matches an include pattern and no exclude pattern, once, with its path, whatever the order in which the system lists them. A name matches a list of patterns if it matches one of them. Special directories follow from the environment and end at the name that was given.',
  'all trees of files and directories up to the bound, all short names and patterns, all settings of the environment', 'Tests search one directory that exists.',
  ['filesystem/filesystem.h', 'filesystem/filesystem.cpp', 'string/pattern_matcher.h'], [('find_files', 'filesystem/filesystem.cpp'), ('pattern_matcher', 'string/pattern_matcher.h'), ('special directories', 'filesystem/filesystem.cpp')])
p('L01', 'Log messages reach exactly the sinks that accept them',
  'A message goes, once and with the text of all its arguments, to each sink that is added and accepts its level and thread, and to no other; messages of level error and higher are flushed. A level is reported as enabled exactly if a sink accepts it. Streams and files get each message as a line after its time, the console each line after its prefix. An error is logged, and set in the error code or else thrown.',
  'all sequences of adding, removing and changing sinks up to the bound, all levels, all short texts', 'There are no tests for logging.',
  ['system/log.h', 'system/log.cpp', 'system/log_sink.h', 'system/log_sink.cpp', 'system/error_code.h'], [('log', 'system/log.cpp'), ('sinks', 'system/log_sink.cpp'), ('error code', 'system/error_code.cpp')], over=('inputs', 'histories'))
p('Y01', 'Settings keep to their schema and survive saving',
  'A setting has the value that was set last, or its default. Values outside of the range are moved to its nearest end without losing digits of those within; values that are no number, not among the allowed ones or of an unknown setting are refused and change nothing. What was set is there after saving and loading, also in another file, and a file is checked in the same way; the version of the file is kept.',
  'all sequences of sets up to the bound, all short texts and values', 'There are no tests for settings.',
  ['system/settings.h', 'system/settings.cpp', 'system/version.h'], [('settings', 'system/settings.cpp'), ('version', 'system/version.cpp')], over=('inputs', 'histories'))
p('U05', 'Colors convert between elements, hue, bytes and text',
  'Colors add, scale, compare, order and clamp by their elements. Hue turns around, with the elements that follow from hue, saturation and brightness, to which named colors agree. Every byte survives conversion to a color and back, in its own place; elements are converted to the nearest byte. Unique colors differ. A tree gives a color from hexadecimal, rgb or hsv text or from its elements by name or in order; other text is refused and changes nothing.',
  'all real elements, hues of several turns, all bytes; all texts that differ in some characters', 'There are no tests for colors.',
  ['utility/color.h', 'utility/color.cpp'], [('color', 'utility/color.cpp')])
p('U06', 'Cached resources follow their file',
  'A resource is made from its file when it is first used, and made again only when the time of the file has changed and that was last checked more than three seconds ago. Each user gets an independent copy. A file that is absent or fails to load is an error; after a failure it is tried again. Everything is released in the end.',
  'all sequences of reading, changing, removing and breaking two files, and of passing time, up to the bound', 'There are no tests for this cache.',
  ['utility/file_resource_cache.h'], [('file_resource_cache', 'utility/file_resource_cache.h')], over=('inputs', 'histories'))
p('M01', 'Thread-safe parts behave as if their threads ran one after the other',
  'Two threads that use a thread-safe memoized function, a cache of file resources or the log at the same time get the results of one of the orders in which they could have run: everything is calculated once, results stay valid, every sink gets every message that it accepts exactly once, and none after it was removed, released or before it is complete; lines in a stream are not mixed. No thread waits for a lock it already has, and all locks are released, also after exceptions.',
  'all schedules in which the second thread runs at any lock operation, callback or write of the first; all operations and values', 'Tests use one thread; an interleaving that breaks is not hit by running threads a few times.',
  ['utility/memoize.h', 'utility/file_resource_cache.h', 'system/log.cpp', 'system/log_sink.cpp'], [('memoize_thread_safe', 'utility/memoize.h'), ('file_resource_cache', 'utility/file_resource_cache.h'), ('log', 'system/log.cpp'), ('sinks', 'system/log_sink.cpp')], over=('inputs', 'schedules'))
p('D01', 'Debugging aids report what they are given',
  'An assertion or range check is an error exactly if its condition is false or the value outside, with the text of the condition and the message. Logging variables gives each name and value, at level debug and only if a sink accepts it; a traced call is logged before and after, and done once in any case. A timed scope or function logs its name and how long it took. Debug data is written at the end, if there is any: a column for each label, and a new row when a label comes again.',
  'all values and ranges, all levels, all sequences of labels up to the bound', 'There are no tests for these.',
  ['system/assert.h', 'system/log.h', 'system/benchmark_tools.h', 'system/debug_storage.cpp', 'string/string_tools.h'], [('assert', 'system/assert.h'), ('log', 'system/log.h'), ('scope_timer', 'system/benchmark_tools.h'), ('debug data', 'system/debug_storage.cpp')], over=('inputs', 'histories'))
p('A01', 'Failures of test cases are never lost',
  'Each check that fails or throws, and each exception of a test case, is counted, logged with its text or message, and makes the test case fail; a test case without any is a success. Running all test cases, one after the other or asynchronously, runs each once and returns how many failed.',
  'all results of checks, each end (return, exception with or without message, exception in a check), up to three test cases', 'The tests are run by this machinery: a failure that is lost is not seen by them.',
  ['system/test_case.h', 'system/test_case.cpp'], [('test cases', 'system/test_case.cpp'), ('macros', 'system/test_case.h')])
p('A02', 'Stop requests, owners, names and lookups are exact',
  'A stop token tells, also after its source is gone, that a stop was requested from the source it is of or a copy of that, and of no other; the same holds for interruption. Casting a unique pointer gives the object or keeps it, and it is released once. A dictionary finds the element of a name and the name of an element, or gives the default or an error. Tidy identifiers have no scope and no underscores around them. Writing a function to a file gives each argument and value, including both ends.',
  'all sequences of operations on two sources and tokens up to the bound, all types in a hierarchy, all short names', 'There are no tests for these.',
  ['thread/stop_token.h', 'thread/interruptible.h', 'utility/pointer_types.h', 'system/system_tools.cpp', 'system/type_class.h', 'string/dictionary.h', 'system/debug_storage.h'], [('stop_token', 'thread/stop_token.h'), ('casts', 'utility/pointer_types.h'), ('dictionary', 'string/dictionary.h'), ('tidy_identifier', 'system/system_tools.cpp')], over=('inputs', 'histories'))
