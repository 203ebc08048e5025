# repaired defects: property, commit, what failed
FIXED = '''S01 7a844de encode_char wrote characters above 127 as broken octal escapes
S01 03ee91e decode_char reported a length of 0 for an escape it does not know, so callers never advanced
S01 231a9f3 try_unquoted read past the end of a text that ends in a backslash
S03 a4bd68f find_nth_str counted an occurrence at the start of the text over and over
S07 4f4dc98 reading a version without build number kept the build number of the previous value
F01 c9a9591 a dot in a directory name was taken for the start of the extension
F02 c9a9591 replace_extension cut the path at a dot in a directory name
F02 3a04b1e replace_filename and replace_stem turned a file in the root into a relative path
C01 d2c0102 text in front of a quote was lost, and an empty quoted token in front of an operator
C01 57fa7e5 a quote without end added a NUL character to the token
C02 97e35f1 try_get( char ) matched the end of the buffer and moved past it
Z02 407389e a macro that defines macros kept a pointer into a vector that was reallocated
Z03 407389e the same, seen as lost values
Z01 108ad16 quoted text that looks like an operator, a comment or the end was treated as such
Z03 108ad16 the same, seen by the reader
Z01 534f19b values with a single quote, an equals sign or a colon were written without quotes
I01 55613d5 main items after a group were written into that group
P06 e4f7619 a const flat_map could not be converted to a prop_node
K01 7a90342 flat_map and flat_set made from a list kept duplicates (flat_set: unsorted)
K02 06ccddd label_vector made from labels had no indices; replaced labels were still found
K02 82f8c00 indexed_set kept the value for which there was no index left
K03 256b3dd circular_deque lost the order when a wrapped buffer grew, reserve did not unwrap
K04 fa25ed0 dynarray: use of moved-from arrays and self assignment
K04 53f6b6b collection_ic::erase returned nothing
K05 cf146e7 find_frame_index compared the first frame with frame -1
K06 ea94468 const element access of a table returned nothing, and resize read outside the data
K07 dfb0d6e copy_container and median_slow did not compile
K07 57b73ff top_average read past the end if fewer elements than requested
U01 38eb702 flag_set::clear( flags ) did not compile
K08 60c894b irange_step never ended if the step did not hit the end of the range
K08 5e1ecc5 frange: size was one too small, a range of a single value was NaN, post increment
U01 b451c83 optional != called itself forever
U04 6640631 a smart enum at the end of a stream was refused
U03 3a727cd memoize.h could not be included by itself
N01 2d85ad7 bounds::soft_clamped did not compile
N01 01aeb24 assignment to a bounded value had no result
N02 eefe49e count_digits used the base for the first digit only
N01 8f86b80 pos_mod of a negative multiple gave the period instead of zero
N03 6ca517f lerp_precise gave the wrong sign
N05 8360268 only one sample of a delayer had the initial value
N03 194e38f points of piecewise functions were references to a temporary
N01 9806171 bounds::soft_clamp did not compile
G01 f3d0182 most vec4 operators left out the fourth element
G01 2adfbe7 scaled returned a reference to its parameter
G02 90eeee6 the inverse of a quaternion was not divided by its squared length
G02 14515db a const matrix had no element access, quat_from_mat33 did not compile
G01 eaee47b dynvec.h needed other headers
G01 880a2b2 dynmat * dynvec did not compile; and indexed its matrix by (row, column)
G04 5f9fc51 transform_srt.h defined the names of transform.h again
G04 1dda051 mirror_tools.h did not compile
G04 bf3f076 composition and inverse of transforms with scale ignored the scale
G04 45942f2 storing a transform in a prop_node put the orientation inside the position
G05 32cec07 path_alg.h and vec.h needed other headers
G06 5458670 cylinder, capsule and cone needed other headers
G06 cf693cc inertia of a capsule multiplied by the mass twice
G06 f8aba68 the distance from the center of a cylinder to its top was not on the surface
G03 71923e6 Euler angles with an order could not be read from a tree
U05 1612e74 colors with a double alpha did not compile
U06 1a0014e a file that failed to reload stayed outdated
T01 b78a9b5 dividing a negative time by a size_t gave a huge time
T01 1e7b0e7 conversion of negative values to time was not to nearest
T02 749b174 a timer lost time when paused twice, resumed twice or restarted while paused
F03 eb9cf5c a directory was a file that exists, and was loaded as empty
F04 ecd902d files included by included zml files were not reported, errors opening them not set
F04 5e0b049 zml files that include each other crashed
F04 d2e1b8d the last element of a data file without newline was dropped
L01 a18515c setting the level of a removed log sink added it again
L01 0897b2a errors logged with message or messagef were not flushed
Y01 3330b98 settings with a range lost digits and accepted text
Y01 24d56fb a version with postfix was written such that it could not be read
U05 b7b2306 negative hues gave black
U05 b37bbfb any text that starts with a hexadecimal digit, such as blue, was a color
U06 00d97fd file_resource_cache.h needed another header
M01 05af26a lines of two threads that log to the same stream were mixed
M01 41afb20 a message of another thread while a log sink is destroyed crashed
M01 4febb10 a message of another thread while a log sink is constructed crashed
P07 14df386 reporting unaccessed properties marked them as accessed
S04 15562b7 formatted text was cut off at 255 characters
L01 15562b7 formatted messages were cut off at 1023 characters
N07 9328cd7 console_plot drew functions below zero at a wrong scale, and crashed for constant functions or a width of 1
K04 ed76136 an empty handle_span could not be constructed
A02 7f3b14c the name of a template in the global namespace kept its template arguments
K05 eb93b21 get_interpolated_value( -0.5, c ) read before the first value
P03 7af6651 the query that leads to a node left out parts that are empty keys
N02 e824f31 square_wave( -0.5 ) was 1, as if the wave had no second half for negative values
'''
