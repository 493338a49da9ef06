BASE = ('All obligations (postconditions, absence of undefined behaviour, assertions, memory bounds) are discharged for all inputs by SMT; trusts the clang front end and LLVM passes, '
        'the VC generator in vc/, the solvers and the library model. ')
PROPS = [
dict(id='P01', title='Mixed-type checked integer arithmetic agrees with the integers',
 st='For any two integers of any standard signed or unsigned integer types, checked addition, subtraction, multiplication, shifting and casting succeed exactly when the mathematical result is representable in the destination type, then deliver exactly that result, and otherwise report failure (or throw) leaving the operand unchanged. Comparisons of integers of different types order them by mathematical value, and clamping casts deliver the nearest value in the requested range. None of these operations has undefined behavior.',
 q='all values of all pairs of standard integer types', why='The tests sample a few hundred values of selected type pairs; the 2^128 operand pairs of the wide types, with all mixes of signedness and width, can only be settled by proof.',
 files=['core/integer.hpp', 'core/integer_traits.hpp'], mech=[('checked arithmetic', 'core/integer.hpp'), ('mixed comparison', 'core/integer.hpp'), ('checked casts', 'core/integer.hpp')],
 note=BASE + 'All 64 ordered pairs of the 8/16/32/64-bit signed and unsigned types; integer products via an integer (LIA/NIA) encoding.'),
dict(id='P02', title='Integer division, modulus, digit and root functions agree with the integers',
 st='For integers of any standard types: division rounding up and division rounding half down (non-negative dividend, positive divisor) deliver exactly the integers those names denote; the periodic modulus of a by nonzero b lies in the period between 0 and b and differs from a by a multiple of b, for all signs of a and b; combined division/remainder, parity, power-of-two, bit masks, most significant bit and digit positions, digit counts, negative powers and the integer square root all deliver the mathematical result. None of them has undefined behavior within its documented domain.',
 q='all values of all pairs of standard integer types', why='Wrong answers hide at operand combinations (mixed signs and widths, minimum values, divisors near the top of the range) that a sample of tests does not contain.',
 files=['core/integer.hpp'], mech=[('division and modulus', 'core/integer.hpp'), ('digit positions and square root', 'core/integer.hpp')],
 note=BASE + 'Bounded stand-ins (reported separately, not counted as proved): positive powers for exponents at most 3; square root enumerated on all 20-bit arguments and structured neighbourhoods of squares.'),
]
BND = 'Contracts discharged by SMT over the compiled code. Contracts marked bounded hold for all inputs up to the bound stated in the evidence and are not counted as proved; unbounded contracts are counted. '
TR = 'Trusts the clang front end and LLVM passes, the VC generator in vc/, the solvers and the library model. '
PROPS += [
dict(id='P03', title="Two's complement conversions preserve the represented value", level='proof',
 st="Converting an integer to, from, or between two's complement representations held in unsigned types succeeds exactly when the represented value is representable in the destination, then preserves the represented value (negative values included), and otherwise reports failure (or throws) leaving the destination untouched. Sign extension copies the sign bit into all higher bits and nothing else. Copying bits between integers partitioned into parts of different widths reproduces every bit, with sign or zero extension, and touches nothing else. None of these operations has undefined behavior within its documented domain.",
 q='all values of all pairs of standard integer types, all widths', why='The tests cover a few values of a few type pairs; promotion of narrow types gives different code paths per pair.',
 files=['core/integer.hpp'], mech=[("two's complement casts", 'core/integer.hpp'), ('bit copying', 'core/integer.hpp')],
 note=BASE + 'All 64 ordered pairs of the 8/16/32/64-bit signed and unsigned types; bit copying for 8 part type pairs with 1 to 5 parts.'),
dict(id='P04', title='Multiple precision integers are integers modulo a power of two', level='proof',
 st='core::MulPrecInt with parts of any unsigned type, any number of parts and either signedness behaves as an integer of that many bits: sums, differences, negations and products are the mathematical results modulo 2 to the width; comparison, equality, sign, minimum, maximum and the most significant bit position are those of the represented value; bitwise operations and shifts by less than the width act on the two\'s complement bits (right shifts fill with zeros); quotient and remainder truncate toward zero and recombine to the dividend; conversion from and to standard integers keeps the value when it fits and the low bits otherwise, and checked conversion succeeds exactly when it fits.',
 q='all values of representative part types and counts', why='Carries and borrows across parts and the quotient digit estimation go wrong only for rare operand patterns.',
 files=['core/mul_prec_int.hpp', 'core/integer.hpp'], mech=[('multi-part arithmetic', 'core/mul_prec_int.hpp'), ('long division', 'core/mul_prec_int.hpp')],
 note=BASE + 'Instantiations: parts of 8 to 64 bits, 1 to 3 parts, up to 128 bits. The product is specified by its expansion over half parts (distributivity). Division by a divisor of at most half a part is proved; division by larger divisors is a bounded stand-in (all 8-bit pairs and all numbers composed of extreme digits, enumerated on the real code), reported separately and not counted as proved.'),
dict(id='P07', title='Base64 encoding and decoding are inverse and exact', level='other',
 st='Encoding any byte sequence produces the canonical Base64 text for the chosen options (padding, line breaks), decoding that text gives back exactly the original bytes, and the announced buffer sizes always suffice and never overflow silently. Feeding the input or output in arbitrary pieces through the incremental encoder or decoder gives the same result, from every reachable state. Decoding rejects text that is not valid Base64, and nothing is ever read or written outside the given buffers.',
 q='all byte sequences, option choices and ways to split input and output', why='The number of (state, chunk split, padding, line position) combinations is far beyond what tests sample, and errors are off-by-one errors at group and line boundaries.',
 files=['core/base64.hpp'], mech=[('size computation', 'core/base64.hpp'), ('incremental encoder and decoder', 'core/base64.hpp')],
 note=BND + 'Size computations are unbounded; encoder and decoder steps start from an arbitrary object state with chunks of at most 1 input unit and 2 output units; whole round trips at most 3 bytes. ' + TR),
dict(id='P08', title='UTF-8 and UTF-16 conversion follow the Unicode rules and stay inside their buffers', level='other',
 st='Encoding, decoding and transcoding between code points, UTF-8 and UTF-16 accept exactly the well-formed sequences of valid code points (shortest form, no surrogates or noncharacters rejected by the library) and produce exactly the code units defined by Unicode. Stopping for lack of output space, at an incomplete sequence or at an error leaves the offsets at a sequence boundary such that the conversion can be resumed. Lenient conversion of a whole string keeps text already in the buffer, converts every well-formed sequence, and produces one replacement character per ill-formed piece. No size or content of input makes these functions access memory outside the given spans.',
 q='all code unit sequences, span sizes and offsets', why='Ill-formed sequences straddling the end of input or output are combinatorial; tests cover a few.',
 files=['core/unicode.hpp', 'core/buffer.hpp'], mech=[('incremental conversion', 'core/unicode.hpp'), ('lenient conversion', 'core/unicode.hpp')],
 note=BND + 'Memory safety, offset bounds and outcome flags are proved for all sizes; functional contracts are bounded (2 to 5 input units). ' + TR),
dict(id='P12', title='The double-ended queue behaves as a sequence in every internal state', level='other',
 st='core::Deque holds a sequence of elements: pushing or popping at either end, appending a number of copies or a range, erasing one element or a range, resizing, reserving, shrinking, swapping and moving change exactly the elements those operations name, keep all other elements with their values and order, and report the right size, capacity, returned reference or returned iterator. Indexing, checked access and iterator arithmetic agree with that sequence. This holds from every internal state (any allocation, any position of the first element, contents wrapping around the end of the memory or not). Impossible capacity requests are refused by an exception without any change. No operation accesses memory outside the allocation.',
 q='all representation states, sizes, positions and element values', why='The behaviour depends on where the contents lie in the circular memory; tests reach only a few of these states.',
 files=['core/deque.hpp'], mech=[('circular memory', 'core/deque.hpp'), ('iterator arithmetic', 'core/deque.hpp')],
 note=BND + 'Push, pop, access, fill, capacity changes: any allocation up to 2^20 elements, loops cut by inferred invariants. Erasing, resizing, and appending ranges: bounded in the quick tier (4 to 6 slots). Element type is a 32-bit integer; arguments do not alias elements of the queue. ' + TR),
dict(id='P13', title='The small-size-optimized vector behaves as a sequence in every internal state', level='proof',
 st='core::Vector holds a sequence of elements: push, pop, insert, erase, append, assign, resize, reserve, shrink and move change exactly the elements those operations name, keep all other elements with their values and order, and report the right size, capacity, returned reference or returned iterator. This holds whether the elements live in the static memory of the object, in dynamic memory, or the object has been moved from. Impossible sizes are refused by an exception without any change. No operation accesses memory outside the memory in use.',
 q='all representation states, sizes, positions and element values', why='Each operation has a different path for static, dynamic and moved-from state and for sufficient and insufficient capacity; errors are off-by-one errors in one of these.',
 files=['core/vector.hpp'], mech=[('element movement and reallocation', 'core/vector.hpp'), ('static memory', 'core/vector.hpp')],
 note=BASE + 'Vectors of 32-bit integers with 0 and 3 statically allocated elements, dynamic capacity up to 2^32, loops cut by inferred invariants; arguments do not alias elements of the vector.'),
dict(id='P15', title='The growable buffer keeps its contents and never leaves its memory', level='proof',
 st='core::Buffer operations that reserve, append, prepend or assign keep the part of the contents that the caller declared to be in use, place new contents exactly where specified, grow the memory enough for the request, and leave offsets consistent. Requests whose size cannot be represented are refused by an exception without any change. Checked element access accepts exactly the valid indexes. No operation reads or writes outside the buffer memory.',
 q='all sizes, used ranges, offsets and contents', why='The growth and shift computations involve several sizes near the limits of the size type; tests use small buffers.',
 files=['core/buffer.hpp'], mech=[('growth', 'core/buffer.hpp')],
 note=BASE + 'Buffers of characters of 32-bit characters up to 2^32 units, loops cut by inferred invariants.'),
dict(id='P09', title='Comparison and conversion between floating-point values and integers is exact', level='proof',
 st='For every float or double value (including NaN and infinities) and every value of any standard integer type: equal, less, greater, less-or-equal and greater-or-equal comparisons between the two give the mathematical answer (all false for NaN). Checked conversion of a floating-point value to an integer type succeeds exactly when the value lies between the lowest and highest value of the integer type, then delivers the value truncated toward zero, and otherwise leaves the destination untouched. Clamped conversion additionally delivers the lowest or highest value of the integer type for values below or above its range and zero for NaN. The announced lowest and highest floating-point values for an integer type are the extreme floating-point values in its range. None of these operations has undefined behavior.',
 q='all float and double values, all values of the integer types', why='Wrong answers hide where floating-point values are coarser than integers and at the limits of the integer types; tests sample a few dozen pairs.',
 files=['core/float.hpp'], mech=[('comparison', 'core/float.hpp'), ('conversion', 'core/float.hpp')],
 note=BASE + 'float with all 8 integer types, double with 6 (some only in the thorough tier). Assumes IEEE 754 arithmetic in round-to-nearest mode. The limit functions (no arguments) are evaluated for each listed type pair.'),
dict(id='P17', title='Pixel component values keep their meaning when packed, rescaled and converted', level='proof',
 st='Packing an unsigned n-bit value into a signed or unsigned integer and unpacking it gives back the value. Changing the bit width of a fraction maps zero to zero, the maximum to the maximum, and every other value to the nearest not larger fraction in the sense of floor(v / (2^n - 1) * 2^m), so widening followed by narrowing gives back the value. Conversion between the integer component representations of images follows the same rule, and rescaling a value between arbitrary maxima rounds to the nearest value. Conversion of a floating-point fraction to an integer clamps to the range (zero for NaN), and otherwise selects the interval that contains the value; conversion of an integer component to floating point and back gives the same integer (for bit widths where the floating-point type is precise enough). Bit field descriptions are accepted exactly when they fit, and widths, shifts and masks derived from them are those of the described fields. None of these operations has undefined behavior.',
 q='all component values, all bit widths of the types covered', why='Rescaling formulas have corner cases at particular pairs of widths; the number of (value, width, width) triples is far beyond tests.',
 files=['util/unit_frac.hpp', 'image/bit_medium.hpp', 'image/comp_repr.hpp', 'image/bit_field.hpp'], mech=[('bit width changes', 'util/unit_frac.hpp'), ('packing', 'image/bit_medium.hpp'), ('component representations', 'image/comp_repr.hpp')],
 note=BASE + 'Round trips through floating point are bounded: all values of representations of up to 16 bits, enumerated on the real code.'),
dict(id='P18', title='Pixel formats place every component exactly where the format says and touch nothing else', level='other',
 st='For the packed, integer and subword pixel formats: reading a block of an image delivers for each pixel and channel the component stored in the words, bits, word order, channel order and position that the format describes, rescaled to the transfer representation. Writing a block and filling a block store each component there, rescaled to the stored bit width, and change no other pixel of the buffer and nothing outside the buffer or the block. The computed buffer size is exactly what the pixels need.',
 q='all image sizes, block positions and component values', why='Channel permutation, word order, partial words at row starts and ends, and alignment interact; each combination of format, width and position is a separate case.',
 files=['image/packed_pixel_format.hpp', 'image/integer_pixel_format.hpp', 'image/subword_pixel_format.hpp'], mech=[('packed', 'image/packed_pixel_format.hpp'), ('integer', 'image/integer_pixel_format.hpp'), ('subword', 'image/subword_pixel_format.hpp')],
 note=BND + 'Bounds: blocks of at most 2x2 pixels (5x1 for subword formats) at any position of any image (up to 20000x20000; 9x3 for subword formats); 16 formats, some in the thorough tier only; integral transfer representations. ' + TR),
]
PROPS += [
dict(id='P14', title='Flat maps and sets are sorted associative containers', level='other',
 st='core::FlatMap, FlatSet, FlatMultimap and FlatMultiset hold their entries in ascending key order (without equivalent keys in the non-multi variants; in insertion order among equivalent keys in the multi variants). Lower bound, upper bound, equal range, find, contains and count answer for any key exactly what the entries imply, and element access delivers the value of the key or reports its absence. Inserting an entry adds exactly that entry at its place (or, in the non-multi variants, changes nothing when an equivalent key is present) and reports the position and outcome; erasing a key removes exactly the entries equivalent to it and reports their number; subscripting adds a default value when the key is absent. All other entries keep their keys, values and order, and nothing outside the container is accessed.',
 q='all contents, keys and operations', why='Binary search and shifting of entries have boundary cases for every combination of size, position and duplicate keys; the tests exercise a few.',
 files=['core/flat_map.hpp', 'core/flat_set.hpp', 'core/flat_multimap.hpp', 'core/flat_multiset.hpp', 'core/impl/flat_map_impl.hpp'], mech=[('binary search', 'core/impl/flat_map_impl.hpp'), ('insertion', 'core/impl/flat_map_impl.hpp')],
 note=BND + 'Containers of at most 4 entries (all keys, values, capacities and arguments), with and without static capacity. ' + TR),
dict(id='P21', title='Pixel geometry is exact and pixel access stays inside the grid', level='other',
 st='Positions, sizes and boxes in pixels are compared, added, subtracted and scaled componentwise, and whether a size can be added to or subtracted from a position without overflow is answered exactly. For any two boxes of non-negative size, at any distance from each other: intersection and containment tests are answered exactly in terms of the pixels and edges of the boxes, and clipping succeeds exactly when at least one pixel is shared, then delivers exactly the intersection, and otherwise leaves the box unchanged. Pixel iterators, trays and subtrays refer to the address determined by position and strides. A block of pixels accepts a buffer exactly when it is large enough and lays its pixels out row by row. Copying, filling and repeating pixels in a grid with arbitrary strides sets exactly the specified pixels to exactly the specified components and touches nothing else.',
 q='all positions, sizes, boxes and strides', why='Coordinates near the limits of the integer type, empty boxes and partial pattern repetitions are not sampled by tests.',
 files=['util/pixel_box.hpp', 'util/pixel_pos.hpp', 'util/pixel_size.hpp', 'image/iter.hpp', 'image/tray.hpp', 'image/block.hpp'], mech=[('boxes', 'util/pixel_box.hpp'), ('pixel iterators', 'image/iter.hpp'), ('blocks', 'image/block.hpp')],
 note=BND + 'The geometry, addressing and block contracts are unbounded; copying, filling and repeating are bounded to grids of at most 3x3 or 4x1 pixels with 1 to 3 components and symbolic strides. ' + TR),
]
PROPS += [
dict(id='P05', title='Newline decoding and encoding are exact, incremental and confined to their buffers', level='other',
 st='Newline encoding replaces every NL by CR LF and newline decoding replaces every CR LF by NL; all other characters, including lone CRs, are copied unchanged, so decoding an encoded text gives back the text. Decoding stops at the end of the data, when the buffer is full, or (unless the end of data has been announced) before a final CR; encoding stops at the end of the data or when the next character does not fit. The offsets tell exactly what was consumed and produced, so that decoding can be resumed after any split of input and output with the same result. The clear point is set to the given base plus the position in the buffer after the last decoded newline, and is left alone when no newline is decoded. Simulated decoding reports true exactly when the data decodes to at least the given number of characters, then advances by what decoding to a buffer of that size consumes, and otherwise leaves the offset unchanged. Nothing outside the unused part of the buffer is written and nothing outside the data is read.',
 q='all texts, offsets, buffer sizes and ways to split input and output', why='CR and LF straddling the end of input or output are corner cases of which tests sample a few.',
 files=['core/newline_codec.cpp', 'core/newline_codec.hpp'], mech=[('decoding', 'core/newline_codec.cpp'), ('encoding', 'core/newline_codec.cpp')],
 note=BND + 'Memory safety, frame, progress and stop conditions are proved for all sizes with inferred loop invariants; exact text, resumption and round trips from any offsets with at most 3 to 5 remaining characters. ' + TR),
dict(id='P06', title='Integers are formatted and parsed exactly in every radix', level='other',
 st='Formatting an integer of any standard type in any radix from 2 to 36 gives a minus sign for negative values followed by the digits of the magnitude in that radix, without leading zeros except as many as are needed to reach the requested minimum number of digits (zero yields no digits when none are requested; a negative minimum means the maximum number of digits of the type), in upper or lower case as chosen; unsupported radixes are refused. Parsing accepts exactly the texts that consist of an accepted sign (as chosen, or minus for signed types only) and at least one digit of the radix in either case, and whose value is representable in the destination type; it then delivers that value, and otherwise leaves the destination untouched. Parsing a formatted value gives back the value. None of this has undefined behavior or accesses memory outside the text and the memory of the formatter.',
 q='all values, texts, radixes, sign modes and widths', why='Limits of the types (most negative value, leading zeros, overflow in the last digit) and unusual radixes are not sampled by tests.',
 files=['core/integer_formatter.hpp', 'core/integer_parser.hpp'], mech=[('formatting', 'core/integer_formatter.hpp'), ('parsing', 'core/integer_parser.hpp')],
 note=BND + 'Formatting: all values of 8- to 64-bit types in radix 2, 3, 8, 10, 16 and 36 (64-bit decimal in the thorough tier) with at most 3 digits requested. Parsing: all texts of at most 3 to 5 characters. Enumerated on the real code: larger widths, all radixes, values near the limits of every type. Character type char, for which character mapping is trivial. ' + TR),
dict(id='P10', title='Hashing is FNV-1a and literal hash maps find exactly their entries', level='other',
 st='Digesting a byte, or an integer or object of any size, advances the hash exactly as the 32-bit FNV-1a function does for the octets of its representation in order of increasing significance, from any prior hash, for negative values too; hash functions for integers and enumerations give the digest of the value. A literal hash map built from any associations (in either direction), with any number of buckets and any hash function, finds exactly the keys present and delivers the value of the first association with that key; for absent keys it reports absence and leaves the result variable untouched. No memory outside the map is accessed.',
 q='all values, prior hashes, associations, bucket counts and keys', why='Collisions, empty buckets and the last bucket are separate cases; tests use one or two fixed maps.',
 files=['core/hash_fnv.hpp', 'core/hash.hpp', 'core/literal_hash_map.hpp'], mech=[('digesting', 'core/hash_fnv.hpp'), ('bucket lookup', 'core/literal_hash_map.hpp')],
 note=BND + 'The hash contracts are proved for all values and prior states. Maps: at most 4 entries and 4 buckets with arbitrary keys and values; maps of up to 60 entries and 200 buckets enumerated over all 16-bit keys. ' + TR),
dict(id='P16', title='A range map represents a function that updates change on exactly the given range', level='other',
 st='core::RangeMap represents a partial function from keys to values by nonempty, disjoint ranges in ascending order. Assigning a value to, or updating, a key or a range of keys makes exactly these keys part of the domain, applies the update exactly once to the previous value (or to a default value where there was none), and leaves the values of all other keys unchanged. Defragmentation leaves the represented function unchanged (up to the given equivalence of values) and merges exactly the directly adjacent ranges with equal values. Keys at the limits of the key type are handled without overflow.',
 q='all range maps, ranges, values and keys', why='A range can overlap, split, extend, touch or bridge existing ranges in many ways; each is a separate path and tests sample a few.',
 files=['core/range_map.hpp'], mech=[('splitting and filling of ranges', 'core/range_map.hpp'), ('merging', 'core/range_map.hpp')],
 note=BND + 'Maps of at most 2 ranges (3 for merging, and for updates in the thorough tier) with arbitrary keys; sequences of three updates on six keys enumerated. The red-black tree primitives of the C++ library (in-order neighbours, linking, unlinking) are replaced by unbalanced stand-ins (assumed contract). ' + TR),
dict(id='P19', title='Packed rectangles lie inside their bins and apart from each other', level='other',
 st='After a successful packing, every rectangle lies in one of the reported bins (at most as many as allowed, none empty), inside the bin and its margins, and any two rectangles in the same bin are apart by at least the spacing horizontally or vertically; the utilized width and height of a bin are those of its rectangles plus margin. Packing fails when a rectangle does not fit into an empty bin, when the margins do not fit, or when no bin is allowed, and succeeds when all rectangles fit and there may be as many bins as rectangles. Packing can be repeated with other bin sizes, and after a reset with other rectangles, with the same guarantees. The suggested bin width is the side of a square with the area of all rectangles including spacing, but at least the width of the widest rectangle, plus margins, limited to the maximum of the coordinate type. None of this has undefined behavior or fails an assertion, for any rectangle sizes.',
 q='all sets of rectangles, bin sizes, spacings, margins and bin limits', why='Tests pack one random set without spacing and margin into one bin.',
 files=['util/rectangle_packer.hpp'], mech=[('placement', 'util/rectangle_packer.hpp'), ('suggested width', 'util/rectangle_packer.hpp')],
 note=BND + 'Proved for at most one rectangle with arbitrary 16-bit sizes, spacing, margin and bins (including repeated packing); two and three small rectangles enumerated exhaustively; larger sets sampled deterministically, with sizes up to the limits of the coordinate types. ' + TR),
dict(id='P20', title='Iterator adaptors behave as positions in the sequence they present', level='proof',
 st='A stride iterator, an index iterator, or a proxy iterator is a random access iterator that behaves exactly as an integer position in the sequence that it presents (every S-th element; the elements that the subscription function delivers for the indexes; the proxies of the elements): the difference of two iterators is the difference of their positions, also when it is negative; the six comparisons compare positions; incrementing, decrementing (before and after), and advancing by any positive or negative distance, in place or not, move the position by exactly that much and return what such operators return; access, also at a distance, refers to the element at that position. make_stride_iterator() makes such an iterator. Stride iterators can be stacked.',
 q='all sequence lengths, positions and distances', why='No test exercises these adaptors.',
 files=['core/stride_iterator.hpp', 'core/index_iterator.hpp', 'core/proxy_iterator.hpp'], mech=[('strides', 'core/stride_iterator.hpp'), ('indexes', 'core/index_iterator.hpp'), ('proxies', 'core/proxy_iterator.hpp')],
 note=BASE + 'Strides 1, 2, 3, 4, 7 and stacked 2 and 3. ' + TR),
dict(id='P11', title='File and stream input and output lose, duplicate and reorder nothing, whatever the system calls do', level='other',
 st='For every sequence of outcomes of the read and write system calls (transfers of any part of what was requested, interruptions by signals, errors, end of input): each call continues exactly where the preceding one ended and stays inside the specified memory; interrupted calls are repeated; File::try_write() succeeds only when everything is written, File::try_read() only when the buffer is full or the end of input is reached, and the variants that transfer some bytes only when something was transferred; success is reported exactly when no call failed; the reported number of bytes is the number transferred (also on failure when everything was requested), the reported error is that of the failed call, and the error code is untouched on success; no call is made after a failure or after the end of input. Source::try_read() has the same guarantees on top of any source. A buffered file source delivers the buffered bytes first and then refills; a buffered file sink appends to its buffer, writes exactly the unwritten part of a full buffer, and keeps what was not written after a failure. A rewindable source delivers the bytes of the underlying source in order, keeps them until it is released, delivers them again after rewinding, and is unchanged when the underlying source fails.',
 q='all sizes, buffer states, and outcomes of the system calls and underlying sources', why='Tests use regular files, where transfers are never partial, interrupted or failing.',
 files=['core/file.cpp', 'core/file.hpp', 'core/source.cpp', 'core/rewindable_source.cpp', 'core/file_source.cpp', 'core/file_sink.cpp'], mech=[('files', 'core/file.cpp'), ('sources', 'core/source.cpp'), ('rewinding', 'core/rewindable_source.cpp'), ('buffered reading', 'core/file_source.cpp'), ('buffered writing', 'core/file_sink.cpp')],
 note=BND + 'File reading and writing (any number of system calls), buffered reading and flushing, and steps of rewindable sources from an arbitrary state are proved without bounds; bounded: Source::try_read() with at most 5 requests, buffered writes with at most one flush. Assumed: the system calls read() and write() behave as POSIX says (modelled as arbitrary outcomes). ' + TR),
]
