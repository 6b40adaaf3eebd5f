#!/usr/bin/env python3
"""Writes properties.jsonl (kept in step with checks/registry.py)."""
import json, os
H = 'sources/include/utils/'
P = []
def p(id, title, stmt, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H + f for f in files],
                     state=state or [],
                     mechanism=[dict(name=n, where=H + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p('P01', 'Type-list queries describe exactly the list they are asked about',
  'For every type list, the element at an index is the type written there (with a predicate: the I-th element satisfying it), the index queries return the first matching position or the list size when nothing matches, the counts (of a type, of predicate-compliant types) are the exact number of matching elements, containment (of a type or of every element of another list), duplicates, all-same and is-a-type-list answers agree with those counts, and filtering by a predicate keeps exactly the compliant elements in order. Types are compared exactly: differing const, volatile or reference qualification makes two types different.',
  ['programs'], 'every list (length, pattern of equal and different elements), queried type, index and predicate',
  'Tests instantiate a few hand-picked lists; which query is wrong can depend on the position, on the multiplicity or on the qualification of an element.',
  ['type_list.h'], [('type_list_impl', 'type_list.h'), ('type_list', 'type_list.h')],
  ['type_list<...>::at / index_of / first_index_of_type / count_of / contains / contains_copies / is_same / list_of_predicate_compliant_t', 'is_type_list_v'])
p('P02', 'Reshaping a type list keeps the elements and order it promises',
  'A sublist (first, count) consists of exactly those consecutive elements; excluding index I removes exactly that element and keeps the order of the others; sorting by size, ascending or descending, yields a permutation of the input that is ordered by size and stable (elements of equal size keep their relative order); the min/max size index designates the first element of extremal size.',
  ['programs'], 'every list, index, count and pattern of element sizes including ties',
  'Stability, ties, repeated types and boundary indices are combinations of list shape that a few test lists do not cover.',
  ['type_list.h'], [('sublist', 'type_list.h'), ('exclude_at', 'type_list.h'), ('sort_sizeof_ascending/descending', 'type_list.h'), ('min/max_sizeof_index', 'type_list.h')],
  ['sublist_t', 'exclude_at_t', 'sort_sizeof_ascending_t', 'sort_sizeof_descending_t', 'min_sizeof_index_v', 'max_sizeof_index_v'])
p('P03', 'Concatenation and Cartesian product are complete, ordered, duplicate-free',
  'Concatenating any number of type lists or value lists gives all their elements in order. The Cartesian product of two or more lists contains every combination exactly once per choice of positions, each combination in list order, enumerated with the last list varying fastest.',
  ['programs'], 'every number of lists, list lengths and contents (type lists and value lists)',
  'A product with a dropped, repeated or reordered combination appears only for some arities and lengths; tests try a couple.',
  ['cartesian_product.h'], [('concatenate', 'cartesian_product.h'), ('cartesian_product_impl', 'cartesian_product.h')],
  ['concatenate_t', 'cartesian_product_t'])
p('P04', 'Value-list queries describe exactly the values listed',
  'For every value list, element access returns the value and type written at that index, index_of is the first position holding the same value of the same type (the list size if none), count, containment, duplicates and all-same answers treat two values as the same only when both type and value agree, the sub-list of a type keeps exactly the values of that type in order, and min/max over a type are the extremal values of that type in the list. A range of values contains every integer from first to last inclusive, ascending, once.',
  ['programs'], 'every list of values (types, signedness, duplicates, negative values), position and range bounds',
  'Mixing of types and signs (1 vs 1u vs true vs enum) and negative or single-element ranges are input combinations that tests sample only thinly.',
  ['value_list.h', 'common.h'], [('value_list_impl', 'value_list.h'), ('values_in_range', 'common.h')],
  ['value_list<...>::at / at_t / index_of / count_of / contains / contains_copies / is_same / min / max / list_all_of_t / contains_type', 'values_in_range_t', 'is_value_list_v'])
p('P05', 'Function-signature traits decompose every qualifier combination exactly',
  'For every function type R(Args...) with any of the 24 const/volatile/reference/noexcept combinations: the reported return type and parameter list are exactly R and Args..., each qualifier query answers true precisely when that qualifier is present, each remove-one operation yields the same type without that qualifier and all others kept, and removing all qualifiers yields R(Args...). The signature of a functor, lambda or member function pointer is its exact call signature, and the invocable query is true for functions, function pointers, member function pointers and simple functors and false for anything else (including data members and overloaded functors).',
  ['programs'], 'every signature: return type, arity, parameter types and all 24 qualifier combinations',
  'The traits are macro-expanded per combination; tests touch some combinations of some traits, a slip in one row of one table stays invisible.',
  ['function_traits.h'], [('QUALIFIERS', 'function_traits.h'), ('has_*/remove_* qualifier traits', 'function_traits.h')],
  ['return_type_t', 'params_list_t', 'has_*_qualifier_v', 'remove_*_qualifier', 'signature_t', 'functor_signature_t', 'member_signature_t', 'is_invocable_v'])
p('P06', 'Generated member and function checkers answer presence exactly',
  'A generated checker for a member type, data member (one a pointer can be formed to), static data member, method, static method or free function is true exactly when the class (or overload set) has such a member of the requested kind that is accessible and, where a signature, result type or noexcept is requested, matches it exactly (or converts, for the convertible form); otherwise it is false, without a compile error. The detection idiom itself reports detection, the detected type or the given default, exact match and convertibility accordingly.',
  ['programs'], 'every class shape (absent, private, data vs function vs type, static vs not, qualifier combinations, inherited) and every requested signature',
  'Tests try a handful of classes; false positives and hard errors appear for kinds of members nobody wrote a test class for.',
  ['function_traits.h', 'detector.h'], [('CREATE_*_CHECKERS', 'function_traits.h'), ('detector', 'detector.h')],
  ['has_type_X', 'has_data_X', 'has_static_data_X', 'has_invocable_X', 'has_invocable_r_X<qualifiers>', 'has_static_invocable_X', 'is_X_invocable', 'is_detected', 'detected_or_t', 'is_detected_exact', 'is_detected_convertible'])
p('P07', 'Invalid uses are rejected at compile time',
  'Uses the library documents as invalid do not compile: a pimpl whose declared size or alignment differs from the implementation type, a timer callback too large, over-aligned, or not movable as raw bytes, copying or default-constructing a timer, copying a memory resource, counting leading/trailing zeros of a signed, bool or floating type, an index or sublist outside its list, shifting or dividing non-integers (shifting bool), zero or more than 64 bits for an integer width, a reversed value range, copying memory of element types wider than a byte, constructing an object through an allocator with a throwing constructor, a bit cast between types of different size or not trivially copyable, and min/max over an empty list. The corresponding valid use next to each of these does compile.',
  ['programs'], 'every listed kind of invalid program (representatives of each kind at its boundary)',
  'A test executable can only contain code that compiles, so it can not show that a misuse is rejected.',
  ['fast_pimpl.h', 'timer.h', 'clz.h', 'ctz.h', 'common.h', 'type_list.h', 'value_list.h', 'memory/memory.h', 'memory/allocator.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h'],
  [('static_assert / enable_if / deleted functions', 'common.h')], ['compiler diagnostics'])
p('P08', 'Width-selected integers and size traits are exact',
  'The exact-width integer selected for N bits (1..64) or N bytes (1..8) is the smallest standard unsigned type with at least N bits, and the fast variant the corresponding fast type; the enum properties use the number of significant bits of the enum\'s Count; the number of bits of a type is its size in bits (1 for bool) and the byte size of several types is the sum of their bits rounded up. The unsigned-integer, byte, equal-size, array, tuple, reference-wrapper and cv/ref-removal traits answer exactly for every type they are asked about.',
  ['programs'], 'every N in 1..64 (1..8 bytes), every type given to the traits',
  'There are 64 widths with three boundaries each; tests check some of them and few negative trait answers.',
  ['common.h'], [('uint_from_nbits', 'common.h'), ('fast_uint_from_nbits', 'common.h'), ('num_bits', 'common.h'), ('sum_size', 'common.h')],
  ['uint_from_nbits_t', 'uint_from_nbytes_t', 'UInt', 'fast_uint_from_nbits_t', 'FastUInt', 'enum_properties', 'num_bits', 'sum_size', 'is_uint_v', 'is_uint_or_byte_v', 'is_equal_sizes_v', 'is_std_array_v', 'is_tuple_v', 'is_ref_wrapper_v', 'unwrap_reference_t', 'remove_cvref_t'])
p('P09', 'Padding detection is exact for aggregates',
  'A trivially copyable type (a scalar, or an aggregate whose members are such types or std::arrays of them) is reported padding-free exactly when its size equals the total size of its scalar leaves, counted through nested aggregates and arrays; trailing, inner, nested and alignment padding are all detected. A type that is not trivially copyable is always reported as having padding.',
  ['programs'], 'every aggregate layout: member order, nesting depth, arrays, alignment',
  'Layouts form an unbounded space; tests use a dozen structures.',
  ['padding_checker.h'], [('sum_size_of_all_members', 'padding_checker.h'), ('has_padding', 'padding_checker.h')],
  ['has_padding_v'])
p('P10', 'Leading and trailing zero counts are exact for every value and width',
  'For every non-zero value of every unsigned integer type, clz returns the number of zero bits above the highest set bit within the width of that type and ctz the number of zero bits below the lowest set bit, in Debug and Release builds. The portable fallbacks agree with them on every value.',
  ['inputs'], 'all non-zero values of 8, 16, 32 and 64 bit unsigned types',
  'The 64-bit domain can not be enumerated; tests use powers of two and a few others.',
  ['clz.h', 'ctz.h', 'details/cxz.h'], [('clz', 'clz.h'), ('ctz', 'ctz.h'), ('crafted_clz', 'clz.h'), ('crafted_ctz', 'ctz.h')],
  ['clz', 'ctz', 'details::crafted_clz', 'details::crafted_ctz'])
p('P11', 'Bit counting and power-of-two queries are exact for every value',
  'For every value: the number of significant bits is the index of the highest set bit plus one (0 for 0), the power-of-two test is true exactly for values with a single set bit, the greatest power-of-two divisor is the lowest set bit (for 0: the highest bit of the type), the per-byte bit-count table holds the number of set bits of its index, and the alignment of a non-null pointer is the lowest set bit of its address.',
  ['inputs'], 'all values of the 8, 16, 32 and 64 bit unsigned types',
  'Only small or hand-picked values are tested; the domain has 2^64 values.',
  ['common.h', 'memory/memory.h'], [('bits_count', 'common.h'), ('nbits_occupied', 'common.h'), ('is_power_of_2', 'common.h'), ('greatest_divisor_that_is_power_of_2', 'common.h'), ('kNumBitsTable', 'common.h'), ('get_alignment', 'memory/memory.h')],
  ['bits_count', 'nbits_occupied', 'is_power_of_2', 'greatest_divisor_that_is_power_of_2', 'kNumBitsTable', 'memory::get_alignment'])
p('P12', 'Alignment arithmetic is exact for every address and power of two',
  'For every value and power-of-two multiple whose result is representable, next_multiple_of is the smallest multiple not below the value, skip_to_align is the smallest non-negative distance from an address to an aligned one, and is_aligned is true exactly when the address is a multiple of the alignment. The maximal alignment inside a block of size S whose start is aligned to A is the greatest power of two not above A+S-1.',
  ['inputs'], 'all 64-bit values/addresses and all 64 powers of two; all integer types of the compile-time variant',
  'Tests use addresses below 12 and multiples 8 and 16.',
  ['common.h'], [('next_multiple_of', 'common.h'), ('skip_to_align', 'common.h'), ('is_aligned', 'common.h'), ('max_alignment_inside_block', 'common.h')],
  ['next_multiple_of', 'skip_to_align', 'is_aligned', 'max_alignment_inside_block'])
p('P13', 'Integer division returns the exact quotient and remainder',
  'For every numerator and non-zero denominator of any integer types whose quotient is representable, div returns exactly the quotient and remainder that the / and % operators give in the common type of the operands, and div_as the ones in the requested type, both when evaluated at run time and in a constant expression.',
  ['inputs', 'configurations'], 'all operand values of the signed and unsigned 8..64 bit types and mixed pairs; run-time and constant evaluation',
  'Run-time and constant evaluation are separate code; operands above the signed range, negative operands and mixed signedness are not sampled.',
  ['common.h'], [('div', 'common.h'), ('div_as', 'common.h')], ['div', 'div_as'])
p('P14', 'Shifts of any integer type stay within the type',
  'For every value of every integer type except bool and every shift count below its width, shifting left or right returns, in the same type, exactly the value of that type obtained by dropping the bits shifted out, with zeros (for right shifts of negative values: sign bits) shifted in. No shift of a valid unsigned operand is undefined behaviour.',
  ['inputs'], 'all values of all 8..64 bit integer types and all counts below the width',
  'Integral promotion makes the small types take a different path; tests sample a few values.',
  ['common.h'], [('shift_left', 'common.h'), ('shift_right', 'common.h')], ['shift_left', 'shift_right'])
p('P15', 'Byte and array comparison and bit casts are exact',
  'Comparing memory with a byte value is true exactly when the size is non-zero, the pointer non-null and every byte equals the value, without reading outside the range; comparing two arrays over the first K elements (by default all) is true exactly when those elements are pairwise equal, whatever follows. A bit cast preserves every bit of the object representation.',
  ['inputs'], 'all buffer contents and values, all sizes/prefix lengths (analysed for every length up to a stated bound)',
  'Which position differs matters and contents are unbounded; tests use two or three buffers.',
  ['common.h'], [('memvcmp', 'common.h'), ('is_equal', 'common.h'), ('bit_cast', 'common.h')], ['memvcmp', 'is_equal', 'bit_cast'])
p('P16', 'Array builders and visitors keep every element, in order',
  'Arrays built from values, from one repeated value, from a string view, from a range with a step, from zeros, or by concatenating arrays have exactly the promised length and element values in order (ranges include every value from begin to end that the step reaches), and the element is copied or moved as the argument category says so that no argument is moved from twice. Visiting arguments or the elements of a tuple calls the visitor once per element in order, with the element\'s value category preserved.',
  ['inputs', 'programs'], 'all element values, all lengths up to a stated bound, lvalue and rvalue arguments',
  'Tests use trivial element types, for which a double move or a lost element value category is invisible.',
  ['common.h'], [('make_array', 'common.h'), ('concatenate_arrays', 'common.h'), ('make_array_from_range', 'common.h'), ('make_zero_array', 'common.h'), ('sv_to_array', 'common.h'), ('for_each_arg', 'common.h'), ('for_each_in_tuple', 'common.h')],
  ['make_array', 'make_zero_array', 'make_array_from_range', 'sv_to_array', 'concatenate_arrays', 'for_each_arg', 'for_each_in_tuple'])
p('P17', 'Copying, moving and zeroing memory touch exactly the given range',
  'memcpy and memmove make the destination range an exact copy of what the source range held before the call (memmove for any overlap) and secure zeroing makes the whole range zero; no byte outside the destination range changes and memmove returns the destination. The checked zeroing refuses a null pointer (-1) and a zero size (-2) without writing and otherwise zeroes and returns 0; constant evaluation and run time agree.',
  ['inputs', 'configurations'], 'all contents, counts and overlaps (every one up to a stated bound; every count for the run-time path, which must forward it unchanged); run-time and constant evaluation',
  'Overlap direction and the two evaluation branches double the cases; tests try one overlap.',
  ['memory/memory.h'], [('memcpy', 'memory/memory.h'), ('memmove', 'memory/memory.h'), ('secure_zero_memory', 'memory/memory.h'), ('secure_zero_memory_safe', 'memory/memory.h')],
  ['memory::memcpy', 'memory::memmove', 'memory::secure_zero_memory', 'memory::secure_zero_memory_safe'])
p('P18', 'Secure zeroing can not be optimized away',
  'When secure zeroing is called at run time on a buffer that is never read again, every byte of the buffer is still written with zero in optimized builds.',
  ['configurations', 'programs'], 'every optimization level and every caller whose buffer is dead afterwards',
  'A test that reads the buffer back makes the stores observable and so hides the defect.',
  ['memory/memory.h'], [('secure_zero_memory', 'memory/memory.h')], ['stores in the optimized code of a caller with a dead buffer'])
p('P19', 'A fast pimpl owns exactly one implementation object',
  'Whatever constructor is used, exactly one implementation object is constructed, in the storage of the pimpl, with the given arguments forwarded (copied from lvalues, moved from rvalues), and it is destroyed exactly once when the pimpl is destroyed; assignment assigns to the existing object (copy from lvalues, move from rvalues) and never constructs or destroys. Access operators refer to that object, and each constructor and assignment is noexcept exactly when the corresponding operation of the implementation type is.',
  ['histories', 'programs'], 'every constructor/assignment/destruction sequence and every implementation type',
  'The only test constructs an empty program; lifetimes of implementation objects are never observed.',
  ['fast_pimpl.h'], [('fast_pimpl', 'fast_pimpl.h')], ['constructor, assignment and destructor calls of the implementation type', 'noexcept(...) of each operation'],
  [dict(name='data_', meaning='inline storage of the implementation object', where=H + 'fast_pimpl.h')])
p('P20', 'A timer reports once, with its own start time',
  'A timer that is destroyed without having been moved from calls its callback exactly once with itself; a moved-from timer calls nothing, and the moved-to timer carries over callback, callback state and start time. The start time is the clock reading at construction or at the latest reset, and the leaked time (in any unit) is the difference between a later clock reading and it.',
  ['histories'], 'every sequence of construction, move construction, move assignment, reset and destruction; all clock readings; function, function pointer and functor callbacks',
  'Tests never count callback calls or control the clock.',
  ['timer.h'], [('timer', 'timer.h'), ('timer_impl', 'timer.h')], ['callback invocations', 'start_tp()', 'leaked()', 'leaked_sec/milli/micro/nano'],
  [dict(name='callback_, data_, start_', meaning='pending callback, its bytes, start of the measurement', where=H + 'timer.h')])
p('P21', 'Requests to a memory resource reach the concrete resource unchanged',
  'An allocation or deallocation through the resource interface is carried out by the concrete resource the object is, exactly once, with the size, alignment (default: that of the most aligned scalar; typed form: the type\'s size and alignment) and pointer the caller passed, and returns what it returned. Resources compare equal exactly when they are the same object, and inequality is the negation.',
  ['inputs', 'programs'], 'all sizes, alignments and pointers; every concrete resource type, directly or through base references',
  'Tests call concrete resources with a few sizes and never compare different resources.',
  ['memory/memory.h'], [('memory_resource', 'memory/memory.h')], ['calls received by a concrete resource', 'operator== / operator!='])
p('P22', 'The default resource is one program-wide atomic',
  'Getting the default resource yields the value last set by any thread, or the system resource when nothing was set, and setting it returns the previous value in the same atomic step; every access is atomic and sequentially consistent. There is one default, one system and one null resource in the whole program, however many translation units include the header.',
  ['schedules', 'programs', 'histories'], 'all interleavings of get and set; all programs of several translation units',
  'A single-threaded, single-translation-unit test can show neither a lost update nor a duplicated instance.',
  ['memory/memory.h'], [('default_resource', 'memory/memory.h'), ('get_default_resource', 'memory/memory.h'), ('set_default_resource', 'memory/memory.h')],
  ['get_default_resource', 'set_default_resource', 'system_memory_resource', 'null_memory_resource'],
  [dict(name='default_resource', meaning='current default resource', where=H + 'memory/memory.h')])
p('P23', 'System and null resources honour their contracts',
  'Aligned allocation passes the size unchanged and an alignment of at least the requested one and at least pointer alignment to the platform, returns the platform\'s block, and returns null when the platform reports failure; freeing hands back exactly that pointer, and the system resource does the same. The null resource returns null for every request, never touches the platform, and ignores deallocation.',
  ['inputs', 'fault_sequences'], 'all sizes and power-of-two alignments; platform success and every failure',
  'Allocation failure and small alignments are not exercised; tests run no system allocation at all.',
  ['memory/memory.h'], [('aligned_malloc', 'memory/memory.h'), ('aligned_free', 'memory/memory.h'), ('details::system_memory_resource', 'memory/memory.h'), ('details::null_memory_resource', 'memory/memory.h')],
  ['calls to the platform allocation functions', 'returned pointers'])
p('P24', 'Monotonic buffer allocations are aligned, in bounds and disjoint',
  'Every block taken from the buffer is aligned as requested, lies inside the buffer and overlaps no block handed out since construction or the last release; a request of zero bytes gives null and the buffer is used exactly when the request, after alignment, fits into the remainder, otherwise the request goes to the upstream resource unchanged (null without upstream). Deallocation does nothing, release makes the whole buffer available again, and a null or empty buffer is never used.',
  ['histories', 'inputs'], 'every sequence of allocate/deallocate/release, every size (to 2^64-1) and alignment, every buffer alignment, sizes from a list',
  'The one test only constructs the resource.',
  ['memory/monotonic_buffer_resource.h'], [('monotonic_buffer_resource', 'memory/monotonic_buffer_resource.h')],
  ['allocate', 'deallocate', 'release', 'data', 'size'],
  [dict(name='next_', meaning='first unused byte', where=H + 'memory/monotonic_buffer_resource.h')])
p('P25', 'Block resource allocations are aligned, disjoint and first-fit',
  'Every non-null block served from the buffer is aligned as requested, lies inside the managed blocks and shares no block with any live allocation; a request the buffer is able to serve (alignment within what the buffer guarantees) is served from the lowest free region that fits, wasting no block. A request that does not fit, whatever its size, goes to the upstream resource with that size and at least that alignment, or gives null without upstream; zero bytes give null.',
  ['histories', 'inputs'], 'every history of allocations and deallocations, every size (to 2^64-1) and alignment, buffer alignments and block counts/sizes from a list',
  'Fragmentation states grow exponentially; tests exercise one-byte allocations in a few orders.',
  ['memory/simple_resource.h'], [('allocate_impl', 'memory/simple_resource.h'), ('allocate_blocks', 'memory/simple_resource.h'), ('allocate_*_matched', 'memory/simple_resource.h'), ('origin_and_block_count', 'memory/simple_resource.h')],
  ['allocate', 'data', 'size', 'busy_count', 'in_use'],
  [dict(name='infos_, in_use_, counts', meaning='doubly linked list of regions with usage bits', where=H + 'memory/simple_resource.h')])
p('P26', 'Freed blocks become reusable and bookkeeping stays consistent',
  'After any history, the regions reported by the block resource partition its blocks, exactly the live allocations are marked in use, the busy and free counts equal the numbers of used and free regions, and no two free regions are adjacent (freeing merges with both neighbours). Release frees every live allocation whatever their number and layout, leaving a single free region (none if there are no blocks), and pointers that came from upstream are handed back to it.',
  ['histories'], 'every history of allocations, deallocations and releases of resources with block counts from a list',
  'Tests release and free in a few fixed orders.',
  ['memory/simple_resource.h'], [('deallocate_blocks', 'memory/simple_resource.h'), ('merge_adjacent_blocks', 'memory/simple_resource.h'), ('release', 'memory/simple_resource.h')],
  ['at', 'in_use', 'free_count', 'busy_count', 'block_size', 'release'])
p('P27', 'Misuse of the block resource aborts, correct use never does',
  'Destroying the resource while blocks are in use, freeing a pointer that is not block aligned, not the start of a live allocation (double free, interior or never allocated block), or outside the buffer when there is no upstream, aborts in Debug and Release builds. Freeing null and any correct history never abort.',
  ['histories', 'inputs', 'configurations'], 'every reachable resource state (block counts from a list), every pointer, both build types',
  'Death tests cover four single cases from a fresh resource.',
  ['memory/simple_resource.h', 'common.h'], [('deallocate_impl', 'memory/simple_resource.h'), ('~simple_resource', 'memory/simple_resource.h')],
  ['abort()'])
p('P28', 'The allocator adapter forwards size, alignment and lifetime exactly',
  'Allocation asks its resource for exactly count times the element size with the element alignment (bytes: as given), or gives null when that product overflows; deallocation returns the pointer to the same resource; creating an object constructs it once with the arguments forwarded in the memory obtained, or constructs nothing and returns null when there is none, and deleting destroys it once and then frees it (null: nothing). Allocators of any value types can be converted and compared, keep their resource, and compare equal exactly when their resources do; the default one uses the default resource.',
  ['inputs', 'programs', 'fault_sequences'], 'all counts, resources, element types, argument categories and allocation failures',
  'The test default-constructs one allocator; templates that are never instantiated are not even type-checked.',
  ['memory/allocator.h'], [('allocator', 'memory/allocator.h')], ['calls received by the resource', 'constructor and destructor calls', 'operator=='])
p('P29', 'abort_if aborts exactly when its condition holds, formats match',
  'The conditional abort terminates the program through abort exactly when its condition is true, after printing the formatted message when one is given, and otherwise has no effect. Every message the library passes has one argument of matching type and width per conversion.',
  ['inputs', 'programs'], 'both conditions, with and without message; every call site of the library',
  'A wrong format argument prints garbage or crashes only on the path that aborts, on platforms where widths differ.',
  ['common.h', 'memory/simple_resource.h'], [('abort_if', 'common.h'), ('UTILS_ABORT_IF', 'common.h')], ['abort()', 'vfprintf arguments'])
p('P30', 'Every header is usable alone and in several translation units',
  'Each public header compiles when it is the only include, in any position and order with the others, with the supported compilers, in Debug and Release. Including all of them in several translation units of one program links, and shares any mutable state rather than duplicating it.',
  ['programs', 'configurations'], 'every header alone, every ordered pair of headers, two translation units, two compilers, both build types',
  'Test files include other headers first, which hides missing includes, and each test is one translation unit.',
  ['cartesian_product.h', 'clz.h', 'common.h', 'ctz.h', 'details/cxz.h', 'detector.h', 'fast_pimpl.h', 'function_traits.h', 'padding_checker.h', 'timer.h', 'type_list.h', 'utils.h', 'value_list.h', 'memory/allocator.h', 'memory/memory.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h'],
  [('#include lists', 'utils.h')], ['compiler diagnostics', 'linkage of the emitted symbols'])
p('P31', 'Reported elapsed time never decreases between resets',
  'A timer reads only a clock that never goes back (at least microsecond resolution, whole ticks of at least 64 bits), and between two resets every later reading of the elapsed time, in any unit and whatever other queries or moves come between, is at least the earlier one and larger by exactly the time that passed on that clock, rounded towards zero to the unit.',
  ['schedules', 'histories', 'inputs'], 'every pair of readings, every start and passing time, every query and move between them',
  'Tests read a timer once or twice within a few milliseconds on a machine whose system time nobody sets.',
  ['timer.h'], [('timer', 'timer.h')], ['leaked()', 'leaked_*sec()', 'clock', 'duration'])
p('P32', 'Results are the same on every platform the project supports',
  'Every query, list operation, bit scan, alignment, division, shift, comparison, cast, zeroing, resource, optional and string operation gives the result the other properties state on each platform the project names: x86-64 Linux, big-endian s390x Linux, and 64-bit Windows with the code selected for MSVC (its intrinsics, 4-byte long, aligned allocation and secure zeroing), and also where the C library provides memset_s. Only what the platform itself defines (byte order in memory, width of long and pointers, signedness of plain char) may differ.',
  ['inputs', 'programs', 'configurations', 'histories'], 'every operand value and history of the other properties, on each platform',
  'The test suite runs on one machine at a time: code chosen by the preprocessor for another platform, or that quietly depends on byte order or on the width of long, is not even compiled there.',
  ['clz.h', 'ctz.h', 'details/cxz.h', 'memory/memory.h', 'memory/allocator.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h', 'utils.h', 'timer.h'],
  [('_MSC_VER branches', 'clz.h'), ('_MSC_VER branches', 'ctz.h'), ('__STDC_LIB_EXT1__ and _MSC_VER branches of secure_zero_memory', 'memory/memory.h')],
  ['results on those platforms', 'type checking for those platforms', 'bytes written and returned'])
p('P33', 'Constant expressions give the same values as run time',
  'Everything the library declares usable at compile time (bit counts and scans, powers of two, alignment, division, shifts, byte comparison, move, copy, zeroing and casts of bytes, array builders, visitors) is a constant expression for every argument in its domain with every supported compiler and build type, and has the value that the run-time call with those arguments has.',
  ['inputs', 'programs', 'configurations'], 'every argument; values at and around every power of two, both ends of each type, every offset and length of small buffers',
  'A constant-evaluation branch is separate code that a run-time test never enters, and one that is no constant expression for some arguments only fails to compile where somebody uses it so.',
  ['clz.h', 'ctz.h', 'details/cxz.h', 'common.h', 'memory/memory.h'],
  [('is_constant_evaluated branches', 'clz.h'), ('constexpr', 'common.h')], ['static_assert of any call'])
p('P34', 'The library keeps no hidden mutable state',
  'Apart from initializing its static objects once and from the default memory resource, which is replaced atomically on request only, no operation writes to an object that outlives it and that its caller did not pass in, directly or through another object: operations on different objects are independent, and queries and pure functions can run at the same time in any number of threads.',
  ['schedules', 'histories', 'programs'], 'every operation of the library, every interleaving of operations on different objects',
  'A cache or counter shared by all objects, a data race, shows only under particular interleavings or histories of other objects.',
  ['clz.h', 'ctz.h', 'common.h', 'fast_pimpl.h', 'timer.h', 'memory/allocator.h', 'memory/memory.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h'],
  [('variables of static storage duration', 'memory/memory.h')], ['objects of static storage duration', 'functions that are not reentrant'])
p('P35', 'Memory that is handed out belongs to its user alone',
  'No operation of a memory resource or allocator (allocation, deallocation, release, comparison, construction, destruction) reads or writes the contents of the buffer it manages or of any block, in use, free or passed through from and to another resource or the platform, nor anything outside its own objects; creating and deleting an object through an allocator accesses that object only.',
  ['histories', 'inputs'], 'every history of operations, every size, alignment and buffer position of the analysed configurations',
  'Tests rarely write to the blocks they get, and what a stray access hits depends on the layout.',
  ['memory/allocator.h', 'memory/memory.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h'],
  [('allocate_impl / deallocate_impl / release', 'memory/simple_resource.h'), ('monotonic_buffer_resource', 'memory/monotonic_buffer_resource.h'), ('new_object / delete_object', 'memory/allocator.h')], ['contents of buffers and blocks'])
p('P36', 'Exceptions of user code reach the caller, everything else does not throw',
  'An exception thrown by user code that the library calls (copying or moving an element, a visitor, a constructor) reaches the caller of the library exactly as thrown, once, with every element constructed so far destroyed and no further user code called. Operations promised not to throw are so declared, and operations on elements are declared not to throw only when those of the elements do not.',
  ['fault_sequences', 'programs'], 'every operation that throws, every element type by which of its operations may throw',
  'Tests use elements that never throw; a wrong promise terminates the program only when something does.',
  ['common.h', 'timer.h', 'memory/allocator.h', 'memory/memory.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h'],
  [('noexcept', 'common.h'), ('concatenate_arrays / make_array', 'common.h'), ('for_each_*', 'common.h')], ['exceptions', 'noexcept(...)', 'elements alive'])
p('P37', 'The library works before main begins and after it ends',
  'An object of static storage duration, in any translation unit that includes the headers first and in whichever order the units are linked, can use everything the library offers in its constructor and in its destructor: the default resource is the system resource until somebody sets it, what such an object sets stays set, the resources it was constructed with outlive it, and tables and constants have their values.',
  ['programs', 'histories', 'schedules'], 'every order of initialization and destruction the language allows for the units of a program',
  'Tests run inside main, when everything is initialized and nothing destroyed; an initializer or destructor that runs at another time is seen only by programs whose static objects depend on it.',
  ['memory/memory.h', 'memory/allocator.h', 'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h', 'common.h'],
  [('default_resource', 'memory/memory.h'), ('system_memory_resource / null_memory_resource', 'memory/memory.h'), ('kNumBitsTable', 'common.h')], ['default resource', 'answers of resources', 'values of tables'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
