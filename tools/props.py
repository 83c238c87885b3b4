PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, **anch):
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier={"over": over, "text": qtext},
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], **anch),
    )
    if technique:
        d["technique"] = technique
        d["level_note"] = note
    if na:
        d["na"] = na
    PROPS.append(d)


AI = "abstract interpretation of MIR (relational numeric domain + bit-segment domain, inferred loop invariants)"
AIN = ("Sound abstract interpretation of every path of the listed functions from a symbolic entry state; a violation is reported only for an obligation that is refuted "
       "with a precise valuation, obligations the domains cannot decide are listed as undecided in the evidence. ")

P(
    "P01",
    "Building and growing a bit vector stores exactly the given bits",
    "Whatever sequence of constructors and appends builds a bit vector, its length is the number of bits supplied and bit i is the i-th bit supplied, with higher input bits ignored where the API says only the lowest bits count. "
    "Existing bits are never disturbed by growth, truncation or splitting, and no call panics except where documented.",
    ["inputs", "histories"],
    "every input value, every current length and content of the vector, every append length from 0 to 64, every truncation amount and every split point",
    "The outcome depends on the offset of the vector's end within a word, stale bits left behind by earlier truncations, and the number of appended bits; tests sample a few alignments.",
    ["src/bit_vec/mod.rs"],
    [("growth", "BitVec::append, append_bit*, append_word, append_bits, extend_bitvec, Extend"), ("construction", "BitVec::from_zeros, from_ones, from_bits*, from_bools, from_limbs, from_vec, FromIterator, From"), ("shrinking", "BitVec::drop_last, split_at, split_at_unchecked")],
    AI,
    AIN,
)
P(
    "P02",
    "In-place edits change exactly the addressed bits; rejected calls change none",
    "Setting or flipping a bit changes that bit to the documented value and leaves every other bit and the length as they were; applying a mask of equal length combines every bit with the mask's bit at the same position. "
    "A call that reports an error leaves the vector exactly as it was, and reports it exactly for the documented inputs.",
    ["inputs"],
    "every vector content and length, every position, every value and every mask",
    "A wrong shift, mask or boundary shows only for particular offsets and lengths.",
    ["src/bit_vec/mod.rs"],
    [("edits", "BitVec::set, set_unchecked, flip_bit, flip_bit_unchecked"), ("masks", "BitVec::apply_mask_or, apply_mask_and, apply_mask_xor, apply_mask_custom")],
    AI,
    AIN,
)
P(
    "P03",
    "Bit and multi-bit reads are exact and reject exactly the out-of-range calls",
    "Reading one bit, a run of 1 to 64 bits, or a packed element returns exactly the stored bits with all higher result bits zero. "
    "The checked forms return nothing exactly when the requested range does not lie inside the vector or the width is not 1 to 64, for every argument up to the largest integer, and never panic.",
    ["inputs"],
    "every vector, every position up to the largest integer, every width",
    "Word-crossing reads, 64-bit widths and positions near the integer maximum each need special handling; tests sample some of them.",
    ["src/bit_vec/mod.rs"],
    [("reads", "BitVec::get, get_unchecked, is_bit_set, is_bit_set_unchecked, get_bits, get_bits_unchecked, unpack_element, unpack_element_unchecked, len, is_empty")],
    AI,
    AIN,
)
P(
    "P04",
    "Bit vectors compare and hash by their bits alone",
    "Two bit vectors are equal exactly if they have the same length and the same bit at every position, however each of them was built or edited. "
    "Equal bit vectors produce equal hashes.",
    ["inputs", "histories"],
    "every pair of vectors of every length, including vectors whose last word carries stale bits from earlier operations",
    "Stale bits behind the end arise only from particular edit histories, and the last word needs different treatment for each length modulo 64.",
    ["src/bit_vec/mod.rs"],
    [("equality", "impl PartialEq for BitVec"), ("hash", "impl Hash for BitVec")],
    AI,
    AIN,
)
P(
    "P05",
    "A masked view reads as the bitwise combination of vector and mask",
    "For a vector and a mask of equal length, every read of the masked view (single bits, multi-bit reads, counts, conversion to a vector) returns what the same read would return on the vector obtained by combining both bit by bit with the operation. "
    "A mask of different length is rejected with an error, and out-of-range checked reads return nothing.",
    ["inputs"],
    "every pair of equally long vectors, every binary operation, every position and width",
    "Word-crossing and full-word reads combine two words of both operands, and bits behind the end of either operand must not leak into results.",
    ["src/bit_vec/mask.rs", "src/bit_vec/mod.rs"],
    [("masked reads", "MaskedBitVec::get, get_unchecked, is_bit_set, get_bits, get_bits_unchecked, count_ones, count_zeros, to_bit_vec"), ("views", "BitVec::mask_or, mask_and, mask_xor, mask_custom")],
    AI,
    AIN,
)
P(
    "P06",
    "Counting is exact: totals and rank agree with the stored bits",
    "The number of ones and zeros of a bit vector, and the rank of every position of a rank/select vector, equal the number of such bits before that position; ranks at or behind the end equal the totals. "
    "Bits and multi-bit reads of the rank/select vector are those of the bit vector it was built from.",
    ["inputs"],
    "every bit string, every position up to the largest integer, in every instruction-set variant",
    "Rank combines three levels of counts whose boundaries lie thousands of bits apart, and only particular offsets expose an error in one of them.",
    ["src/bit_vec/fast_rs_vec/mod.rs", "src/bit_vec/mod.rs"],
    [("rank", "RsVec::rank0, rank1"), ("construction", "RsVec::from_bit_vec"), ("totals", "BitVec::count_ones, count_zeros"), ("reads", "RsVec::get, get_unchecked, get_bits, get_bits_unchecked, len, is_empty")],
    AI,
    AIN,
)
P(
    "P07",
    "Select finds exactly the bit with the requested rank, or reports the length",
    "For every rank below the number of zeros (ones) of a rank/select vector, select returns the position of a zero (one) with exactly that many zeros (ones) before it; for every larger rank it returns the length of the vector. "
    "It never panics, so rank and select are inverse to each other on every vector.",
    ["inputs"],
    "every bit string of every length and density, every rank up to the largest integer, in every instruction-set variant",
    "Select jumps through a sampled directory, a super-block search, a block search and a word search; each step is wrong only for particular distributions of millions of bits.",
    ["src/bit_vec/fast_rs_vec/select.rs", "src/bit_vec/fast_rs_vec/mod.rs"],
    [("select", "RsVec::select0, select1 and the search_* helpers"), ("directories", "RsVec::from_bit_vec")],
    AI,
    AIN,
)
P(
    "P08",
    "Position iterators yield every element exactly once from both ends",
    "An iterator over a bit vector, rank/select vector or wavelet matrix (elements in order, or in sorted order) yields exactly the elements not yet yielded, in order, whatever mixture of steps and skips from the front and the back has been made before. "
    "The reported length, size hint, count and last element describe exactly those elements; skipping past the end exhausts the iterator without panicking, and an exhausted iterator stays exhausted.",
    ["inputs", "histories"],
    "every sequence of iterator calls on every vector, with skip distances up to the largest integer",
    "The two cursors meet in many ways (empty vector, back cursor at position zero, skips of exactly the remaining length, skips that overflow) and the space of call histories cannot be enumerated.",
    ["src/util/general_iter.rs", "src/bit_vec/mod.rs", "src/bit_vec/fast_rs_vec/iter.rs", "src/wavelet/mod.rs"],
    [("iterator methods", "gen_vector_iter_impl!: next, nth, size_hint, count, last, len, next_back, nth_back, for twelve iterator types"), ("constructors", "iter, into_iter, iter_u64, iter_sorted and their consuming variants")],
    AI,
    AIN,
)
P(
    "P09",
    "Select iterators visit every set (unset) bit once, in order, from both ends",
    "Iterating over the positions of the ones (zeros) of a rank/select vector yields exactly the positions that select returns for the ranks not yet visited, in ascending order from the front and descending order from the back, under every interleaving of steps and skips from both ends. "
    "Length, size hint, count and last are exact, skips beyond the end exhaust the iterator without panicking, and an exhausted iterator stays exhausted.",
    ["inputs", "histories"],
    "every bit string, every sequence of iterator calls, every skip distance, borrowed and consuming iterators, in every instruction-set variant",
    "The iterator caches the last visited super block and block at both ends; a stale cache is wrong only for particular distances between consecutive bits combined with particular call histories.",
    ["src/bit_vec/fast_rs_vec/iter.rs", "src/bit_vec/fast_rs_vec/select.rs"],
    [("iterator methods", "gen_iter_impl!: SelectIter and SelectIntoIter next, nth, last, count, size_hint, len, next_back, nth_back"), ("constructors", "RsVec::iter0, iter1, into_iter0, into_iter1")],
    AI,
    AIN,
)
P(
    "P10",
    "The sparse vector answers like the bit string it stands for",
    "A sparse vector built from ascending distinct positions below its length, or from a bit vector (as is, or inverted), reports for every position whether its bit is set and for every position and rank the same rank and select results as the uncompressed bit string. "
    "Checked reads beyond the end give nothing, rank beyond the end gives the total, select beyond the number of ones gives the length, and no query panics.",
    ["inputs"],
    "every set of positions, every length, every query position and rank up to the largest integer",
    "Mistakes appear only at the first and last stored position, for the empty set, at the length itself and for query values near the integer maximum.",
    ["src/bit_vec/sparse.rs"],
    [("queries", "SparseRSVec::is_set, is_set_unchecked, get, get_unchecked, rank1, rank0, select1, iter1, len, is_empty"), ("constructors", "SparseRSVec::new, from_bitvec, from_bitvec_inverted")],
    AI,
    AIN + " The Elias-Fano functions are assumed to meet their contracts here.",
)
P(
    "P11",
    "The Elias-Fano vector answers like the sorted sequence it was built from",
    "For the ascending sequence a vector stands for, access by index, difference to the preceding element, predecessor (largest element not above the query), successor (smallest element not below it) and rank (number of smaller elements) give what the plain sequence gives, for every index and query value; queries with no answer give nothing, and no query panics. "
    "Its iterators yield exactly the elements not yet yielded, from both ends under every interleaving of steps and skips, with exact length, size hint, count, minimum, maximum and last element.",
    ["inputs", "histories"],
    "every ascending sequence with any duplicates and gaps, every query up to the largest integer, every history of iterator calls",
    "The searches switch from linear to binary search inside a block of equal upper parts; mistakes appear only for particular block sizes, duplicates, and queries at the borders between blocks.",
    ["src/elias_fano/mod.rs", "src/util/elias_fano_iter.rs"],
    [("queries", "EliasFanoVec::get, select, get_unchecked, delta, predecessor, successor, their unchecked variants, rank and search_element_in_block"), ("iterators", "gen_ef_iter_impl!: EliasFanoIter, EliasFanoRefIter; iter, into_iter")],
    AI,
    AIN + " The rank/select vector, select iterator and bit vector inside are assumed to meet their contracts here; which number of lower bits the construction picks (floating point) is left open.",
)
P(
    "P12",
    "The wavelet matrix answers like the sequence of symbols it stands for",
    "For the sequence of fixed-width symbols a wavelet matrix stands for, access, rank, select (both with offsets and ranges), the k-th smallest element, minimum, maximum and median of a range, sorted access, predecessor and successor in a range give what counting in the plain sequence gives, for symbols given as bit vectors and as integers alike. "
    "The checked queries give nothing for indices and ranges outside the sequence, reversed or empty ranges, symbols of another width, ranks without an occurrence, and integer queries on symbols wider than a word; no query panics.",
    ["inputs"],
    "every sequence of symbols, every index, range, rank and symbol",
    "A query follows the symbol through all levels; mistakes in how a range moves between levels show up only for particular distributions of prefixes, ranges at the borders of a level, and ranks near the number of occurrences or the largest integer.",
    ["src/wavelet/mod.rs"],
    [("access and counting", "WaveletMatrix::get_value, get_u64, rank*, select* and their unchecked variants"), ("order queries", "WaveletMatrix::quantile*, get_sorted*, range_min*, range_max*, range_median*, predecessor*, successor*")],
    AI,
    AIN + " The number of levels is fixed per analysis (1 to 3, select up to 2; one more in the thorough tier), all else is symbolic; the level vectors answer by their rank/select contracts on the levels of a well-formed matrix, so the constructors are not covered.",
)
P(
    "P13",
    "Range minimum queries return the position of a smallest element in the range",
    "For every sequence and every pair of positions i <= j inside it, both range minimum structures return a position between i and j whose element is not larger than any element between i and j. "
    "The forms that take a range ask for exactly those positions of the range that exist, for inclusive, exclusive and open bounds up to the integer maximum, and do not panic unless the structure is empty.",
    ["inputs"],
    "every sequence, every pair of positions, every range",
    "The answer is pieced together from precomputed windows, block minima and bit patterns; a window that is one element short is only noticed when the smallest element lies in the gap, which random tests hit for few lengths.",
    ["src/rmq/binary_rmq/mod.rs", "src/rmq/fast_rmq/mod.rs"],
    [("queries", "range_min and range_min_with_range of BinaryRmq and FastRmq"), ("construction", "BinaryRmq::from_vec"), ("block minima", "FastRmq::from_vec and its bit patterns")],
    AI,
    AIN,
)
P(
    "P14",
    "Tree navigation follows the structure of the parentheses",
    "On every balanced parentheses sequence, root, parent, first and last child, siblings, children in both directions, leaf test, depth, subtree size, subtree iterators, ancestor test, node numbering and the level queries return the node or number which the nesting of the parentheses determines, and nothing where no such node exists. "
    "Matching and enclosing parentheses and the excess are right for unbalanced sequences too, and the builder succeeds exactly if all entered nodes were left.",
    ["inputs"],
    "every parentheses sequence, every node, position and level",
    "Off-by-one excess targets and sibling tests agree with the intended result on most small trees; they differ for leaves, only children, last siblings, single-node trees and nodes at the end of the sequence.",
    ["src/trees/bp/mod.rs", "src/trees/bp/builder.rs", "src/trees/bp/lookup_query.rs", "src/trees/mmt.rs"],
    [("matching", "BpTree::close, open, enclose, excess"), ("navigation", "impl Tree, IsAncestor, LevelTree, SubtreeSize for BpTree; subtree_iter, subtree_post_iter, children, rev_children"), ("searches", "BpTree::fwd_search, bwd_search, MinMaxTree, the block lookup tables"), ("builder", "BpBuilder")],
    AI,
    AIN + " The rank/select vector and the forward and backward excess searches are replaced by their contracts; the searches are proved against these contracts separately, from the block scan, the search in the min-max tree and the 8-bit lookup tables (the construction of the min-max tree and the 16-bit lookup are not covered).",
)
P(
    "P15",
    "Serialised and cloned values come back with every part of the original",
    "With serialisation enabled, what any data structure writes to a self-describing or a positional format is exactly what its deserialisation reads back: every part of the state is written once, read from the same name and place, and ends up where it came from, at every level of nesting. "
    "A clone takes every part of its state from the same part of the original.",
    ["inputs"],
    "every value of every data structure and every format, self-describing or positional",
    "No test serialises anything; a part that is skipped, defaulted, renamed on one side or recomputed only shows when a value is read back, and then only for values where that part matters.",
    ["src/bit_vec/mod.rs", "src/bit_vec/fast_rs_vec/mod.rs", "src/bit_vec/sparse.rs", "src/elias_fano/mod.rs", "src/rmq", "src/wavelet/mod.rs", "src/trees"],
    [("serialisation", "Serialize, Deserialize and Clone of BitVec, RsVec, SparseRSVec, EliasFanoVec, BinaryRmq, FastRmq, WaveletMatrix, BpTree and the types nested in them")],
    "static analysis: abstract interpretation of the compiled (de)serialisation and clone functions against an abstract (de)serialiser",
    "Serialisation of the standard library's types and the data format itself are trusted.",
)
P(
    "P16",
    "Shared values never change and may be used from any thread",
    "Every public type may be sent to and shared between threads, and no part of a value can change behind a shared reference, so queries by any number of threads see the same immutable value; there is no mutable global state. "
    "Unless the SIMD option is enabled, nothing bypasses the memory checks of the language except processor instructions that do not touch memory.",
    ["inputs", "schedules"],
    "every public type, every static and every function of the crate, in both build configurations",
    "A cache behind a shared reference, a global counter or an unchecked access gives the right answers in every single-threaded test; it fails under concurrent queries or for an index just behind the end.",
    ["src/lib.rs", "src/bit_vec", "src/elias_fano/mod.rs", "src/rmq", "src/trees", "src/wavelet/mod.rs", "src/util"],
    [("types", "all public structs and enums"), ("statics", "the lookup tables"), ("unsafe code", "pdep intrinsics, SIMD search, SIMD bit set iterator")],
    "static analysis: type and operation audit on the compiler's resolved types and MIR",
    "All public types and all function bodies of the crate in both configurations are enumerated and checked; derived and macro-generated code included. Accesses through pointers in SIMD code are not judged by this check.",
)
P(
    "P17",
    "Reported heap sizes account for every owned buffer",
    "The heap size reported by every data structure is the number of bytes of all buffers it owns, directly or through nested structures, counted once each, for every value of the structure.",
    ["inputs"],
    "every value of every data structure, of any size",
    "A buffer that is forgotten, counted twice or scaled by the wrong element size is invisible to tests, which never compare the sizes with the allocator.",
    ["src/bit_vec/mod.rs", "src/bit_vec/fast_rs_vec/mod.rs", "src/bit_vec/sparse.rs", "src/elias_fano/mod.rs", "src/rmq", "src/wavelet/mod.rs", "src/trees/bp/mod.rs"],
    [("heap sizes", "heap_size of BitVec, RsVec, SparseRSVec, EliasFanoVec, BinaryRmq, FastRmq, WaveletMatrix and BpTree")],
    AI,
    AIN,
)
