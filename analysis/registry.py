"""Which rules decide which property."""
from contracts import Result
import rules_bitvec
import rules_rsvec
import rules_iter
import rules_seliter
import rules_heap
import rules_sparse
import rules_ef
import rules_wavelet
import rules_bp
import rules_bpsearch
import rules_serde
import rules_share
import rules_rmq
import rules_build

PROPS = {}


def prop(pid, rules, explain, **kw):
    PROPS[pid] = dict(rules=rules, explain=explain, **kw)


AI = ("Abstract interpretation of the compiler's MIR of the listed functions, from a fully symbolic entry state that "
      "assumes only the type's own storage invariant: every abstract path is followed (helpers inlined, loops summarised "
      "by inferred inductive invariants), and each obligation is decided on the path's linear constraints and bit-level "
      "terms. ")


BVR = rules_bitvec.BitVecRules
MR = rules_bitvec.MaskRules
MC = rules_bitvec.MaskCtorRules
RSR = rules_rsvec.RsRules


def W(s):
    return s.split()


prop("P01", [(BVR, W("new with_capacity from_zeros from_ones from_bits from_bits_u16 from_bits_u32 from_bits_u64 from_bools from_limbs from_vec "
                     "from_bits_iter from_bool_iter from_limbs_iter from_slice_trait from_vec_trait from_iter_trait extend_owned extend_ref "
                     "pack_sequence_u64 pack_sequence_u32 pack_sequence_u16 pack_sequence_u8 "
                     "pack_from_iter_u64 pack_from_iter_u32 pack_from_iter_u16 pack_from_iter_u8 "
                     "append append_bit append_bit_u32 append_bit_u16 append_bit_u8 append_word append_bits append_bits_unchecked extend_bitvec "
                     "drop_last split_at split_at_unchecked"))], AI)
prop("P02", [(BVR, W("flip_bit flip_bit_unchecked set set_unchecked apply_mask_or apply_mask_and apply_mask_xor apply_mask_custom"))], AI)
prop("P03", [(BVR, W("len is_empty get get_unchecked is_bit_set is_bit_set_unchecked get_bits get_bits_unchecked unpack_element unpack_element_unchecked iter_limbs"))], AI)
prop("P04", [(BVR, W("eq_trait hash_trait"))], AI)
prop("P05", [(MR, W("get get_unchecked is_bit_set is_bit_set_unchecked get_bits get_bits_unchecked count_ones count_zeros to_bit_vec")),
             (MC, W("mask_or mask_and mask_xor mask_custom"))], AI)
prop("P06", [(BVR, W("count_ones count_zeros")), (RSR, W("from_bit_vec rank0 rank1 len is_empty get get_unchecked get_bits get_bits_unchecked"))], AI)
prop("P07", [(RSR, W("from_bit_vec select0 select1"))], AI)
prop("P08", [(rules_iter.IterRules, rules_iter.IterRules.names()), (rules_iter.IterCtorRules, rules_iter.IterCtorRules.names())],
     AI + "An iterator value is read as the range [i, j) of positions not yet yielded; the vector's length and element reads are replaced by their contracts.")
prop("P09", [(rules_seliter.SelIterRules, rules_seliter.SelIterRules.names()), (rules_seliter.SelIterCtorRules, rules_seliter.SelIterCtorRules.names())],
     AI + "The entry state is any iterator over any vector whose cached positions keep the promises that are proved to hold after construction and after every step; "
     "searches that are proved against their contracts first are replaced by them.")
prop("P10", [(rules_sparse.SparseRules, rules_sparse.SparseRules.names())],
     AI + "The sparse vector stands for a bit string; the compressed position list's functions are replaced by their contracts on it.")
prop("P11", [(rules_ef.EfRules, rules_ef.EfRules.names()), (rules_ef.EfIterRules, rules_ef.EfIterRules.names()), (rules_ef.EfIterCtorRules, rules_ef.EfIterCtorRules.names()),
             (rules_build.EfBuildRules, rules_build.EfBuildRules.names())],
     gate=rules_build.ef_layout, explain=AI + "The vector stands for an ascending sequence, the rank/select vector and the bit vector inside for their contracts on its upper and lower parts.")
prop("P12", [(rules_wavelet.WaveletRules, rules_wavelet.WaveletRules.names())],
     AI + "The matrix stands for a sequence of symbols with a fixed number of bits; its levels answer by the contracts of rank, select and access on the counts of symbol prefixes.")
prop("P13", [(rules_rmq.RmqRules, rules_rmq.RmqRules.names())],
     AI + "The precomputed table stands for its contract (an entry is the distance to a smallest element of its window), which the construction is proved to establish.")
prop("P14", [(rules_bpsearch.MmtRules, rules_bpsearch.MmtRules.names()), (rules_bp.BpRules, rules_bp.BpRules.names()), (rules_bp.ChildrenRules, rules_bp.ChildrenRules.names()), (rules_bp.BuilderRules, rules_bp.BuilderRules.names()),
             (rules_bpsearch.BpSearchRules, rules_bpsearch.BpSearchRules.names()),
             (rules_bpsearch.LookupRules, rules_bpsearch.LookupRules.names())],
     AI + "The tree stands for a sequence of parentheses; the rank/select vector and the excess searches answer by their contracts on its prefix excess.")
prop("P15", [(rules_serde.SerdeRules, rules_serde.SerdeRules.names())],
     "The compiled serialisation, deserialisation and clone functions of every data structure and of every type nested in it are interpreted abstractly against "
     "an abstract (de)serialiser: which name and place each field is written under, which name and place each field is read from, and which field a clone's field comes from. ")
prop("P17", [(rules_heap.HeapRules, rules_heap.HeapRules.names())],
     AI + "The expected sum is derived from the type definition: every buffer reachable through the fields counts once.")
prop("P16", [(rules_share.ShareRules, rules_share.ShareRules.names())],
     "Types and operations as the compiler resolved them: every public type is checked for the auto traits and walked for interior mutability, every static for mutability, "
     "every function body for raw pointer accesses and calls of unsafe functions. ")
