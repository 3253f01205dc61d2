//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods find contains starts_with ends_with strip_prefix strip_suffix trim_end trim_end_matches trim_start_matches char_indices map_or map|fn=vp_map filter|fn=vp_filter is_ascii_alphabetic is_ascii_alphanumeric is_ascii_digit
//@methods to_owned to_string clone into cloned
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
/// What a parser holds besides the fields that are named here.
#[verifier::external_body] struct VpRest { x: usize }
//@type parser/parser.rs | Parser keep=last_section_number,last_appendix_section_number,topmost_section_type,sectnumlevels,catalog rest
//@include maps.vrs
//@include own.vrs
//@trust chars.vrs
//@include content.vrs
//@trust span.vrs
//@trust span2.vrs
//@methods trim=cp_trim contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with split=cp_split enumerate retain|fn=vp_retain map|fn=vp_map and_then|fn=vp_and_then or_else|fn=vp_or_else
//@methods as_deref iter or is_some_and|fn=vp_is_some_and map_or|fn=vp_map_or
//@trust subgroup.vrs
//@trust effect0.vrs
//@trust groupapply.vrs
//@trust isblock.vrs
//@methods find contains starts_with ends_with split_at split_at_checked chars=vp_chars
//@trust blockbase.vrs
//@trust attrsof.vrs
//@methods join
//@trust metadata.vrs
//@trust parablocks.vrs
//@trust delimited.vrs
//@trust titleline.vrs
//@trust catalog.vrs
//@include tree.vrs
}
fn main() {}
