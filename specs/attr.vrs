//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods find contains starts_with ends_with strip_prefix strip_suffix trim_end trim_end_matches trim_start_matches char_indices map_or map|fn=vp_map filter|fn=vp_filter is_ascii_alphabetic is_ascii_alphanumeric is_ascii_digit
//@methods to_owned to_string clone into
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include chars.vrs
//@include cowenum.vrs
//@include iters.vrs
//@type content/content.rs | Content
spec fn text(c: Content) -> Seq<char> { c.rendered.t() }
//@include span.vrs
//@include span2.vrs
//@methods trim=cp_trim contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with split=cp_split enumerate retain|fn=vp_retain map|fn=vp_map and_then|fn=vp_and_then
//@include subgroup.vrs
//@include effect0.vrs
//@include groupapply.vrs
//@methods starts_with=st_starts_with strip_suffix=ch_strip_suffix trim_start_matches=ch_trim_start_matches trim_end_matches=ch_trim_end_matches lines join=vp_concat into_boxed_str iter=it_iter as_ref
//@include entry.vrs
}
fn main() {}
