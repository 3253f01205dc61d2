//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods find contains starts_with ends_with strip_prefix strip_suffix trim_end trim_end_matches trim_start_matches char_indices map_or map|fn=vp_map filter|fn=vp_filter is_ascii_alphabetic is_ascii_alphanumeric is_ascii_digit
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include span.vrs
//@include span2.vrs
//@include c04l.vrs
}
fn main() {}
