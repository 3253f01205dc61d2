//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods encode_utf8 len_utf8 into as_bytes unwrap_or_default into_boxed_str to_owned to_string
//@methods clone
//@paths from_utf8=vp_from_utf8
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include strings.vrs
}
fn main() {}
