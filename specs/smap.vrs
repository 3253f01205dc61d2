//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods map|fn=vp_map clone binary_search_by_key
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include sourcemap.vrs
}
fn main() {}
