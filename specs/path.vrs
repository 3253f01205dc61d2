//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with replace=cp_replace split=cp_split filter|fn=vp_filter map|fn=vp_map join unwrap_or_default as_deref collect
//@methods to_owned to_string
//@paths URI_SNIFF=VpUriSniff
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include chars.vrs
//@include webpath.vrs
}
fn main() {}
