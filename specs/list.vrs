//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods find contains starts_with ends_with strip_prefix strip_suffix trim_end trim_end_matches trim_start_matches char_indices map_or map|fn=vp_map filter|fn=vp_filter is_ascii_alphabetic is_ascii_alphanumeric is_ascii_digit
//@methods to_owned to_string cloned
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include chars.vrs
//@include span.vrs
//@include span2.vrs
//@methods contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with and_then|fn=vp_and_then or_else|fn=vp_or_else
//@methods as_deref find|fn=vp_find peekable iter=it_iter first=it_first chars=vp_chars
//@type warnings.rs | WarningType
//@include cowenum.vrs
//@include iters.vrs
//@type attributes/element_attribute.rs | ElementAttribute
//@include shorthand.vrs
//@include elattr.vrs
//@type attributes/attrlist.rs | Attrlist
//@include attrlist.vrs
//@type attributes/attrlist.rs | AttrlistContext derive=Clone,Copy,PartialEq,Eq,Structural
//@type parser/parser.rs | Parser keep=sectnumlevels
//@include elparse.vrs
//@include alparse.vrs
}
fn main() {}
