//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods find contains starts_with ends_with strip_prefix strip_suffix trim_end trim_end_matches trim_start_matches char_indices map_or|fn=vp_map_or map_or map|fn=vp_map filter|fn=vp_filter
//@methods to_owned to_string cloned clone to_lowercase
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@type span/mod.rs | Span derive=Clone,Copy
//@type warnings.rs | WarningType
//@type warnings.rs | Warning
//@type document/attribute.rs | InterpretedValue
//@type document/attribute.rs | Attribute
//@type parser/attribute_value.rs | AllowableValue
//@type parser/attribute_value.rs | ModificationContext derive=Clone,Copy,PartialEq,Eq,Structural
//@type parser/attribute_value.rs | AttributeValue
//@type parser/parser.rs | Parser keep=attribute_values,default_attribute_values
//@include attrvals.vrs
}
fn main() {}
