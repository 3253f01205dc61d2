//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods trim=cp_trim contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with split=cp_split enumerate retain|fn=vp_retain map|fn=vp_map map=vp_map and_then|fn=vp_and_then
//@methods to_owned to_string clone into cloned to_lowercase map_or|fn=vp_map_or map_or filter|fn=vp_filter map_or_else|fn=vp_map_or_else
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include chars.vrs
//@include cowenum.vrs
//@include iters.vrs
//@type span/mod.rs | Span derive=Clone,Copy
//@type content/content.rs | Content
spec fn text(c: Content) -> Seq<char> { c.rendered.t() }
//@type warnings.rs | WarningType
//@type warnings.rs | Warning
//@type document/attribute.rs | InterpretedValue
//@type document/attribute.rs | Attribute
//@type parser/attribute_value.rs | AllowableValue
//@type parser/attribute_value.rs | ModificationContext derive=Clone,Copy,PartialEq,Eq,Structural
//@type parser/attribute_value.rs | AttributeValue
//@type parser/parser.rs | Parser keep=attribute_values,default_attribute_values
//@include regex.vrs
//@include attrvals.vrs
//@include subgroup.vrs
//@include effect0.vrs
//@include groupapply.vrs
//@methods split=st_split split_once matches replace=cp_replace filter_map|fn=vp_filter_map as_deref unwrap_or_default chars=vp_chars as_ref iter=it_iter
//@include people.vrs
}
fn main() {}
