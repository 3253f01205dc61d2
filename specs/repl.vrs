//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods trim=cp_trim contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with split=cp_split enumerate retain|fn=vp_retain map|fn=vp_map and_then|fn=vp_and_then
//@methods to_owned to_string clone into cloned to_lowercase map_or|fn=vp_map_or map_or filter|fn=vp_filter
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include chars.vrs
//@type span/mod.rs | Span derive=Clone,Copy
//@type warnings.rs | WarningType
//@type warnings.rs | Warning
//@type document/attribute.rs | InterpretedValue
//@type document/attribute.rs | Attribute
//@type parser/attribute_value.rs | AllowableValue
//@type parser/attribute_value.rs | ModificationContext derive=Clone,Copy,PartialEq,Eq,Structural
//@type parser/attribute_value.rs | AttributeValue
//@type parser/parser.rs | Parser keep=attribute_values,default_attribute_values,renderer
//@include content.vrs
//@include regex.vrs
use std::rc::Rc;
//@include texts.vrs
//@type parser/inline_substitution_renderer.rs | SpecialCharacter derive=Clone,Copy
//@include renderer.vrs
//@type content/substitution_step.rs | SpecialCharacterReplacer
//@include special.vrs
//@include attrvals.vrs
//@type content/substitution_step.rs | AttributeReplacer
//@include attrrefs.vrs
//@type content/passthroughs.rs | Passthroughs opaque
struct Passthrough;
//@include subgroup.vrs
//@include steps.vrs
//@include groupapply.vrs
//@include verbatim.vrs
}
fn main() {}
