//@include head.vrs
//@include text.vrs
//@include std.vrs
//@methods contains=cp_contains starts_with=cp_starts_with ends_with=cp_ends_with replace=vp_replace map|fn=vp_map and_then|fn=vp_and_then map_or|fn=vp_map_or filter|fn=vp_filter is_some_and|fn=vp_is_some_and
//@methods to_owned to_string clone into or_else|fn=vp_or_else unwrap_or_default repeat split_at parse or_else map_or
//@paths AsRef=VpAsRef
broadcast use {vstd::string::group_string_axioms, lemma_str_valid, lemma_enc_ascii, lemma_str_ends, axiom_str_len, axiom_ws_ascii};
//@include maps.vrs
//@include own.vrs
//@include chars.vrs
//@type span/mod.rs | Span derive=Clone,Copy
//@include content.vrs
//@include regex.vrs
use std::rc::Rc;
//@include texts.vrs
//@type content/substitution_step.rs | SubstitutionStep derive=Clone,Copy,PartialEq,Eq,Structural
//@type content/substitution_group.rs | SubstitutionGroup
//@type parser/inline_substitution_renderer.rs | QuoteType derive=Clone,Copy
//@type parser/inline_substitution_renderer.rs | QuoteScope derive=Clone,Copy
//@type attributes/attrlist.rs | Attrlist opaque keep=source
//@type attributes/attrlist.rs | AttrlistContext
//@type span/matched_item.rs | MatchedItem
//@type warnings.rs | WarningType
//@type warnings.rs | Warning
//@type warnings.rs | MatchAndWarnings
//@type parser/parser.rs | Parser keep=renderer
//@type content/passthroughs.rs | Passthrough
//@type content/passthroughs.rs | Passthroughs
//@type content/passthroughs.rs | InlinePassMacroReplacer
//@type content/passthroughs.rs | InlinePassReplacer
//@type content/passthroughs.rs | PassthroughRestoreReplacer
//@include passthrough.vrs
}
fn main() {}
