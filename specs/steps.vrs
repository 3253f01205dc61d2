// --- what each step does -----------------------------------------------------------------
uninterp spec fn quoted(t: Seq<char>, p: Parser) -> Seq<char>;
uninterp spec fn replaced(t: Seq<char>, r: &dyn InlineSubstitutionRenderer) -> Seq<char>;
uninterp spec fn expanded(t: Seq<char>, p: Parser) -> Seq<char>;
uninterp spec fn post(t: Seq<char>, p: Parser, a: Option<Attrlist>) -> Seq<char>;
/// (These four are functions of the text and the settings; what they are is not under contract.)
//@assume content/substitution_step.rs | apply_quotes
//@ spec:
    ensures final(content).original == old(content).original, text(*final(content)) == quoted(text(*old(content)), *parser)
//@end
//@assume content/substitution_step.rs | apply_character_replacements
//@ spec:
    ensures final(content).original == old(content).original, text(*final(content)) == replaced(text(*old(content)), renderer)
//@end
//@assume content/macros.rs | apply_macros
//@ spec:
    ensures final(content).original == old(content).original, text(*final(content)) == expanded(text(*old(content)), *parser)
//@end
//@assume content/substitution_step.rs | apply_post_replacements
//@ spec:
    ensures final(content).original == old(content).original, text(*final(content)) == post(text(*old(content)), *parser, al(attrlist))
//@end
spec fn effect(s: Step, t: Seq<char>, p: Parser, a: Option<Attrlist>) -> Seq<char> {
    match s {
        Step::SpecialCharacters => escaped_by(&*p.renderer, t, 0, Seq::empty()),
        Step::Quotes => quoted(t, p),
        Step::AttributeReferences => substituted(p, t, 0),
        Step::CharacterReplacements => replaced(t, &*p.renderer),
        Step::Macros => expanded(t, p),
        Step::PostReplacement => post(t, p, a),
        Step::Callouts => t,
    }
}
//@fn content/substitution_step.rs | SubstitutionStep::apply
//@ spec:
    requires !(*self is Callouts)
    ensures final(content).original == old(content).original, text(*final(content)) == effect(*self, text(*old(content)), *parser, al(attrlist))
//@end
uninterp spec fn taken_out(t: Seq<char>) -> (Seq<char>, Passthroughs);
uninterp spec fn put_back(p: Passthroughs, t: Seq<char>, q: Parser) -> Seq<char>;
//@assume content/passthroughs.rs | Passthroughs::extract_from
//@ spec:
    ensures final(content).original == old(content).original, (text(*final(content)), r) == taken_out(text(*old(content)))
//@end
//@assume content/passthroughs.rs | Passthroughs::restore_to
//@ spec:
    ensures final(content).original == old(content).original, text(*final(content)) == put_back(*self, text(*old(content)), *parser)
//@end
