// --- steps and passthroughs, as seen by the groups that use them (the unit `repl` says what they do)
//@type parser/parser.rs | Parser opaque keep=
//@type content/passthroughs.rs | Passthroughs opaque
struct Passthrough;
uninterp spec fn effect(s: Step, t: Seq<char>, p: Parser, a: Option<Attrlist>) -> Seq<char>;
uninterp spec fn taken_out(t: Seq<char>) -> (Seq<char>, Passthroughs);
uninterp spec fn put_back(p: Passthroughs, t: Seq<char>, q: Parser) -> Seq<char>;
//@assume content/substitution_step.rs | SubstitutionStep::apply
//@ spec:
    requires !(*self is Callouts)
    ensures final(content).original == old(content).original, text(*final(content)) == effect(*self, text(*old(content)), *parser, al(attrlist))
//@end
//@assume content/passthroughs.rs | Passthroughs::extract_from
//@ spec:
    ensures final(content).original == old(content).original, (text(*final(content)), r) == taken_out(text(*old(content)))
//@end
//@assume content/passthroughs.rs | Passthroughs::restore_to
//@ spec:
    ensures final(content).original == old(content).original, text(*final(content)) == put_back(*self, text(*old(content)), *parser)
//@end
