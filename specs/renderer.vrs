/// The renderer that an application gives: what it writes is a function of what it is given.
trait InlineSubstitutionRenderer {
    spec fn special_out(&self, k: SpecialCharacter, d: Seq<char>) -> Seq<char>;
    fn render_special_character(&self, type_: SpecialCharacter, dest: &mut String)
        ensures final(dest)@ == self.special_out(type_, old(dest)@);
}
