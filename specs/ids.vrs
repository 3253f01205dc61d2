// --- C07: which IDs blocks claim ---------------------------------------------------
struct BlockFns<'src> { s: Span<'src> }
spec fn cat_of(p: Parser) -> Catalog { p.catalog->0 }

//@fn parser/parser.rs | Parser::catalog_mut
//@ spec:
    ensures
        (r is Some) == (old(self).catalog is Some),
        r is Some ==> *(r->0) == old(self).catalog->0 && final(self).catalog == Some(*final(r->0)),
        r is None ==> final(self).catalog is None,
        final(self).last_section_number == old(self).last_section_number, final(self).last_appendix_section_number == old(self).last_appendix_section_number,
        final(self).topmost_section_type == old(self).topmost_section_type, final(self).sectnumlevels == old(self).sectnumlevels,
//@end

//@fn blocks/block.rs | Block::register_block_id
//@ impl: impl<'src> BlockFns<'src>
//@ spec:
    requires old(parser).catalog is Some, cat_of(*old(parser)).ok()
    ensures
        final(parser).catalog is Some, cat_of(*final(parser)).ok(),
        id is None ==> cat_of(*final(parser)) == cat_of(*old(parser)) && final(warnings)@ == old(warnings)@,
        id is Some && !cat_of(*old(parser)).ids().contains((id->0)@) ==> added(cat_of(*old(parser)), cat_of(*final(parser)), (id->0)@, otxt(title), RefType::Anchor) && final(warnings)@ == old(warnings)@,
        id is Some && cat_of(*old(parser)).ids().contains((id->0)@) ==> {
            &&& cat_of(*final(parser)) == cat_of(*old(parser))
            &&& final(warnings)@.len() == old(warnings)@.len() + 1 && final(warnings)@.drop_last() =~= old(warnings)@
            &&& final(warnings)@.last().source == span
            &&& final(warnings)@.last().warning matches WarningType::DuplicateId(s) && s@ == (id->0)@
        },
//@end

/// Which ID a section gets, and what is registered for it.
//@slice blocks/section.rs | SectionBlock::parse | let section_id
//@ sig: fn section_id_of<'src>(parser: &mut Parser, warnings: &mut Vec<Warning<'src>>, sectids: bool, manual_id: Option<&str>, proposed_base_id: String, reftext: &str, metadata: &BlockMetadata<'src>, level_and_title: MatchedItem<'src, (usize, Span<'src>)>) -> Option<String> /*@free*/
//@ spec:
    requires
        old(parser).catalog is Some, cat_of(*old(parser)).ok(), cat_of(*old(parser)).ids().len() < i32::MAX - 2,
        wf(metadata.source), wf(level_and_title.after), within(metadata.source, level_and_title.after),
    ensures
        final(parser).catalog is Some, cat_of(*final(parser)).ok(),
        ({
            let a = cat_of(*old(parser));
            let z = cat_of(*final(parser));
            match manual_id {
                // Its own ID, unless that is taken, which is reported once at the heading.
                Some(m) => r is None && (if a.ids().contains(m@) {
                    &&& z == a && final(warnings)@.len() == old(warnings)@.len() + 1 && final(warnings)@.drop_last() =~= old(warnings)@
                    &&& final(warnings)@.last().warning matches WarningType::DuplicateId(s) && s@ == m@
                    &&& within(metadata.source, final(warnings)@.last().source) && final(warnings)@.last().source.offset == metadata.source.offset
                } else { added(a, z, m@, Some(reftext@), RefType::Section) && final(warnings)@ == old(warnings)@ }),
                // One that is generated, and free …
                None if sectids => r is Some && added(a, z, (r->0)@, Some(reftext@), RefType::Section) && final(warnings)@ == old(warnings)@,
                // … or none.
                None => r is None && z == a && final(warnings)@ == old(warnings)@,
            }
        }),
//@end
