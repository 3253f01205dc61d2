// --- C21, C10, C07: what a block reports ------------------------------------------------------
spec fn ov(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn os(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn od(o: Option<Span>) -> Option<Seq<char>> { match o { Some(s) => Some(s.data@), None => None } }
spec fn oa<'a>(o: Option<&Attrlist<'a>>) -> Option<Attrlist<'a>> { match o { Some(a) => Some(*a), None => None } }
spec fn txts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
/// What an attribute list gives (the unit `list` says what that is, from its text).
uninterp spec fn id_in(a: Attrlist) -> Option<Seq<char>>;
uninterp spec fn roles_in(a: Attrlist) -> Seq<Seq<char>>;
uninterp spec fn options_in(a: Attrlist) -> Seq<Seq<char>>;
//@assume attributes/attrlist.rs | Attrlist::id
//@ spec:
    ensures ov(r) == id_in(*self)
//@end
//@assume attributes/attrlist.rs | Attrlist::roles
//@ spec:
    ensures txts(r@) == roles_in(*self)
//@end
//@assume attributes/attrlist.rs | Attrlist::options
//@ spec:
    ensures txts(r@) == options_in(*self)
//@end
//@assume attributes/attrlist.rs | Attrlist::has_option
//@ spec:
    ensures r == options_in(*self).contains(name.rf())
//@end
/// The ID that is written above a block: its anchor, or else the one of its attribute list.
spec fn id_of(anchor: Option<Span>, a: Option<Attrlist>) -> Option<Seq<char>> { if anchor is Some { od(anchor) } else { match a { Some(a) => id_in(a), None => None } } }
spec fn roles_of(a: Option<Attrlist>) -> Seq<Seq<char>> { match a { Some(a) => roles_in(a), None => Seq::empty() } }
spec fn options_of(a: Option<Attrlist>) -> Seq<Seq<char>> { match a { Some(a) => options_in(a), None => Seq::empty() } }
spec fn style_in(a: Option<Attrlist>) -> Option<Seq<char>> { match a { Some(a) => style1(a), None => None } }
spec fn context_of(style: Option<Seq<char>>, raw: Seq<char>) -> Seq<char> { match style { Some(s) => if built_in(s) { s } else { raw }, None => raw } }

spec fn built_in(s: Seq<char>) -> bool { s == "admonition"@ || s == "audio"@ || s == "colist"@ || s == "dlist"@ || s == "document"@ || s == "example"@ || s == "floating_title"@ || s == "image"@ || s == "list_item"@ || s == "listing"@ || s == "literal"@ || s == "olist"@ || s == "open"@ || s == "page_break"@ || s == "paragraph"@ || s == "pass"@ || s == "preamble"@ || s == "quote"@ || s == "section"@ || s == "sidebar"@ || s == "table"@ || s == "table_cell"@ || s == "thematic_break"@ || s == "toc"@ || s == "ulist"@ || s == "verse"@ || s == "video"@ }
//@fn blocks/context.rs | is_built_in_context
//@ spec:
    ensures r == built_in(context@)
//@end
//@type blocks/is_block.rs | ContentModel derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/break.rs | BreakType derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/media.rs | MediaType derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/simple.rs | SimpleBlockStyle derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/simple.rs | SimpleBlock
//@type blocks/break.rs | Break
//@type blocks/media.rs | MediaBlock
//@type blocks/raw_delimited.rs | RawDelimitedBlock
//@type blocks/compound_delimited.rs | CompoundDelimitedBlock
//@type blocks/preamble.rs | Preamble
//@type blocks/section.rs | SectionType derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/section.rs | SectionNumber
//@type blocks/section.rs | SectionBlock
//@type document/interpreted_value.rs | InterpretedValue
//@type document/attribute.rs | Attribute
//@type blocks/block.rs | Block
//@include into.vrs
impl VpAsRef<str> for CowStr<'_> { spec fn rf(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VpClone for CowStr<'_> { spec fn same(&self, r: Self) -> bool { r.t() == self.t() } #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
impl VpAsDeref for Option<&str> { spec fn ad(&self) -> Option<Seq<char>> { ov(*self) } #[verifier::external_body] fn vp_as_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
//@fn content/content.rs | Content::rendered
//@ spec:
    ensures r@ == text(*self)
//@end
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Iter<'a, T> { x: &'a T }
impl<'a, T> Iter<'a, T> { uninterp spec fn all(&self) -> Seq<T>; }
trait VpIter<T> { spec fn vs(&self) -> Seq<T>; fn vp_iter(&self) -> (r: Iter<'_, T>) ensures r.all() == self.vs(); }
impl<T> VpIter<T> for [T] { spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter(&self) -> (r: Iter<'_, T>) { unimplemented!() } }
impl<T> VpIter<T> for Vec<T> { spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter(&self) -> (r: Iter<'_, T>) { unimplemented!() } }

impl<'a> SimpleBlock<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { self.title_source }
    spec fn v_title(&self) -> Option<Seq<char>> { os(self.title) }
    spec fn v_anchor(&self) -> Option<Span<'a>> { self.anchor }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { self.anchor_reftext }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { self.attrlist }
    spec fn v_model(&self) -> ContentModel { ContentModel::Simple }
    spec fn v_context(&self) -> Seq<char> { "paragraph"@ }
    spec fn v_rendered(&self) -> Option<Seq<char>> { Some(text(self.content)) }
    spec fn v_nested(&self) -> Seq<Block<'a>> { Seq::empty() }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> Break<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { self.title_source }
    spec fn v_title(&self) -> Option<Seq<char>> { os(self.title) }
    spec fn v_anchor(&self) -> Option<Span<'a>> { self.anchor }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { self.anchor_reftext }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { self.attrlist }
    spec fn v_model(&self) -> ContentModel { ContentModel::Empty }
    spec fn v_context(&self) -> Seq<char> { (match self.type_ { BreakType::Thematic => "thematic_break"@, BreakType::Page => "page_break"@ }) }
    spec fn v_rendered(&self) -> Option<Seq<char>> { None }
    spec fn v_nested(&self) -> Seq<Block<'a>> { Seq::empty() }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> MediaBlock<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { self.title_source }
    spec fn v_title(&self) -> Option<Seq<char>> { os(self.title) }
    spec fn v_anchor(&self) -> Option<Span<'a>> { self.anchor }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { self.anchor_reftext }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { self.attrlist }
    spec fn v_model(&self) -> ContentModel { ContentModel::Empty }
    spec fn v_context(&self) -> Seq<char> { (match self.type_ { MediaType::Audio => "audio"@, MediaType::Image => "image"@, MediaType::Video => "video"@ }) }
    spec fn v_rendered(&self) -> Option<Seq<char>> { None }
    spec fn v_nested(&self) -> Seq<Block<'a>> { Seq::empty() }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> RawDelimitedBlock<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { self.title_source }
    spec fn v_title(&self) -> Option<Seq<char>> { os(self.title) }
    spec fn v_anchor(&self) -> Option<Span<'a>> { self.anchor }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { self.anchor_reftext }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { self.attrlist }
    spec fn v_model(&self) -> ContentModel { self.content_model }
    spec fn v_context(&self) -> Seq<char> { self.context.t() }
    spec fn v_rendered(&self) -> Option<Seq<char>> { Some(text(self.content)) }
    spec fn v_nested(&self) -> Seq<Block<'a>> { Seq::empty() }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> CompoundDelimitedBlock<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { self.title_source }
    spec fn v_title(&self) -> Option<Seq<char>> { os(self.title) }
    spec fn v_anchor(&self) -> Option<Span<'a>> { self.anchor }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { self.anchor_reftext }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { self.attrlist }
    spec fn v_model(&self) -> ContentModel { ContentModel::Compound }
    spec fn v_context(&self) -> Seq<char> { self.context.t() }
    spec fn v_rendered(&self) -> Option<Seq<char>> { None }
    spec fn v_nested(&self) -> Seq<Block<'a>> { self.blocks@ }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> Preamble<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { None }
    spec fn v_title(&self) -> Option<Seq<char>> { None }
    spec fn v_anchor(&self) -> Option<Span<'a>> { None }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { None }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { None }
    spec fn v_model(&self) -> ContentModel { ContentModel::Compound }
    spec fn v_context(&self) -> Seq<char> { "preamble"@ }
    spec fn v_rendered(&self) -> Option<Seq<char>> { None }
    spec fn v_nested(&self) -> Seq<Block<'a>> { self.blocks@ }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> SectionBlock<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { self.title_source }
    spec fn v_title(&self) -> Option<Seq<char>> { os(self.title) }
    spec fn v_anchor(&self) -> Option<Span<'a>> { self.anchor }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { self.anchor_reftext }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { self.attrlist }
    spec fn v_model(&self) -> ContentModel { ContentModel::Compound }
    spec fn v_context(&self) -> Seq<char> { "section"@ }
    spec fn v_rendered(&self) -> Option<Seq<char>> { None }
    spec fn v_nested(&self) -> Seq<Block<'a>> { self.blocks@ }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { { let e = id_of(self.anchor, self.attrlist); if e is Some { e } else { os(self.section_id) } } }
}
impl<'a> Attribute<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { None }
    spec fn v_title(&self) -> Option<Seq<char>> { None }
    spec fn v_anchor(&self) -> Option<Span<'a>> { None }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { None }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { None }
    spec fn v_model(&self) -> ContentModel { ContentModel::Empty }
    spec fn v_context(&self) -> Seq<char> { "attribute"@ }
    spec fn v_rendered(&self) -> Option<Seq<char>> { None }
    spec fn v_nested(&self) -> Seq<Block<'a>> { Seq::empty() }
    spec fn v_span(&self) -> Span<'a> { self.source }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
impl<'a> Block<'a> {
    spec fn v_title_source(&self) -> Option<Span<'a>> { match *self { Block::Simple(b) => b.v_title_source(), Block::Break(b) => b.v_title_source(), Block::Media(b) => b.v_title_source(), Block::RawDelimited(b) => b.v_title_source(), Block::CompoundDelimited(b) => b.v_title_source(), Block::Preamble(b) => b.v_title_source(), Block::Section(b) => b.v_title_source(), Block::DocumentAttribute(b) => b.v_title_source(), } }
    spec fn v_title(&self) -> Option<Seq<char>> { match *self { Block::Simple(b) => b.v_title(), Block::Break(b) => b.v_title(), Block::Media(b) => b.v_title(), Block::RawDelimited(b) => b.v_title(), Block::CompoundDelimited(b) => b.v_title(), Block::Preamble(b) => b.v_title(), Block::Section(b) => b.v_title(), Block::DocumentAttribute(b) => b.v_title(), } }
    spec fn v_anchor(&self) -> Option<Span<'a>> { match *self { Block::Simple(b) => b.v_anchor(), Block::Break(b) => b.v_anchor(), Block::Media(b) => b.v_anchor(), Block::RawDelimited(b) => b.v_anchor(), Block::CompoundDelimited(b) => b.v_anchor(), Block::Preamble(b) => b.v_anchor(), Block::Section(b) => b.v_anchor(), Block::DocumentAttribute(b) => b.v_anchor(), } }
    spec fn v_anchor_reftext(&self) -> Option<Span<'a>> { match *self { Block::Simple(b) => b.v_anchor_reftext(), Block::Break(b) => b.v_anchor_reftext(), Block::Media(b) => b.v_anchor_reftext(), Block::RawDelimited(b) => b.v_anchor_reftext(), Block::CompoundDelimited(b) => b.v_anchor_reftext(), Block::Preamble(b) => b.v_anchor_reftext(), Block::Section(b) => b.v_anchor_reftext(), Block::DocumentAttribute(b) => b.v_anchor_reftext(), } }
    spec fn v_attrlist(&self) -> Option<Attrlist<'a>> { match *self { Block::Simple(b) => b.v_attrlist(), Block::Break(b) => b.v_attrlist(), Block::Media(b) => b.v_attrlist(), Block::RawDelimited(b) => b.v_attrlist(), Block::CompoundDelimited(b) => b.v_attrlist(), Block::Preamble(b) => b.v_attrlist(), Block::Section(b) => b.v_attrlist(), Block::DocumentAttribute(b) => b.v_attrlist(), } }
    spec fn v_model(&self) -> ContentModel { match *self { Block::Simple(b) => b.v_model(), Block::Break(b) => b.v_model(), Block::Media(b) => b.v_model(), Block::RawDelimited(b) => b.v_model(), Block::CompoundDelimited(b) => b.v_model(), Block::Preamble(b) => b.v_model(), Block::Section(b) => b.v_model(), Block::DocumentAttribute(b) => b.v_model(), } }
    spec fn v_context(&self) -> Seq<char> { match *self { Block::Simple(b) => b.v_context(), Block::Break(b) => b.v_context(), Block::Media(b) => b.v_context(), Block::RawDelimited(b) => b.v_context(), Block::CompoundDelimited(b) => b.v_context(), Block::Preamble(b) => b.v_context(), Block::Section(b) => b.v_context(), Block::DocumentAttribute(b) => b.v_context(), } }
    spec fn v_rendered(&self) -> Option<Seq<char>> { match *self { Block::Simple(b) => b.v_rendered(), Block::Break(b) => b.v_rendered(), Block::Media(b) => b.v_rendered(), Block::RawDelimited(b) => b.v_rendered(), Block::CompoundDelimited(b) => b.v_rendered(), Block::Preamble(b) => b.v_rendered(), Block::Section(b) => b.v_rendered(), Block::DocumentAttribute(b) => b.v_rendered(), } }
    spec fn v_nested(&self) -> Seq<Block<'a>> { match *self { Block::Simple(b) => b.v_nested(), Block::Break(b) => b.v_nested(), Block::Media(b) => b.v_nested(), Block::RawDelimited(b) => b.v_nested(), Block::CompoundDelimited(b) => b.v_nested(), Block::Preamble(b) => b.v_nested(), Block::Section(b) => b.v_nested(), Block::DocumentAttribute(b) => b.v_nested(), } }
    spec fn v_span(&self) -> Span<'a> { match *self { Block::Simple(b) => b.v_span(), Block::Break(b) => b.v_span(), Block::Media(b) => b.v_span(), Block::RawDelimited(b) => b.v_span(), Block::CompoundDelimited(b) => b.v_span(), Block::Preamble(b) => b.v_span(), Block::Section(b) => b.v_span(), Block::DocumentAttribute(b) => b.v_span(), } }
    spec fn v_id(&self) -> Option<Seq<char>> { id_of(self.v_anchor(), self.v_attrlist()) }
}
//@fn blocks/simple.rs | IsBlock for SimpleBlock::content_model
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::rendered_content
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::raw_context
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::nested_blocks
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::title_source
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::title
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::anchor
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::anchor_reftext
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::attrlist
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::id
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::roles
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::options
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::has_option
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::declared_style
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/simple.rs | IsBlock for SimpleBlock::resolved_context
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/simple.rs | HasSpan for SimpleBlock::span
//@ impl: impl<'src> SimpleBlock<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/break.rs | IsBlock for Break::content_model
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/break.rs | IsBlock for Break::rendered_content
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/break.rs | IsBlock for Break::raw_context
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/break.rs | IsBlock for Break::nested_blocks
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/break.rs | IsBlock for Break::title_source
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/break.rs | IsBlock for Break::title
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/break.rs | IsBlock for Break::anchor
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/break.rs | IsBlock for Break::anchor_reftext
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/break.rs | IsBlock for Break::attrlist
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/break.rs | IsBlock for Break::id
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/break.rs | IsBlock for Break::roles
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/break.rs | IsBlock for Break::options
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/break.rs | IsBlock for Break::has_option
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/break.rs | IsBlock for Break::declared_style
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/break.rs | IsBlock for Break::resolved_context
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/break.rs | HasSpan for Break::span
//@ impl: impl<'src> Break<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::content_model
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::rendered_content
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::raw_context
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::nested_blocks
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::title_source
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::title
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::anchor
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::anchor_reftext
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::attrlist
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::id
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::roles
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::options
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::has_option
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::declared_style
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/media.rs | IsBlock for MediaBlock::resolved_context
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/media.rs | HasSpan for MediaBlock::span
//@ impl: impl<'src> MediaBlock<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::content_model
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::rendered_content
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::raw_context
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::nested_blocks
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::title_source
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::title
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::anchor
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::anchor_reftext
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::attrlist
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::id
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::roles
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::options
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::has_option
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::declared_style
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/raw_delimited.rs | IsBlock for RawDelimitedBlock::resolved_context
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/raw_delimited.rs | HasSpan for RawDelimitedBlock::span
//@ impl: impl<'src> RawDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::content_model
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::rendered_content
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::raw_context
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::nested_blocks
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::title_source
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::title
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::anchor
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::anchor_reftext
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::attrlist
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::id
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::roles
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::options
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::has_option
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::declared_style
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/compound_delimited.rs | IsBlock for CompoundDelimitedBlock::resolved_context
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/compound_delimited.rs | HasSpan for CompoundDelimitedBlock::span
//@ impl: impl<'src> CompoundDelimitedBlock<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::content_model
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::rendered_content
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::raw_context
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::nested_blocks
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::title_source
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::title
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::anchor
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::anchor_reftext
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::attrlist
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::id
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::roles
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::options
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::has_option
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::declared_style
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/preamble.rs | IsBlock for Preamble::resolved_context
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/preamble.rs | HasSpan for Preamble::span
//@ impl: impl<'src> Preamble<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::content_model
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::rendered_content
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::raw_context
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::nested_blocks
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::title_source
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::title
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::anchor
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::anchor_reftext
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::attrlist
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::id
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::roles
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::options
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::has_option
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::declared_style
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/section.rs | IsBlock for SectionBlock::resolved_context
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/section.rs | HasSpan for SectionBlock::span
//@ impl: impl<'src> SectionBlock<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::content_model
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::rendered_content
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::raw_context
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::nested_blocks
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::title_source
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::title
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::anchor
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::anchor_reftext
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::attrlist
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn document/attribute.rs | IsBlock for Attribute::id
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn document/attribute.rs | IsBlock for Attribute::roles
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn document/attribute.rs | IsBlock for Attribute::options
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn document/attribute.rs | IsBlock for Attribute::has_option
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn document/attribute.rs | IsBlock for Attribute::declared_style
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn document/attribute.rs | IsBlock for Attribute::resolved_context
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn document/attribute.rs | HasSpan for Attribute::span
//@ impl: impl<'src> Attribute<'src>
//@ spec:
    ensures r == self.v_span()
//@end
//@fn blocks/block.rs | IsBlock for Block::content_model
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r == self.v_model()
//@end
//@fn blocks/block.rs | IsBlock for Block::rendered_content
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures ov(r) == self.v_rendered()
//@end
//@fn blocks/block.rs | IsBlock for Block::raw_context
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r.t() == self.v_context()
//@end
//@fn blocks/block.rs | IsBlock for Block::nested_blocks
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r.all() == self.v_nested()
//@end
//@fn blocks/block.rs | IsBlock for Block::title_source
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r == self.v_title_source()
//@end
//@fn blocks/block.rs | IsBlock for Block::title
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures ov(r) == self.v_title()
//@end
//@fn blocks/block.rs | IsBlock for Block::anchor
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r == self.v_anchor()
//@end
//@fn blocks/block.rs | IsBlock for Block::anchor_reftext
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r == self.v_anchor_reftext()
//@end
//@fn blocks/block.rs | IsBlock for Block::attrlist
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures oa(r) == self.v_attrlist()
//@end
//@fn blocks/block.rs | IsBlock for Block::id
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures ov(r) == self.v_id()
//@ closure 0 params: a: Span<'src>
//@ closure 0:
    -> (o: &'src str) ensures o@ == a.data@
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == (match self.v_attrlist() { Some(a) => id_in(a), None => None })
//@ closure 2 params: attrlist: &'src Attrlist<'src>
//@ closure 2:
    -> (o: Option<&'src str>) ensures ov(o) == id_in(*attrlist)
//@end
//@fn blocks/block.rs | IsBlock for Block::roles
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures txts(r@) == roles_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/block.rs | IsBlock for Block::options
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures txts(r@) == options_of(self.v_attrlist())
//@ start:
    proof { assert(txts(Seq::<&str>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn blocks/block.rs | IsBlock for Block::has_option
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r == options_of(self.v_attrlist()).contains(name.rf())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: bool) ensures o == options_in(*attrlist).contains(name.rf())
//@end
//@fn blocks/block.rs | IsBlock for Block::declared_style
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures ov(r) == style_in(self.v_attrlist())
//@ closure 0 params: attrlist: &'src Attrlist<'src>
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures (o is Some) == (nth(*attrlist, 1) is Some), o is Some ==> *(o->0) == nth(*attrlist, 1)->0
//@ closure 1 params: attr: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) ensures ov(o) == ea_style(*attr)
//@end
//@fn blocks/block.rs | IsBlock for Block::resolved_context
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r.t() == context_of(style_in(self.v_attrlist()), self.v_context())
//@end
//@fn blocks/block.rs | HasSpan for Block::span
//@ impl: impl<'src> Block<'src>
//@ spec:
    ensures r == self.v_span()
//@end
