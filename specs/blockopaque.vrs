/// A block, whatever it holds.
#[verifier::external_body] struct Block<'a> { x: &'a str }
