#![allow(unused_attributes)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, non_camel_case_types)]
use std::ops::{Range, RangeFrom, RangeTo};
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
