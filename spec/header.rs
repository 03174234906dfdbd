#![verifier::loop_isolation(false)]
#![allow(unused, dead_code, non_snake_case, non_upper_case_globals, non_camel_case_types, unused_parens, unused_braces)]
#![feature(allocator_api)]
use vstd::prelude::*;
#[allow(unused_imports)] use crate::vp::*;
