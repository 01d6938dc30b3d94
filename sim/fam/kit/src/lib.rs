#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/kit/lib.rs");
