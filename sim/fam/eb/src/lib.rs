#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/eb/lib.rs");
