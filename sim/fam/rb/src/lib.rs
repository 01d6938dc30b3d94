#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/rb/lib.rs");
