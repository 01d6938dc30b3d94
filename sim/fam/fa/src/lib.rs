#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/fa/lib.rs");
