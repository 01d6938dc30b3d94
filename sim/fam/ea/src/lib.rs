#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/ea/lib.rs");
