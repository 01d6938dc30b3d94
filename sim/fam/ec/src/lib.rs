#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/ec/lib.rs");
