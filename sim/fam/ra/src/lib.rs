#![allow(warnings)]
use simsup::planus::*;
use simsup::*;
include!("../../../gen/ra/lib.rs");
