//! Glue between the generated code of planus and the simulator: contexts for building and
//! reading, harness implementations of planus' public write traits, and the interface each
//! schema version offers to the simulator.
pub mod read;
pub mod seq;
pub mod write;

pub use planus;
pub use read::{opt, req, RCx};
pub use simcore;
pub use simcore::schema::{Mode, Schema, Ty, Val};
pub use write::*;

use planus::Builder;

/// One generated schema version.
pub trait Api: Sync {
    fn schema(&self) -> &'static Schema;
    /// Serialize `v` as table `t` (the offset lands in the pool of `cx`).
    fn build(&self, t: usize, cx: &Cx, b: &mut Builder, v: &Val);
    /// Serialize `v` as table `t` and finish; the buffer is `b.as_slice()` afterwards.
    /// Returns whether what `finish` returned is that slice.
    fn finish(&self, t: usize, cx: &Cx, b: &mut Builder, v: &Val, ident: Option<[u8; 4]>) -> bool;
    /// Through the accessors.
    fn read(&self, t: usize, cx: &RCx, bytes: &[u8]) -> Val;
    /// Through the conversion to the owned type.
    fn owned(&self, t: usize, bytes: &[u8]) -> Result<Val, String>;
    fn debug(&self, t: usize, bytes: &[u8]) -> Result<String, String>;
    /// `Default::default()` of the owned type, if it has one.
    fn default(&self, t: usize) -> Option<Val>;
}

/// Finish, and check that what is returned is what the builder holds.
pub fn fin<T>(b: &mut Builder, root: impl planus::WriteAsOffset<T>, ident: Option<[u8; 4]>) -> bool {
    let (p, l) = {
        let s = b.finish(root, ident);
        (s.as_ptr(), s.len())
    };
    let a = b.as_slice();
    a.as_ptr() == p && a.len() == l
}
pub fn dbg_root<T: std::fmt::Debug>(r: planus::Result<T>) -> Result<String, String> {
    match r {
        Ok(x) => Ok(format!("{x:?}")),
        Err(e) => Err(format!("{e} {e:?}")),
    }
}
