/// the errors of the regex crate, opaque
pub mod regex { use super::*; #[verifier::external_body] pub struct Error { v: Vec<u8> } }
/// the errors of the standard library, opaque
pub mod vx_io { use super::*; #[verifier::external_body] pub struct Error { v: Vec<u8> } }
pub mod vx_fmt {
use super::*;
// ---- displaying values: format!, write!, to_string (ASSUMED contracts) ----
#[verifier::external_body]
pub struct Formatter<'a> { v: &'a mut String }
impl<'a> Formatter<'a> { pub uninterp spec fn view(&self) -> Seq<char>; }
pub enum VxFmtResult { Written }
pub trait VxDisplay { spec fn shv(&self) -> Seq<char>; fn fmt(&self, f: &mut Formatter<'_>) -> (r: VxFmtResult) ensures final(f)@ == old(f)@ + self.shv(); }
impl VxDisplay for str { open spec fn shv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDisplay for String { open spec fn shv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: VxFmtResult) { unimplemented!() } }
impl<'b, T: VxDisplay + ?Sized> VxDisplay for &'b T { open spec fn shv(&self) -> Seq<char> { (**self).shv() } fn fmt(&self, f: &mut Formatter<'_>) -> (r: VxFmtResult) { (**self).fmt(f) } }
#[verifier::external_body] pub fn vx_put(f: &mut Formatter<'_>, s: &str) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_show<T: VxDisplay + ?Sized>(f: &mut Formatter<'_>, x: &T) ensures final(f)@ == old(f)@ + x.shv() { unimplemented!() }
#[verifier::external_body] pub fn vx_show_in<T: VxDisplay + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.shv() { unimplemented!() }
pub fn vx_fmt_ok() -> (r: VxFmtResult) { VxFmtResult::Written }
// ---- Result ----
pub trait VxResult<T, E> : Sized {
    spec fn rsv(&self) -> Result<T, E>;
    fn vx_map_err<F, G: FnOnce(E) -> F>(self, g: G) -> (r: Result<T, F>)
        requires self.rsv() is Err ==> g.requires((self.rsv()->Err_0,))
        ensures match self.rsv() { Ok(v) => r == Ok::<T, F>(v), Err(e) => r is Err && g.ensures((e,), r->Err_0) };
}
impl<T, E> VxResult<T, E> for Result<T, E> {
    open spec fn rsv(&self) -> Result<T, E> { *self }
    #[verifier::external_body] fn vx_map_err<F, G: FnOnce(E) -> F>(self, g: G) -> (r: Result<T, F>) { unimplemented!() }
}
}
pub use vx_fmt::*;
