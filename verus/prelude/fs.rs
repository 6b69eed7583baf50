pub mod vx_files {
use super::*;
// ---- paths and files (ASSUMED contracts): the files do not change while a function reads them ----
/// the bytes of a name or path
pub type OsText = Seq<u8>;
/// the bytes of a text
pub uninterp spec fn os_of(s: Seq<char>) -> OsText;
pub broadcast axiom fn axiom_os_of(a: Seq<char>, b: Seq<char>)
    ensures #![trigger os_of(a), os_of(b)] os_of(a) == os_of(b) ==> a == b;
pub uninterp spec fn path_join(d: OsText, f: OsText) -> OsText;
/// the path as a text, when it is one
pub uninterp spec fn path_str(p: OsText) -> Option<Seq<char>>;
/// the text of a file: none when there is no such file, or it cannot be read
pub uninterp spec fn fs_text(p: OsText) -> Option<Seq<char>>;
/// the names in a directory: none when they cannot be read
pub uninterp spec fn fs_list(p: OsText) -> Option<Set<OsText>>;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
pub trait VxIoError { fn vx_to_string(&self) -> (r: String); }
impl VxIoError for std::io::Error { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub struct OsString { v: Vec<u8> }
impl OsString {
    pub uninterp spec fn view(&self) -> OsText;
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) { unimplemented!() }
}
impl PartialEq for OsString { #[verifier::external_body] fn eq(&self, o: &OsString) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for OsString { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OsString) -> bool { self@ == o@ } }
#[verifier::external_body]
pub fn vx_os_string_from<S: VxPathArg>(s: S) -> (r: OsString) ensures r@ == s.pathv() { unimplemented!() }
#[verifier::external_body]
pub struct PathBuf { v: Vec<u8> }
pub type Path = PathBuf;
impl PathBuf {
    pub uninterp spec fn view(&self) -> OsText;
    #[verifier::external_body]
    pub fn vx_join<F: VxPathArg>(&self, f: F) -> (r: PathBuf) ensures r@ == path_join(self@, f.pathv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures match path_str(self@) { Some(t) => r is Some && (r->0)@ == t, None => r is None } { unimplemented!() }
}
pub trait VxPathArg { spec fn pathv(&self) -> OsText; }
impl VxPathArg for String { open spec fn pathv(&self) -> OsText { os_of(self@) } }
impl VxPathArg for str { open spec fn pathv(&self) -> OsText { os_of(self@) } }
impl VxPathArg for OsString { open spec fn pathv(&self) -> OsText { self@ } }
impl VxPathArg for PathBuf { open spec fn pathv(&self) -> OsText { self@ } }
impl<'a, T: VxPathArg + ?Sized> VxPathArg for &'a T { open spec fn pathv(&self) -> OsText { (**self).pathv() } }
#[verifier::external_body]
pub fn vx_read_to_string<P: VxPathArg>(p: P) -> (r: Result<String, std::io::Error>) ensures match fs_text(p.pathv()) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub struct DirEntry { v: Vec<u8> }
impl DirEntry {
    pub uninterp spec fn dirv(&self) -> OsText;
    pub uninterp spec fn namev(&self) -> OsText;
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString) ensures r@ == self.namev() { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r@ == path_join(self.dirv(), self.namev()) { unimplemented!() }
}
/// the entries `es` of a directory `d`
pub open spec fn entries_of(d: OsText, es: Seq<Result<DirEntry, std::io::Error>>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Ok ==> (es[i]->Ok_0).dirv() == d
    &&& match fs_list(d) {
        None => exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Err,
        Some(ns) => (forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Ok && ns.contains((es[i]->Ok_0).namev())) && (forall|n: OsText| #[trigger] ns.contains(n) ==> exists|i: int| 0 <= i < es.len() && ((#[trigger] es[i])->Ok_0).namev() == n),
    }
}
#[verifier::external_body]
pub fn vx_read_dir<P: VxPathArg>(p: P) -> (r: Result<VxIter<Result<DirEntry, std::io::Error>>, std::io::Error>)
    ensures r is Ok ==> entries_of(p.pathv(), (r->Ok_0).rest()), r is Err ==> fs_list(p.pathv()) is None
{ unimplemented!() }
// ---- enum_iterator ----
pub trait VxSequence : Sized { spec fn vx_variants() -> Seq<Self>; }
/// `all::<T>()`
#[verifier::external_body]
pub fn vx_all_variants<T: VxSequence>() -> (r: VxIter<T>) ensures r.rest() == T::vx_variants() { unimplemented!() }
}
pub use vx_files::*;
