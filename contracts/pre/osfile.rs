// ---------------------------------------------------------------- reading a file, boxed errors
#[verifier::external_body] pub struct OsError { }
#[verifier::external_body] pub struct BoxErr { }
/// what the operating system gives as the text of the file at a path; None: it refuses, or the content is not UTF-8.
/// TRUSTED: it is the same for equal paths, that is, the file does not change. A String holds at most isize::MAX bytes (std).
pub uninterp spec fn file_text(path: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string<P: AsText>(path: P) -> (r: Result<String, OsError>)
    ensures match r { Ok(t) => file_text(path.as_text()) == Some(t@) && t@.len() <= isize::MAX, Err(_) => file_text(path.as_text()).is_none() }
{ unimplemented!() }
/// the conversion that `?` makes
#[verifier::external_body]
pub fn vx_boxed<E>(e: E) -> (r: BoxErr) { unimplemented!() }
/// what a function may write to a file: stated by its precondition
pub uninterp spec fn may_write(path: Seq<char>, text: Seq<char>) -> bool;
/// the operating system has reported success for replacing the file's content by that text
pub uninterp spec fn written(path: Seq<char>, text: Seq<char>) -> bool;
pub trait AsText { spec fn as_text(&self) -> Seq<char>; }
impl AsText for String { open spec fn as_text(&self) -> Seq<char> { self@ } }
impl<'a> AsText for &'a String { open spec fn as_text(&self) -> Seq<char> { self@ } }
impl<'a> AsText for &'a str { open spec fn as_text(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn write<P: AsText, C: AsText>(path: P, contents: C) -> (r: Result<(), OsError>)
    requires may_write(path.as_text(), contents.as_text())
    ensures r.is_ok() ==> written(path.as_text(), contents.as_text())
{ unimplemented!() }
// ---------------------------------------------------------------- standard output
/// the Debug text of this value has been printed. TRUSTED: println! prints.
pub uninterp spec fn printed<T>(x: T) -> bool;
#[verifier::external_body]
pub fn vx_show<T>(x: &T) ensures printed(*x) { unimplemented!() }
