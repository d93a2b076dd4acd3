// std::path, with a path represented by its text. Path and PathBuf are one type here.

#[verifier::external_body]
pub struct Path { x: usize }
pub type PathBuf = Path;
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn vx_path(s: Seq<char>) -> Path;
pub broadcast axiom fn ax_path_view(p: Path) ensures vx_path(#[trigger] p@) == p;
pub broadcast axiom fn ax_view_path(s: Seq<char>) ensures (#[trigger] vx_path(s))@ == s;

pub enum Component<'a> { Prefix(&'a str), RootDir, CurDir, ParentDir, Normal(&'a str) }
/// the components of a path, as std::path computes them from its text
pub uninterp spec fn path_comps<'a>(p: Seq<char>) -> Seq<Component<'a>>;
pub uninterp spec fn path_join(p: Seq<char>, q: Seq<char>) -> Seq<char>;
pub open spec fn path_relative(p: Seq<char>) -> bool { !(p.len() > 0 && p[0] == '/') }
pub axiom fn ax_join_absolute(p: Seq<char>, q: Seq<char>) ensures !path_relative(q) ==> path_join(p, q) == q;
impl Path { #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) ensures r == path_relative(self@) { unimplemented!() } }
pub uninterp spec fn path_file_name(p: Seq<char>) -> Option<Seq<char>>;
/// what follows the last dot of a file name, unless the name begins with it
pub open spec fn last_dot(n: Seq<char>) -> int decreases n.len() { if n.len() == 0 { -1 } else if n.last() == '.' { n.len() - 1 } else { last_dot(n.drop_last()) } }
pub open spec fn ext_of(n: Seq<char>) -> Option<Seq<char>> { if last_dot(n) > 0 { Some(n.skip(last_dot(n) + 1)) } else { None } }
pub open spec fn path_extension(p: Seq<char>) -> Option<Seq<char>> { match path_file_name(p) { Some(n) => ext_of(n), None => None } }
pub proof fn lemma_last_dot(n: Seq<char>)
    ensures -1 <= last_dot(n) < n.len(), last_dot(n) >= 0 ==> n[last_dot(n)] == '.', forall|i: int| last_dot(n) < i < n.len() ==> #[trigger] n[i] != '.'
    decreases n.len()
{ if n.len() > 0 && n.last() != '.' { lemma_last_dot(n.drop_last());
    assert forall|i: int| last_dot(n) < i < n.len() implies #[trigger] n[i] != '.' by { if i < n.len() - 1 { assert(n.drop_last()[i] == n[i]); } } } }
pub proof fn lemma_md_name(n: Seq<char>)
    requires ext_of(n) == Some("md"@)
    ensures is_suffix(".md"@, n)
{ lemma_last_dot(n); reveal_strlit("md"); reveal_strlit(".md"); let i = last_dot(n); assert(n.skip(i + 1) == "md"@); assert(n.skip(i + 1).len() == 2); assert(n.skip(n.len() - 3) =~= ".md"@) by {
    assert(n.skip(i + 1)[0] == n[i + 1]); assert(n.skip(i + 1)[1] == n[i + 2]); } }
pub uninterp spec fn path_strip(p: Seq<char>, q: Seq<char>) -> Option<Seq<char>>;
pub struct VxIoError { pub exists: bool }
#[verifier::external] impl std::fmt::Debug for Path { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
#[verifier::external] impl std::fmt::Debug for VxIoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
#[derive(Debug)] pub struct VxStripError { pub x: u8 }
impl Path {
    #[verifier::external_body] pub fn from<T: VxAsRefPath>(s: T) -> (r: Path) ensures r@ == s.pv() { unimplemented!() }
    #[verifier::external_body] pub fn new<'a, T: VxAsRefPath + ?Sized>(s: &'a T) -> (r: &'a Path) ensures r@ == s.pv() { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: Path) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_string_lossy(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn file_name<'a>(&'a self) -> (r: Option<&'a str>)
        ensures r is Some == path_file_name(self@) is Some, r is Some ==> (r->0)@ == path_file_name(self@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn extension<'a>(&'a self) -> (r: Option<&'a str>)
        ensures r is Some == path_extension(self@) is Some, r is Some ==> (r->0)@ == path_extension(self@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn join<T: VxAsRefPath>(&self, o: T) -> (r: Path) ensures r@ == path_join(self@, o.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_join<T: VxAsRefPath>(&self, o: T) -> (r: Path) ensures r@ == path_join(self@, o.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn components<'a>(&'a self) -> (r: VxIter<Component<'a>>) ensures r@ == path_comps(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_strip_prefix<'a, T: VxAsRefPath>(&'a self, o: T) -> (r: Result<&'a Path, VxStripError>)
        ensures r is Ok == path_strip(self@, o.pv()) is Some, r is Ok ==> (r->Ok_0)@ == path_strip(self@, o.pv())->0 { unimplemented!() }
}
pub trait VxLossy { spec fn lossy(&self) -> Seq<char>; fn vx_to_string_lossy(&self) -> (r: String) ensures r@ == self.lossy(); }
impl VxLossy for str { open spec fn lossy(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string_lossy(&self) -> (r: String) { unimplemented!() } }
impl VxLossy for String { open spec fn lossy(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string_lossy(&self) -> (r: String) { unimplemented!() } }
pub trait VxIntoOwned: Sized { fn into_owned(self) -> (r: Self) ensures r == self; }
impl VxIntoOwned for String { fn into_owned(self) -> (r: String) { self } }
pub trait VxAsRefPath { spec fn pv(&self) -> Seq<char>; fn as_ref(&self) -> (r: &Path) ensures r@ == self.pv(); }
impl VxAsRefPath for Path { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl VxAsRefPath for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl VxAsRefPath for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl<T: VxAsRefPath + ?Sized> VxAsRefPath for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
