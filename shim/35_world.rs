// The files on disk, as the only process that writes them sees them: what each path leads to. A call that fails for a reason of
// its own (no space, no permission, no parent directory) sets `failed`, and what it leaves behind is not known.
pub enum VxEntry { Dir, File(Seq<u8>) }
pub type Fs = IMap<Seq<char>, VxEntry>;
#[verifier::external_body]
pub struct VxWorld { x: usize }
impl VxWorld {
    pub uninterp spec fn fs(&self) -> Fs;
    pub uninterp spec fn failed(&self) -> bool;
}
#[derive(PartialEq, Eq)]
pub enum ErrorKind { NotFound, PermissionDenied, AlreadyExists, Other }
impl VxEq<ErrorKind> for ErrorKind { open spec fn eqs(&self, o: &ErrorKind) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_(&self, o: &ErrorKind) -> (r: bool) { unimplemented!() } }
impl VxIoError { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures (r == ErrorKind::AlreadyExists) == self.exists { unimplemented!() } }
/// q is the path p or lies below it
pub open spec fn path_under(q: Seq<char>, p: Seq<char>) -> bool { is_prefix(p, q) && (q.len() == p.len() || q[p.len() as int] == '/') }
pub open spec fn fs_without(fs: Fs, p: Seq<char>) -> Fs { fs.restrict(ISet::new(|q: Seq<char>| !path_under(q, p))) }
pub open spec fn fs_is_dir(fs: Fs, p: Seq<char>) -> bool { fs.contains_key(p) && fs[p] is Dir }
impl Path {
    #[verifier::external_body] pub fn exists(&self, w: &VxWorld) -> (r: bool) ensures r == w.fs().contains_key(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self, w: &VxWorld) -> (r: bool) ensures r == (w.kind(self@) == Some(VxKind::File)) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self, w: &VxWorld) -> (r: bool) ensures r == fs_is_dir(w.fs(), self@) { unimplemented!() }
}
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; }
impl VxBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for String { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl VxBytes for str { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }
#[verifier::external_body]
pub fn create_dir<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<(), VxIoError>)
    ensures
        r is Ok ==> !old(w).fs().contains_key(p.pv()) && final(w).fs() == old(w).fs().insert(p.pv(), VxEntry::Dir) && final(w).failed() == old(w).failed(),
        r is Err && r->Err_0.exists ==> old(w).fs().contains_key(p.pv()) && final(w).fs() == old(w).fs() && final(w).failed() == old(w).failed(),
        r is Err && !r->Err_0.exists ==> final(w).failed(),
{ unimplemented!() }
/// the directory p and those above it were made; nothing else is touched
pub uninterp spec fn dirs_made(p: Seq<char>, w0: VxWorld, w1: VxWorld, ok: bool) -> bool;
#[verifier::external_body]
pub fn create_dir_all<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<(), VxIoError>)
    ensures dirs_made(p.pv(), *old(w), *final(w), r is Ok), super::world_ok(*old(w)) ==> super::world_ok(*final(w)), r is Err ==> final(w).failed(),
{ unimplemented!() }
#[verifier::external_body]
pub fn write<P: VxAsRefPath, C: VxBytes>(p: P, c: C, w: &mut VxWorld) -> (r: Result<(), VxIoError>)
    ensures
        r is Ok ==> final(w).fs() == old(w).fs().insert(p.pv(), VxEntry::File(c.bv())) && final(w).failed() == old(w).failed(),
        r is Err ==> final(w).failed(),
        super::world_ok(*old(w)) ==> super::world_ok(*final(w)),
{ unimplemented!() }
#[verifier::external_body]
pub fn remove_dir_all<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<(), VxIoError>)
    ensures
        r is Ok ==> final(w).fs() == fs_without(old(w).fs(), p.pv()) && final(w).failed() == old(w).failed(),
        r is Err ==> final(w).failed() && same_outside(p.pv(), old(w).fs(), final(w).fs()),
{ unimplemented!() }
/// nothing but what is at p or below it differs
pub open spec fn same_outside(p: Seq<char>, a: Fs, b: Fs) -> bool { fs_without(a, p) == fs_without(b, p) }
#[verifier::external_body]
pub fn remove_file<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<(), VxIoError>)
    ensures
        r is Ok ==> final(w).fs() == old(w).fs().remove(p.pv()) && final(w).failed() == old(w).failed(),
        r is Err ==> final(w).failed() && final(w).fs() == old(w).fs(),
{ unimplemented!() }
// ---- what can be read
/// what a path leads to, once its links are followed
pub enum VxKind { Dir, File, Other }
impl VxWorld {
    /// the entries of a directory, in the order it gives them; what a path is; the bytes of a file; None where that fails
    pub uninterp spec fn list(&self, p: Seq<char>) -> Option<Seq<Seq<char>>>;
    pub uninterp spec fn kind(&self, p: Seq<char>) -> Option<VxKind>;
    /// what an entry is itself: a link is neither a directory nor a file
    pub uninterp spec fn lkind(&self, p: Seq<char>) -> Option<VxKind>;
    pub uninterp spec fn bytes(&self, p: Seq<char>) -> Option<Seq<u8>>;
    pub uninterp spec fn canon(&self, p: Seq<char>) -> Option<Seq<char>>;
    /// how deep the tree below a path is: directories are finite, and their links make no cycle
    pub uninterp spec fn depth(&self, p: Seq<char>) -> nat;
}
/// the entries of a directory have names of their own and lie less deep
pub open spec fn entries_ok(w: VxWorld, p: Seq<char>, l: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> path_file_name(#[trigger] l[i]) is Some && w.depth(l[i]) < w.depth(p)
}
pub struct VxDirEntry { pub p: PathBuf }
pub uninterp spec fn entry_kind(e: VxDirEntry) -> Option<VxKind>;
impl VxDirEntry {
    #[verifier::external_body] pub fn metadata(&self) -> (r: Result<VxMetadata, VxIoError>) ensures r is Ok == entry_kind(*self) is Some, r is Ok ==> r->Ok_0.k == entry_kind(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: String) ensures path_file_name(self.p@) is Some ==> r@ == path_file_name(self.p@)->0 { unimplemented!() }
    pub fn path(&self) -> (r: PathBuf) ensures r == self.p { self.p.to_path_buf() } }
pub struct VxReadDir { pub it: VxIter<VxDirEntry> }
impl VxReadDir { pub fn flatten(self) -> (r: VxIter<VxDirEntry>) ensures r == self.it { self.it } }
pub open spec fn entry_paths(s: Seq<VxDirEntry>) -> Seq<Seq<char>> { s.map_values(|e: VxDirEntry| e.p@) }
#[verifier::external_body]
pub fn read_dir<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<VxReadDir, VxIoError>)
    ensures
        *final(w) == *old(w), r is Ok == old(w).list(p.pv()) is Some,
        r is Ok ==> entry_paths(r->Ok_0.it@) == old(w).list(p.pv())->0,
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.it@.len() ==> entry_kind(#[trigger] r->Ok_0.it@[i]) == old(w).lkind(r->Ok_0.it@[i].p@),
{ unimplemented!() }
#[verifier::external_body]
pub fn read<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<Vec<u8>, VxIoError>)
    ensures *final(w) == *old(w), r is Ok == old(w).bytes(p.pv()) is Some, r is Ok ==> r->Ok_0@ == old(w).bytes(p.pv())->0
{ unimplemented!() }
pub struct VxFileType { pub k: VxKind }
impl VxFileType {
    pub fn is_dir(&self, w: &VxWorld) -> (r: bool) ensures r == (self.k is Dir) { match self.k { VxKind::Dir => true, _ => false } }
    pub fn is_file(&self, w: &VxWorld) -> (r: bool) ensures r == (self.k is File) { match self.k { VxKind::File => true, _ => false } }
}
pub struct VxMetadata { pub k: VxKind }
impl VxMetadata {
    pub fn is_dir(&self, w: &VxWorld) -> (r: bool) ensures r == (self.k is Dir) { match self.k { VxKind::Dir => true, _ => false } }
    pub fn is_file(&self, w: &VxWorld) -> (r: bool) ensures r == (self.k is File) { match self.k { VxKind::File => true, _ => false } }
    pub fn file_type(self) -> (r: VxFileType) ensures r.k == self.k { VxFileType { k: self.k } } }
#[verifier::external_body]
pub fn metadata<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<VxMetadata, VxIoError>)
    ensures *final(w) == *old(w), r is Ok == old(w).kind(p.pv()) is Some, r is Ok ==> r->Ok_0.k == old(w).kind(p.pv())->0
{ unimplemented!() }
impl Path {
    #[verifier::external_body] pub fn canonicalize(&self, w: &VxWorld) -> (r: Result<PathBuf, VxIoError>)
        ensures r is Ok == w.canon(self@) is Some, r is Ok ==> r->Ok_0@ == w.canon(self@)->0 { unimplemented!() }
}
