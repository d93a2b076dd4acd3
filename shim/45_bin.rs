// what only the program around the library uses: the project file, scripts, plugins

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<(K, V)> }
/// the members of a map, in the order the map gives them
impl<K, V> View for HashMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
pub open spec fn pair_refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<'a, K, V> VxIntoIter for &'a HashMap<K, V> { type Item = (&'a K, &'a V); open spec fn iseq(self) -> Seq<(&'a K, &'a V)> { pair_refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() } }
// ---- shared libraries
#[verifier::external_body] pub struct Library { x: u8 }
pub struct VxLibError { pub x: u8 }
impl VxToString for VxLibError { uninterp spec fn strv(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// the library a file is, if it can be opened as one
pub uninterp spec fn library_at(p: Seq<char>) -> Option<Library>;
/// what the function of a name in a library returns, if it has one
pub uninterp spec fn library_fn(l: Library, name: Seq<u8>) -> Option<VxRawPlugin>;
#[verifier::external_body] pub struct VxRawPlugin { x: u8 }
pub struct PluginInitFn { pub x: u8 }
impl Library {
    #[verifier::external_body] pub fn new<P: VxAsRefPath>(p: P) -> (r: Result<Library, VxLibError>) ensures r is Ok == library_at(p.pv()) is Some, r is Ok ==> library_at(p.pv()) == Some(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn get<T>(&self, name: &[u8]) -> (r: Result<impl Fn() -> VxRawPlugin, VxLibError>)
        ensures r is Ok == library_fn(*self, name@) is Some,
            r is Ok ==> r->Ok_0.requires(()) && forall|z: VxRawPlugin| #[trigger] r->Ok_0.ensures((), z) ==> library_fn(*self, name@) == Some(z)
    { if true { return Err(VxLibError { x: 0 }); } Ok(|| -> VxRawPlugin { unimplemented!() }) }
}
// ---- other programs
pub struct VxCmd { pub prog: Ghost<Seq<char>>, pub args: Ghost<Seq<Seq<char>>>, pub vars: Ghost<Seq<(String, String)>> }
pub type Command = VxCmd;
impl VxCmd {
    #[verifier::external_body] pub fn new<T: VxAsRefPath>(p: T) -> (r: VxCmd) ensures r.prog@ == p.pv(), r.args@ == Seq::<Seq<char>>::empty(), r.vars@ == Seq::<(String, String)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: VxAsRefPath>(self, a: T) -> (r: VxCmd) ensures r.prog@ == self.prog@, r.args@ == self.args@.push(a.pv()), r.vars@ == self.vars@ { unimplemented!() }
    #[verifier::external_body] pub fn args<T: VxAsRefPath, const N: usize>(self, a: [T; N]) -> (r: VxCmd) ensures r.prog@ == self.prog@, r.args@ == self.args@ + path_texts(a@), r.vars@ == self.vars@ { unimplemented!() }
    #[verifier::external_body] pub fn envs(self, e: Vec<(String, String)>) -> (r: VxCmd) ensures r.prog@ == self.prog@, r.args@ == self.args@, r.vars@ == self.vars@ + e@ { unimplemented!() }
    /// the program is run to its end: it may do anything to the files
    #[verifier::external_body] pub fn output(self, w: &mut VxWorld) -> (r: Result<VxOutput, VxIoError>)
        ensures program_ran(self.prog@, self.args@, self.vars@, *old(w), *final(w), match r { Ok(o) => Some(o.status.success_()), Err(_) => None }),
            r is Ok ==> program_said(self.prog@, self.args@, *old(w), *final(w), r->Ok_0.stdout@),
            super::world_ok(*old(w)) ==> super::world_ok(*final(w)) { unimplemented!() }
}
pub open spec fn path_texts<T: VxAsRefPath>(s: Seq<T>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].pv()) }
/// running a program took the world from one state to the other, and it succeeded, failed or could not be started
pub uninterp spec fn program_ran(prog: Seq<char>, args: Seq<Seq<char>>, vars: Seq<(String, String)>, w0: VxWorld, w1: VxWorld, r: Option<bool>) -> bool;
/// the program printed this
pub uninterp spec fn program_said(prog: Seq<char>, args: Seq<Seq<char>>, w0: VxWorld, w1: VxWorld, out: Seq<u8>) -> bool;
pub struct VxOutput { pub status: VxStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
#[verifier::external_body] pub struct VxStatus { x: u8 }
impl VxStatus {
    pub uninterp spec fn success_(&self) -> bool;
    #[verifier::external_body] pub fn success(&self) -> (r: bool) ensures r == self.success_() { unimplemented!() }
    #[verifier::external_body] pub fn code(&self) -> (r: Option<i32>) ensures self.success_() == (r == Some(0i32)) { unimplemented!() }
}
/// text of bytes of which those that are not UTF-8 are replaced
pub uninterp spec fn utf8_lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == utf8_lossy(b@) { unimplemented!() }
// ---- time
#[verifier::external_body] pub struct Instant { x: u8 }
#[verifier::external_body] pub struct VxDuration { x: u8 }
impl Instant {
    #[verifier::external_body] pub fn now() -> (r: Instant) { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> (r: VxDuration) { unimplemented!() }
}
impl VxDuration {
    /// at most u64::MAX seconds
    #[verifier::external_body] pub fn as_micros(&self) -> (r: u128) ensures r <= 18446744073709551616000000 { unimplemented!() }
}
pub trait VxAsF64 { fn vx_as_f64(self) -> (r: f64); }
impl VxAsF64 for usize { #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { unimplemented!() } }
impl VxAsF64 for u128 { #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { unimplemented!() } }
pub trait VxOrDefault<T> { spec fn od(self) -> T; fn vx_unwrap_or_default(self) -> (r: T) ensures r == self.od(); }
impl<'a> VxOrDefault<&'a str> for Option<&'a str> { open spec fn od(self) -> &'a str { match self { Some(s) => s, None => "" } } fn vx_unwrap_or_default(self) -> (r: &'a str) { match self { Some(s) => s, None => "" } } }
impl VxOrDefault<i32> for Option<i32> { open spec fn od(self) -> i32 { match self { Some(s) => s, None => 0 } } fn vx_unwrap_or_default(self) -> (r: i32) { match self { Some(s) => s, None => 0 } } }
impl VxOrDefault<usize> for Option<usize> { open spec fn od(self) -> usize { match self { Some(s) => s, None => 0 } } fn vx_unwrap_or_default(self) -> (r: usize) { match self { Some(s) => s, None => 0 } } }
impl VxOrDefault<u64> for Option<u64> { open spec fn od(self) -> u64 { match self { Some(s) => s, None => 0 } } fn vx_unwrap_or_default(self) -> (r: u64) { match self { Some(s) => s, None => 0 } } }
impl VxOrDefault<i64> for Option<i64> { open spec fn od(self) -> i64 { match self { Some(s) => s, None => 0 } } fn vx_unwrap_or_default(self) -> (r: i64) { match self { Some(s) => s, None => 0 } } }
impl VxOrDefault<bool> for Option<bool> { open spec fn od(self) -> bool { match self { Some(s) => s, None => false } } fn vx_unwrap_or_default(self) -> (r: bool) { match self { Some(s) => s, None => false } } }
impl Path { #[verifier::external_body] pub fn display(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
// ---- the project file
/// where and why a text is no TOML; texts are shorter than 2^31
#[verifier::external_body] pub struct VxTomlError { x: u8 }
impl VxTomlError { #[verifier::external_body] pub fn line_col(&self) -> (r: Option<(usize, usize)>) ensures match r { Some(p) => p.0 < 0x7fff_fff0 && p.1 < 0x7fff_fff0, None => true } { unimplemented!() } }
pub uninterp spec fn toml_message(e: VxTomlError) -> Seq<char>;
impl VxToString for VxTomlError { open spec fn strv(&self) -> Seq<char> { toml_message(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// TOML: what a text says, and its tables
#[verifier::external_body] pub struct VxToml { x: u8 }
pub trait VxFromToml: Sized { spec fn of_toml(t: Seq<char>) -> Option<Self>; }
#[verifier::external_body] pub fn toml_from_str<T: VxFromToml>(s: &str) -> (r: Result<T, VxTomlError>) ensures match r { Ok(v) => T::of_toml(s@) == Some(v), Err(_) => T::of_toml(s@) is None } { unimplemented!() }
pub uninterp spec fn toml_value(t: Seq<char>) -> Option<VxToml>;
pub uninterp spec fn toml_get(v: VxToml, k: Seq<char>) -> Option<VxToml>;
pub uninterp spec fn toml_text(v: VxToml) -> Option<Seq<char>>;
impl VxFromToml for VxToml { open spec fn of_toml(t: Seq<char>) -> Option<VxToml> { toml_value(t) } }
impl VxToml {
    #[verifier::external_body] pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a VxToml>) ensures match r { Some(x) => toml_get(*self, k@) == Some(*x), None => toml_get(*self, k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn as_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { Some(x) => toml_text(*self) == Some(x@), None => toml_text(*self) is None } { unimplemented!() }
}
pub uninterp spec fn io_message(e: VxIoError) -> Seq<char>;
impl VxToString for VxIoError { open spec fn strv(&self) -> Seq<char> { io_message(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn path_parent(p: Seq<char>) -> Option<Seq<char>>;
/// whether a path ends with the parts of another
pub uninterp spec fn path_ends(p: Seq<char>, o: Seq<char>) -> bool;
#[derive(Debug)] pub struct VxNever { x: u8 }
impl Path {
    #[verifier::external_body] pub fn vx_starts_with<T: VxAsRefPath>(&self, o: T) -> (r: bool) ensures r == path_strip(self@, o.pv()) is Some { unimplemented!() }
    #[verifier::external_body] pub fn vx_ends_with<T: VxAsRefPath>(&self, o: T) -> (r: bool) ensures r == path_ends(self@, o.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn parent<'a>(&'a self) -> (r: Option<&'a Path>) ensures r is Some == path_parent(self@) is Some, r is Some ==> (r->0)@ == path_parent(self@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn try_from<T: VxAsRefPath>(s: T) -> (r: Result<Path, VxNever>) ensures r is Ok, r->Ok_0@ == s.pv() { unimplemented!() }
}
/// only a path with a parent leads to a file
#[verifier::external_body]
pub fn read_to_string<P: VxAsRefPath>(p: P, w: &mut VxWorld) -> (r: Result<String, VxIoError>)
    ensures *final(w) == *old(w), r is Ok == (old(w).bytes(p.pv()) is Some && utf8_inv(old(w).bytes(p.pv())->0) is Some),
        r is Ok ==> r->Ok_0@ == utf8_inv(old(w).bytes(p.pv())->0)->0 && path_parent(p.pv()) is Some { unimplemented!() }
// ---- the terminal: text in a buffer, which takes everything
#[derive(Clone, Copy)] pub enum Color { Black, Blue, Green, Red, Cyan, Magenta, Yellow, White }
#[derive(Clone, Copy)] pub enum ColorChoice { Always, AlwaysAnsi, Auto, Never }
pub struct ColorSpec { pub x: u8 }
impl ColorSpec {
    #[verifier::external_body] pub fn new() -> (r: ColorSpec) { unimplemented!() }
    #[verifier::external_body] pub fn set_fg(self, c: Option<Color>) -> (r: ColorSpec) { unimplemented!() }
    #[verifier::external_body] pub fn set_bg(self, c: Option<Color>) -> (r: ColorSpec) { unimplemented!() }
    #[verifier::external_body] pub fn set_intense(self, c: bool) -> (r: ColorSpec) { unimplemented!() }
    #[verifier::external_body] pub fn set_bold(self, c: bool) -> (r: ColorSpec) { unimplemented!() }
    #[verifier::external_body] pub fn set_underline(self, c: bool) -> (r: ColorSpec) { unimplemented!() }
}
#[verifier::external_body] pub struct Buffer { x: u8 }
impl View for Buffer { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Buffer {
    #[verifier::external_body] pub fn set_color(&mut self, c: ColorSpec) -> (r: Result<(), VxIoError>) ensures r is Ok, final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn reset(&mut self) -> (r: Result<(), VxIoError>) ensures r is Ok, final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>) ensures r is Ok, final(self)@ == old(self)@ + t@ { unimplemented!() }
}
pub struct BufferWriter { pub x: u8 }
impl BufferWriter {
    #[verifier::external_body] pub fn stderr(c: ColorChoice) -> (r: BufferWriter) { unimplemented!() }
    #[verifier::external_body] pub fn stdout(c: ColorChoice) -> (r: BufferWriter) { unimplemented!() }
    #[verifier::external_body] pub fn buffer(&self) -> (r: Buffer) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    /// standard error is open
    #[verifier::external_body] pub fn print(&self, b: &Buffer) -> (r: Result<(), VxIoError>) ensures r is Ok { unimplemented!() }
}
// ---- looking at the files without relying on what is there
/// the file at this path was read
pub uninterp spec fn vx_peeked(p: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_peek_text<P: VxAsRefPath>(p: P) -> (r: Result<String, VxIoError>) ensures vx_peeked(p.pv()) { unimplemented!() }
#[verifier::external_body] pub fn vx_peek_dir() -> (r: Result<PathBuf, VxIoError>) { unimplemented!() }
#[verifier::external_body] pub fn vx_peek_canonical<P: VxAsRefPath>(p: P) -> (r: Result<PathBuf, VxIoError>) { unimplemented!() }
pub trait VxUnwrapOr<T> { spec fn uo(self, d: T) -> T; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == self.uo(d); }
impl<T> VxUnwrapOr<T> for Option<T> { open spec fn uo(self, d: T) -> T { match self { Some(x) => x, None => d } } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } } }
impl<T, E> VxUnwrapOr<T> for Result<T, E> { open spec fn uo(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } } }
pub assume_specification[ str::repeat ](s: &str, n: usize) -> (r: String) ensures r@.len() == n * s@.len();
// ---- the development server
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Mutex<T> { t: std::marker::PhantomData<T> }
/// the content of a mutex while it is held: whatever the threads which held it before left in it; no thread panics while it holds one
impl<T> Mutex<T> { #[verifier::external_body] pub fn new(t: T) -> (r: Mutex<T>) { unimplemented!() } }
impl<T> Mutex<T> { #[verifier::external_body] pub fn lock(&self) -> (r: Result<T, VxNever>) ensures r is Ok { unimplemented!() } }
/// a connection: which one it is, what was sent over it so far, whether the last message was refused
#[verifier::external_body] pub struct WebsocketStream { x: u8 }
pub uninterp spec fn ws_id(s: WebsocketStream) -> int;
pub uninterp spec fn ws_sent(s: WebsocketStream) -> Seq<Seq<char>>;
pub uninterp spec fn ws_refused(s: WebsocketStream) -> bool;
#[verifier::external_body] pub struct Message { x: u8 }
impl View for Message { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Message { #[verifier::external_body] pub fn new<T: VxSv>(t: T) -> (r: Message) ensures r@ == t.sv() { unimplemented!() } }
impl WebsocketStream {
    #[verifier::external_body] pub fn send(&mut self, m: Message, w: &mut VxWorld) -> (r: Result<(), VxNever>)
        ensures *final(w) == *old(w), ws_id(*final(self)) == ws_id(*old(self)), ws_sent(*final(self)) == ws_sent(*old(self)).push(m@), ws_refused(*final(self)) == (r is Err) { unimplemented!() }
}
#[verifier::external_body] pub struct VxFlag { x: u8 }
/// which ordering an atomic store uses is dropped
impl VxFlag { #[verifier::external_body] pub fn store(&self, b: bool, o: VxOrdering) { unimplemented!() } }
pub struct VxOrdering { pub x: u8 }
impl VxOrdering { #[allow(non_upper_case_globals)] pub const SeqCst: VxOrdering = VxOrdering { x: 0 }; }
/// the logger is registered before any command runs
pub struct VxLogger { pub enabled: VxFlag }
pub struct VxLoggerCell { pub x: u8 }
pub const LOGGER: VxLoggerCell = VxLoggerCell { x: 0 };
impl VxLoggerCell { #[verifier::external_body] pub fn get<'a>(&'a self) -> (r: Option<&'a VxLogger>) ensures r is Some { unimplemented!() } }
impl VxLogger { #[verifier::external_body] pub fn has_logged(&self) -> (r: bool) { unimplemented!() } }
/// what the watcher reports: the project's files may have changed in any way before it does
pub struct RawEvent { pub path: Option<PathBuf>, pub cookie: Option<u32> }
pub uninterp spec fn watched(e: RawEvent) -> bool;
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { t: std::marker::PhantomData<T> }
impl Receiver<RawEvent> {
    #[verifier::external_body] pub fn recv(&self, w: &mut VxWorld) -> (r: Result<RawEvent, VxNever>) ensures r is Ok ==> watched(r->Ok_0), super::world_ok(*final(w)) { unimplemented!() }
    #[verifier::external_body] pub fn try_recv(&self) -> (r: Result<RawEvent, VxNever>) { unimplemented!() }
}
pub use std::sync::Arc;
impl<T> VxDefault for Arc<T> { open spec fn dflt(&self) -> bool { true } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
pub enum StatusCode { Continue,SwitchingProtocols,OK,Created,Accepted,NonAuthoritative,NoContent,ResetContent,PartialContent,MultipleChoices,MovedPermanently,Found,SeeOther,NotModified,UseProxy,TemporaryRedirect,BadRequest,Unauthorized,Forbidden,NotFound,MethodNotAllowed,NotAcceptable,ProxyAuthenticationRequired,RequestTimeout,Conflict,Gone,LengthRequired,PreconditionFailed,RequestEntityTooLarge,RequestURITooLong,UnsupportedMediaType,RequestedRangeNotSatisfiable,ExpectationFailed,InternalError,NotImplemented,BadGateway,ServiceUnavailable,GatewayTimeout,VersionNotSupported }
pub enum HeaderType { Accept, AcceptCharset, AcceptEncoding, AcceptLanguage, AccessControlRequestMethod, AccessControlRequestHeaders, Authorization, CacheControl, Connection, ContentEncoding, ContentLength, ContentType, Cookie, Date, Expect, Forwarded, From, Host, Origin, Pragma, Referer, Upgrade, UserAgent, Via, Warning, AccessControlAllowOrigin, AccessControlAllowHeaders, AccessControlAllowMethods, Age, Allow, ContentDisposition, ContentLanguage, ContentLocation, ETag, Expires, LastModified, Link, Location, Server }
pub struct Request { pub uri: String, pub query: String, pub version: String, pub content: Option<Vec<u8>> }
pub struct Response { pub version: String, pub status_code: StatusCode, pub body: Vec<u8> }
impl Response {
    #[verifier::external_body] pub fn new<T: VxBytes>(s: StatusCode, b: T) -> (r: Response) ensures r.status_code == s, r.body@ == b.bv() { unimplemented!() }
    #[verifier::external_body] pub fn empty(s: StatusCode) -> (r: Response) ensures r.status_code == s, r.body@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_header<V: VxSv>(self, h: HeaderType, v: V) -> (r: Response) ensures r.status_code == self.status_code, r.body@ == self.body@ { unimplemented!() }
    #[verifier::external_body] pub fn with_bytes<T: VxBytes>(self, b: T) -> (r: Response) ensures r.status_code == self.status_code, r.body@ == b.bv() { unimplemented!() }
}
#[verifier::external_body] pub struct MimeType { x: u8 }
impl MimeType { #[verifier::external_body] pub fn from_extension<'a>(e: &'a str) -> (r: MimeType) { unimplemented!() } }
pub uninterp spec fn mime_text(m: MimeType) -> Seq<char>;
impl VxToString for MimeType { open spec fn strv(&self) -> Seq<char> { mime_text(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// what a request finds in the directory
pub enum LocatedPath { Directory, File(PathBuf) }
pub uninterp spec fn located(dir: Seq<char>, uri: Seq<char>) -> Option<LocatedPath>;
#[verifier::external_body] pub fn try_find_path<'a, const N: usize>(dir: &'a str, uri: &'a str, index: &'a [&'a str; N]) -> (r: Option<LocatedPath>) ensures r == located(dir@, uri@) { unimplemented!() }
/// the bytes of a file while a request for it is answered; none when it can not be read
pub uninterp spec fn file_now(p: Seq<char>) -> Option<Seq<u8>>;
pub struct File { pub p: Ghost<Seq<char>> }
impl File {
    #[verifier::external_body] pub fn open<P: VxAsRefPath>(p: P) -> (r: Result<File, VxIoError>) ensures r is Ok == file_now(p.pv()) is Some, r is Ok ==> r->Ok_0.p@ == p.pv() { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, VxIoError>)
        ensures file_now(old(self).p@) is Some ==> r is Ok && final(b)@ == old(b)@ + file_now(old(self).p@)->0 { unimplemented!() }
}
pub open spec fn windows_of<T>(s: Seq<T>, n: int) -> Seq<Seq<T>> { Seq::new(if n <= s.len() { (s.len() - n + 1) as nat } else { 0 }, |i: int| s.subrange(i, i + n)) }
pub open spec fn slices<T>(s: Seq<&[T]>) -> Seq<Seq<T>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VxWindows<T> { fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) requires n > 0 ensures slices(r@) == windows_of(self.wv(), n as int), r@.len() <= usize::MAX; spec fn wv(&self) -> Seq<T>; }
impl<T> VxWindows<T> for Vec<T> { open spec fn wv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) { unimplemented!() } }
impl<T> VxWindows<T> for [T] { open spec fn wv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) { unimplemented!() } }
impl<'a, 'b, const N: usize> VxEq<&'b [u8; N]> for &'a [u8] { open spec fn eqs(&self, o: &&'b [u8; N]) -> bool { (*self)@ == (*o)@ } #[verifier::external_body] fn vx_eq_(&self, o: &&'b [u8; N]) -> (r: bool) { unimplemented!() } }
pub trait VxSplice<T> { spec fn plv(&self) -> Seq<T>; fn vx_splice(&mut self, a: usize, b: usize, v: Vec<T>) requires a <= b <= old(self).plv().len() ensures final(self).plv() == spliced(old(self).plv(), a as int, b as int, v@); }
pub open spec fn spliced<T>(s: Seq<T>, a: int, b: int, v: Seq<T>) -> Seq<T> { s.take(a) + v + s.skip(b) }
impl<T> VxSplice<T> for Vec<T> { open spec fn plv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_splice(&mut self, a: usize, b: usize, v: Vec<T>) { unimplemented!() } }
/// a part of a path need not be Unicode
pub trait VxToStr { fn vx_to_str<'a>(&'a self) -> (r: Option<&'a str>); }
impl VxToStr for str { #[verifier::external_body] fn vx_to_str<'a>(&'a self) -> (r: Option<&'a str>) { unimplemented!() } }

// ---- the HTTP client
/// the client can ask for the URL
pub uninterp spec fn url_ok(url: Seq<char>) -> bool;
/// the body of what was answered in the end, whether redirects are followed or not
pub uninterp spec fn http_answers(url: Seq<char>, redirects: bool, w0: VxWorld, w1: VxWorld, r: Option<Seq<u8>>) -> bool;
pub struct VxNetError { pub x: u8 }
pub struct Client { pub x: u8 }
pub struct VxRequest { pub url: Ghost<Seq<char>>, pub redirects: bool }
pub struct VxAnswer { pub body: Vec<u8> }
impl Client {
    pub fn new() -> (r: Client) { Client { x: 0 } }
    #[verifier::external_body] pub fn get(&mut self, url: &str) -> (r: Result<VxRequest, VxNetError>) ensures r is Ok == url_ok(url@), r is Ok ==> r->Ok_0.url@ == url@ && !r->Ok_0.redirects { unimplemented!() }
}
impl VxRequest {
    pub fn with_redirects(self, b: bool) -> (r: VxRequest) ensures r.url@ == self.url@, r.redirects == b { VxRequest { url: self.url, redirects: b } }
    #[verifier::external_body] pub fn send(self, vx_w: &mut VxWorld) -> (r: Result<VxAnswer, VxNetError>)
        ensures http_answers(self.url@, self.redirects, *old(vx_w), *final(vx_w), match r { Ok(a) => Some(a.body@), Err(_) => None }), world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)) { unimplemented!() }
}
