// ---- the command line
/// what the arguments of the program say
#[verifier::external_body] pub struct ArgMatches { x: u8 }
pub uninterp spec fn arg_value(m: ArgMatches, k: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn arg_given(m: ArgMatches, k: Seq<char>) -> bool;
pub uninterp spec fn arg_command(m: ArgMatches) -> Option<(Seq<char>, ArgMatches)>;
impl ArgMatches {
    #[verifier::external_body] pub fn value_of<'a>(&'a self, k: &str) -> (r: Option<&'a str>) ensures match r { Some(v) => arg_value(*self, k@) == Some(v@), None => arg_value(*self, k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_present(&self, k: &str) -> (r: bool) ensures r == arg_given(*self, k@) { unimplemented!() }
    #[verifier::external_body] pub fn subcommand<'a>(&'a self) -> (r: Option<(&'a str, &'a ArgMatches)>) ensures match r { Some(c) => arg_command(*self) == Some((c.0@, *c.1)), None => arg_command(*self) is None } { unimplemented!() }
}
/// the program ends with this status
#[verifier::external_body] pub fn exit(code: i32, w: &mut VxWorld) -> (r: ()) requires code != 0, failing(*old(w)) ensures false { unimplemented!() }
/// a command that was run in this world reported an error
pub uninterp spec fn failing(w: VxWorld) -> bool;
pub axiom fn ax_failing<T, E>(r: Result<T, E>, w: VxWorld) requires r is Err ensures failing(w);
// ---- files that are part of the program
pub struct VxEmbDir { pub l: Vec<DirEntry> }
pub struct VxEmbFile { pub p: PathBuf, pub c: Vec<u8> }
pub enum DirEntry { Dir(VxEmbDir), File(VxEmbFile) }
pub type Dir = VxEmbDir;
pub uninterp spec fn default_project() -> VxEmbDir;
#[verifier::external_body] pub exec const DEFAULT_PROJECT: VxEmbDir ensures DEFAULT_PROJECT == default_project() { VxEmbDir { l: Vec::new() } }
impl VxEmbDir { #[verifier::external_body] pub fn entries<'a>(&'a self) -> (r: VxIter<&'a DirEntry>) ensures r@ == refs(self.l@) { unimplemented!() } }
impl VxEmbFile {
    pub fn path<'a>(&'a self) -> (r: &'a Path) ensures *r == self.p { &self.p }
    #[verifier::external_body] pub fn contents<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == self.c@ { unimplemented!() }
}
pub trait VxWriteText { spec fn wtv(&self) -> Seq<u8>; fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>) ensures r is Ok, final(self).wtv() == old(self).wtv() + utf8(t@); }
impl VxWriteText for Vec<u8> { open spec fn wtv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>) { unimplemented!() } }
// ---- text in TOML
/// a text as TOML writes it
pub uninterp spec fn toml_quoted(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn toml_shown(v: VxToml) -> Seq<char>;
impl VxToString for VxToml { open spec fn strv(&self) -> Seq<char> { toml_shown(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_toml_text_of<T: VxSv>(s: T) -> (r: VxToml) ensures toml_text(r) == Some(s.sv()), toml_shown(r) == toml_quoted(s.sv()) { unimplemented!() }
#[verifier::external_body] pub fn vx_toml_string(s: String) -> (r: VxToml) ensures toml_text(r) == Some(s@), toml_shown(r) == toml_quoted(s@) { unimplemented!() }
/// the arguments the program was started with; the command line says what clap's description of it (fn app) lets through
pub uninterp spec fn given_args() -> ArgMatches;
pub open spec fn given_ok(m: ArgMatches) -> bool {
    match arg_command(m) {
        Some((n, a)) => {
            &&& n == "build"@ || n == "dev"@ || n == "new"@ || n == "bench"@ || n == "clean"@
            &&& n == "build"@ || n == "dev"@ ==> arg_value(a, "manifest-path"@) is Some && arg_value(a, "output"@) is Some
            &&& n == "new"@ ==> arg_value(a, "name"@) is Some
            &&& n == "bench"@ ==> arg_value(a, "iterations"@) is Some
        },
        None => false,
    }
}
#[verifier::external_body] pub struct Stream { x: u8 }
// ---- the description of the command line (clap)
pub struct VxArgDesc { pub name: Seq<char>, pub required: bool, pub default: Option<Seq<char>> }
pub struct Arg<'a> { pub d: Ghost<VxArgDesc>, pub p: std::marker::PhantomData<&'a u8> }
impl<'a> Arg<'a> {
    #[verifier::external_body] pub fn new(n: &str) -> (r: Arg<'a>) ensures r.d@ == (VxArgDesc { name: n@, required: false, default: None }) { unimplemented!() }
    #[verifier::external_body] pub fn short(self, c: char) -> (r: Arg<'a>) ensures r.d@ == self.d@ { unimplemented!() }
    #[verifier::external_body] pub fn long(self, n: &str) -> (r: Arg<'a>) ensures r.d@ == self.d@ { unimplemented!() }
    #[verifier::external_body] pub fn help(self, n: &str) -> (r: Arg<'a>) ensures r.d@ == self.d@ { unimplemented!() }
    #[verifier::external_body] pub fn conflicts_with(self, n: &str) -> (r: Arg<'a>) ensures r.d@ == self.d@ { unimplemented!() }
    #[verifier::external_body] pub fn takes_value(self, b: bool) -> (r: Arg<'a>) ensures r.d@ == self.d@ { unimplemented!() }
    #[verifier::external_body] pub fn required(self, b: bool) -> (r: Arg<'a>) ensures r.d@ == (VxArgDesc { required: b, ..self.d@ }) { unimplemented!() }
    #[verifier::external_body] pub fn default_value(self, v: &str) -> (r: Arg<'a>) ensures r.d@ == (VxArgDesc { default: Some(v@), ..self.d@ }) { unimplemented!() }
}
pub struct App<'a> { pub name: Ghost<Seq<char>>, pub args: Ghost<Seq<VxArgDesc>>, pub subs: Ghost<Seq<(Seq<char>, Seq<VxArgDesc>)>>, pub need: Ghost<bool>, pub p: std::marker::PhantomData<&'a u8> }
impl<'a> App<'a> {
    #[verifier::external_body] pub fn new(n: &str) -> (r: App<'a>) ensures r.name@ == n@, r.args@ == Seq::<VxArgDesc>::empty(), r.subs@ == Seq::<(Seq<char>, Seq<VxArgDesc>)>::empty(), !r.need@ { unimplemented!() }
    #[verifier::external_body] pub fn version(self, n: &str) -> (r: App<'a>) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn author(self, n: &str) -> (r: App<'a>) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn about(self, n: &str) -> (r: App<'a>) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn arg(self, a: Arg<'a>) -> (r: App<'a>) ensures r.name@ == self.name@, r.args@ == self.args@.push(a.d@), r.subs@ == self.subs@, r.need@ == self.need@ { unimplemented!() }
    #[verifier::external_body] pub fn subcommand(self, c: App<'a>) -> (r: App<'a>) ensures r.name@ == self.name@, r.args@ == self.args@, r.subs@ == self.subs@.push((c.name@, c.args@)), r.need@ == self.need@ { unimplemented!() }
    #[verifier::external_body] pub fn subcommand_required(self, b: bool) -> (r: App<'a>) ensures r.name@ == self.name@, r.args@ == self.args@, r.subs@ == self.subs@, r.need@ == b { unimplemented!() }
    /// only what is described is let through: the program ends with an error otherwise
    #[verifier::external_body] pub fn get_matches(self) -> (r: ArgMatches) ensures r == given_args(), lets_through(self, r) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_env_text(n: &str) -> (r: &'static str) { unimplemented!() }
/// every argument which is required or has a default has a value
pub open spec fn values_given(d: Seq<VxArgDesc>, m: ArgMatches) -> bool { forall|i: int| 0 <= i < d.len() && ((#[trigger] d[i]).required || d[i].default is Some) ==> arg_value(m, d[i].name) is Some }
pub open spec fn lets_through(a: App, m: ArgMatches) -> bool {
    match arg_command(m) { Some((n, x)) => exists|i: int| 0 <= i < a.subs@.len() && (#[trigger] a.subs@[i]).0 == n && values_given(a.subs@[i].1, x), None => !a.need@ }
}
// ---- the log
pub enum LogLevel { Quiet, Normal, Verbose }
pub struct Logger { pub level: LogLevel }
impl Logger {
    #[verifier::external_body] pub fn new(l: LogLevel) -> (r: Logger) { unimplemented!() }
    #[verifier::external_body] pub fn register(self) { unimplemented!() }
}
#[verifier::external_body] pub struct Progress { x: u8 }
impl Progress {
    #[verifier::external_body] pub fn new(n: &str, k: usize) -> (r: Progress) { unimplemented!() }
    #[verifier::external_body] pub fn print(&self) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<()>) { unimplemented!() }
}
// ---- the development server: threads, channels, the file watcher, the HTTP server
pub struct VxSender { pub x: u8 }
#[verifier::external_body] pub fn channel() -> (r: (VxSender, Receiver<RawEvent>)) { unimplemented!() }
pub enum RecursiveMode { Recursive, NonRecursive }
#[verifier::external_body] pub struct VxWatcher { x: u8 }
#[verifier::external_body] pub fn raw_watcher(t: VxSender) -> (r: Result<VxWatcher, VxNever>) ensures r is Ok { unimplemented!() }
impl VxWatcher {
    /// every event carries the path of something in or below the directory watched
    #[verifier::external_body] pub fn watch<P: VxAsRefPath>(&mut self, p: P, m: RecursiveMode) -> (r: Result<(), VxNever>)
        requires m is Recursive
        ensures r is Ok, forall|e: RawEvent| #[trigger] watched(e) ==> e.path is Some && path_strip(e.path->0@, p.pv()) is Some { unimplemented!() }
}
#[verifier::external_body] pub fn spawn<R, F: FnOnce() -> R>(f: F) requires f.requires(()) { unimplemented!() }
/// the server of humphrey: its state and its routes
#[verifier::external_body] #[verifier::accept_recursive_types(S)] pub struct VxServer<S> { s: std::marker::PhantomData<S> }
pub uninterp spec fn app_state<S>(a: VxServer<S>) -> S;
pub uninterp spec fn app_routes<S>(a: VxServer<S>) -> Seq<Seq<char>>;
impl<S> VxServer<S> {
    #[verifier::external_body] pub fn new_with_config(threads: usize, s: S) -> (r: VxServer<S>) requires threads > 0 ensures app_state(r) == s, app_routes(r) == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_route<F>(self, p: &str, f: F) -> (r: VxServer<S>) ensures app_state(r) == app_state(self), app_routes(r) == app_routes(self).push(p@) { unimplemented!() }
    #[verifier::external_body] pub fn with_websocket_route<F>(self, p: &str, f: F) -> (r: VxServer<S>) ensures app_state(r) == app_state(self), app_routes(r) == app_routes(self).push(p@) { unimplemented!() }
    #[verifier::external_body] pub fn run(self, a: &str) -> (r: Result<(), VxNever>) { unimplemented!() }
}
