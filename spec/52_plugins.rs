// ================================================================= plugins of the program

/// another program was run, and ended as `ok` says
pub open spec fn prog_ran(prog: Seq<char>, args: Seq<Seq<char>>, w0: VxWorld, w1: VxWorld, ok: bool) -> bool {
    exists|a: Seq<Seq<char>>, r: Option<bool>| #[trigger] program_ran(prog, a, Seq::<(String, String)>::empty(), w0, w1, r) && a =~= args && ok == (r == Some(true))
}
pub open spec fn git_answers(src: Seq<char>, w0: VxWorld, w1: VxWorld, yes: bool) -> bool { prog_ran("git"@, seq!["ls-remote"@, src], w0, w1, yes) }
// ---- what a file gives: other people's code, so only that it gives a plugin, or none
pub open spec fn js_gives(p: Seq<char>, r: Option<Plugin>) -> bool { vx_peeked(p) && match r { Some(x) => own_context(x), None => true } }
pub uninterp spec fn raw_plugin(r: VxRawPlugin) -> Plugin;
#[verifier::external_body] pub fn vx_box_from_raw(r: VxRawPlugin) -> (b: Box<Plugin>) ensures *b == raw_plugin(r) { unimplemented!() }
pub open spec fn init_name() -> Seq<u8> { seq![95u8, 115u8, 116u8, 117u8, 97u8, 114u8, 116u8, 95u8, 112u8, 108u8, 117u8, 103u8, 105u8, 110u8, 95u8, 105u8, 110u8, 105u8, 116u8] }
/// the plugin which the function of a library returns
pub open spec fn library_plugin(p: Seq<char>) -> Option<Plugin> {
    match library_at(p) { Some(l) => match library_fn(l, init_name()) { Some(r) => Some(raw_plugin(r)), None => None }, None => None }
}
#[verifier::opaque] pub open spec fn library_gives(p: Seq<char>, r: Option<Plugin>) -> bool { r == library_plugin(p) }
/// what a download gives
#[verifier::opaque] pub open spec fn download_gives(url: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Seq<u8>>) -> bool {
    if url_ok(url) { http_answers(url, true, w0, w1, r) } else { r is None && w1 == w0 }
}
/// the name in a Cargo manifest
pub open spec fn package_name(w: VxWorld, p: Seq<char>) -> Option<Seq<char>> { match file_text(w, p) { Some(t) => match toml_value(t) { Some(v) => package_in(v), None => None }, None => None } }
pub open spec fn package_in(v: VxToml) -> Option<Seq<char>> {
    match toml_get(v, "package"@) { Some(x) => match toml_get(x, "name"@) { Some(y) => toml_text(y), None => None }, None => None }
}
/// the directory of the first Cargo project of the name below a directory; directories are searched where they are met
pub open spec fn project_in(w: VxWorld, p: Seq<char>, name: Seq<char>) -> Option<Seq<char>> decreases w.depth(p), 1int, 0int {
    match w.list(p) { Some(l) => project_from(w, p, l, name, 0), None => None }
}
pub open spec fn project_from(w: VxWorld, p: Seq<char>, l: Seq<Seq<char>>, name: Seq<char>, i: int) -> Option<Seq<char>> decreases w.depth(p), 0int, l.len() - i {
    if i < 0 || i >= l.len() || w.lkind(l[i]) is None { None }
    else if w.lkind(l[i])->0 is File && path_file_name(l[i]) == Some("Cargo.toml"@) && package_name(w, l[i]) == Some(name) { path_parent(l[i]) }
    else if w.lkind(l[i])->0 is Dir && w.depth(l[i]) < w.depth(p) && project_in(w, l[i], name) is Some { project_in(w, l[i], name) }
    else { project_from(w, p, l, name, i + 1) }
}
pub open spec fn file_gives(p: Seq<char>, r: Option<Plugin>) -> bool {
    if path_extension(p) == Some("js"@) || path_extension(p) == Some("mjs"@) { js_gives(p, r) } else { library_gives(p, r) }
}
/// the library a Cargo project is built into, if it could be built
pub open spec fn cargo_built(p: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Seq<char>>) -> bool {
    let m = path_join(p, "Cargo.toml"@);
    let args = seq!["build"@, "--release"@, "--manifest-path"@, m];
    match r {
        Some(f) => prog_ran("cargo"@, args, w0, w1, true) && package_name(w1, m) is Some && f == path_join(path_join(p, "target/release"@), "lib"@ + package_name(w1, m)->0 + ".so"@),
        None => prog_ran("cargo"@, args, w0, w1, false) || (prog_ran("cargo"@, args, w0, w1, true) && package_name(w1, m) is None),
    }
}
pub open spec fn project_gives(p: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Plugin>) -> bool {
    exists|f: Option<Seq<char>>| #[trigger] cargo_built(p, w0, w1, f) && match f { Some(f) => library_gives(f, r), None => r is None }
}
pub open spec fn plugin_dir(root: Seq<char>, name: Seq<char>) -> Seq<char> { path_join(root, "_build/plugins/"@ + name) }
/// the repository is there afterwards, if it could be had
pub open spec fn repo_had(root: Seq<char>, name: Seq<char>, src: Seq<char>, w0: VxWorld, w1: VxWorld, ok: bool) -> bool {
    let d = plugin_dir(root, name); let t = cut_start(d, "\\\\?\\"@);
    if w0.fs().contains_key(d) { prog_ran("git"@, seq!["-C"@, t, "pull"@], w0, w1, ok) }
    else { (!ok && dirs_made(path_join(root, "_build/plugins"@), w0, w1, false)) || exists|w: VxWorld| #[trigger] dirs_made(path_join(root, "_build/plugins"@), w0, w, true) && prog_ran("git"@, seq!["clone"@, src, t, "--depth"@, "1"@], w, w1, ok) }
}
pub open spec fn repo_gives(root: Seq<char>, name: Seq<char>, src: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Plugin>) -> bool {
    (r is None && repo_had(root, name, src, w0, w1, false)) || exists|w: VxWorld| #[trigger] repo_had(root, name, src, w0, w, true)
        && match project_in(w, plugin_dir(root, name), name) { Some(p) => project_gives(p, w, w1, r), None => r is None && w1 == w }
}
pub open spec fn url_gives(root: Seq<char>, name: Seq<char>, src: Seq<char>, b: Seq<u8>, w0: VxWorld, w1: VxWorld, r: Option<Plugin>) -> bool {
    let f = path_join(plugin_dir(root, name), split_char(src, '/').last());
    (r is None && w1.failed()) || exists|w: VxWorld| #[trigger] file_put(f, b, w, w1) && (w == w0 || dirs_made(plugin_dir(root, name), w0, w, true)) && file_gives(f, r)
}
pub open spec fn file_put(f: Seq<char>, b: Seq<u8>, w0: VxWorld, w1: VxWorld) -> bool { w1.fs() == w0.fs().insert(f, VxEntry::File(b)) && w1.failed() == w0.failed() }
/// one source: a file; else a Cargo project; else a Git repository; else a download. r is the plugin it gives, if it gives one.
pub open spec fn source_gives(root: Seq<char>, name: Seq<char>, src: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Plugin>) -> bool {
    let p = path_join(root, src);
    if w0.fs().contains_key(p) && w0.kind(p) == Some(VxKind::File) { w1 == w0 && file_gives(p, r) }
    else if w0.fs().contains_key(path_join(p, "Cargo.toml"@)) { project_gives(p, w0, w1, r) }
    else { exists|w: VxWorld, yes: bool| #[trigger] git_answers(src, w0, w, yes) && if yes { repo_gives(root, name, src, w, w1, r) } else { download_tried(root, name, src, w, w1, r) } }
}
pub open spec fn download_tried(root: Seq<char>, name: Seq<char>, src: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Plugin>) -> bool {
    exists|w: VxWorld, b: Option<Seq<u8>>| #[trigger] download_gives(src, w0, w, b) && match b { Some(b) => url_gives(root, name, src, b, w, w1, r), None => r is None && w1 == w }
}
// ---- the sources of one plugin, from left to right
pub open spec fn other_platform(s: Seq<char>) -> bool { is_suffix(".dll"@, s) }
pub open spec fn passed_over(root: Seq<char>, name: Seq<char>, s: Seq<char>, w0: VxWorld, w1: VxWorld) -> bool { if other_platform(s) { w1 == w0 } else { source_gives(root, name, s, w0, w1, None) } }
/// the first k sources gave no plugin
pub open spec fn none_of(root: Seq<char>, name: Seq<char>, l: Seq<Seq<char>>, k: int, w0: VxWorld, w1: VxWorld) -> bool decreases k {
    if k <= 0 || k > l.len() { w0 == w1 } else { exists|w: VxWorld| none_of(root, name, l, k - 1, w0, w) && #[trigger] passed_over(root, name, l[k - 1], w, w1) }
}
/// the source at i is the first that gave one, and none after it was tried
pub open spec fn first_of(root: Seq<char>, name: Seq<char>, l: Seq<Seq<char>>, i: int, w0: VxWorld, w: VxWorld, w1: VxWorld, x: Plugin) -> bool {
    0 <= i < l.len() && !other_platform(l[i]) && none_of(root, name, l, i, w0, w) && source_gives(root, name, l[i], w, w1, Some(x))
}
pub open spec fn plugin_had(root: Seq<char>, d: (String, String), w0: VxWorld, w1: VxWorld, x: Plugin) -> bool {
    exists|i: int, w: VxWorld| #[trigger] first_of(root, d.0@, split_char(d.1@, ';'), i, w0, w, w1, x)
}
pub open spec fn no_plugin(root: Seq<char>, d: (String, String), w0: VxWorld, w1: VxWorld) -> bool { none_of(root, d.0@, split_char(d.1@, ';'), split_char(d.1@, ';').len() as int, w0, w1) }
/// the first k plugins, in the order of the project file, are ps
pub open spec fn plugins_had(root: Seq<char>, l: Seq<(String, String)>, k: int, w0: VxWorld, w1: VxWorld, ps: Seq<Plugin>) -> bool decreases k {
    if k <= 0 || k > l.len() { w0 == w1 && ps.len() == 0 } else { ps.len() == k && exists|w: VxWorld| plugins_had(root, l, k - 1, w0, w, ps.drop_last()) && #[trigger] plugin_had(root, l[k - 1], w, w1, ps.last()) }
}
pub open spec fn plugins_stop(root: Seq<char>, l: Seq<(String, String)>, k: int, w0: VxWorld, w: VxWorld, w1: VxWorld, ps: Seq<Plugin>) -> bool { 0 <= k < l.len() && plugins_had(root, l, k, w0, w, ps) && no_plugin(root, l[k], w, w1) }
pub open spec fn deps(p: Option<HashMap<String, String>>) -> Seq<(String, String)> { match p { Some(m) => m@, None => Seq::empty() } }
/// all plugins were had
pub open spec fn plugins_ok(root: Seq<char>, l: Seq<(String, String)>, w0: VxWorld, w1: VxWorld, ps: Seq<Plugin>) -> bool { plugins_had(root, l, l.len() as int, w0, w1, ps) }
/// those before one of them were, and that one was not
pub open spec fn plugins_err(root: Seq<char>, l: Seq<(String, String)>, w0: VxWorld, w1: VxWorld) -> bool { exists|k: int, w: VxWorld, ps: Seq<Plugin>| #[trigger] plugins_stop(root, l, k, w0, w, w1, ps) }
/// C25: what a plugin is had from is the first source that gives one
//@C25
pub proof fn thm_first_source(root: Seq<char>, d: (String, String), w0: VxWorld, w1: VxWorld, x: Plugin)
    requires plugin_had(root, d, w0, w1, x)
    ensures exists|i: int, w: VxWorld| 0 <= i < split_char(d.1@, ';').len() && #[trigger] none_of(root, d.0@, split_char(d.1@, ';'), i, w0, w) && source_gives(root, d.0@, split_char(d.1@, ';')[i], w, w1, Some(x))
{ let (i, w) = choose|i: int, w: VxWorld| #[trigger] first_of(root, d.0@, split_char(d.1@, ';'), i, w0, w, w1, x); assert(none_of(root, d.0@, split_char(d.1@, ';'), i, w0, w)); }
