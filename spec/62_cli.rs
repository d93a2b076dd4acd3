// ================================================================= the commands
// ---- clean
pub open spec fn without(fs: Fs, p: Seq<char>) -> Fs { if fs.contains_key(p) { fs_without(fs, p) } else { fs } }
pub open spec fn without_file(fs: Fs, p: Seq<char>) -> Fs { if fs.contains_key(p) { fs.remove(p) } else { fs } }
/// the files of a project without what a build makes
pub open spec fn cleaned(fs: Fs) -> Fs { without_file(without(without(fs, "dist"@), "_build"@), "metadata.json"@) }
/// what a path leads to, where it is not what a build makes
pub open spec fn is_made(p: Seq<char>) -> bool { path_under(p, "dist"@) || path_under(p, "_build"@) || p == "metadata.json"@ }
pub open spec fn sources(fs: Fs) -> Fs { fs.restrict(ISet::new(|p: Seq<char>| !is_made(p))) }
pub proof fn lemma_clean(fs: Fs)
    ensures sources(cleaned(fs)) == sources(fs)
{ assert(sources(cleaned(fs)) =~= sources(fs)); }
pub proof fn lemma_clean_stop(a: Fs, b: Fs, p: Seq<char>)
    requires same_outside(p, a, b), p == "dist"@ || p == "_build"@
    ensures sources(a) == sources(b)
{
    assert forall|q: Seq<char>| !is_made(q) implies a.contains_key(q) == b.contains_key(q) && (a.contains_key(q) ==> a[q] == b[q]) by {
        let u = fs_without(a, p); let v = fs_without(b, p); assert(!path_under(q, p));
        assert(u.contains_key(q) == a.contains_key(q)); assert(v.contains_key(q) == b.contains_key(q));
        if a.contains_key(q) { assert(u[q] == a[q]); assert(v[q] == b[q]); }
    }
    assert(sources(a) =~= sources(b));
}
// ---- a new site
/// what the settings of git say about the author: running git twice
/// the text a program printed, without the white space around it
pub open spec fn prog_said(prog: Seq<char>, a: Seq<Seq<char>>, w0: VxWorld, w1: VxWorld, t: Seq<char>) -> bool { exists|out: Seq<u8>| #[trigger] program_said(prog, a, w0, w1, out) && t == trim(utf8_lossy(out)) }
pub open spec fn git_setting(k: Seq<char>, w0: VxWorld, w1: VxWorld, r: Option<Seq<char>>) -> bool {
    exists|a: Seq<Seq<char>>, s: Option<bool>| #[trigger] program_ran("git"@, a, Seq::<(String, String)>::empty(), w0, w1, s) && a =~= get_args(k)
        && match r { Some(t) => s == Some(true) && prog_said("git"@, a, w0, w1, t), None => s != Some(true) }
}
pub open spec fn get_args(k: Seq<char>) -> Seq<Seq<char>> { seq!["config"@, "--get"@, k] }
pub open spec fn init_args(p: Seq<char>) -> Seq<Seq<char>> { seq!["init"@, p] }
pub open spec fn author_text(name: Seq<char>, email: Seq<char>) -> Seq<char> { name + " <"@ + email + ">"@ }
pub open spec fn author_known(w0: VxWorld, w2: VxWorld, a: Option<Seq<char>>) -> bool {
    ||| exists|n: Seq<char>, e: Seq<char>, w1: VxWorld| #[trigger] git_setting("user.name"@, w0, w1, Some(n)) && #[trigger] git_setting("user.email"@, w1, w2, Some(e)) && a == Some(author_text(n, e))
    ||| git_setting("user.name"@, w0, w2, None) && a is None
    ||| exists|n: Seq<char>, w1: VxWorld| #[trigger] git_setting("user.name"@, w0, w1, Some(n)) && #[trigger] git_setting("user.email"@, w1, w2, None) && a is None
}
/// the project file of a new site
pub open spec fn new_manifest(name: Seq<char>, author: Option<Seq<char>>) -> Seq<char> {
    "[site]\nname = "@ + toml_quoted(name) + (match author { Some(a) => "\nauthor = "@ + toml_quoted(a), None => ""@ }) + "\n"@
}
/// TOML: such a file is a project of this name and author, and sets nothing else
pub axiom fn ax_new_manifest(name: Seq<char>, author: Option<Seq<char>>) ensures names_project(new_manifest(name, author), name, author);
pub open spec fn names_project(t: Seq<char>, name: Seq<char>, author: Option<Seq<char>>) -> bool {
    match project_file(t) {
        Some(r) => r.site.name@ == name && (r.site.author is Some == author is Some) && (author is Some ==> r.site.author->0@ == author->0) && r.settings is None && r.dependencies is None,
        None => false }
}
/// the files of an embedded directory, without the project file, put below root
pub open spec fn emb_entry(fs: Fs, root: Seq<char>, e: DirEntry) -> Fs decreases e, 0nat {
    match e { DirEntry::Dir(d) => emb(fs, root, d, d.l@.len()), DirEntry::File(f) => if path_ends(f.p@, "stuart.toml"@) { fs } else { fs.insert(path_join(root, f.p@), VxEntry::File(f.c@)) } }
}
pub open spec fn emb(fs: Fs, root: Seq<char>, d: VxEmbDir, k: nat) -> Fs decreases d, k {
    if k == 0 || k > d.l@.len() { fs } else { emb_entry(emb(fs, root, d, (k - 1) as nat), root, d.l@[k - 1]) }
}
/// dist/, _build/ and metadata.json, a line each
pub open spec fn gitignore() -> Seq<u8> { seq![100u8,105u8,115u8,116u8,47u8,10u8,95u8,98u8,117u8,105u8,108u8,100u8,47u8,10u8,109u8,101u8,116u8,97u8,100u8,97u8,116u8,97u8,46u8,106u8,115u8,111u8,110u8,10u8] }
/// the files once a site was laid out: its directory, its project file and the files of the default project; all others are as they were
pub open spec fn laid_out(fs: Fs, name: Seq<char>, author: Option<Seq<char>>) -> Fs {
    emb(fs.insert(name, VxEntry::Dir).insert(path_join(name, "content"@), VxEntry::Dir).insert(path_join(name, "static"@), VxEntry::Dir)
        .insert(path_join(name, "stuart.toml"@), VxEntry::File(utf8(new_manifest(name, author)))), name, default_project(), default_project().l@.len())
}
pub open spec fn repository_made(name: Seq<char>, w0: VxWorld, w1: VxWorld) -> bool { exists|ok: bool| #[trigger] prog_ran("git"@, init_args(path_join("."@, name)), w0, w1, ok) }
/// w2 is what asking git left
pub open spec fn created_from(name: Seq<char>, git: bool, author: Option<Seq<char>>, w2: VxWorld, w3: VxWorld, w4: VxWorld, w9: VxWorld) -> bool {
    &&& !w2.fs().contains_key(name) && names_project(new_manifest(name, author), name, author)
    &&& w3.fs() == laid_out(w2.fs(), name, author) && w3.failed() == w2.failed()
    &&& if git { repository_made(name, w3, w4) && w9.fs() == w4.fs().insert(path_join(name, ".gitignore"@), VxEntry::File(gitignore())) && w9.failed() == w4.failed() } else { w9 == w3 }
}
pub open spec fn asked_then(name: Seq<char>, git: bool, a: Option<Seq<char>>, w0: VxWorld, w2: VxWorld, w3: VxWorld, w4: VxWorld, w9: VxWorld) -> bool { author_known(w0, w2, a) && created_from(name, git, a, w2, w3, w4, w9) }
pub open spec fn site_created(name: Seq<char>, git: bool, w0: VxWorld, w9: VxWorld) -> bool {
    exists|a: Option<Seq<char>>, w2: VxWorld, w3: VxWorld, w4: VxWorld| #[trigger] asked_then(name, git, a, w0, w2, w3, w4, w9)
}
/// a site that is not created, where the files could be written: there is something of its name already, and nothing is touched
/// (or something below its name without there being anything of its name)
pub open spec fn in_the_way(name: Seq<char>, w2: VxWorld, w9: VxWorld) -> bool {
    if w2.fs().contains_key(name) { w9.fs() == w2.fs() && w9.failed() == w2.failed() } else { w2.fs().contains_key(path_join(name, "content"@)) || w2.fs().contains_key(path_join(name, "static"@)) || path_join(name, "content"@) == name || path_join(name, "static"@) == name || path_join(name, "content"@) == path_join(name, "static"@) }
}
pub open spec fn not_created_from(name: Seq<char>, a: Option<Seq<char>>, w0: VxWorld, w2: VxWorld, w9: VxWorld) -> bool { author_known(w0, w2, a) && in_the_way(name, w2, w9) }
pub open spec fn not_created(name: Seq<char>, w0: VxWorld, w9: VxWorld) -> bool { exists|a: Option<Seq<char>>, w2: VxWorld| #[trigger] not_created_from(name, a, w0, w2, w9) }
// ---- the commands
/// a site was built from the project file p, for this use
pub open spec fn init_then_build(p: Seq<char>, output: Seq<char>, e: Seq<char>, c: StuartContext, w0: VxWorld, w1: VxWorld, w9: VxWorld) -> bool {
    w0.canon(p) is Some && project_of(w0.canon(p)->0, output, e, w0, w1, c) && build_ok(c, w1, w9)
}
pub open spec fn site_built_from(p: Seq<char>, output: Seq<char>, e: Seq<char>, w0: VxWorld, w9: VxWorld) -> bool { exists|c: StuartContext, w1: VxWorld| #[trigger] init_then_build(p, output, e, c, w0, w1, w9) }
/// the command succeeded
pub open spec fn command_done(m: ArgMatches, w0: VxWorld, w9: VxWorld) -> bool {
    match arg_command(m) {
        Some((n, a)) =>
            if n == "build"@ { site_built_from(arg_value(a, "manifest-path"@)->0, arg_value(a, "output"@)->0, "production"@, w0, w9) }
            else if n == "new"@ { site_created(arg_value(a, "name"@)->0, !arg_given(a, "no-git"@), w0, w9) }
            else if n == "clean"@ { w9.fs() == cleaned(w0.fs()) }
            else if n == "bench"@ { benched(a, w0, w9) }
            else { n == "dev"@ && served(a, w0, w9) },
        None => false,
    }
}
/// what a build leaves can be read again: no file of 2 GB or more
pub open spec fn builds_readable() -> bool { forall|c: StuartContext, w: VxWorld, v: VxWorld| world_ok(w) && #[trigger] build_ok(c, w, v) ==> world_ok(v) }
/// n builds, one after the other; the project is that of the first
pub open spec fn built_once_more(c0: StuartContext, c: StuartContext, w: VxWorld, v: VxWorld) -> bool { same_but_output(c0, c) && build_ok(c, w, v) }
pub open spec fn built_times(c: StuartContext, w: VxWorld, v: VxWorld, n: nat) -> bool
    decreases n
{ if n == 0 { v == w } else { exists|d: StuartContext, u: VxWorld| built_times(c, w, u, (n - 1) as nat) && #[trigger] built_once_more(c, d, u, v) } }
pub open spec fn benched_from(c: StuartContext, w0: VxWorld, w1: VxWorld, w9: VxWorld, n: nat) -> bool {
    w0.canon("stuart.toml"@) is Some && project_of(w0.canon("stuart.toml"@)->0, "dist"@, "benchmark"@, w0, w1, c) && built_times(c, w1, w9, n)
}
/// as many builds as were asked for succeeded
pub open spec fn benched(a: ArgMatches, w0: VxWorld, w9: VxWorld) -> bool {
    parse_nat(arg_value(a, "iterations"@)->0) is Some && exists|c: StuartContext, w1: VxWorld| #[trigger] benched_from(c, w0, w1, w9, parse_nat(arg_value(a, "iterations"@)->0)->0)
}
/// the development server runs until the program is ended
pub open spec fn served(a: ArgMatches, w0: VxWorld, w9: VxWorld) -> bool { false }

// ---- the description of the command line
/// an argument of that name always has a value
pub open spec fn always(d: Seq<VxArgDesc>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n && (d[i].required || d[i].default is Some) }
/// an argument of that name has that default
pub open spec fn defaults_to(d: Seq<VxArgDesc>, n: Seq<char>, v: Seq<char>) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n && d[i].default == Some(v) }
pub open spec fn known_command(n: Seq<char>, d: Seq<VxArgDesc>) -> bool {
    &&& n == "build"@ || n == "dev"@ || n == "new"@ || n == "bench"@ || n == "clean"@
    &&& n == "build"@ || n == "dev"@ ==> always(d, "manifest-path"@) && defaults_to(d, "output"@, "dist"@)
    &&& n == "new"@ ==> always(d, "name"@)
    &&& n == "bench"@ ==> always(d, "iterations"@)
}
pub open spec fn described(a: App) -> bool { a.need@ && all_known(a.subs@) }
pub open spec fn all_known(s: Seq<(Seq<char>, Seq<VxArgDesc>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> known_command((#[trigger] s[i]).0, s[i].1) }
pub broadcast proof fn lemma_always_push(d: Seq<VxArgDesc>, x: VxArgDesc, n: Seq<char>)
    ensures #[trigger] always(d.push(x), n) == (always(d, n) || (x.name == n && (x.required || x.default is Some)))
{
    let e = d.push(x);
    if always(d, n) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n && (d[i].required || d[i].default is Some); assert(e[i] == d[i]); }
    if x.name == n && (x.required || x.default is Some) { assert(e[d.len() as int] == x); }
    if always(e, n) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).name == n && (e[i].required || e[i].default is Some); if i < d.len() { assert(e[i] == d[i]); } }
}
pub broadcast proof fn lemma_defaults_push(d: Seq<VxArgDesc>, x: VxArgDesc, n: Seq<char>, v: Seq<char>)
    ensures #[trigger] defaults_to(d.push(x), n, v) == (defaults_to(d, n, v) || (x.name == n && x.default == Some(v)))
{
    let e = d.push(x);
    if defaults_to(d, n, v) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == n && d[i].default == Some(v); assert(e[i] == d[i]); }
    if x.name == n && x.default == Some(v) { assert(e[d.len() as int] == x); }
    if defaults_to(e, n, v) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).name == n && e[i].default == Some(v); if i < d.len() { assert(e[i] == d[i]); } }
}
pub broadcast proof fn lemma_known_push(s: Seq<(Seq<char>, Seq<VxArgDesc>)>, x: (Seq<char>, Seq<VxArgDesc>))
    ensures #[trigger] all_known(s.push(x)) == (all_known(s) && known_command(x.0, x.1))
{
    let e = s.push(x);
    if all_known(e) { assert(known_command(e[s.len() as int].0, e[s.len() as int].1)); assert forall|i: int| 0 <= i < s.len() implies known_command((#[trigger] s[i]).0, s[i].1) by { assert(e[i] == s[i]); } }
}
pub broadcast proof fn lemma_described(a: App, m: ArgMatches)
    requires #[trigger] lets_through(a, m), described(a)
    ensures given_ok(m)
{
    let (n, x) = arg_command(m)->0;
    let i = choose|i: int| 0 <= i < a.subs@.len() && (#[trigger] a.subs@[i]).0 == n && values_given(a.subs@[i].1, x);
    let d = a.subs@[i].1;
    assert(known_command(n, d));
    assert forall|k: Seq<char>| #[trigger] always(d, k) implies arg_value(x, k) is Some by { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).name == k && (d[j].required || d[j].default is Some); }
    assert forall|k: Seq<char>, v: Seq<char>| #[trigger] defaults_to(d, k, v) implies arg_value(x, k) is Some by { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).name == k && d[j].default == Some(v); }
}
