// ================================================================= the project read from its file
/// what a text says as a project file, if it is one
pub uninterp spec fn project_file(t: Seq<char>) -> Option<RawConfig>;
impl VxFromToml for RawConfig { open spec fn of_toml(t: Seq<char>) -> Option<RawConfig> { project_file(t) } }
impl VxIntoDynManager for DynamicPluginManager { open spec fn managed(self) -> Seq<Plugin> { self.plugins@ } #[verifier::external_body] fn vx_dyn_(self) -> (r: VxDynManager) { unimplemented!() } }
impl VxIntoT<Config> for RawConfig { open spec fn intov(self) -> Config { settings_of(self) } fn vx_into(self) -> (r: Config) { Config::from(self) } }
pub open spec fn file_text(w: VxWorld, p: Seq<char>) -> Option<Seq<char>> { match w.bytes(p) { Some(b) => utf8_inv(b), None => None } }
/// without what Windows puts before a path
pub open spec fn plain_path(p: Seq<char>) -> Seq<char> { cut_start(p, "\\\\?\\"@) }
pub open spec fn pair_texts(l: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(l.len(), |i: int| (l[i].0@, l[i].1@)) }
/// the variables of the scripts
pub open spec fn script_vars(p: Seq<char>, d: Seq<char>, output: Seq<char>, e: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> {
    seq![("STUART_MANIFEST_PATH"@, plain_path(p)), ("STUART_MANIFEST_DIR"@, plain_path(d)), ("STUART_TEMP_DIR"@, plain_path(path_join(d, "temp"@))), ("STUART_OUT_DIR"@, plain_path(path_join(d, output))), ("STUART_ENV"@, e)]
}
/// c is the project of the file p
pub open spec fn project_of(p: Seq<char>, output: Seq<char>, e: Seq<char>, w0: VxWorld, w1: VxWorld, c: StuartContext) -> bool {
    let d = path_parent(p)->0; let raw = project_file(file_text(w0, p)->0)->0;
    &&& file_text(w0, p) is Some && project_file(file_text(w0, p)->0) is Some
    // its settings
    &&& c.stuart.config == settings_of(raw)
    // its plugins, every one of them
    &&& c.stuart.plugins is Some && plugins_ok(d, deps(raw.dependencies), w0, w1, plugins_seq(*(c.stuart.plugins->0)))
    // its content, and nothing built yet
    &&& c.stuart.dir@ == path_join(d, "content"@) && c.stuart.input is None && c.stuart.output is None && c.stuart.base is None
    // its scripts
    &&& c.scripts.on_pre_build@ == scripts_in(w1, path_join(d, "scripts"@), true) && c.scripts.on_post_build@ == scripts_in(w1, path_join(d, "scripts"@), false)
    &&& pair_texts(c.scripts.environment@) =~= script_vars(p, d, output, e)
    &&& c.stuart_env@ == e && c.project_dir@ == d && c.output@ == output
}
/// what a project that can not be had leaves: nothing but what the sources of its plugins do
pub open spec fn no_project(p: Seq<char>, w0: VxWorld, w1: VxWorld) -> bool {
    w1 == w0 || (file_text(w0, p) is Some && project_file(file_text(w0, p)->0) is Some && plugins_err(path_parent(p)->0, deps(project_file(file_text(w0, p)->0)->0.dependencies), w0, w1))
}
