pub mod glue { use super::*;
// opaque pieces outside the repository: plugins are other people's code
#[verifier::external_body] pub struct VxDynManager { x: usize }
#[verifier::external_body] pub struct VxDynNodeProcessor { x: usize }
#[verifier::external_body] pub struct VxDynNodeParser { x: usize }
#[verifier::external_body] pub struct VxPluginFunction { x: usize }
#[verifier::external_body] pub struct VxPluginFunctionParser { x: usize }

pub uninterp spec fn plugins_seq(m: VxDynManager) -> Seq<Plugin>;
impl VxDynManager {
    #[verifier::external_body] pub fn plugins<'a>(&'a self) -> (r: &'a [Plugin]) ensures r@ == plugins_seq(*self) { unimplemented!() }
}
/// a manager of plugins becomes an object: its plugins are those it says it has
pub trait VxIntoDynManager: Sized { spec fn managed(self) -> Seq<Plugin>; fn vx_dyn_(self) -> (r: VxDynManager) ensures plugins_seq(r) == self.managed(); }
pub fn vx_dyn_Manager<T: VxIntoDynManager>(x: T) -> (r: VxDynManager) ensures plugins_seq(r) == x.managed() { x.vx_dyn_() }
pub uninterp spec fn plugin_parser_name(p: VxPluginFunctionParser) -> Seq<char>;
pub uninterp spec fn plugin_parse(p: VxPluginFunctionParser, raw: RawFunction) -> Option<VxDynFunction>;
impl VxPluginFunctionParser {
    #[verifier::external_body] pub fn name<'a>(&'a self) -> (r: &'a str) ensures r@ == plugin_parser_name(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse(&self, raw: RawFunction) -> (r: Result<Box<VxDynFunction>, ParseError>)
        ensures r is Ok == plugin_parse(*self, raw) is Some, r is Ok ==> *(r->Ok_0) == plugin_parse(*self, raw)->0 { unimplemented!() }
}
/// the parsers of content files a plugin brings
pub uninterp spec fn node_parser_exts(p: VxDynNodeParser) -> Seq<Seq<char>>;
pub uninterp spec fn node_parse(p: VxDynNodeParser, bytes: Seq<u8>, path: Path) -> Result<VxDynNodeProcessor, String>;
impl VxDynNodeParser {
    #[verifier::external_body] pub fn extensions(&self) -> (r: VxNames) ensures r.v() == node_parser_exts(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse(&self, contents: &Vec<u8>, path: &Path) -> (r: Result<Box<VxDynNodeProcessor>, String>)
        ensures r is Ok == node_parse(*self, contents@, *path) is Ok, r is Ok ==> *(r->Ok_0) == node_parse(*self, contents@, *path)->Ok_0,
            r is Err ==> r->Err_0 == node_parse(*self, contents@, *path)->Err_0 { unimplemented!() }
}
#[verifier::external_body] pub struct VxNames { x: usize }
impl VxNames {
    pub uninterp spec fn v(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn vx_contains(&self, s: &&str) -> (r: bool) ensures r == self.v().contains(s@) { unimplemented!() }
}
pub uninterp spec fn plugin_function_name(p: VxPluginFunction) -> Seq<char>;
impl VxPluginFunction {
    #[verifier::external_body] pub fn name<'a>(&'a self) -> (r: &'a str) ensures r@ == plugin_function_name(*self) { unimplemented!() }
}
pub uninterp spec fn vx_rcbox(f: VxDynFunction) -> Rc<Box<VxDynFunction>>;
pub broadcast axiom fn ax_unrcbox(f: VxDynFunction) ensures **(#[trigger] vx_rcbox(f)) == f;
/// an allocation holds at most isize::MAX bytes, and a token is not empty
pub broadcast axiom fn ax_toks_len(s: &[LocatableToken]) ensures (#[trigger] s@).len() <= isize::MAX;
pub broadcast group vx_glue_ax { ax_unrcbox, ax_toks_len }
}
use glue::*;
