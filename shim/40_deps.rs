// pulldown_cmark, and conversions from bytes

/// pulldown_cmark with every extension: the HTML of a markdown text
pub uninterp spec fn markdown_html(s: Seq<char>) -> Seq<char>;
pub struct VxMdOptions { pub x: u8 }
pub struct VxMdParser { pub text: Ghost<Seq<char>> }
pub fn vx_md_all() -> (r: VxMdOptions) { VxMdOptions { x: 0 } }
#[verifier::external_body] pub fn vx_md_parser(s: &str, o: VxMdOptions) -> (r: VxMdParser) ensures r.text@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_md_push_html(out: &mut String, p: VxMdParser) ensures final(out)@ == old(out)@ + markdown_html(p.text@) { unimplemented!() }
pub struct VxUtf8Error { pub x: u8 }
#[verifier::external_body] pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, VxUtf8Error>)
    ensures r is Ok == utf8_inv(b@) is Some, r is Ok ==> (r->Ok_0)@ == utf8_inv(b@)->0 { unimplemented!() }
#[verifier::external_body] pub fn vx_str_from_utf8<'a>(b: &'a Vec<u8>) -> (r: Result<&'a str, VxUtf8Error>)
    ensures r is Ok == utf8_inv(b@) is Some, r is Ok ==> (r->Ok_0)@ == utf8_inv(b@)->0 { unimplemented!() }
/// the environment variables of the process, read as text (what is not valid Unicode is replaced)
pub uninterp spec fn env_vars() -> Seq<(String, String)>;
#[verifier::external_body] pub fn vx_env_vars() -> (r: VxIter<(String, String)>) ensures r@ == env_vars() { unimplemented!() }
/// `std::env::vars` panics where a name or value is not valid Unicode
pub uninterp spec fn env_unicode() -> bool;
#[verifier::external_body] pub fn vx_env_vars_unicode() -> (r: VxIter<(String, String)>) requires env_unicode() ensures r@ == env_vars() { unimplemented!() }
// chrono and dateparser
/// the date a text stands for, one without a time being at the time given: none if it is not one, or if reading it panics
pub uninterp spec fn date_read(s: Seq<char>, hour: int, minute: int, second: int) -> Option<VxDate>;
/// the text of a date: none if the format is not one, on which chrono panics
pub uninterp spec fn date_shown(d: VxDate, format: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub struct VxDate { x: u8 }
pub struct VxDateError { pub x: u8 }
/// a panic is caught here
pub uninterp spec fn guarded() -> bool;
pub struct VxUnwound { pub x: u8 }
pub struct Utc;
pub struct NaiveTime { pub hour: u32, pub minute: u32, pub second: u32 }
impl NaiveTime { pub fn from_hms_opt(h: u32, m: u32, s: u32) -> (r: Option<NaiveTime>) ensures r is Some == (h < 24 && m < 60 && s < 60), r is Some ==> r->0.hour == h && r->0.minute == m && r->0.second == s { if h < 24 && m < 60 && s < 60 { Some(NaiveTime { hour: h, minute: m, second: s }) } else { None } } }
#[verifier::external_body] pub fn parse_with(s: &str, tz: &Utc, t: NaiveTime) -> (r: Result<VxDate, VxDateError>)
    ensures r is Ok == date_read(s@, t.hour as int, t.minute as int, t.second as int) is Some, r is Ok ==> date_read(s@, t.hour as int, t.minute as int, t.second as int) == Some(r->Ok_0) { unimplemented!() }
pub struct VxShownDate { pub d: VxDate, pub f: Ghost<Seq<char>> }
impl VxDate { #[verifier::external_body] pub fn format(&self, f: &str) -> (r: VxShownDate) ensures r.d == *self, r.f@ == f@ { unimplemented!() } }
impl VxShownDate { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) requires guarded() ensures date_shown(self.d, self.f@) == Some(r@) { unimplemented!() } }
