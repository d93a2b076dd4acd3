// ================================================================= errors are shown
/// something was added; a buffer is only ever added to
pub open spec fn grew(a: Seq<char>, b: Seq<char>) -> bool { a.len() < b.len() }
/// what the program can report. Showing it always comes to an end, without a panic, and adds a message.
pub trait StuartError {
    fn display(&self, buf: &mut Buffer) ensures grew(old(buf)@, final(buf)@);
    fn help(&self) -> (r: Option<String>);
}
impl StuartError for ParseError { fn display(&self, buf: &mut Buffer) { ParseError::display(self, buf) } fn help(&self) -> (r: Option<String>) { ParseError::help(self) } }
impl StuartError for ProcessError { fn display(&self, buf: &mut Buffer) { ProcessError::display(self, buf) } fn help(&self) -> (r: Option<String>) { ProcessError::help(self) } }
impl VxDynStuartError {
    pub fn display(&self, buf: &mut Buffer) ensures grew(old(buf)@, final(buf)@) {
        match self { VxDynStuartError::Core(e) => e.display(buf), VxDynStuartError::Script(e) => e.display(buf), VxDynStuartError::Text(e) => e.display(buf), VxDynStuartError::Trace(e) => e.display(buf), VxDynStuartError::Fs(e) => e.display(buf) }
    }
}
