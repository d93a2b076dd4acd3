# errors of the program are shown (C29)

fn bin::error::Error#StuartError::display bin::error::FsError#StuartError::display bin::error::ParseError#StuartError::display bin::error::ProcessError#StuartError::display bin::error::ScriptError#StuartError::display
props C29
ensures
    grew(old(buf)@, final(buf)@), //@C29
end

fn bin::error::Error#StuartError::help bin::error::FsError#StuartError::help bin::error::ParseError#StuartError::help bin::error::ProcessError#StuartError::help
props C29
end

fn bin::error::TracebackError#StuartError::display
props C29
impl <T: StuartError> TracebackError<T>
ensures
    grew(old(buf)@, final(buf)@), //@C29
end

fn bin::error::String#StuartError::display
props C29
impl StuartError for String { fn help(&self) -> (r: Option<String>) { None } }
at __vx_start__
  proof { reveal_strlit("\n"); }
end

fn bin::error::str#StuartError::display
props C29
impl StuartError for str { fn help(&self) -> (r: Option<String>) { None } }
at __vx_start__
  proof { reveal_strlit("\n"); }
end

# on the error the program is given, whatever its kind
fn bin::error::StuartError#trait::print
props C29 C25
impl VxDynStuartError
end

# the default of the trait, which located errors use
fn bin::error::StuartError#trait::help
props C29
impl <T: StuartError> TracebackError<T>
end
