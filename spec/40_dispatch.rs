// ---- auto-dereference of a located token (through its Deref implementation) and dispatch of `execute`
impl LocatableToken {
    pub fn as_function(&self) -> (r: Option<Rc<Box<VxDynFunction>>>)
        ensures r is Some == (self.inner is Function), r is Some ==> **(r->0) == **(self.inner->Function_0)
    { self.deref().as_function() }
    pub fn as_raw<'a>(&'a self) -> (r: Option<&'a str>)
        ensures r is Some == (self.inner is Raw), r is Some ==> (r->0)@ == self.inner->Raw_0@
    { self.deref().as_raw() }
    pub fn as_variable<'a>(&'a self) -> (r: Option<&'a str>)
        ensures r is Some == (self.inner is Variable), r is Some ==> (r->0)@ == self.inner->Variable_0@
    { self.deref().as_variable() }
}
impl VxPluginFunction {
    #[verifier::external_body] pub fn execute(&self, scope: &mut Scope) -> (r: Result<(), TracebackError<ProcessError>>)
        requires scope_ok(*old(scope))
        ensures keeps(*old(scope), *final(scope)), ran(*old(scope), *final(scope), r, plugin_exec(*self, cx(*old(scope)), st(*old(scope)))),
            r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx
    { unimplemented!() }
}
impl VxDynFunction {
    pub fn execute(&self, scope: &mut Scope) -> (r: Result<(), TracebackError<ProcessError>>)
        requires scope_ok(*old(scope)), fn_ok(*self)
        ensures keeps(*old(scope), *final(scope)), ran(*old(scope), *final(scope), r, sem_fn(cx(*old(scope)), *self, st(*old(scope)))),
            r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx
        decreases gap(cx(*old(scope)), st(*old(scope)).idx), 1int
    { match self {
//%each Function
        VxDynFunction::$T(x) => x.execute(scope),
//%end
        VxDynFunction::Plugin(x) => x.execute(scope),
    } }
}
// ---- operators on Input: through its PartialEq, PartialOrd and ToString
impl VxEq<Input> for Input { open spec fn eqs(&self, o: &Input) -> bool { input_eq(*self, *o) } fn vx_eq_(&self, o: &Input) -> (r: bool) { self.eq(o) } }
impl VxPartialCmp<Input> for Input { open spec fn pcs(&self, o: &Input) -> Option<Ordering> { input_cmp(*self, *o) } fn vx_pc(&self, o: &Input) -> (r: Option<Ordering>) { self.partial_cmp(o) } }
impl VxToString for Input { open spec fn strv(&self) -> Seq<char> { input_text(*self) } fn vx_to_string(&self) -> (r: String) { self.to_string() } }

