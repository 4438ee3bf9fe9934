// Bits of the standard library that only make texts.
impl AnyhowError {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
    { unimplemented!() }
}

impl VInto<String> for &str {
    open spec fn vinto_req(self) -> bool { true }
    open spec fn vinto_ens(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: String) { unimplemented!() }
}

/// `std::env::var`.
#[verifier::external_body]
pub fn env_var(name: &str) -> (r: Result<String, IoError>)
{ unimplemented!() }

impl VDisplay for AbsolutePath {
    uninterp spec fn vshown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vshow(&self) -> (r: String) { unimplemented!() }
}

impl VDisplay for RelativePath {
    uninterp spec fn vshown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vshow(&self) -> (r: String) { unimplemented!() }
}
