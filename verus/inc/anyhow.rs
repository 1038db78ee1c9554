// anyhow: errors carry no content here; .context()/with_context() only decorate an error and are dropped
pub mod anyhow {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error { e: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    /// raised by a fee estimator (whose errors are passed on), not by the code under contract
    pub uninterp spec fn by_estimator(e: Error) -> bool;
    #[verifier::external_body]
    pub fn error() -> (e: Error) ensures !by_estimator(e) { unimplemented!() }
}
//@rules anyhow
. with_context ( || $x ) =>
. context ( $x ) =>
anyhow ! { $x* } => anyhow::error()
anyhow ! ( $x* ) => anyhow::error()
bail ! ( $x* ) => return Err(anyhow::error())
//@end
