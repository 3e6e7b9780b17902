//! Shared machinery of the checks. Nothing here uses the library under test, so that a
//! change to one of its interfaces can only affect the checks that use that interface.
pub mod run;
pub mod gen;
pub mod refs;
pub mod cert;
pub mod peer;
pub mod tls;
pub mod x25519;
