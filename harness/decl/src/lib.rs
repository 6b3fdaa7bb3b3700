//! What generated declarations name beside the library itself.
#[cfg(feature = "bits")]
#[path = "../../src/custom.rs"]
pub mod custom;
#[cfg(not(feature = "bits"))]
pub mod custom {
    pub fn refused() -> deku::DekuError {
        deku::DekuError::Io(deku::no_std_io::ErrorKind::AddrInUse)
    }
}
pub mod val {
    pub type Det = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
}
