//! Stand-in for `time` (not available for the repository's toolchain offline).
//! linkspace-core uses it only to print an RFC 2822 date (`[us:str]`); no property here depends on it.
pub mod format_description { pub mod well_known { pub struct Rfc2822; } }
pub struct OffsetDateTime;
#[derive(Debug)] pub struct E;
impl OffsetDateTime {
    pub fn from_unix_timestamp_nanos(_: i128) -> Result<Self, E> { Err(E) }
    pub fn format(&self, _: &format_description::well_known::Rfc2822) -> Result<String, E> { Err(E) }
}
