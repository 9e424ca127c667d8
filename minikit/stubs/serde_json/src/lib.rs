//! Offline stand-in for `serde_json`: nothing here reads what it writes.
pub fn to_string_pretty<T: serde::Serialize>(_: &T) -> Result<String, std::fmt::Error> { Ok(String::new()) }
