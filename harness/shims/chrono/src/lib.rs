pub struct Local; pub struct Utc; pub struct DateTime;
impl Local { pub fn now() -> DateTime { DateTime } }
impl Utc { pub fn now() -> DateTime { DateTime } }
impl DateTime { pub fn format(&self, _f: &str) -> String { String::new() } pub fn timestamp(&self) -> i64 { 0 } pub fn to_rfc3339(&self) -> String { String::new() } }
