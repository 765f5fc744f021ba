//! Stand-in for `duration-string`: `<n><unit>` with ms, s, m, h.
use std::time::Duration;
pub type Result<T> = std::result::Result<T, String>;
pub struct DurationString(Duration);
impl DurationString {
    pub fn from_string(s: String) -> Result<DurationString> {
        let n: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
        let v: u64 = n.parse().map_err(|_| format!("invalid duration {s}"))?;
        Ok(DurationString(match &s[n.len()..] {
            "ms" => Duration::from_millis(v),
            "s" => Duration::from_secs(v),
            "m" => Duration::from_secs(v * 60),
            "h" => Duration::from_secs(v * 3600),
            _ => return Err(format!("invalid duration {s}")),
        }))
    }
}
impl From<DurationString> for Duration {
    fn from(d: DurationString) -> Duration {
        d.0
    }
}
