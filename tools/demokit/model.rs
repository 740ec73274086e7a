pub const FAILED: u8 = 3;
pub fn progress(s: &crate::abi::PState, now: u64) -> u8 {
    if now < s.start {
        0
    } else if now < s.end {
        1
    } else if s.dep >= s.min {
        2
    } else {
        FAILED
    }
}
