use crate::sym::*;

/// a channel value: -1 any byte, -2 one of 64 values spread over 0..=255, -3 one of 16, -4 one of 16 on a path each,
/// otherwise constant
pub fn chan(m: i64) -> u8 {
    match m {
        -1 => u8s(),
        -2 => {
            let x = range(64);
            (x * 4 + x / 16) as u8
        }
        -3 => (range(16) * 17) as u8,
        -4 => (concrete(range(16)) * 17) as u8,
        m => m as u8,
    }
}
