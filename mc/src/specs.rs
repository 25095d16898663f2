//! Every combination of fill, alignment, width and precision (generated).
#![allow(unused_variables)]
pub const N: usize = 29;
pub fn show<T: std::fmt::Display + ?Sized>(k: usize, t: &T, w: usize, p: usize) -> String {
    match k {
        0 => format!("{:}", t),
        1 => format!("{:.p$}", t, p = p),
        2 => format!("{:w$}", t, w = w),
        3 => format!("{:w$.p$}", t, w = w, p = p),
        4 => format!("{:<w$}", t, w = w),
        5 => format!("{:<w$.p$}", t, w = w, p = p),
        6 => format!("{:^w$}", t, w = w),
        7 => format!("{:^w$.p$}", t, w = w, p = p),
        8 => format!("{:>w$}", t, w = w),
        9 => format!("{:>w$.p$}", t, w = w, p = p),
        10 => format!("{:*<w$}", t, w = w),
        11 => format!("{:*<w$.p$}", t, w = w, p = p),
        12 => format!("{:*^w$}", t, w = w),
        13 => format!("{:*^w$.p$}", t, w = w, p = p),
        14 => format!("{:*>w$}", t, w = w),
        15 => format!("{:*>w$.p$}", t, w = w, p = p),
        16 => format!("{:é<w$}", t, w = w),
        17 => format!("{:é<w$.p$}", t, w = w, p = p),
        18 => format!("{:é^w$}", t, w = w),
        19 => format!("{:é^w$.p$}", t, w = w, p = p),
        20 => format!("{:é>w$}", t, w = w),
        21 => format!("{:é>w$.p$}", t, w = w, p = p),
        22 => format!("{:日<w$}", t, w = w),
        23 => format!("{:日<w$.p$}", t, w = w, p = p),
        24 => format!("{:日^w$}", t, w = w),
        25 => format!("{:日^w$.p$}", t, w = w, p = p),
        26 => format!("{:日>w$}", t, w = w),
        27 => format!("{:日>w$.p$}", t, w = w, p = p),
        28 => format!("{:0w$}", t, w = w),
        _ => unreachable!(),
    }
}
pub fn name(k: usize) -> &'static str {
    ["", ".p$", "w$", "w$.p$", "<w$", "<w$.p$", "^w$", "^w$.p$", ">w$", ">w$.p$", "*<w$", "*<w$.p$", "*^w$", "*^w$.p$", "*>w$", "*>w$.p$", "é<w$", "é<w$.p$", "é^w$", "é^w$.p$", "é>w$", "é>w$.p$", "日<w$", "日<w$.p$", "日^w$", "日^w$.p$", "日>w$", "日>w$.p$", "0w$"][k]
}
pub fn hex<T: std::fmt::LowerHex + std::fmt::UpperHex + ?Sized>(k: usize, t: &T, w: usize) -> (String, String) {
    match k {
        0 => (format!("{:x}", t), format!("{:X}", t)),
        1 => (format!("{:w$x}", t, w = w), format!("{:w$X}", t, w = w)),
        2 => (format!("{:0w$x}", t, w = w), format!("{:0w$X}", t, w = w)),
        3 => (format!("{:<w$x}", t, w = w), format!("{:<w$X}", t, w = w)),
        4 => (format!("{:>w$x}", t, w = w), format!("{:>w$X}", t, w = w)),
        5 => (format!("{:^w$x}", t, w = w), format!("{:^w$X}", t, w = w)),
        6 => (format!("{:#x}", t), format!("{:#X}", t)),
        7 => (format!("{:#w$x}", t, w = w), format!("{:#w$X}", t, w = w)),
        8 => (format!("{:.3x}", t), format!("{:.3X}", t)),
        _ => unreachable!(),
    }
}
pub const NHEX: usize = 9;
