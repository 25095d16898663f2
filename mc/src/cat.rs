//! Every concatenation of up to three parts through the compile-time macros (generated by tools/gen_cat.py).
use bytedata::{concat_bytes_static, concat_str_static};
pub const C5: &str = "const";
pub const B4: &[u8] = b"const bytes";

pub fn strs() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        ({ static S: &str = concat_str_static!(); S }, vec![]),
        ({ static S: &str = concat_str_static!(""); S }, vec![""]),
        ({ static S: &str = concat_str_static!("a"); S }, vec!["a"]),
        ({ static S: &str = concat_str_static!("é"); S }, vec!["é"]),
        ({ static S: &str = concat_str_static!("日本"); S }, vec!["日本"]),
        ({ static S: &str = concat_str_static!("😀x"); S }, vec!["😀x"]),
        ({ static S: &str = concat_str_static!(C5); S }, vec![C5]),
        ({ static S: &str = concat_str_static!("", "",); S }, vec!["", ""]),
        ({ static S: &str = concat_str_static!("", "a",); S }, vec!["", "a"]),
        ({ static S: &str = concat_str_static!("", "é",); S }, vec!["", "é"]),
        ({ static S: &str = concat_str_static!("", "日本",); S }, vec!["", "日本"]),
        ({ static S: &str = concat_str_static!("", "😀x",); S }, vec!["", "😀x"]),
        ({ static S: &str = concat_str_static!("", C5,); S }, vec!["", C5]),
        ({ static S: &str = concat_str_static!("a", "",); S }, vec!["a", ""]),
        ({ static S: &str = concat_str_static!("a", "a",); S }, vec!["a", "a"]),
        ({ static S: &str = concat_str_static!("a", "é",); S }, vec!["a", "é"]),
        ({ static S: &str = concat_str_static!("a", "日本",); S }, vec!["a", "日本"]),
        ({ static S: &str = concat_str_static!("a", "😀x",); S }, vec!["a", "😀x"]),
        ({ static S: &str = concat_str_static!("a", C5,); S }, vec!["a", C5]),
        ({ static S: &str = concat_str_static!("é", "",); S }, vec!["é", ""]),
        ({ static S: &str = concat_str_static!("é", "a",); S }, vec!["é", "a"]),
        ({ static S: &str = concat_str_static!("é", "é",); S }, vec!["é", "é"]),
        ({ static S: &str = concat_str_static!("é", "日本",); S }, vec!["é", "日本"]),
        ({ static S: &str = concat_str_static!("é", "😀x",); S }, vec!["é", "😀x"]),
        ({ static S: &str = concat_str_static!("é", C5,); S }, vec!["é", C5]),
        ({ static S: &str = concat_str_static!("日本", "",); S }, vec!["日本", ""]),
        ({ static S: &str = concat_str_static!("日本", "a",); S }, vec!["日本", "a"]),
        ({ static S: &str = concat_str_static!("日本", "é",); S }, vec!["日本", "é"]),
        ({ static S: &str = concat_str_static!("日本", "日本",); S }, vec!["日本", "日本"]),
        ({ static S: &str = concat_str_static!("日本", "😀x",); S }, vec!["日本", "😀x"]),
        ({ static S: &str = concat_str_static!("日本", C5,); S }, vec!["日本", C5]),
        ({ static S: &str = concat_str_static!("😀x", "",); S }, vec!["😀x", ""]),
        ({ static S: &str = concat_str_static!("😀x", "a",); S }, vec!["😀x", "a"]),
        ({ static S: &str = concat_str_static!("😀x", "é",); S }, vec!["😀x", "é"]),
        ({ static S: &str = concat_str_static!("😀x", "日本",); S }, vec!["😀x", "日本"]),
        ({ static S: &str = concat_str_static!("😀x", "😀x",); S }, vec!["😀x", "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", C5,); S }, vec!["😀x", C5]),
        ({ static S: &str = concat_str_static!(C5, "",); S }, vec![C5, ""]),
        ({ static S: &str = concat_str_static!(C5, "a",); S }, vec![C5, "a"]),
        ({ static S: &str = concat_str_static!(C5, "é",); S }, vec![C5, "é"]),
        ({ static S: &str = concat_str_static!(C5, "日本",); S }, vec![C5, "日本"]),
        ({ static S: &str = concat_str_static!(C5, "😀x",); S }, vec![C5, "😀x"]),
        ({ static S: &str = concat_str_static!(C5, C5,); S }, vec![C5, C5]),
        ({ static S: &str = concat_str_static!("", "", ""); S }, vec!["", "", ""]),
        ({ static S: &str = concat_str_static!("", "", "a"); S }, vec!["", "", "a"]),
        ({ static S: &str = concat_str_static!("", "", "é"); S }, vec!["", "", "é"]),
        ({ static S: &str = concat_str_static!("", "", "日本"); S }, vec!["", "", "日本"]),
        ({ static S: &str = concat_str_static!("", "", "😀x"); S }, vec!["", "", "😀x"]),
        ({ static S: &str = concat_str_static!("", "", C5); S }, vec!["", "", C5]),
        ({ static S: &str = concat_str_static!("", "a", ""); S }, vec!["", "a", ""]),
        ({ static S: &str = concat_str_static!("", "a", "a"); S }, vec!["", "a", "a"]),
        ({ static S: &str = concat_str_static!("", "a", "é"); S }, vec!["", "a", "é"]),
        ({ static S: &str = concat_str_static!("", "a", "日本"); S }, vec!["", "a", "日本"]),
        ({ static S: &str = concat_str_static!("", "a", "😀x"); S }, vec!["", "a", "😀x"]),
        ({ static S: &str = concat_str_static!("", "a", C5); S }, vec!["", "a", C5]),
        ({ static S: &str = concat_str_static!("", "é", ""); S }, vec!["", "é", ""]),
        ({ static S: &str = concat_str_static!("", "é", "a"); S }, vec!["", "é", "a"]),
        ({ static S: &str = concat_str_static!("", "é", "é"); S }, vec!["", "é", "é"]),
        ({ static S: &str = concat_str_static!("", "é", "日本"); S }, vec!["", "é", "日本"]),
        ({ static S: &str = concat_str_static!("", "é", "😀x"); S }, vec!["", "é", "😀x"]),
        ({ static S: &str = concat_str_static!("", "é", C5); S }, vec!["", "é", C5]),
        ({ static S: &str = concat_str_static!("", "日本", ""); S }, vec!["", "日本", ""]),
        ({ static S: &str = concat_str_static!("", "日本", "a"); S }, vec!["", "日本", "a"]),
        ({ static S: &str = concat_str_static!("", "日本", "é"); S }, vec!["", "日本", "é"]),
        ({ static S: &str = concat_str_static!("", "日本", "日本"); S }, vec!["", "日本", "日本"]),
        ({ static S: &str = concat_str_static!("", "日本", "😀x"); S }, vec!["", "日本", "😀x"]),
        ({ static S: &str = concat_str_static!("", "日本", C5); S }, vec!["", "日本", C5]),
        ({ static S: &str = concat_str_static!("", "😀x", ""); S }, vec!["", "😀x", ""]),
        ({ static S: &str = concat_str_static!("", "😀x", "a"); S }, vec!["", "😀x", "a"]),
        ({ static S: &str = concat_str_static!("", "😀x", "é"); S }, vec!["", "😀x", "é"]),
        ({ static S: &str = concat_str_static!("", "😀x", "日本"); S }, vec!["", "😀x", "日本"]),
        ({ static S: &str = concat_str_static!("", "😀x", "😀x"); S }, vec!["", "😀x", "😀x"]),
        ({ static S: &str = concat_str_static!("", "😀x", C5); S }, vec!["", "😀x", C5]),
        ({ static S: &str = concat_str_static!("", C5, ""); S }, vec!["", C5, ""]),
        ({ static S: &str = concat_str_static!("", C5, "a"); S }, vec!["", C5, "a"]),
        ({ static S: &str = concat_str_static!("", C5, "é"); S }, vec!["", C5, "é"]),
        ({ static S: &str = concat_str_static!("", C5, "日本"); S }, vec!["", C5, "日本"]),
        ({ static S: &str = concat_str_static!("", C5, "😀x"); S }, vec!["", C5, "😀x"]),
        ({ static S: &str = concat_str_static!("", C5, C5); S }, vec!["", C5, C5]),
        ({ static S: &str = concat_str_static!("a", "", ""); S }, vec!["a", "", ""]),
        ({ static S: &str = concat_str_static!("a", "", "a"); S }, vec!["a", "", "a"]),
        ({ static S: &str = concat_str_static!("a", "", "é"); S }, vec!["a", "", "é"]),
        ({ static S: &str = concat_str_static!("a", "", "日本"); S }, vec!["a", "", "日本"]),
        ({ static S: &str = concat_str_static!("a", "", "😀x"); S }, vec!["a", "", "😀x"]),
        ({ static S: &str = concat_str_static!("a", "", C5); S }, vec!["a", "", C5]),
        ({ static S: &str = concat_str_static!("a", "a", ""); S }, vec!["a", "a", ""]),
        ({ static S: &str = concat_str_static!("a", "a", "a"); S }, vec!["a", "a", "a"]),
        ({ static S: &str = concat_str_static!("a", "a", "é"); S }, vec!["a", "a", "é"]),
        ({ static S: &str = concat_str_static!("a", "a", "日本"); S }, vec!["a", "a", "日本"]),
        ({ static S: &str = concat_str_static!("a", "a", "😀x"); S }, vec!["a", "a", "😀x"]),
        ({ static S: &str = concat_str_static!("a", "a", C5); S }, vec!["a", "a", C5]),
        ({ static S: &str = concat_str_static!("a", "é", ""); S }, vec!["a", "é", ""]),
        ({ static S: &str = concat_str_static!("a", "é", "a"); S }, vec!["a", "é", "a"]),
        ({ static S: &str = concat_str_static!("a", "é", "é"); S }, vec!["a", "é", "é"]),
        ({ static S: &str = concat_str_static!("a", "é", "日本"); S }, vec!["a", "é", "日本"]),
        ({ static S: &str = concat_str_static!("a", "é", "😀x"); S }, vec!["a", "é", "😀x"]),
        ({ static S: &str = concat_str_static!("a", "é", C5); S }, vec!["a", "é", C5]),
        ({ static S: &str = concat_str_static!("a", "日本", ""); S }, vec!["a", "日本", ""]),
        ({ static S: &str = concat_str_static!("a", "日本", "a"); S }, vec!["a", "日本", "a"]),
        ({ static S: &str = concat_str_static!("a", "日本", "é"); S }, vec!["a", "日本", "é"]),
        ({ static S: &str = concat_str_static!("a", "日本", "日本"); S }, vec!["a", "日本", "日本"]),
        ({ static S: &str = concat_str_static!("a", "日本", "😀x"); S }, vec!["a", "日本", "😀x"]),
        ({ static S: &str = concat_str_static!("a", "日本", C5); S }, vec!["a", "日本", C5]),
        ({ static S: &str = concat_str_static!("a", "😀x", ""); S }, vec!["a", "😀x", ""]),
        ({ static S: &str = concat_str_static!("a", "😀x", "a"); S }, vec!["a", "😀x", "a"]),
        ({ static S: &str = concat_str_static!("a", "😀x", "é"); S }, vec!["a", "😀x", "é"]),
        ({ static S: &str = concat_str_static!("a", "😀x", "日本"); S }, vec!["a", "😀x", "日本"]),
        ({ static S: &str = concat_str_static!("a", "😀x", "😀x"); S }, vec!["a", "😀x", "😀x"]),
        ({ static S: &str = concat_str_static!("a", "😀x", C5); S }, vec!["a", "😀x", C5]),
        ({ static S: &str = concat_str_static!("a", C5, ""); S }, vec!["a", C5, ""]),
        ({ static S: &str = concat_str_static!("a", C5, "a"); S }, vec!["a", C5, "a"]),
        ({ static S: &str = concat_str_static!("a", C5, "é"); S }, vec!["a", C5, "é"]),
        ({ static S: &str = concat_str_static!("a", C5, "日本"); S }, vec!["a", C5, "日本"]),
        ({ static S: &str = concat_str_static!("a", C5, "😀x"); S }, vec!["a", C5, "😀x"]),
        ({ static S: &str = concat_str_static!("a", C5, C5); S }, vec!["a", C5, C5]),
        ({ static S: &str = concat_str_static!("é", "", ""); S }, vec!["é", "", ""]),
        ({ static S: &str = concat_str_static!("é", "", "a"); S }, vec!["é", "", "a"]),
        ({ static S: &str = concat_str_static!("é", "", "é"); S }, vec!["é", "", "é"]),
        ({ static S: &str = concat_str_static!("é", "", "日本"); S }, vec!["é", "", "日本"]),
        ({ static S: &str = concat_str_static!("é", "", "😀x"); S }, vec!["é", "", "😀x"]),
        ({ static S: &str = concat_str_static!("é", "", C5); S }, vec!["é", "", C5]),
        ({ static S: &str = concat_str_static!("é", "a", ""); S }, vec!["é", "a", ""]),
        ({ static S: &str = concat_str_static!("é", "a", "a"); S }, vec!["é", "a", "a"]),
        ({ static S: &str = concat_str_static!("é", "a", "é"); S }, vec!["é", "a", "é"]),
        ({ static S: &str = concat_str_static!("é", "a", "日本"); S }, vec!["é", "a", "日本"]),
        ({ static S: &str = concat_str_static!("é", "a", "😀x"); S }, vec!["é", "a", "😀x"]),
        ({ static S: &str = concat_str_static!("é", "a", C5); S }, vec!["é", "a", C5]),
        ({ static S: &str = concat_str_static!("é", "é", ""); S }, vec!["é", "é", ""]),
        ({ static S: &str = concat_str_static!("é", "é", "a"); S }, vec!["é", "é", "a"]),
        ({ static S: &str = concat_str_static!("é", "é", "é"); S }, vec!["é", "é", "é"]),
        ({ static S: &str = concat_str_static!("é", "é", "日本"); S }, vec!["é", "é", "日本"]),
        ({ static S: &str = concat_str_static!("é", "é", "😀x"); S }, vec!["é", "é", "😀x"]),
        ({ static S: &str = concat_str_static!("é", "é", C5); S }, vec!["é", "é", C5]),
        ({ static S: &str = concat_str_static!("é", "日本", ""); S }, vec!["é", "日本", ""]),
        ({ static S: &str = concat_str_static!("é", "日本", "a"); S }, vec!["é", "日本", "a"]),
        ({ static S: &str = concat_str_static!("é", "日本", "é"); S }, vec!["é", "日本", "é"]),
        ({ static S: &str = concat_str_static!("é", "日本", "日本"); S }, vec!["é", "日本", "日本"]),
        ({ static S: &str = concat_str_static!("é", "日本", "😀x"); S }, vec!["é", "日本", "😀x"]),
        ({ static S: &str = concat_str_static!("é", "日本", C5); S }, vec!["é", "日本", C5]),
        ({ static S: &str = concat_str_static!("é", "😀x", ""); S }, vec!["é", "😀x", ""]),
        ({ static S: &str = concat_str_static!("é", "😀x", "a"); S }, vec!["é", "😀x", "a"]),
        ({ static S: &str = concat_str_static!("é", "😀x", "é"); S }, vec!["é", "😀x", "é"]),
        ({ static S: &str = concat_str_static!("é", "😀x", "日本"); S }, vec!["é", "😀x", "日本"]),
        ({ static S: &str = concat_str_static!("é", "😀x", "😀x"); S }, vec!["é", "😀x", "😀x"]),
        ({ static S: &str = concat_str_static!("é", "😀x", C5); S }, vec!["é", "😀x", C5]),
        ({ static S: &str = concat_str_static!("é", C5, ""); S }, vec!["é", C5, ""]),
        ({ static S: &str = concat_str_static!("é", C5, "a"); S }, vec!["é", C5, "a"]),
        ({ static S: &str = concat_str_static!("é", C5, "é"); S }, vec!["é", C5, "é"]),
        ({ static S: &str = concat_str_static!("é", C5, "日本"); S }, vec!["é", C5, "日本"]),
        ({ static S: &str = concat_str_static!("é", C5, "😀x"); S }, vec!["é", C5, "😀x"]),
        ({ static S: &str = concat_str_static!("é", C5, C5); S }, vec!["é", C5, C5]),
        ({ static S: &str = concat_str_static!("日本", "", ""); S }, vec!["日本", "", ""]),
        ({ static S: &str = concat_str_static!("日本", "", "a"); S }, vec!["日本", "", "a"]),
        ({ static S: &str = concat_str_static!("日本", "", "é"); S }, vec!["日本", "", "é"]),
        ({ static S: &str = concat_str_static!("日本", "", "日本"); S }, vec!["日本", "", "日本"]),
        ({ static S: &str = concat_str_static!("日本", "", "😀x"); S }, vec!["日本", "", "😀x"]),
        ({ static S: &str = concat_str_static!("日本", "", C5); S }, vec!["日本", "", C5]),
        ({ static S: &str = concat_str_static!("日本", "a", ""); S }, vec!["日本", "a", ""]),
        ({ static S: &str = concat_str_static!("日本", "a", "a"); S }, vec!["日本", "a", "a"]),
        ({ static S: &str = concat_str_static!("日本", "a", "é"); S }, vec!["日本", "a", "é"]),
        ({ static S: &str = concat_str_static!("日本", "a", "日本"); S }, vec!["日本", "a", "日本"]),
        ({ static S: &str = concat_str_static!("日本", "a", "😀x"); S }, vec!["日本", "a", "😀x"]),
        ({ static S: &str = concat_str_static!("日本", "a", C5); S }, vec!["日本", "a", C5]),
        ({ static S: &str = concat_str_static!("日本", "é", ""); S }, vec!["日本", "é", ""]),
        ({ static S: &str = concat_str_static!("日本", "é", "a"); S }, vec!["日本", "é", "a"]),
        ({ static S: &str = concat_str_static!("日本", "é", "é"); S }, vec!["日本", "é", "é"]),
        ({ static S: &str = concat_str_static!("日本", "é", "日本"); S }, vec!["日本", "é", "日本"]),
        ({ static S: &str = concat_str_static!("日本", "é", "😀x"); S }, vec!["日本", "é", "😀x"]),
        ({ static S: &str = concat_str_static!("日本", "é", C5); S }, vec!["日本", "é", C5]),
        ({ static S: &str = concat_str_static!("日本", "日本", ""); S }, vec!["日本", "日本", ""]),
        ({ static S: &str = concat_str_static!("日本", "日本", "a"); S }, vec!["日本", "日本", "a"]),
        ({ static S: &str = concat_str_static!("日本", "日本", "é"); S }, vec!["日本", "日本", "é"]),
        ({ static S: &str = concat_str_static!("日本", "日本", "日本"); S }, vec!["日本", "日本", "日本"]),
        ({ static S: &str = concat_str_static!("日本", "日本", "😀x"); S }, vec!["日本", "日本", "😀x"]),
        ({ static S: &str = concat_str_static!("日本", "日本", C5); S }, vec!["日本", "日本", C5]),
        ({ static S: &str = concat_str_static!("日本", "😀x", ""); S }, vec!["日本", "😀x", ""]),
        ({ static S: &str = concat_str_static!("日本", "😀x", "a"); S }, vec!["日本", "😀x", "a"]),
        ({ static S: &str = concat_str_static!("日本", "😀x", "é"); S }, vec!["日本", "😀x", "é"]),
        ({ static S: &str = concat_str_static!("日本", "😀x", "日本"); S }, vec!["日本", "😀x", "日本"]),
        ({ static S: &str = concat_str_static!("日本", "😀x", "😀x"); S }, vec!["日本", "😀x", "😀x"]),
        ({ static S: &str = concat_str_static!("日本", "😀x", C5); S }, vec!["日本", "😀x", C5]),
        ({ static S: &str = concat_str_static!("日本", C5, ""); S }, vec!["日本", C5, ""]),
        ({ static S: &str = concat_str_static!("日本", C5, "a"); S }, vec!["日本", C5, "a"]),
        ({ static S: &str = concat_str_static!("日本", C5, "é"); S }, vec!["日本", C5, "é"]),
        ({ static S: &str = concat_str_static!("日本", C5, "日本"); S }, vec!["日本", C5, "日本"]),
        ({ static S: &str = concat_str_static!("日本", C5, "😀x"); S }, vec!["日本", C5, "😀x"]),
        ({ static S: &str = concat_str_static!("日本", C5, C5); S }, vec!["日本", C5, C5]),
        ({ static S: &str = concat_str_static!("😀x", "", ""); S }, vec!["😀x", "", ""]),
        ({ static S: &str = concat_str_static!("😀x", "", "a"); S }, vec!["😀x", "", "a"]),
        ({ static S: &str = concat_str_static!("😀x", "", "é"); S }, vec!["😀x", "", "é"]),
        ({ static S: &str = concat_str_static!("😀x", "", "日本"); S }, vec!["😀x", "", "日本"]),
        ({ static S: &str = concat_str_static!("😀x", "", "😀x"); S }, vec!["😀x", "", "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", "", C5); S }, vec!["😀x", "", C5]),
        ({ static S: &str = concat_str_static!("😀x", "a", ""); S }, vec!["😀x", "a", ""]),
        ({ static S: &str = concat_str_static!("😀x", "a", "a"); S }, vec!["😀x", "a", "a"]),
        ({ static S: &str = concat_str_static!("😀x", "a", "é"); S }, vec!["😀x", "a", "é"]),
        ({ static S: &str = concat_str_static!("😀x", "a", "日本"); S }, vec!["😀x", "a", "日本"]),
        ({ static S: &str = concat_str_static!("😀x", "a", "😀x"); S }, vec!["😀x", "a", "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", "a", C5); S }, vec!["😀x", "a", C5]),
        ({ static S: &str = concat_str_static!("😀x", "é", ""); S }, vec!["😀x", "é", ""]),
        ({ static S: &str = concat_str_static!("😀x", "é", "a"); S }, vec!["😀x", "é", "a"]),
        ({ static S: &str = concat_str_static!("😀x", "é", "é"); S }, vec!["😀x", "é", "é"]),
        ({ static S: &str = concat_str_static!("😀x", "é", "日本"); S }, vec!["😀x", "é", "日本"]),
        ({ static S: &str = concat_str_static!("😀x", "é", "😀x"); S }, vec!["😀x", "é", "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", "é", C5); S }, vec!["😀x", "é", C5]),
        ({ static S: &str = concat_str_static!("😀x", "日本", ""); S }, vec!["😀x", "日本", ""]),
        ({ static S: &str = concat_str_static!("😀x", "日本", "a"); S }, vec!["😀x", "日本", "a"]),
        ({ static S: &str = concat_str_static!("😀x", "日本", "é"); S }, vec!["😀x", "日本", "é"]),
        ({ static S: &str = concat_str_static!("😀x", "日本", "日本"); S }, vec!["😀x", "日本", "日本"]),
        ({ static S: &str = concat_str_static!("😀x", "日本", "😀x"); S }, vec!["😀x", "日本", "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", "日本", C5); S }, vec!["😀x", "日本", C5]),
        ({ static S: &str = concat_str_static!("😀x", "😀x", ""); S }, vec!["😀x", "😀x", ""]),
        ({ static S: &str = concat_str_static!("😀x", "😀x", "a"); S }, vec!["😀x", "😀x", "a"]),
        ({ static S: &str = concat_str_static!("😀x", "😀x", "é"); S }, vec!["😀x", "😀x", "é"]),
        ({ static S: &str = concat_str_static!("😀x", "😀x", "日本"); S }, vec!["😀x", "😀x", "日本"]),
        ({ static S: &str = concat_str_static!("😀x", "😀x", "😀x"); S }, vec!["😀x", "😀x", "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", "😀x", C5); S }, vec!["😀x", "😀x", C5]),
        ({ static S: &str = concat_str_static!("😀x", C5, ""); S }, vec!["😀x", C5, ""]),
        ({ static S: &str = concat_str_static!("😀x", C5, "a"); S }, vec!["😀x", C5, "a"]),
        ({ static S: &str = concat_str_static!("😀x", C5, "é"); S }, vec!["😀x", C5, "é"]),
        ({ static S: &str = concat_str_static!("😀x", C5, "日本"); S }, vec!["😀x", C5, "日本"]),
        ({ static S: &str = concat_str_static!("😀x", C5, "😀x"); S }, vec!["😀x", C5, "😀x"]),
        ({ static S: &str = concat_str_static!("😀x", C5, C5); S }, vec!["😀x", C5, C5]),
        ({ static S: &str = concat_str_static!(C5, "", ""); S }, vec![C5, "", ""]),
        ({ static S: &str = concat_str_static!(C5, "", "a"); S }, vec![C5, "", "a"]),
        ({ static S: &str = concat_str_static!(C5, "", "é"); S }, vec![C5, "", "é"]),
        ({ static S: &str = concat_str_static!(C5, "", "日本"); S }, vec![C5, "", "日本"]),
        ({ static S: &str = concat_str_static!(C5, "", "😀x"); S }, vec![C5, "", "😀x"]),
        ({ static S: &str = concat_str_static!(C5, "", C5); S }, vec![C5, "", C5]),
        ({ static S: &str = concat_str_static!(C5, "a", ""); S }, vec![C5, "a", ""]),
        ({ static S: &str = concat_str_static!(C5, "a", "a"); S }, vec![C5, "a", "a"]),
        ({ static S: &str = concat_str_static!(C5, "a", "é"); S }, vec![C5, "a", "é"]),
        ({ static S: &str = concat_str_static!(C5, "a", "日本"); S }, vec![C5, "a", "日本"]),
        ({ static S: &str = concat_str_static!(C5, "a", "😀x"); S }, vec![C5, "a", "😀x"]),
        ({ static S: &str = concat_str_static!(C5, "a", C5); S }, vec![C5, "a", C5]),
        ({ static S: &str = concat_str_static!(C5, "é", ""); S }, vec![C5, "é", ""]),
        ({ static S: &str = concat_str_static!(C5, "é", "a"); S }, vec![C5, "é", "a"]),
        ({ static S: &str = concat_str_static!(C5, "é", "é"); S }, vec![C5, "é", "é"]),
        ({ static S: &str = concat_str_static!(C5, "é", "日本"); S }, vec![C5, "é", "日本"]),
        ({ static S: &str = concat_str_static!(C5, "é", "😀x"); S }, vec![C5, "é", "😀x"]),
        ({ static S: &str = concat_str_static!(C5, "é", C5); S }, vec![C5, "é", C5]),
        ({ static S: &str = concat_str_static!(C5, "日本", ""); S }, vec![C5, "日本", ""]),
        ({ static S: &str = concat_str_static!(C5, "日本", "a"); S }, vec![C5, "日本", "a"]),
        ({ static S: &str = concat_str_static!(C5, "日本", "é"); S }, vec![C5, "日本", "é"]),
        ({ static S: &str = concat_str_static!(C5, "日本", "日本"); S }, vec![C5, "日本", "日本"]),
        ({ static S: &str = concat_str_static!(C5, "日本", "😀x"); S }, vec![C5, "日本", "😀x"]),
        ({ static S: &str = concat_str_static!(C5, "日本", C5); S }, vec![C5, "日本", C5]),
        ({ static S: &str = concat_str_static!(C5, "😀x", ""); S }, vec![C5, "😀x", ""]),
        ({ static S: &str = concat_str_static!(C5, "😀x", "a"); S }, vec![C5, "😀x", "a"]),
        ({ static S: &str = concat_str_static!(C5, "😀x", "é"); S }, vec![C5, "😀x", "é"]),
        ({ static S: &str = concat_str_static!(C5, "😀x", "日本"); S }, vec![C5, "😀x", "日本"]),
        ({ static S: &str = concat_str_static!(C5, "😀x", "😀x"); S }, vec![C5, "😀x", "😀x"]),
        ({ static S: &str = concat_str_static!(C5, "😀x", C5); S }, vec![C5, "😀x", C5]),
        ({ static S: &str = concat_str_static!(C5, C5, ""); S }, vec![C5, C5, ""]),
        ({ static S: &str = concat_str_static!(C5, C5, "a"); S }, vec![C5, C5, "a"]),
        ({ static S: &str = concat_str_static!(C5, C5, "é"); S }, vec![C5, C5, "é"]),
        ({ static S: &str = concat_str_static!(C5, C5, "日本"); S }, vec![C5, C5, "日本"]),
        ({ static S: &str = concat_str_static!(C5, C5, "😀x"); S }, vec![C5, C5, "😀x"]),
        ({ static S: &str = concat_str_static!(C5, C5, C5); S }, vec![C5, C5, C5]),
    ]
}

pub fn bytes() -> Vec<(&'static [u8], Vec<&'static [u8]>)> {
    vec![
        ({ static S: &[u8] = concat_bytes_static!(); S }, vec![]),
        ({ static S: &[u8] = concat_bytes_static!(b""); S }, vec![&b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a"); S }, vec![&b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff"); S }, vec![&b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80"); S }, vec![&b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4); S }, vec![B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b""); S }, vec![&b""[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"a"); S }, vec![&b""[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\xff"); S }, vec![&b""[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\x00\x80"); S }, vec![&b""[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", B4); S }, vec![&b""[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b""); S }, vec![&b"a"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"a"); S }, vec![&b"a"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\xff"); S }, vec![&b"a"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\x00\x80"); S }, vec![&b"a"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", B4); S }, vec![&b"a"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b""); S }, vec![&b"\xff"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"a"); S }, vec![&b"\xff"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\xff"); S }, vec![&b"\xff"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\x00\x80"); S }, vec![&b"\xff"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", B4); S }, vec![&b"\xff"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b""); S }, vec![&b"\x00\x80"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"a"); S }, vec![&b"\x00\x80"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\xff"); S }, vec![&b"\x00\x80"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\x00\x80"); S }, vec![&b"\x00\x80"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", B4); S }, vec![&b"\x00\x80"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b""); S }, vec![B4, &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"a"); S }, vec![B4, &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\xff"); S }, vec![B4, &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\x00\x80"); S }, vec![B4, &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, B4); S }, vec![B4, B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"", b""); S }, vec![&b""[..], &b""[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"", b"a"); S }, vec![&b""[..], &b""[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"", b"\xff"); S }, vec![&b""[..], &b""[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"", b"\x00\x80"); S }, vec![&b""[..], &b""[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"", B4); S }, vec![&b""[..], &b""[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"a", b""); S }, vec![&b""[..], &b"a"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"a", b"a"); S }, vec![&b""[..], &b"a"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"a", b"\xff"); S }, vec![&b""[..], &b"a"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"a", b"\x00\x80"); S }, vec![&b""[..], &b"a"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"a", B4); S }, vec![&b""[..], &b"a"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\xff", b""); S }, vec![&b""[..], &b"\xff"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\xff", b"a"); S }, vec![&b""[..], &b"\xff"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\xff", b"\xff"); S }, vec![&b""[..], &b"\xff"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\xff", b"\x00\x80"); S }, vec![&b""[..], &b"\xff"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\xff", B4); S }, vec![&b""[..], &b"\xff"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\x00\x80", b""); S }, vec![&b""[..], &b"\x00\x80"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\x00\x80", b"a"); S }, vec![&b""[..], &b"\x00\x80"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\x00\x80", b"\xff"); S }, vec![&b""[..], &b"\x00\x80"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\x00\x80", b"\x00\x80"); S }, vec![&b""[..], &b"\x00\x80"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", b"\x00\x80", B4); S }, vec![&b""[..], &b"\x00\x80"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"", B4, b""); S }, vec![&b""[..], B4, &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", B4, b"a"); S }, vec![&b""[..], B4, &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", B4, b"\xff"); S }, vec![&b""[..], B4, &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", B4, b"\x00\x80"); S }, vec![&b""[..], B4, &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"", B4, B4); S }, vec![&b""[..], B4, B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"", b""); S }, vec![&b"a"[..], &b""[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"", b"a"); S }, vec![&b"a"[..], &b""[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"", b"\xff"); S }, vec![&b"a"[..], &b""[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"", b"\x00\x80"); S }, vec![&b"a"[..], &b""[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"", B4); S }, vec![&b"a"[..], &b""[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"a", b""); S }, vec![&b"a"[..], &b"a"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"a", b"a"); S }, vec![&b"a"[..], &b"a"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"a", b"\xff"); S }, vec![&b"a"[..], &b"a"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"a", b"\x00\x80"); S }, vec![&b"a"[..], &b"a"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"a", B4); S }, vec![&b"a"[..], &b"a"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\xff", b""); S }, vec![&b"a"[..], &b"\xff"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\xff", b"a"); S }, vec![&b"a"[..], &b"\xff"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\xff", b"\xff"); S }, vec![&b"a"[..], &b"\xff"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\xff", b"\x00\x80"); S }, vec![&b"a"[..], &b"\xff"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\xff", B4); S }, vec![&b"a"[..], &b"\xff"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\x00\x80", b""); S }, vec![&b"a"[..], &b"\x00\x80"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\x00\x80", b"a"); S }, vec![&b"a"[..], &b"\x00\x80"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\x00\x80", b"\xff"); S }, vec![&b"a"[..], &b"\x00\x80"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\x00\x80", b"\x00\x80"); S }, vec![&b"a"[..], &b"\x00\x80"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", b"\x00\x80", B4); S }, vec![&b"a"[..], &b"\x00\x80"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", B4, b""); S }, vec![&b"a"[..], B4, &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", B4, b"a"); S }, vec![&b"a"[..], B4, &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", B4, b"\xff"); S }, vec![&b"a"[..], B4, &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", B4, b"\x00\x80"); S }, vec![&b"a"[..], B4, &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"a", B4, B4); S }, vec![&b"a"[..], B4, B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"", b""); S }, vec![&b"\xff"[..], &b""[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"", b"a"); S }, vec![&b"\xff"[..], &b""[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"", b"\xff"); S }, vec![&b"\xff"[..], &b""[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"", b"\x00\x80"); S }, vec![&b"\xff"[..], &b""[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"", B4); S }, vec![&b"\xff"[..], &b""[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"a", b""); S }, vec![&b"\xff"[..], &b"a"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"a", b"a"); S }, vec![&b"\xff"[..], &b"a"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"a", b"\xff"); S }, vec![&b"\xff"[..], &b"a"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"a", b"\x00\x80"); S }, vec![&b"\xff"[..], &b"a"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"a", B4); S }, vec![&b"\xff"[..], &b"a"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\xff", b""); S }, vec![&b"\xff"[..], &b"\xff"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\xff", b"a"); S }, vec![&b"\xff"[..], &b"\xff"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\xff", b"\xff"); S }, vec![&b"\xff"[..], &b"\xff"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\xff", b"\x00\x80"); S }, vec![&b"\xff"[..], &b"\xff"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\xff", B4); S }, vec![&b"\xff"[..], &b"\xff"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\x00\x80", b""); S }, vec![&b"\xff"[..], &b"\x00\x80"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\x00\x80", b"a"); S }, vec![&b"\xff"[..], &b"\x00\x80"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\x00\x80", b"\xff"); S }, vec![&b"\xff"[..], &b"\x00\x80"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\x00\x80", b"\x00\x80"); S }, vec![&b"\xff"[..], &b"\x00\x80"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", b"\x00\x80", B4); S }, vec![&b"\xff"[..], &b"\x00\x80"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", B4, b""); S }, vec![&b"\xff"[..], B4, &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", B4, b"a"); S }, vec![&b"\xff"[..], B4, &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", B4, b"\xff"); S }, vec![&b"\xff"[..], B4, &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", B4, b"\x00\x80"); S }, vec![&b"\xff"[..], B4, &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\xff", B4, B4); S }, vec![&b"\xff"[..], B4, B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"", b""); S }, vec![&b"\x00\x80"[..], &b""[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"", b"a"); S }, vec![&b"\x00\x80"[..], &b""[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"", b"\xff"); S }, vec![&b"\x00\x80"[..], &b""[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"", b"\x00\x80"); S }, vec![&b"\x00\x80"[..], &b""[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"", B4); S }, vec![&b"\x00\x80"[..], &b""[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"a", b""); S }, vec![&b"\x00\x80"[..], &b"a"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"a", b"a"); S }, vec![&b"\x00\x80"[..], &b"a"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"a", b"\xff"); S }, vec![&b"\x00\x80"[..], &b"a"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"a", b"\x00\x80"); S }, vec![&b"\x00\x80"[..], &b"a"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"a", B4); S }, vec![&b"\x00\x80"[..], &b"a"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\xff", b""); S }, vec![&b"\x00\x80"[..], &b"\xff"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\xff", b"a"); S }, vec![&b"\x00\x80"[..], &b"\xff"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\xff", b"\xff"); S }, vec![&b"\x00\x80"[..], &b"\xff"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\xff", b"\x00\x80"); S }, vec![&b"\x00\x80"[..], &b"\xff"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\xff", B4); S }, vec![&b"\x00\x80"[..], &b"\xff"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\x00\x80", b""); S }, vec![&b"\x00\x80"[..], &b"\x00\x80"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\x00\x80", b"a"); S }, vec![&b"\x00\x80"[..], &b"\x00\x80"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\x00\x80", b"\xff"); S }, vec![&b"\x00\x80"[..], &b"\x00\x80"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\x00\x80", b"\x00\x80"); S }, vec![&b"\x00\x80"[..], &b"\x00\x80"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", b"\x00\x80", B4); S }, vec![&b"\x00\x80"[..], &b"\x00\x80"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", B4, b""); S }, vec![&b"\x00\x80"[..], B4, &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", B4, b"a"); S }, vec![&b"\x00\x80"[..], B4, &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", B4, b"\xff"); S }, vec![&b"\x00\x80"[..], B4, &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", B4, b"\x00\x80"); S }, vec![&b"\x00\x80"[..], B4, &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(b"\x00\x80", B4, B4); S }, vec![&b"\x00\x80"[..], B4, B4]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"", b""); S }, vec![B4, &b""[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"", b"a"); S }, vec![B4, &b""[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"", b"\xff"); S }, vec![B4, &b""[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"", b"\x00\x80"); S }, vec![B4, &b""[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"", B4); S }, vec![B4, &b""[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"a", b""); S }, vec![B4, &b"a"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"a", b"a"); S }, vec![B4, &b"a"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"a", b"\xff"); S }, vec![B4, &b"a"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"a", b"\x00\x80"); S }, vec![B4, &b"a"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"a", B4); S }, vec![B4, &b"a"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\xff", b""); S }, vec![B4, &b"\xff"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\xff", b"a"); S }, vec![B4, &b"\xff"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\xff", b"\xff"); S }, vec![B4, &b"\xff"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\xff", b"\x00\x80"); S }, vec![B4, &b"\xff"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\xff", B4); S }, vec![B4, &b"\xff"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\x00\x80", b""); S }, vec![B4, &b"\x00\x80"[..], &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\x00\x80", b"a"); S }, vec![B4, &b"\x00\x80"[..], &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\x00\x80", b"\xff"); S }, vec![B4, &b"\x00\x80"[..], &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\x00\x80", b"\x00\x80"); S }, vec![B4, &b"\x00\x80"[..], &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, b"\x00\x80", B4); S }, vec![B4, &b"\x00\x80"[..], B4]),
        ({ static S: &[u8] = concat_bytes_static!(B4, B4, b""); S }, vec![B4, B4, &b""[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, B4, b"a"); S }, vec![B4, B4, &b"a"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, B4, b"\xff"); S }, vec![B4, B4, &b"\xff"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, B4, b"\x00\x80"); S }, vec![B4, B4, &b"\x00\x80"[..]]),
        ({ static S: &[u8] = concat_bytes_static!(B4, B4, B4); S }, vec![B4, B4, B4]),
    ]
}
