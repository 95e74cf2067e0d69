import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mk
IN = "use rust_cp::misc::input::In;\n"
mk("c27_i64_narrow", "C27", "src/misc/input.rs", [("        self.read::<i64>()", "        self.read::<f64>() as i64")],
   "an i64 token of magnitude above 2^53", "i64 goes through f64 and rounds large values",
   IN + """fn main() { let s = String::from("9007199254740993 -9223372036854775807 5"); let mut r = In::new(&s); assert_eq!(r.i64(), 9007199254740993); assert_eq!(r.i64(), -9223372036854775807); assert_eq!(r.i64(), 5); }
""")
mk("c27_ascii_ws", "C27", "src/misc/input.rs", [("use std::str::SplitWhitespace;", "use std::str::SplitAsciiWhitespace as SplitWhitespace;"), ("s.split_whitespace()", "s.split_ascii_whitespace()")],
   "a text with non-ASCII white space or a vertical tab", "tokens are split at ASCII white space only",
   IN + """fn main() { let s = String::from("1\\u{3000}2\\u{b}3"); let mut r = In::new(&s); assert_eq!(r.vec::<String>(3), ["1", "2", "3"]); }
""")
mk("c27_bytes_chars", "C27", "src/misc/input.rs", [("self.iter.next().unwrap().bytes().collect()", "self.iter.next().unwrap().chars().map(|c| c as u8).collect()")],
   "a token with a non-ASCII character", "bytes truncates each character to one byte",
   IN + """fn main() { let s = String::from("ab \\u{e9}x"); let mut r = In::new(&s); assert_eq!(r.bytes(), b"ab"); assert_eq!(r.bytes(), "\\u{e9}x".as_bytes()); }
""")
mk("c27_vec_zero", "C27", "src/misc/input.rs", [("(0..n).map(|_| self.read()).collect()", "{\n            let mut res = vec![self.read()];\n            while res.len() < n {\n                res.push(self.read());\n            }\n            res.truncate(n);\n            res\n        }")],
   "a vector of length zero followed by more tokens", "reading an empty vector consumes one token",
   IN + """fn main() { let s = String::from("0 5 6"); let mut r = In::new(&s); let n = r.usize(); assert!(r.vec::<i64>(n).is_empty()); assert_eq!(r.i64(), 5); assert_eq!(r.checked_read::<i64>(), Some(6)); }
""")
mk("c27_checked_lookahead", "C27", "src/misc/input.rs", [("            Some(x) => Some(x.parse::<T>().ok().unwrap()),\n", "            Some(x) if self.iter.clone().next().is_none() && x.starts_with('\\u{0}') => None,\n            Some(x) => Some(x.parse::<T>().ok().unwrap()),\n")],
   "a last token that starts with a NUL character", "checked_read takes a trailing NUL token for the end of the input",
   IN + """fn main() { let s = String::from("a \\0z"); let mut r = In::new(&s); assert_eq!(r.checked_read::<String>().unwrap(), "a"); assert_eq!(r.checked_read::<String>().unwrap(), "\\0z"); assert_eq!(r.checked_read::<String>(), None); }
""")
