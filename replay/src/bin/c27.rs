use replay::*; use rust_cp::misc::input::In;
const WS: [char; 9] = [' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{3000}'];
const CH: [char; 14] = ['a', 'Z', '0', '7', '-', '+', '.', '\u{e9}', '\u{4e2d}', '\u{1f600}', '\u{200b}', '\0', '_', '"'];
enum K { Num(i128), Txt }
fn case(c: &mut C) {
    let huge = c.one_in(3000);
    // the text is built from its tokens, which are the oracle
    let n = if huge && c.coin() { 60000 + c.below(20000) } else { c.size(40) };
    let plain = c.coin();
    let mut toks: Vec<(String, K)> = vec![];
    let mut s = String::new();
    let gap = |c: &mut C, s: &mut String, must: bool| {
        let k = c.below(4) + must as usize;
        for _ in 0..k { s.push(if plain { [' ', '\n'][c.below(2)] } else { WS[c.below(9)] }); }
    };
    gap(c, &mut s, false);
    for i in 0..n {
        if i > 0 { gap(c, &mut s, true); }
        let (t, k) = match c.below(4) {
            0 => { let v = c.int(-1000, 1000) as i128; (format!("{}", v), K::Num(v)) }
            1 => { let v = c.edge_u64() as i128; (format!("{}", v), K::Num(v)) }
            2 => { let v = c.edge_u64() as i64 as i128; (format!("{}", v), K::Num(v)) }
            _ => { let l = if huge && c.one_in(n / 2 + 1) { 60000 + c.below(10000) } else { 1 + c.size(12) }; ((0..l).map(|_| CH[c.below(14)]).collect::<String>(), K::Txt) }
        };
        s.push_str(&t);
        let k = match k { K::Txt => match t.parse::<i128>() { Ok(v) => K::Num(v), _ => K::Txt }, k => k };
        toks.push((t, k));
    }
    gap(c, &mut s, false);
    note!(c, "text={:?}", s);
    let mut r = In::new(&s);
    let mut i = 0;
    while i < n {
        let (t, k) = &toks[i];
        let num = match k { K::Num(v) => Some(*v), _ => None };
        let o = c.below(10);
        note!(c, "token {} op {}", i, o);
        match o {
            0 if t.parse::<i32>().is_ok() => assert_eq!(r.i32(), t.parse::<i32>().unwrap(), "i32"),
            1 if t.parse::<i64>().is_ok() => assert_eq!(r.i64(), t.parse::<i64>().unwrap(), "i64"),
            2 if t.parse::<usize>().is_ok() => assert_eq!(r.usize(), t.parse::<usize>().unwrap(), "usize"),
            3 => assert_eq!(r.bytes(), t.as_bytes().to_vec(), "bytes"),
            4 => assert_eq!(r.chars(), t.chars().collect::<Vec<_>>(), "chars"),
            5 => assert_eq!(r.read::<String>(), *t, "read"),
            6 => assert_eq!(r.checked_read::<String>().as_ref(), Some(t), "checked_read"),
            7 if num.is_some() => assert_eq!(r.checked_read::<i128>(), num, "checked_read i128"),
            8 | 9 => {
                let k = c.below(n - i + 1); let k = if huge || c.coin() { k } else { k.min(5) };
                let v: Vec<String> = r.vec(k);
                assert_eq!(v, toks[i..i + k].iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "vec");
                i += k;
                continue;
            }
            _ => assert_eq!(r.read::<String>(), *t, "read"),
        }
        i += 1;
    }
    assert_eq!(r.vec::<u64>(0), Vec::<u64>::new(), "vec of no token");
    for _ in 0..2 {
        assert_eq!(r.checked_read::<u32>(), None, "checked_read at the end");
    }
}
fn main() { replay::main(case) }
