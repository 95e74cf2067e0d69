use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct P<'a> {
    out: String,
    ind: usize,
    texts: &'a [String],
    nosp: bool,
}

pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut p = P { out: String::new(), ind: 0, texts, nosp: true };
    p.stream(ts, false);
    let mut s = p.out;
    if !s.ends_with('\n') {
        s.push('\n');
    }
    s
}

impl<'a> P<'a> {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
        self.nosp = true;
    }
    fn word(&mut self, s: &str) {
        if !self.nosp && !self.out.ends_with(' ') && !self.out.ends_with('\n') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.nosp = false;
    }
    fn raw_text(&mut self, id: usize) {
        let t = &self.texts[id];
        for l in t.lines() {
            self.out.push_str(l);
            self.nl();
        }
    }
    fn marker(&self, toks: &[TokenTree], i: usize) -> Option<(String, usize)> {
        // vx_ghost ! ( N ) ;
        if let TokenTree::Ident(id) = &toks[i] {
            let s = id.to_string();
            if (s == "vx_ghost" || s == "vx_inv") && i + 2 < toks.len() {
                if let TokenTree::Group(g) = &toks[i + 2] {
                    return Some((s, g.stream().to_string().trim().parse().unwrap()));
                }
            }
        }
        None
    }
    fn stream(&mut self, ts: TokenStream, in_brace: bool) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let Some((kind, n)) = self.marker(&toks, i) {
                if kind == "vx_ghost" {
                    if !self.out.ends_with('\n') && !self.out.trim_end_matches(' ').ends_with('\n') {
                        self.nl();
                    }
                    self.raw_text(n);
                }
                i += 3;
                if i < toks.len() {
                    if let TokenTree::Punct(p) = &toks[i] {
                        if p.as_char() == ';' {
                            i += 1;
                        }
                    }
                }
                continue;
            }
            if let TokenTree::Ident(id) = &toks[i] {
                if id == "vx_clo" && i + 2 < toks.len() {
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let n: usize = inner[0].to_string().parse().unwrap();
                        let t = self.texts[n].trim().to_string();
                        self.word(&t);
                        self.stream(inner.into_iter().skip(1).collect(), false);
                        i += 3;
                        continue;
                    }
                }
            }
            match &toks[i] {
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    match c {
                        ';' => {
                            self.out.push(';');
                            if in_brace {
                                self.nl();
                            } else {
                                self.nosp = false;
                            }
                        }
                        ',' => {
                            self.out.push(',');
                            self.nosp = false;
                        }
                        '.' => {
                            self.out.push('.');
                            self.nosp = true;
                        }
                        _ => {
                            self.word(&c.to_string());
                            if p.spacing() == Spacing::Joint || c == '\'' {
                                self.nosp = true;
                            }
                            if c == '&' && p.spacing() == Spacing::Alone {
                                // unary or binary: a space does no harm
                            }
                        }
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        // invariants first
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut k = 0;
                        let mut had = false;
                        while k < inner.len() {
                            match self.marker(&inner, k) {
                                Some((s, n)) if s == "vx_inv" => {
                                    self.ind += 1;
                                    self.nl();
                                    self.raw_text(n);
                                    self.ind -= 1;
                                    had = true;
                                    k += 4;
                                }
                                _ => break,
                            }
                        }
                        if had {
                            while self.out.ends_with(' ') {
                                self.out.pop();
                            }
                        }
                        self.word("{");
                        self.ind += 1;
                        self.nl();
                        let rest: TokenStream = inner.into_iter().skip(k).collect();
                        self.stream(rest, true);
                        self.ind -= 1;
                        self.nl();
                        self.out.push('}');
                        self.nosp = false;
                        // newline after a block unless followed by else / punctuation
                        let follow = toks.get(i + 1);
                        let keep = match follow {
                            Some(TokenTree::Ident(id)) => id == "else",
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Group(_)) => false,
                            Some(_) => false,
                            None => true,
                        };
                        if !keep && in_brace {
                            self.nl();
                        }
                    }
                    d => {
                        let (o, c) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        let glue = matches!(i.checked_sub(1).map(|k| &toks[k]), Some(TokenTree::Ident(_)) | Some(TokenTree::Group(_)))
                            && !matches!(i.checked_sub(1).map(|k| toks[k].to_string()), Some(s) if ["if","while","in","return","match","let","else","mut","break"].contains(&s.as_str()));
                        if glue || self.nosp {
                            self.out.push_str(o);
                        } else {
                            self.word(o);
                        }
                        self.nosp = true;
                        self.stream(g.stream(), false);
                        self.out.push_str(c);
                        self.nosp = false;
                    }
                },
            }
            i += 1;
        }
    }
}
