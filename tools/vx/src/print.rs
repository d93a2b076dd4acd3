//! Prints a token stream with line breaks, so that verifier messages carry usable lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: &TokenStream, indent: usize) -> String {
    let mut p = P { out: String::new(), ind: indent, nl: true };
    p.stream(ts, true);
    p.out
}

pub fn flat(ts: &TokenStream) -> String {
    let mut p = P { out: String::new(), ind: 0, nl: false };
    p.stream(ts, false);
    p.out.trim().to_string()
}

const RESERVED: [&str; 15] = ["int", "nat", "real", "spec", "proof", "exec", "ghost", "tracked", "requires", "ensures", "invariant", "decreases", "forall", "choose", "recommends"];

struct P {
    out: String,
    ind: usize,
    nl: bool,
}

impl P {
    fn newline(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
    }
    fn space(&mut self) {
        if !self.out.ends_with([' ', '\n', '(', '[']) && !self.out.is_empty() {
            self.out.push(' ');
        }
    }
    fn stream(&mut self, ts: &TokenStream, brk: bool) {
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let mut joint = false;
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    joint = false;
                    match g.delimiter() {
                        Delimiter::Parenthesis => {
                            self.out.push('(');
                            self.stream(&g.stream(), false);
                            self.out.push(')');
                        }
                        Delimiter::Bracket => {
                            self.out.push('[');
                            self.stream(&g.stream(), false);
                            self.out.push(']');
                        }
                        Delimiter::Brace => {
                            self.space();
                            self.out.push('{');
                            self.ind += 1;
                            let b = self.nl;
                            if b {
                                self.newline();
                            } else {
                                self.out.push(' ');
                            }
                            self.stream(&g.stream(), b);
                            self.ind -= 1;
                            if b {
                                self.newline();
                            } else {
                                self.out.push(' ');
                            }
                            self.out.push('}');
                            let next_else = matches!(v.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                            let next_punct = matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                            if brk && b && i + 1 < v.len() && !next_else && !next_punct {
                                self.newline();
                            }
                        }
                        Delimiter::None => {
                            self.stream(&g.stream(), false);
                        }
                    }
                }
                TokenTree::Ident(id) => {
                    if !joint && !self.out.ends_with(['.', '&', '!', ':', '*', '\'']) || self.out.ends_with(": ") {
                        self.space();
                    }
                    let s = id.to_string();
                    if s.starts_with("__vx_") && self.nl {
                        self.newline();
                    }
                    self.out.push_str(&s);
                    // names which the verifier reads as its own
                    if RESERVED.contains(&s.as_str()) {
                        self.out.push('_');
                    }
                    joint = false;
                }
                TokenTree::Literal(l) => {
                    if !self.out.ends_with(['.', '(', '&', '!']) {
                        self.space();
                    }
                    self.out.push_str(&l.to_string());
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if joint {
                        self.out.push(c);
                    } else {
                        match c {
                            ';' | ',' | '.' | '?' => {
                                self.out.push(c);
                            }
                            '\'' => {
                                self.space();
                                self.out.push(c);
                            }
                            ':' => {
                                self.out.push(c);
                            }
                            '&' | '*' | '!' | '#' => {
                                self.space();
                                self.out.push(c);
                            }
                            _ => {
                                self.space();
                                self.out.push(c);
                            }
                        }
                    }
                    joint = p.spacing() == Spacing::Joint;
                    if !joint {
                        match c {
                            ';' => {
                                if self.nl && brk {
                                    self.newline()
                                } else {
                                    self.out.push(' ')
                                }
                            }
                            ',' => {
                                self.out.push(' ');
                                if self.nl && brk {
                                    self.newline()
                                }
                            }
                            '.' | '!' | '#' => (),
                            '&' | '*' => {
                                // unary or binary: a space before the next token is harmless for binary use
                            }
                            ':' => {
                                if !self.out.ends_with("::") {
                                    self.out.push(' ')
                                }
                            }
                            '?' => (),
                            _ => self.out.push(' '),
                        }
                    }
                }
            }
        }
    }
}
