//! Token-stream printer. `__raw!(k)` is replaced by raw text k; a brace group starting with
//! `__spec!(k);` has the text k printed before its opening brace.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub raws: &'a [String],
    pub out: String,
    indent: usize,
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn new(raws: &'a [String]) -> Self {
        Printer { raws, out: String::new(), indent: 0, glue: true }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
        self.glue = true;
    }
    fn word(&mut self, s: &str) {
        if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn raw(&mut self, k: usize) {
        self.nl();
        for l in self.raws[k].trim_end().lines() {
            while self.out.ends_with(' ') {
                self.out.pop();
            }
            if !self.out.ends_with('\n') && !self.out.is_empty() {
                self.out.push('\n');
            }
            self.out.push_str("    ");
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.nl();
    }
    fn marker(tts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
        if let Some(TokenTree::Ident(id)) = tts.get(i) {
            if id == name {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (tts.get(i + 1), tts.get(i + 2)) {
                    if p.as_char() == '!' {
                        return g.stream().to_string().trim().trim_end_matches("usize").parse().ok();
                    }
                }
            }
        }
        None
    }
    pub fn print(&mut self, ts: TokenStream) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some(k) = Self::marker(&tts, i, "__raw") {
                self.raw(k);
                i += 3;
                if let Some(TokenTree::Punct(p)) = tts.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut rest = g.stream();
                        if let Some(k) = Self::marker(&inner, 0, "__spec") {
                            self.raw(k);
                            rest = inner[4..].iter().cloned().collect();
                        }
                        self.word("{");
                        self.indent += 1;
                        self.nl();
                        self.print(rest);
                        self.indent -= 1;
                        self.nl();
                        self.out.push('}');
                        self.glue = false;
                        // newline unless followed by punctuation
                        match tts.get(i + 1) {
                            Some(TokenTree::Punct(_)) | None => {}
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            _ => self.nl(),
                        }
                    }
                    Delimiter::Parenthesis => {
                        self.glue = true;
                        self.out.push('(');
                        self.print(g.stream());
                        self.out.push(')');
                        self.glue = false;
                    }
                    Delimiter::Bracket => {
                        if !self.glue {
                            // keep a space for `let [` / `& [` readability; harmless
                        }
                        self.out.push('[');
                        self.glue = true;
                        self.print(g.stream());
                        self.out.push(']');
                        self.glue = false;
                    }
                    Delimiter::None => {
                        self.print(g.stream());
                    }
                },
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    match c {
                        ';' => {
                            self.out.push(';');
                            self.nl();
                        }
                        ',' => {
                            self.out.push(',');
                            self.glue = false;
                        }
                        '\'' => {
                            self.word("'");
                            self.glue = true;
                        }
                        _ => {
                            self.word(&c.to_string());
                            if p.spacing() == Spacing::Joint {
                                self.glue = true;
                            } else {
                                self.glue = false;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
}
