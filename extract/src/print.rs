//! Token printer: one statement per line, with contract texts spliced in.
use proc_macro2::*;

pub struct Printer<'a> {
    pub out: String,
    pub texts: &'a [String],
    glue: bool,
}
impl<'a> Printer<'a> {
    pub fn new(texts: &'a [String]) -> Self {
        Printer { out: String::new(), texts, glue: true }
    }
    fn nl(&mut self) {
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        self.glue = true;
    }
    fn word(&mut self, s: &str, glue_after: bool) {
        if !self.glue && !self.out.ends_with('\n') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = glue_after;
    }
    fn marker(v: &[TokenTree], i: usize, name: &str) -> Option<usize> {
        match (v.get(i), v.get(i + 1), v.get(i + 2)) {
            (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
                if id == name && p.as_char() == '!' =>
            {
                g.stream().to_string().trim().parse().ok()
            }
            _ => None,
        }
    }
    pub fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(k) = Self::marker(&v, i, "__vp") {
                self.nl();
                let t = self.texts[k].clone();
                self.out.push_str(&t);
                self.nl();
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if a == "{" {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if let Some(k) = Self::marker(&inner, 0, "__vl") {
                            self.nl();
                            let t = self.texts[k].clone();
                            self.out.push_str(&t);
                            self.nl();
                            skip = 4; // name ! (k) ;
                        }
                        self.word("{", true);
                        self.nl();
                        self.tokens(inner.into_iter().skip(skip).collect());
                        self.nl();
                        self.word("}", false);
                        // "} else", "}.x", "})" stay on the line; anything else starts a new one.
                        match v.get(i + 1) {
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            Some(TokenTree::Punct(_)) | None => {}
                            _ => self.nl(),
                        }
                    } else {
                        self.word(a, true);
                        self.tokens(g.stream());
                        self.glue = true;
                        self.word(b, false);
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == ';' || c == ',' || c == '.' && p.spacing() == Spacing::Alone {
                        self.glue = true;
                    }
                    self.word(&c.to_string(), p.spacing() == Spacing::Joint || c == '\'' || c == '&' || c == '!' || (c == '.' && p.spacing() == Spacing::Alone));
                    if c == ';' {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => self.word(&id.to_string(), false),
                TokenTree::Literal(l) => self.word(&l.to_string(), false),
            }
            i += 1;
        }
    }
}
