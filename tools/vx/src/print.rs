//! Token printer: one statement per line, loop contracts put where the verifier wants them.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

type Get<'a> = &'a dyn Fn(&str, usize) -> String;

fn marker(v: &[TokenTree], i: usize) -> Option<(String, usize)> {
    if let TokenTree::Ident(id) = v.get(i)? {
        let n = id.to_string();
        if n.starts_with("vx_loop_") {
            if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                if p.as_char() == '!' {
                    let k = g.stream().to_string();
                    let k = k.trim().trim_end_matches("usize").trim();
                    return Some((n, k.parse().ok()?));
                }
            }
        }
    }
    None
}

pub fn tokens(ts: TokenStream, get: Get) -> String {
    let mut s = String::new();
    put(ts, get, &mut s, 1);
    s
}

fn put(ts: TokenStream, get: Get, s: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = false;
    while i < v.len() {
        if let Some((m, n)) = marker(&v, i) {
            {
                let t = get(if m == "vx_loop_spec" { "vx_loop_head" } else { &m }, n);
                if !t.trim().is_empty() {
                    s.push('\n');
                    s.push_str(&t);
                    s.push('\n');
                }
            }
            i += 3;
            // a marker may be followed by a stray semicolon
            if let Some(TokenTree::Punct(p)) = v.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let Some((m, n)) = marker(&inner, 0) {
                        if m == "vx_loop_spec" {
                            s.push('\n');
                            s.push_str(&get(&m, n));
                            s.push('\n');
                        }
                    }
                    s.push_str(" {\n");
                    s.push_str(&"    ".repeat(ind));
                    put(g.stream(), get, s, ind + 1);
                    s.push('\n');
                    s.push_str(&"    ".repeat(ind.saturating_sub(1)));
                    s.push('}');
                    // what follows a loop
                    if let Some((m, n)) = marker(&inner, 0) {
                        if m == "vx_loop_spec" {
                            let t = get("vx_loop_after", n);
                            if !t.trim().is_empty() {
                                s.push('\n');
                                s.push_str(&t);
                                s.push('\n');
                            }
                        }
                    }
                    s.push(' ');
                } else {
                    s.push_str(a);
                    put(g.stream(), get, s, ind);
                    s.push_str(b);
                    s.push(' ');
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    s.push('\n');
                    s.push_str(&"    ".repeat(ind.saturating_sub(1)));
                } else if p.spacing() == Spacing::Alone {
                    let c = p.as_char();
                    if !matches!(c, '&' | '.' | '!' | '#') {
                        s.push(' ');
                    }
                }
                glue = p.spacing() == Spacing::Joint;
            }
            TokenTree::Ident(x) => {
                s.push_str(&x.to_string());
                let nx = v.get(i + 1);
                let tight = matches!(nx, Some(TokenTree::Punct(p)) if matches!(p.as_char(), '.' | ':' | ',' | ';' | '!' | '?')) || matches!(nx, Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis && !matches!(x.to_string().as_str(), "match" | "if" | "while" | "return" | "in"));
                if !tight {
                    s.push(' ');
                }
                glue = false;
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
                glue = false;
            }
        }
        i += 1;
    }
    let _ = glue;
}

/// puts proof code between the value of a body and its return
pub fn with_tail(body: &str, proof: &str) -> String {
    // the last top-level expression of the body
    let ts: TokenStream = match body.parse() {
        Ok(t) => t,
        Err(_) => return body.to_string(),
    };
    let _ = ts;
    // find the last ';' at depth 0
    let cs: Vec<char> = body.chars().collect();
    let mut depth = 0i32;
    let mut last = 0usize;
    let mut i = 0;
    let mut instr = false;
    while i < cs.len() {
        let c = cs[i];
        if instr {
            if c == '\\' {
                i += 1;
            } else if c == '"' {
                instr = false;
            }
        } else {
            match c {
                '"' => instr = true,
                '/' if cs.get(i + 1) == Some(&'/') => {
                    while i < cs.len() && cs[i] != '\n' {
                        i += 1;
                    }
                    continue;
                }
                '\'' if cs.get(i + 2) == Some(&'\'') => {
                    i += 2;
                }
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => {
                    depth -= 1;
                }
                ';' if depth == 0 => last = i + 1,
                _ => {}
            }
        }
        i += 1;
    }
    let head: String = cs[..last].iter().collect();
    let tail: String = cs[last..].iter().collect();
    if tail.trim().is_empty() {
        return format!("{body}\n{proof}");
    }
    // statements that end in a block before the value: split at the block only if marked
    format!("{head}\nlet vx_r = {{ {tail} }};\n{proof}\nvx_r")
}
