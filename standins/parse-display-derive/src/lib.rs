//! Minimal hand-rolled derive (no syn) for the enum/struct shapes used in linkspace-core:
//!  * unit-variant enums, optional `#[display(style = "kebab-case"|"lowercase")]`, per-variant `#[display("lit")]`
//!  * one-field tuple variants with `#[display("{0}")]`
//!  * a struct with `#[display("{a}-{b}")]`
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Var { name: String, lit: Option<String>, tuple: Option<String> }
struct Item { name: String, style: String, lit: Option<String>, kind: Kind }
enum Kind { Enum(Vec<Var>), Struct(Vec<(String, String)>) }

fn unquote(s: &str) -> String { s.trim_matches('"').to_string() }
fn attr(ts: TokenStream) -> (Option<String>, Option<String>) {
    // contents of #[...]: display("lit") or display(style = "x")
    let v: Vec<TokenTree> = ts.into_iter().collect();
    if v.len() == 2 && v[0].to_string() == "display" {
        if let TokenTree::Group(g) = &v[1] {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            if inner.len() == 1 { return (Some(unquote(&inner[0].to_string())), None); }
            if inner.len() == 3 && inner[0].to_string() == "style" { return (None, Some(unquote(&inner[2].to_string()))); }
        }
    }
    (None, None)
}
fn parse(ts: TokenStream) -> Item {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut lit, mut style) = (None, String::new());
    let mut i = 0;
    let mut is_enum = false;
    let name;
    loop {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let TokenTree::Group(g) = &v[i + 1] { let (l, s) = attr(g.stream()); if l.is_some() { lit = l } if let Some(s) = s { style = s } }
                i += 2;
            }
            TokenTree::Ident(id) if id.to_string() == "enum" => { is_enum = true; name = v[i + 1].to_string(); i += 2; break }
            TokenTree::Ident(id) if id.to_string() == "struct" => { name = v[i + 1].to_string(); i += 2; break }
            _ => i += 1,
        }
    }
    let body = loop { match &v[i] { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => break g.stream(), _ => i += 1 } };
    let b: Vec<TokenTree> = body.into_iter().collect();
    let mut j = 0;
    if is_enum {
        let mut vars = vec![];
        let mut l = None;
        while j < b.len() {
            match &b[j] {
                TokenTree::Punct(p) if p.as_char() == '#' => { if let TokenTree::Group(g) = &b[j + 1] { let (x, _) = attr(g.stream()); if x.is_some() { l = x } } j += 2 }
                TokenTree::Ident(id) => {
                    let mut tuple = None; j += 1;
                    if let Some(TokenTree::Group(g)) = b.get(j) { tuple = Some(g.stream().to_string()); j += 1 }
                    while j < b.len() && b[j].to_string() != "," { j += 1 } // skip `= expr`
                    j += 1;
                    vars.push(Var { name: id.to_string(), lit: l.take(), tuple });
                }
                _ => j += 1,
            }
        }
        Item { name, style, lit, kind: Kind::Enum(vars) }
    } else {
        let mut fs = vec![];
        while j < b.len() {
            match &b[j] {
                TokenTree::Punct(p) if p.as_char() == '#' => j += 2,
                TokenTree::Ident(id) if id.to_string() == "pub" => j += 1,
                TokenTree::Ident(id) => {
                    let n = id.to_string(); j += 2; let mut t = String::new();
                    while j < b.len() && b[j].to_string() != "," { t.push_str(&b[j].to_string()); j += 1 }
                    j += 1; fs.push((n, t));
                }
                _ => j += 1,
            }
        }
        Item { name, style, lit, kind: Kind::Struct(fs) }
    }
}
fn styled(name: &str, style: &str) -> String {
    match style {
        "lowercase" => name.to_lowercase(),
        "kebab-case" | "snake_case" => {
            let sep = if style == "kebab-case" { '-' } else { '_' };
            let mut o = String::new();
            for (i, c) in name.chars().enumerate() { if c.is_uppercase() && i > 0 { o.push(sep) } o.extend(c.to_lowercase()) }
            o
        }
        _ => name.to_string(),
    }
}
#[proc_macro_derive(Display, attributes(display))]
pub fn display(ts: TokenStream) -> TokenStream {
    let it = parse(ts);
    let body = match &it.kind {
        Kind::Enum(vs) => {
            let arms: String = vs.iter().map(|v| match &v.tuple {
                Some(_) => format!("Self::{}(x) => ::std::fmt::Display::fmt(x, f),", v.name),
                None => format!("Self::{} => f.write_str({:?}),", v.name, v.lit.clone().unwrap_or(styled(&v.name, &it.style))),
            }).collect();
            format!("match self {{ {arms} }}")
        }
        Kind::Struct(fs) => {
            let lit = it.lit.clone().unwrap();
            let args: String = fs.iter().filter(|(n, _)| lit.contains(&format!("{{{n}}}"))).map(|(n, _)| format!(", {n} = self.{n}")).collect();
            format!("write!(f, {:?}{args})", lit)
        }
    };
    format!("impl ::std::fmt::Display for {} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ {body} }} }}", it.name).parse().unwrap()
}
#[proc_macro_derive(FromStr, attributes(display, from_str))]
pub fn from_str(ts: TokenStream) -> TokenStream {
    let it = parse(ts);
    let body = match &it.kind {
        Kind::Enum(vs) => {
            let arms: String = vs.iter().map(|v| match &v.tuple {
                Some(t) => format!("if let Ok(x) = <{t} as ::std::str::FromStr>::from_str(s) {{ return Ok(Self::{}(x)) }}", v.name),
                None => format!("if s == {:?} {{ return Ok(Self::{}) }}", v.lit.clone().unwrap_or(styled(&v.name, &it.style)), v.name),
            }).collect();
            format!("{arms} Err(::parse_display::ParseError::new())")
        }
        Kind::Struct(fs) => format!(
            "let (a, b) = s.split_once('-').ok_or(::parse_display::ParseError::new())?; Ok(Self {{ {}: a.parse().map_err(|_| ::parse_display::ParseError::new())?, {}: b.parse().map_err(|_| ::parse_display::ParseError::new())? }})", fs[0].0, fs[1].0),
    };
    format!("impl ::std::str::FromStr for {} {{ type Err = ::parse_display::ParseError; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {{ {body} }} }}", it.name).parse().unwrap()
}
