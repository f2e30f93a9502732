//! Stand-in for `derive_builder`: `#[derive(Builder)]` for a plain struct with named fields, with
//! `#[builder(setter(into))]` on fields.  Setters take `&mut self`; `build` reports the first field
//! that was not set.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter().peekable();
    let mut name = String::new();
    let mut body = None;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            _ => {}
        }
    }
    let mut fields: Vec<(String, String, bool)> = Vec::new();
    let mut it = body.expect("a struct with named fields").into_iter().peekable();
    let mut into = false;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    let s = g.stream().to_string();
                    if s.starts_with("builder") && s.contains("into") {
                        into = true;
                    }
                }
            }
            TokenTree::Ident(i) if i.to_string() == "pub" => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if g.delimiter() == Delimiter::Parenthesis {
                        it.next();
                    }
                }
            }
            TokenTree::Ident(i) => {
                let field = i.to_string();
                it.next(); // ':'
                let (mut ty, mut depth) = (TokenStream::new(), 0i32);
                while let Some(t) = it.peek() {
                    if let TokenTree::Punct(p) = t {
                        match p.as_char() {
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => break,
                            _ => {}
                        }
                    }
                    ty.extend([it.next().unwrap()]);
                }
                it.next();
                fields.push((field, ty.to_string(), into));
                into = false;
            }
            _ => {}
        }
    }
    let mut out = format!("#[derive(Clone, Default)] pub struct {name}Builder {{");
    for (f, t, _) in &fields {
        out += &format!("{f}: ::std::option::Option<{t}>,");
    }
    out += &format!("}} #[derive(Debug)] pub enum {name}BuilderError {{ UninitializedField(&'static str), ValidationError(String) }}
        impl ::std::fmt::Display for {name}BuilderError {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, \"{{:?}}\", self) }} }}
        impl ::std::error::Error for {name}BuilderError {{}}
        #[allow(dead_code)] impl {name}Builder {{");
    for (f, t, into) in &fields {
        if *into {
            out += &format!("pub fn {f}<VALUE: ::std::convert::Into<{t}>>(&mut self, value: VALUE) -> &mut Self {{ self.{f} = ::std::option::Option::Some(value.into()); self }}");
        } else {
            out += &format!("pub fn {f}(&mut self, value: {t}) -> &mut Self {{ self.{f} = ::std::option::Option::Some(value); self }}");
        }
    }
    out += &format!("pub fn build(&self) -> ::std::result::Result<{name}, {name}BuilderError> {{ Ok({name} {{");
    for (f, _, _) in &fields {
        out += &format!("{f}: match self.{f} {{ Some(ref v) => v.clone(), None => return Err({name}BuilderError::UninitializedField(\"{f}\")) }},");
    }
    out += "}) } }";
    out.parse().unwrap()
}
