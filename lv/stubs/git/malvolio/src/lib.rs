//! Stand-in for malvolio (see Cargo.toml).
use std::borrow::Cow;
use std::collections::HashMap;

pub type Attrs = HashMap<Cow<'static, str>, Cow<'static, str>>;

pub trait IntoAttribute {
    fn into_attribute(self) -> (Cow<'static, str>, Cow<'static, str>);
}

macro_rules! attributes {
    ($($name:ident = $key:literal),* $(,)?) => {$(
        #[derive(Debug, Clone)]
        pub struct $name(pub Cow<'static, str>);
        impl $name {
            pub fn new(v: impl Into<Cow<'static, str>>) -> Self { Self(v.into()) }
        }
        impl IntoAttribute for $name {
            fn into_attribute(self) -> (Cow<'static, str>, Cow<'static, str>) { ($key.into(), self.0) }
        }
    )*};
}
attributes!(Class = "class", Id = "id", Style = "style", Href = "href", Src = "src", Alt = "alt", Name = "name",
            Placeholder = "placeholder", Value = "value", Action = "action");

#[derive(Debug, Clone)]
pub enum Type { Text, Number, Submit, Hidden, Password, Email }
impl IntoAttribute for Type {
    fn into_attribute(self) -> (Cow<'static, str>, Cow<'static, str>) {
        ("type".into(), match self {
            Type::Text => "text", Type::Number => "number", Type::Submit => "submit",
            Type::Hidden => "hidden", Type::Password => "password", Type::Email => "email",
        }.into())
    }
}
#[derive(Debug, Clone)]
pub enum Method { Post, Get }
impl IntoAttribute for Method {
    fn into_attribute(self) -> (Cow<'static, str>, Cow<'static, str>) {
        ("method".into(), match self { Method::Post => "post", Method::Get => "get" }.into())
    }
}

macro_rules! attr_fns {
    () => {
        pub fn attribute(mut self, a: impl IntoAttribute) -> Self {
            let (k, v) = a.into_attribute();
            self.attrs.insert(k, v);
            self
        }
        pub fn raw_attribute(mut self, k: impl Into<Cow<'static, str>>, v: impl Into<Cow<'static, str>>) -> Self {
            self.attrs.insert(k.into(), v.into());
            self
        }
        pub fn read_attribute(&self, k: impl Into<Cow<'static, str>>) -> Option<&Cow<'static, str>> {
            self.attrs.get(&k.into())
        }
        pub fn map<F: FnOnce(Self) -> Self>(self, f: F) -> Self { f(self) }
    };
}
macro_rules! into_node {
    ($name:ident) => {
        impl From<$name> for BodyNode { fn from(t: $name) -> BodyNode { BodyNode::$name(t) } }
    };
}
// a text and attributes
macro_rules! textual {
    ($($name:ident $pubname:ident $f:ident),* $(,)?) => {$(
        #[derive(Debug, Clone, Default)]
        pub struct $name { text: Cow<'static, str>, attrs: Attrs }
        pub struct $pubname { pub text: Cow<'static, str>, pub attrs: Attrs }
        pub fn $f(text: impl ToString) -> $name { $name::new(text) }
        impl $name {
            pub fn new(text: impl ToString) -> Self { Self { text: text.to_string().into(), attrs: HashMap::new() } }
            pub fn new_unchecked(text: impl Into<Cow<'static, str>>) -> Self { Self { text: text.into(), attrs: HashMap::new() } }
            pub fn into_pub_fields(self) -> $pubname { $pubname { text: self.text, attrs: self.attrs } }
            attr_fns!();
        }
        into_node!($name);
    )*};
}
textual!(H1 PubH1 h1, H2 PubH2 h2, H3 PubH3 h3, H4 PubH4 h4, H5 PubH5 h5, H6 PubH6 h6, Label PubLabel label, Text PubText text);

// a text, attributes and children
macro_rules! textual_parent {
    ($($name:ident $pubname:ident),* $(,)?) => {$(
        #[derive(Debug, Clone, Default)]
        pub struct $name { text: Cow<'static, str>, attrs: Attrs, children: Vec<BodyNode> }
        pub struct $pubname { pub text: Cow<'static, str>, pub attrs: Attrs, pub children: Vec<BodyNode> }
        impl $name {
            pub fn new(text: impl ToString) -> Self { Self::with_text(text) }
            pub fn with_text(text: impl ToString) -> Self { Self { text: text.to_string().into(), ..Self::default() } }
            pub fn text(mut self, text: impl Into<Cow<'static, str>>) -> Self { self.text = text.into(); self }
            pub fn text_unsanitized(self, text: impl Into<Cow<'static, str>>) -> Self { self.text(text) }
            pub fn child(mut self, c: impl Into<BodyNode>) -> Self { self.children.push(c.into()); self }
            pub fn into_pub_fields(self) -> $pubname { $pubname { text: self.text, attrs: self.attrs, children: self.children } }
            attr_fns!();
        }
        into_node!($name);
    )*};
}
textual_parent!(P PubP, A PubA);

// attributes and children
macro_rules! parent {
    ($($name:ident $pubname:ident $f:ident),* $(,)?) => {$(
        #[derive(Debug, Clone, Default)]
        pub struct $name { attrs: Attrs, children: Vec<BodyNode> }
        pub struct $pubname { pub attrs: Attrs, pub children: Vec<BodyNode> }
        pub fn $f() -> $name { $name::new() }
        impl $name {
            pub fn new() -> Self { Self::default() }
            pub fn child(mut self, c: impl Into<BodyNode>) -> Self { self.children.push(c.into()); self }
            pub fn children<I: IntoIterator<Item = C>, C: Into<BodyNode>>(mut self, cs: I) -> Self {
                self.children.extend(cs.into_iter().map(Into::into));
                self
            }
            pub fn into_pub_fields(self) -> $pubname { $pubname { attrs: self.attrs, children: self.children } }
            attr_fns!();
        }
        into_node!($name);
    )*};
}
parent!(Div PubDiv div, Form PubForm form, Select PubSelect select);

// attributes only
macro_rules! empty {
    ($($name:ident $pubname:ident $f:ident),* $(,)?) => {$(
        #[derive(Debug, Clone, Default)]
        pub struct $name { attrs: Attrs }
        pub struct $pubname { pub attrs: Attrs }
        pub fn $f() -> $name { $name::new() }
        impl $name {
            pub fn new() -> Self { Self::default() }
            pub fn into_pub_fields(self) -> $pubname { $pubname { attrs: self.attrs } }
            attr_fns!();
        }
        into_node!($name);
    )*};
}
empty!(Input PubInput input, Img PubImg img);

#[derive(Debug, Clone)]
pub struct Br;
into_node!(Br);

#[derive(Debug, Clone)]
pub struct NoScript { text: Cow<'static, str> }
pub struct PubNoScript { pub text: Cow<'static, str> }
impl NoScript {
    pub fn new(text: impl Into<Cow<'static, str>>) -> Self { Self { text: text.into() } }
    pub fn into_pub_fields(self) -> PubNoScript { PubNoScript { text: self.text } }
}
into_node!(NoScript);

#[derive(Debug, Clone)]
pub enum BodyNode {
    H1(H1), H2(H2), H3(H3), H4(H4), H5(H5), H6(H6),
    P(P), Text(Text), Form(Form), Br(Br), Div(Div), A(A), Input(Input), Label(Label),
    Select(Select), NoScript(NoScript), Img(Img),
}

pub mod tags {
    pub mod noscript { pub use crate::NoScript; }
    pub mod input { pub use crate::*; }
    pub mod headings { pub use crate::*; }
}
pub mod text { pub use crate::Text; }

pub mod prelude {
    pub use crate::{
        div, form, h1, h2, h3, h4, h5, h6, img, input, label, select, Action, Alt, BodyNode, Br, Class, Div, Form, Href,
        Id, Img, Input, Label, Method, Name, Placeholder, Select, Src, Style, Type, Value, A, H1, H2, H3, H4, H5, H6, P,
    };
}
