use proc_macro::TokenStream;

/// As lunatic's: a `main` that takes a mailbox becomes one that takes nothing.
#[proc_macro_attribute]
pub fn main(_args: TokenStream, item: TokenStream) -> TokenStream {
    let inner = item.to_string();
    format!("fn main() {{ {} unsafe {{ main(lunatic::Mailbox::new()) }} }}", inner).parse().unwrap()
}
