//! `#[tokio::main]` for the simulated program: leaves the function as the async function it is
//! and makes it visible to the simulator, which runs it as the program's main task.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut out: TokenStream = "pub".parse().unwrap();
    out.extend(item.into_iter().skip_while(|t| match t {
        TokenTree::Ident(i) => i.to_string() == "pub",
        _ => false,
    }));
    out
}
