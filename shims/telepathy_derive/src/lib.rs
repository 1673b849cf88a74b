//! Derives for the actix-telepathy stand-in (plain token scanning).
use proc_macro::{Delimiter, TokenStream, TokenTree};

/// (type name, attribute lists by name)
fn scan(input: TokenStream) -> (String, Vec<(String, Vec<String>)>) {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut attrs = vec![];
    let mut name = String::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let TokenTree::Group(g) = &toks[i + 1] {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(args))) = (inner.get(0), inner.get(1)) {
                        if args.delimiter() == Delimiter::Parenthesis {
                            let list = args
                                .stream()
                                .into_iter()
                                .filter_map(|t| match t {
                                    TokenTree::Ident(i) => Some(i.to_string()),
                                    _ => None,
                                })
                                .collect();
                            attrs.push((id.to_string(), list));
                        }
                    }
                }
                i += 2;
            }
            TokenTree::Ident(id) if id.to_string() == "struct" || id.to_string() == "enum" => {
                name = toks[i + 1].to_string();
                break;
            }
            _ => i += 1,
        }
    }
    (name, attrs)
}

#[proc_macro_derive(RemoteMessage, attributes(with_source))]
pub fn remote_message(input: TokenStream) -> TokenStream {
    let (name, attrs) = scan(input);
    let set = attrs
        .iter()
        .find(|a| a.0 == "with_source")
        .map(|a| format!("self.{}.node.network_interface = Some(addr);", a.1[0]))
        .unwrap_or_default();
    format!(
        "use log::*;
        impl RemoteMessage for {name} {{
            const IDENTIFIER: &'static str = \"{name}\";
            fn set_source(&mut self, addr: ::actix::Addr<::actix_telepathy::NetworkInterface>) {{ let _ = &addr; {set} }}
        }}
        impl Message for {name} {{ type Result = (); }}"
    )
    .parse()
    .unwrap()
}

#[proc_macro_derive(RemoteActor, attributes(remote_messages))]
pub fn remote_actor(input: TokenStream) -> TokenStream {
    let (name, attrs) = scan(input);
    let msgs = attrs.into_iter().find(|a| a.0 == "remote_messages").map(|a| a.1).unwrap_or_default();
    let mut body = String::new();
    for m in msgs {
        body += &format!(
            "if msg.is::<{m}>() {{ let (mut m, src) = msg.take::<{m}>(); if let Some(src) = src {{ RemoteMessage::set_source(&mut m, src); }} ctx.address().do_send(m); return; }}\n"
        );
    }
    format!(
        "use log::*;
        impl RemoteActor for {name} {{ const ACTOR_ID: &'static str = \"{name}\"; }}
        impl Handler<RemoteWrapper> for {name} {{
            type Result = ();
            #[allow(unused_mut)]
            fn handle(&mut self, mut msg: RemoteWrapper, ctx: &mut Self::Context) -> Self::Result {{
                {body}
            }}
        }}"
    )
    .parse()
    .unwrap()
}
