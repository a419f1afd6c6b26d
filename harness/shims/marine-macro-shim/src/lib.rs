//! Native stand-in for marine's `#[marine]` attribute.
//!
//! The real macro leaves the item as it is and adds WebAssembly glue: an export
//! per function and (de)serialisation per record. This one adds the native
//! equivalent: every function is exported under the symbol
//! `__marine_export_<name>` taking its arguments as a JSON array and returning
//! its result as JSON, and every record becomes (de)serialisable. So the
//! service is driven through its exported interface only, like by its host.
extern crate proc_macro;
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, Item};

#[proc_macro_attribute]
pub fn marine(_attr: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    match item {
        Item::Struct(s) => quote! {
            #[derive(::marine_rs_sdk::__serde::Serialize, ::marine_rs_sdk::__serde::Deserialize)]
            #[serde(crate = "::marine_rs_sdk::__serde")]
            #s
        }
        .into(),
        Item::Fn(f) => {
            let name = f.sig.ident.clone();
            let export = format_ident!("__marine_export_{}", name);
            let tys: Vec<_> = f
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    FnArg::Typed(t) => t.ty.clone(),
                    FnArg::Receiver(_) => panic!("#[marine] on a method"),
                })
                .collect();
            let n = tys.len();
            let idents: Vec<_> = (0..n).map(|i| format_ident!("__arg{}", i)).collect();
            quote! {
                #f

                #[doc(hidden)]
                #[no_mangle]
                pub fn #export(args: ::std::vec::Vec<::marine_rs_sdk::__serde_json::Value>)
                    -> ::std::result::Result<::std::string::String, ::std::string::String>
                {
                    if args.len() != #n {
                        return Err(format!("expected {} arguments, got {}", #n, args.len()));
                    }
                    let mut __it = args.into_iter();
                    #(
                        let #idents: #tys = ::marine_rs_sdk::__serde_json::from_value(__it.next().unwrap())
                            .map_err(|e| format!("bad argument: {}", e))?;
                    )*
                    let __r = #name(#(#idents),*);
                    ::marine_rs_sdk::__serde_json::to_string(&__r).map_err(|e| format!("result: {}", e))
                }
            }
            .into()
        }
        other => quote! { #other }.into(),
    }
}
