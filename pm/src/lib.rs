//! A procedural macro that reports what Parsel makes of the tokens it is given: `see!{ n t ... }`
//! appends one line, with the number `n`, to the file named by MC_OUT.
#[path = "../../mc/src/shared/env.rs"]
mod env;
use std::io::Write;

#[proc_macro]
pub fn see(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let path = std::env::var_os("MC_OUT").expect("MC_OUT");
    env::SRC.with(|s| if s.borrow().is_empty() { *s.borrow_mut() = std::fs::read_to_string("user.rs").unwrap() });
    let line = env::line(input.into());
    std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap().write_all(format!("{line}\n").as_bytes()).unwrap();
    proc_macro::TokenStream::new()
}
