//! Distinguishable items and separators, and plain-list models of the containers.
#![allow(unused)]
use proc_macro2::{Literal, Span, TokenStream};
use quote::{ToTokens, TokenStreamExt};
use std::hash::{Hash, Hasher};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Pair;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct It(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Sep(pub u32);
/// the default separator is recognisable
pub const DEFAULT: u32 = 999_999;
impl Default for Sep { fn default() -> Sep { Sep(DEFAULT) } }
impl ToTokens for It { fn to_tokens(&self, t: &mut TokenStream) { t.append(Literal::u32_unsuffixed(self.0)) } }
impl ToTokens for Sep { fn to_tokens(&self, t: &mut TokenStream) { t.append(proc_macro2::Ident::new(&format!("s{}", self.0), Span::call_site())) } }
impl Parse for It { fn parse(i: ParseStream) -> syn::Result<Self> { Ok(It(i.parse::<syn::LitInt>()?.base10_parse()?)) } }
impl Parse for Sep { fn parse(i: ParseStream) -> syn::Result<Self> { let x: proc_macro2::Ident = i.parse()?; x.to_string()[1..].parse().map(Sep).map_err(|_| i.error("not a separator")) } }

/// items and separators; one separator fewer than items, or as many
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct ListModel { pub t: Vec<It>, pub p: Vec<Sep> }

impl ListModel {
    pub fn of(n: usize, trailing: bool, fresh: &mut u32) -> ListModel {
        let mut m = ListModel::default();
        for i in 0..n { *fresh += 1; m.t.push(It(*fresh)); if i + 1 < n || trailing { *fresh += 1; m.p.push(Sep(*fresh)) } }
        m
    }
    pub fn trailing(&self) -> bool { !self.t.is_empty() && self.t.len() == self.p.len() }
    pub fn pairs(&self) -> Vec<(It, Option<Sep>)> { self.t.iter().enumerate().map(|(i, t)| (*t, self.p.get(i).copied())).collect() }
    pub fn text(&self) -> String { let mut o = String::new(); for (t, p) in self.pairs() { o.push_str(&format!("{} ", t.0)); if let Some(p) = p { o.push_str(&format!("s{} ", p.0)) } } o }
    pub fn raw(&self) -> syn::punctuated::Punctuated<It, Sep> { let mut r = syn::punctuated::Punctuated::new(); for (t, p) in self.pairs() { r.push_value(t); if let Some(p) = p { r.push_punct(p) } } r }
    /// add a value, with a default separator in between if one is needed
    pub fn push(&mut self, t: It) { if !self.t.is_empty() && !self.trailing() { self.p.push(Sep::default()) } self.t.push(t) }
}

pub fn upair<T: Clone, P: Clone>(p: Pair<&T, &P>) -> (T, Option<P>) { let (t, p) = p.into_tuple(); (t.clone(), p.cloned()) }
pub fn upair_mut<T: Clone, P: Clone>(p: Pair<&mut T, &mut P>) -> (T, Option<P>) { let (t, p) = p.into_tuple(); (t.clone(), p.map(|p| p.clone())) }

/// the same items through iterators that differ in what they know about their length
pub fn feed<T: Clone + 'static>(v: Vec<T>, kind: usize) -> Box<dyn Iterator<Item = T>> {
    match kind % 4 {
        0 => Box::new(v.into_iter()),
        1 => { let mut i = v.into_iter(); Box::new(std::iter::from_fn(move || i.next())) }
        2 => { let mut k = 0; Box::new(v.into_iter().filter(move |_| { k += 1; k > 0 })) }
        // a lower bound of zero, an upper bound that is too large, and not fused
        _ => { let n = v.len(); let mut i = 0; struct W<T>(Vec<T>, usize); impl<T: Clone> Iterator for W<T> { type Item = T; fn next(&mut self) -> Option<T> { let r = self.0.get(self.1).cloned(); if r.is_some() { self.1 += 1 } r } fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.0.len() * 2 + 7)) } } Box::new(W(v, 0)) }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
pub fn words(ts: TokenStream) -> Vec<String> { ts.into_iter().map(|t| t.to_string()).collect() }
pub fn panics<R>(f: impl FnOnce() -> R) -> Option<R> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
