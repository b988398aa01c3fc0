//! I03: an implementation with an error message the base interface adds, given for the parent
//! interface, must pass the check against the parent.
mod world;
use rgbstd::interface::{Modifier, NamedVariant};
use amplify::{bmap, bset};
use strict_encoding::{tn, vname};
use world::*;

fn main() {
    let mut parent = iface();
    parent.genesis.modifier = Modifier::Abstract;
    for (_, op) in parent.transitions.keyed_values_mut() {
        op.modifier = Modifier::Abstract;
    }
    let mut ext = iface();
    ext.errors = amplify::tiny_bmap! { vname!("limitExceeded") => "the limit is exceeded".parse().unwrap() };
    let base = parent.clone().expect_extended(ext, tn!("Base"));
    let mut imp = iimpl();
    imp.iface_id = base.iface_id();
    imp.errors = amplify::tiny_bset! { NamedVariant::with(1, vname!("limitExceeded")) };
    assert_eq!(imp.check(&base, &schema()), Ok(()));
    let abs = imp.abstracted(&base, &parent).expect("parent of the base");
    let res = abs.check(&parent, &schema());
    println!("{res:?}");
    assert_eq!(res, Ok(()));
}
