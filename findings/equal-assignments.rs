//! Q02: equal objects must have equal hashes and must be equal for the order.
use std::cmp::Ordering;
use std::collections::HashSet;

use rgbstd::stl::Ticker;
use rgbstd::{OutputAssignment, VoidState, XWitnessId};
use strict_encoding::StrictDumb;

fn main() {
    let mut a = OutputAssignment::<VoidState>::strict_dumb();
    a.witness = None;
    let mut b = a;
    b.witness = Some(XWitnessId::strict_dumb());
    assert_eq!(a, b);
    let (x, y) = (Ticker::from("usdt"), Ticker::from("USDT"));
    assert_eq!(x, y);
    let set = HashSet::from([a, b]);
    println!("two equal assignments make a set of {}", set.len());
    println!("the order of two equal tickers is {:?}", x.cmp(&y));
    assert_eq!(set.len(), 1);
    assert_eq!(x.cmp(&y), Ordering::Equal);
}
