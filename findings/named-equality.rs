//! Q02: equal objects must be equal for the order, and objects equal to the same one must be equal.
use std::cmp::Ordering;

use rgbstd::interface::NamedField;
use rgbstd::GlobalStateType;
use strict_encoding::FieldName;

fn main() {
    let new = |id: u16, name: &'static str| NamedField::with(GlobalStateType::with(id), FieldName::from(name));
    let (a, b, c) = (new(1, "first"), new(1, "second"), new(2, "second"));
    println!("a == b: {}, b == c: {}, a == c: {}, order of a and b: {:?}", a == b, b == c, a == c, a.cmp(&b));
    assert_eq!(a == b, a.cmp(&b) == Ordering::Equal);
    assert_eq!(a == b && b == c, a == c);
}
