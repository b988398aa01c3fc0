//! I04: an interface extended to more than 255 extensions must be reported as having too many
//! extensions, not too many transitions.
mod world;
use rgbstd::interface::{ExtensionIface, Iface, Modifier};
use strict_encoding::{tn, FieldName};
use world::*;

fn with(range: std::ops::Range<u32>) -> Iface {
    let mut i = iface();
    i.genesis.modifier = Modifier::Override;
    i.transitions = amplify::none!();
    i.default_operation = None;
    for n in range {
        let op = ExtensionIface {
            modifier: Modifier::Override,
            optional: false,
            metadata: amplify::none!(),
            globals: amplify::none!(),
            redeems: amplify::none!(),
            assignments: amplify::none!(),
            valencies: amplify::none!(),
            errors: amplify::none!(),
            default_assignment: None,
        };
        i.extensions.insert(FieldName::try_from(format!("ext{n}")).unwrap(), op).unwrap();
    }
    i
}

fn main() {
    let errs = with(0..200).extended(with(200..300), tn!("Both")).unwrap_err();
    println!("{errs:?}");
    assert_eq!(format!("{errs:?}"), "[ExtensionOverflow]");
}
