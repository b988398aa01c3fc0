//! N01: an annotation which can't be added must not remove the annotations which are already there.
use std::str::FromStr;

use rgbstd::containers::{AnnotationName, Supplement, SupplSub, VelocityHint};
use rgbstd::interface::IfaceId;
use strict_encoding::StrictDumb;

fn main() {
    let mut suppl = Supplement::strict_dumb();
    suppl.content_id = IfaceId::from([0u8; 32]).into();
    suppl.annotations = Default::default();
    let name = |no: usize| AnnotationName::from_str(&format!("Name{no}")).unwrap();
    let mut no = 0;
    while suppl.annotate_itself(name(no), &VelocityHint::Regular).is_ok() {
        no += 1;
        assert!(no < 1000);
    }
    println!("{no} annotations were added, the next one was refused");
    let left = (0..no)
        .filter(|i| {
            suppl.get_default_opt::<VelocityHint>(SupplSub::Itself, name(*i)) == Some(VelocityHint::Regular)
        })
        .count();
    println!("{left} annotations can be read");
    assert_eq!(left, no);
}
