//! J06, J08: the text of a decimal amount must parse back to the same amount; a fraction with more
//! digits than the precision must be rejected.
use std::str::FromStr;

use rgbstd::{CoinAmount, Precision};

fn main() {
    for (int, fract, precision) in [
        (10, 436_081_95, Precision::CentiMicro),
        (1, 50, Precision::Centi),
        (10, 500, Precision::CentiMicro),
        (10, 0, Precision::CentiMicro),
        (7, 0, Precision::Indivisible),
        (u64::MAX, 999_999_999_999_999_999, Precision::Atto),
    ] {
        let amount = CoinAmount::with(int, fract, precision).unwrap();
        let text = amount.to_string();
        println!("{text} {:?}", CoinAmount::from_str(&text));
        assert_eq!(CoinAmount::from_str(&text), Ok(amount), "{text}");
    }
    assert!(CoinAmount::from_str("1.25~1").is_err());
    assert!(CoinAmount::from_str("1.05~1").is_err());
}
