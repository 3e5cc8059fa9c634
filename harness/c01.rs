//@ in src/numeric/mod.rs as crate::numeric
// amounts against arbitrary-precision integers
use super::*;
use crate::vh::{catch, Run};
use crate::vh::number;
use candid::Nat;
use evm_rpc_types::Nat256;
use num_bigint::BigUint;

fn b(x: &ethnum::u256) -> BigUint {
    BigUint::from_bytes_be(&x.to_be_bytes())
}
fn v<U>(x: CheckedAmountOf<U>) -> BigUint {
    BigUint::from_bytes_be(&x.to_be_bytes())
}

pub fn run(r: &mut Run) {
    let top = (BigUint::from(1u8) << 256u32) - 1u8;
    r.repeat(20_000, 3_000_000, |r| {
        let g = &mut r.rng;
        let x = number(g);
        let y = match g.below(6) {
            0 => x,
            1 => x.wrapping_add(ethnum::u256::from(1u8)),
            2 => ethnum::u256::MAX - x,
            3 => if x == 0 { x } else { ethnum::u256::MAX / x },
            4 => if x == 0 { x } else { (ethnum::u256::MAX / x).wrapping_add(ethnum::u256::from(g.below(2))) },
            _ => number(g),
        };
        r.case((x.to_be_bytes(), y.to_be_bytes()));
        let (m, n) = (b(&x), b(&y));
        let (a, c): (Wei, Wei) = (crate::vhb::of_big(x), crate::vhb::of_big(y));
        let fit = |z: BigUint| if z <= top { Some(z) } else { None };
        let show = || format!("amounts {x} and {y}");
        macro_rules! same {
            ($name:expr, $got:expr, $want:expr) => {
                match catch(|| $got) {
                    Err(e) => crate::vh::fail(r.section, concat!($name, " traps"), &format!("{e}: {}", show())),
                    Ok(got) => r.eq(got, $want, $name, show),
                }
            };
        }
        same!("from bytes", v(a), m.clone());
        same!("addition", a.checked_add(c).map(v), fit(&m + &n));
        same!("subtraction", a.checked_sub(c).map(v), if m >= n { Some(&m - &n) } else { None });
        same!("increment", a.checked_increment().map(v), fit(&m + 1u8));
        same!("decrement", a.checked_decrement().map(v), if m > BigUint::ZERO { Some(&m - 1u8) } else { None });
        same!("multiplication", a.checked_mul(y).map(v), fit(&m * &n));
        let k = y.to_be_bytes();
        let (u8_, u16_, u32_) = (k[31], u16::from_be_bytes([k[30], k[31]]), u32::from_be_bytes(k[28..].try_into().unwrap()));
        let (u64_, u128_) = (u64::from_be_bytes(k[24..].try_into().unwrap()), u128::from_be_bytes(k[16..].try_into().unwrap()));
        same!("multiplication by u8", a.checked_mul(u8_).map(v), fit(&m * u8_));
        same!("multiplication by u64", a.checked_mul(u64_).map(v), fit(&m * u64_));
        same!("multiplication by u128", a.checked_mul(u128_).map(v), fit(&m * u128_));
        let zero = n == BigUint::ZERO;
        same!("floor division", a.checked_div_floor(y).map(v), if zero { None } else { Some(&m / &n) });
        same!("ceiling division", a.checked_div_ceil(y).map(v), if zero { None } else { Some((&m + &n - 1u8) / &n) });
        same!("floor division by u8", a.checked_div_floor(u8_).map(v), if u8_ == 0 { None } else { Some(&m / u8_) });
        same!("ceiling division by u8", a.checked_div_ceil(u8_).map(v), if u8_ == 0 { None } else { Some((&m + u8_ - 1u8) / u8_) });
        same!("halving", v(a.div_by_two()), &m / 2u8);
        same!("unit change", v(a.change_units::<GasUnit>()), m.clone());
        same!("inner value", a.into_inner(), x);
        same!("fee", crate::vhb::of_big::<WeiPerGasUnit>(x).transaction_cost(crate::vhb::of_big(y)).map(v), fit(&m * &n));
        same!("price for a fee", a.into_wei_per_gas(crate::vhb::of_big(y)).map(v), if zero { None } else { Some(&m / &n) });
        same!("from u8", v(Wei::from(u8_)), BigUint::from(u8_));
        same!("from u16", v(Wei::from(u16_)), BigUint::from(u16_));
        same!("from u32", v(Wei::from(u32_)), BigUint::from(u32_));
        same!("from u64", v(Wei::from(u64_)), BigUint::from(u64_));
        same!("from u128", v(Wei::from(u128_)), BigUint::from(u128_));
        same!("new", v(Wei::new(u128_)), BigUint::from(u128_));
        same!("from words", v(Wei::from_words(u64_ as u128, u128_)), (BigUint::from(u64_) << 128u32) + u128_);
        same!("to a natural", Nat::from(a).0, m.clone());
        same!("to a 256-bit natural", Nat::from(Nat256::from(a)).0, m.clone());
        same!("from a 256-bit natural", v(Wei::from(Nat256::from(a))), m.clone());
        let big = if u8_ & 3 == 0 { &m << (u8_ as u32 / 4) } else { m.clone() };
        same!("from a natural", Wei::try_from(Nat(big.clone())).ok().map(v), fit(big.clone()));
        same!("equality", a == c, m == n);
        same!("order", a.cmp(&c), m.cmp(&n));
        same!("partial order", a.partial_cmp(&c), Some(m.cmp(&n)));
        same!("less than", a < c, m < n);
        same!("maximum", v(a.max(c)), m.clone().max(n.clone()));
        #[allow(clippy::clone_on_copy)]
        let d = a.clone();
        same!("copy", v(d), m.clone());
        same!("constants", (v(Wei::ZERO), v(Wei::ONE), v(Wei::TWO), v(Wei::MAX)), (BigUint::ZERO, BigUint::from(1u8), BigUint::from(2u8), top.clone()));
    });
}
