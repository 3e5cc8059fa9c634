//@ in src/lifecycle.rs as crate::lifecycle
// initialisation and upgrade with random settings, valid and not
use super::*;
use crate::endpoints::CandidBlockTag;
use crate::eth_types::Address;
use crate::evm_config::EvmNetwork;
use crate::numeric::*;
use crate::state::audit::{apply_state_transition, EventType};
use crate::vh::{catch, Rng, Run};
use crate::vhb;
use num_bigint::BigUint;

const HELPER: &str = "0x1789F79e95324A47c5Fd6693071188e82E9a3558";

fn big(g: &mut Rng, small: bool) -> BigUint {
    match g.below(12) {
        0 => BigUint::from(0u8),
        1 => BigUint::from(2u8).pow(256) - BigUint::from(g.below(2) as u8),
        2 => BigUint::from(2u8).pow(256 + g.below(3) as u32 * 100),
        3 if !small => BigUint::from_bytes_be(&g.bytes32()),
        _ => BigUint::from(g.below(12)),
    }
}
fn fits(n: &Nat) -> bool {
    n.0.bits() <= 256
}
fn is(x: &[u8; 32], n: &Nat) -> bool {
    BigUint::from_bytes_be(x) == n.0
}
fn helper(g: &mut Rng) -> Option<String> {
    match g.below(10) {
        0 => None,
        1 => Some("0x0000000000000000000000000000000000000000".into()),
        2 => Some(g.pick(&["", "0x", "0x12", "not an address", "0x1789F79e95324A47c5Fd6693071188e82E9a35581", " 0x1789F79e95324A47c5Fd6693071188e82E9a3558"]).to_string()),
        3 => Some("0x00000000000000000000000000000000000000001".into()),
        4 => Some("0x0000000000000000000000000000000000000001".into()),
        _ => Some(HELPER.into()),
    }
}
/// None: not an address
fn addr(s: &str) -> Option<Option<[u8; 20]>> {
    let h = s.strip_prefix("0x")?;
    if h.len() != 40 || !h.bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
    let mut a = [0u8; 20];
    for i in 0..20 { a[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap(); }
    Some(if a == [0; 20] { None } else { Some(a) })
}
fn good_helper(x: &Option<String>) -> bool {
    x.as_ref().map_or(true, |s| matches!(addr(s), Some(Some(_))))
}
fn height(g: &mut Rng) -> CandidBlockTag {
    match g.below(3) { 0 => CandidBlockTag::Latest, 1 => CandidBlockTag::Safe, _ => CandidBlockTag::Finalized }
}

fn valid(s: &crate::state::State) -> bool {
    !s.ecdsa_key_name.trim().is_empty() && s.native_ledger_id != Principal::anonymous() && s.helper_contract_address != Some(Address::ZERO)
        && s.native_minimum_withdrawal_amount != Wei::ZERO && s.native_minimum_withdrawal_amount.to_be_bytes() >= s.native_ledger_transfer_fee.to_be_bytes()
}

fn init(r: &mut Run) {
    let g = &mut r.rng;
    let mut a = vhb::init_arg();
    let small = g.bool();
    a.evm_network = *g.pick(&[EvmNetwork::Ethereum, EvmNetwork::BSC, EvmNetwork::Sepolia, EvmNetwork::Base]);
    if g.chance(6) { a.ecdsa_key_name = g.pick(&["", " ", "\t\n", "\u{2003}", " k ", "x"]).to_string(); }
    if g.chance(8) { a.native_ledger_id = Principal::anonymous(); }
    if g.chance(8) { a.native_index_id = Principal::anonymous(); }
    if g.bool() { a.helper_contract_address = helper(g); }
    if g.chance(3) { a.native_minimum_withdrawal_amount = Nat(big(g, small)); }
    if g.chance(3) { a.native_ledger_transfer_fee = Nat(big(g, small)); }
    if g.chance(3) { a.native_ledger_transfer_fee = Nat(a.native_minimum_withdrawal_amount.0.clone() + BigUint::from(g.below(2))); }
    if g.chance(4) { a.next_transaction_nonce = Nat(big(g, small)); }
    if g.chance(4) { a.last_scraped_block_number = Nat(big(g, small)); }
    if g.chance(4) { a.min_max_priority_fee_per_gas = Nat(big(g, small)); }
    if g.chance(4) { a.deposit_native_fee = Nat(big(g, small)); }
    if g.chance(4) { a.withdrawal_native_fee = Nat(big(g, small)); }
    a.block_height = height(g);
    let nums = [&a.native_minimum_withdrawal_amount, &a.native_ledger_transfer_fee, &a.next_transaction_nonce, &a.last_scraped_block_number, &a.min_max_priority_fee_per_gas, &a.deposit_native_fee, &a.withdrawal_native_fee];
    let ok = nums.iter().all(|n| fits(n)) && (a.last_scraped_block_number.0.clone() + BigUint::from(1u8)).bits() <= 256
        && !a.ecdsa_key_name.trim().is_empty() && a.native_ledger_id != Principal::anonymous() && good_helper(&a.helper_contract_address)
        && a.native_minimum_withdrawal_amount.0 > BigUint::from(0u8) && a.native_minimum_withdrawal_amount.0 >= a.native_ledger_transfer_fee.0;
    let show = || format!("{a:?}");
    r.case(show());
    match catch(|| State::try_from(a.clone())) {
        Err(m) => crate::vh::fail(r.section, "initialisation traps", &format!("{m}: {}", show())),
        Ok(Err(e)) => r.check(!ok, "a valid configuration is refused", || format!("{e:?}: {}", show())),
        Ok(Ok(s)) => {
            r.check(ok && valid(&s), "an invalid configuration is accepted", show);
            let h = a.helper_contract_address.as_ref().and_then(|x| addr(x).flatten());
            let fee = |x: Option<Wei>, n: &Nat| is(&x.unwrap_or(Wei::ZERO).to_be_bytes(), n);
            let same = s.evm_network == a.evm_network && s.ecdsa_key_name == a.ecdsa_key_name && s.native_ledger_id == a.native_ledger_id && s.native_index_id == a.native_index_id
                && s.helper_contract_address.map(|x| x.into_bytes()) == h && is(&s.native_minimum_withdrawal_amount.to_be_bytes(), &a.native_minimum_withdrawal_amount)
                && is(&s.native_ledger_transfer_fee.to_be_bytes(), &a.native_ledger_transfer_fee) && is(&s.withdrawal_transactions.next_transaction_nonce().to_be_bytes(), &a.next_transaction_nonce)
                && is(&s.last_scraped_block_number.to_be_bytes(), &a.last_scraped_block_number) && is(&s.min_max_priority_fee_per_gas.to_be_bytes(), &a.min_max_priority_fee_per_gas)
                && fee(s.deposit_native_fee, &a.deposit_native_fee) && fee(s.withdrawal_native_fee, &a.withdrawal_native_fee)
                && s.block_height == crate::rpc_declrations::BlockTag::from(a.block_height.clone()) && s.ledger_suite_manager_id == Some(a.ledger_suite_manager_id);
            r.check(same, "the settings are the ones given", || format!("{} became {s:?}", show()));
        }
    }
}

fn upgrade(r: &mut Run) {
    let g = &mut r.rng;
    let mut s = vhb::state();
    s.native_minimum_withdrawal_amount = vhb::wei(6);
    s.native_ledger_transfer_fee = vhb::wei(g.below(7) as u128);
    s.deposit_native_fee = if g.bool() { Some(vhb::wei(3)) } else { None };
    s.withdrawal_native_fee = if g.bool() { Some(vhb::wei(4)) } else { None };
    if g.bool() { s.record_add_erc20_token(vhb::token(1)); }
    let small = g.bool();
    macro_rules! o { ($x:expr) => { if g.chance(3) { Some($x) } else { None } } }
    let u = UpgradeArg {
        next_transaction_nonce: o!(Nat(big(g, small))),
        native_minimum_withdrawal_amount: o!(Nat(big(g, small))),
        helper_contract_address: o!(helper(g)).flatten(),
        block_height: o!(height(g)),
        last_scraped_block_number: o!(Nat(big(g, small))),
        evm_rpc_id: o!(vhb::principal(31)),
        native_ledger_transfer_fee: o!(Nat(big(g, small))),
        min_max_priority_fee_per_gas: o!(Nat(big(g, small))),
        deposit_native_fee: o!(Nat(big(g, small))),
        withdrawal_native_fee: o!(Nat(big(g, small))),
    };
    let nums = [&u.native_minimum_withdrawal_amount, &u.native_ledger_transfer_fee, &u.next_transaction_nonce, &u.last_scraped_block_number, &u.min_max_priority_fee_per_gas, &u.deposit_native_fee, &u.withdrawal_native_fee];
    let old = |x: &Wei| BigUint::from_bytes_be(&x.to_be_bytes());
    let min = u.native_minimum_withdrawal_amount.as_ref().map_or(old(&s.native_minimum_withdrawal_amount), |n| n.0.clone());
    let fee = u.native_ledger_transfer_fee.as_ref().map_or(old(&s.native_ledger_transfer_fee), |n| n.0.clone());
    let ok = nums.iter().all(|n| n.as_ref().map_or(true, fits)) && good_helper(&u.helper_contract_address) && min > BigUint::from(0u8) && min >= fee;
    let show = format!("minimum {:?}, ledger fee {:?}, {u:?}", s.native_minimum_withdrawal_amount, s.native_ledger_transfer_fee);
    r.case(&show);
    let mut t = s.clone();
    let done = catch(|| { apply_state_transition(&mut t, &EventType::Upgrade(u.clone())); t });
    match done {
        Err(m) => r.check(!ok, "a valid upgrade is refused", || format!("{m}: {show}")),
        Ok(t) => {
            r.check(ok && valid(&t), "an upgrade to an invalid configuration is accepted", || show.clone());
            // exactly the named settings
            let w = |n: &Nat| { let b = n.0.to_bytes_be(); let mut x = [0u8; 32]; x[32 - b.len().min(32)..].copy_from_slice(&b[b.len().saturating_sub(32)..]); x };
            if let Some(n) = &u.next_transaction_nonce { s.withdrawal_transactions.update_next_transaction_nonce(TransactionNonce::from_be_bytes(w(n))); }
            if let Some(n) = &u.native_minimum_withdrawal_amount { s.native_minimum_withdrawal_amount = Wei::from_be_bytes(w(n)); }
            if let Some(n) = &u.native_ledger_transfer_fee { s.native_ledger_transfer_fee = Wei::from_be_bytes(w(n)); }
            if let Some(n) = &u.last_scraped_block_number { s.last_scraped_block_number = BlockNumber::from_be_bytes(w(n)); }
            if let Some(n) = &u.min_max_priority_fee_per_gas { s.min_max_priority_fee_per_gas = WeiPerGas::from_be_bytes(w(n)); }
            let z = |n: &Nat| { let x = Wei::from_be_bytes(w(n)); if x == Wei::ZERO { None } else { Some(x) } };
            if let Some(n) = &u.deposit_native_fee { s.deposit_native_fee = z(n); }
            if let Some(n) = &u.withdrawal_native_fee { s.withdrawal_native_fee = z(n); }
            if let Some(h) = &u.helper_contract_address { s.helper_contract_address = addr(h).flatten().map(Address::new); }
            if let Some(h) = &u.block_height { s.block_height = h.clone().into(); }
            if let Some(p) = u.evm_rpc_id { s.evm_canister_id = p; }
            if ok {
                r.check(s == t, "an upgrade changes exactly the settings it names", || format!("{show} became {t:?}"));
            }
        }
    }
}

pub fn run(r: &mut Run) {
    r.repeat(1500, 400_000, |r| {
        init(r);
        upgrade(r);
    });
}
