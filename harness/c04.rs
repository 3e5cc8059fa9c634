//@ in src/state/transactions/mod.rs as crate::state::transactions
// create_transaction against an independent account of what it must pay and may charge
use super::*;
use crate::evm_config::EvmNetwork;
use crate::vh::{catch, Run};
use crate::vh::number;
use crate::vhb::{self, big, of_big};
use ethnum::u256;

fn sat(x: Option<u256>) -> u256 {
    x.unwrap_or(u256::MAX)
}

pub fn run(r: &mut Run) {
    let nets = [(EvmNetwork::Ethereum, 1u64), (EvmNetwork::Sepolia, 11155111), (EvmNetwork::ArbitrumOne, 42161), (EvmNetwork::BSC, 56), (EvmNetwork::BSCTestnet, 97),
        (EvmNetwork::Polygon, 137), (EvmNetwork::Optimism, 10), (EvmNetwork::Base, 8453), (EvmNetwork::Avalanche, 43114), (EvmNetwork::Fantom, 250)];
    r.repeat(3000, 400_000, |r| {
        let g = &mut r.rng;
        let (net, chain) = *g.pick(&nets);
        let nonce = number(g);
        let gas = match g.below(4) { 0 => u256::from(21_000u32), 1 => u256::from(65_000u32), 2 => u256::from(1 + g.below(5)), _ => { let x = number(g); if x == 0 { u256::from(1u8) } else { x } } };
        let (base, prio) = if g.chance(3) { (number(g), number(g)) } else { (u256::from(g.u64() >> 20 >> g.below(40)), u256::from(g.u64() >> 20 >> g.below(40))) };
        let two = sat(base.checked_mul(u256::from(2u8)).and_then(|x| x.checked_add(prio)));
        let one = sat(base.checked_add(prio));
        // amounts around the fee
        let near = |g: &mut crate::vh::Rng, fee: u256| match g.below(7) {
            0 => fee,
            1 => sat(fee.checked_add(u256::from(1u8))),
            2 => fee.checked_sub(u256::from(1u8)).unwrap_or_default(),
            3 => sat(fee.checked_add(u256::from(g.u64()))),
            4 => sat(fee.checked_add(u256::from(g.u128()))),
            5 => sat(fee.checked_add(gas.checked_sub(u256::from(1u8)).unwrap_or_default())),
            _ => number(g),
        };
        let est = GasFeeEstimate { base_fee_per_gas: of_big(base), max_priority_fee_per_gas: of_big(prio) };
        let native = g.bool();
        let to = crate::eth_types::Address::new(g.bytes(20).try_into().unwrap());
        let burn = g.u64();
        let request = if native {
            let fee = sat(two.checked_mul(gas));
            let amount = near(g, fee);
            let mut q = vhb::native_request(burn % 1000, 0);
            q.ledger_burn_index = crate::numeric::LedgerBurnIndex::new(burn);
            q.withdrawal_amount = of_big(amount);
            q.destination = to;
            WithdrawalRequest::Native(q)
        } else {
            let fee = sat(one.checked_mul(gas));
            let budget = near(g, fee);
            let tok = g.below(4);
            let mut q = vhb::erc20_request(burn % 1000, 5, tok, 0, 0);
            q.native_ledger_burn_index = crate::numeric::LedgerBurnIndex::new(burn);
            q.max_transaction_fee = of_big(budget);
            q.withdrawal_amount = of_big(number(g));
            q.destination = to;
            WithdrawalRequest::Erc20(q)
        };
        let show = format!("create_transaction({request:?}, nonce {nonce}, {est:?}, gas limit {gas}, {net:?})");
        r.case(&show);
        let got = match catch(|| create_transaction(&request, of_big(nonce), est.clone(), of_big(gas), net)) {
            Ok(x) => x,
            Err(m) => return crate::vh::fail(r.section, "traps", &format!("{m}: {show}")),
        };
        if let Err(CreateTransactionError::InsufficientTransactionFee { native_ledger_burn_index, .. }) = &got {
            r.eq(*native_ledger_burn_index, crate::numeric::LedgerBurnIndex::new(burn), "the error names the withdrawal", || show.clone());
        }
        if let Ok(tx) = &got {
            r.eq(tx.chain_id, chain, "chain id", || show.clone());
            r.eq(big(tx.nonce), nonce, "nonce", || show.clone());
            r.eq(big(tx.gas_limit), gas, "gas limit", || show.clone());
            r.eq(big(tx.max_priority_fee_per_gas), prio, "priority fee", || show.clone());
            r.check(tx.access_list.0.is_empty(), "access list", || show.clone());
        }
        match &request {
            WithdrawalRequest::Native(q) => {
                let fee = two.checked_mul(gas);
                let amount = big(q.withdrawal_amount);
                match (&got, fee) {
                    (Ok(tx), Some(fee)) if fee <= amount => {
                        r.eq(big(tx.amount) + fee, amount, "amount plus maximum fee is what was withdrawn", || show.clone());
                        r.eq(big(tx.max_fee_per_gas), two, "maximum fee per gas", || show.clone());
                        r.eq(tx.destination, q.destination, "payee", || show.clone());
                        r.check(tx.data.is_empty(), "no call data", || show.clone());
                    }
                    (Ok(_), _) => {
                        if amount != u256::MAX {
                            crate::vh::fail(r.section, "created although the amount does not cover the fee", &show)
                        }
                    }
                    (Err(_), Some(fee)) => r.check(fee > amount, "refused although the amount covers the fee", || show.clone()),
                    (Err(_), None) => (),
                }
            }
            WithdrawalRequest::Erc20(q) => {
                let need = one.checked_mul(gas);
                let budget = big(q.max_transaction_fee);
                match &got {
                    Ok(tx) => {
                        let fee = big(tx.max_fee_per_gas).checked_mul(gas);
                        r.check(fee.is_some_and(|f| f <= budget), "maximum fee within what was paid", || show.clone());
                        r.check(big(tx.max_fee_per_gas) >= one, "price covers the minimum", || show.clone());
                        r.eq(tx.destination, q.erc20_contract_address, "calls the token contract", || show.clone());
                        r.eq(big(tx.amount), u256::from(0u8), "no native value", || show.clone());
                        let mut want = hex::decode("a9059cbb000000000000000000000000").unwrap();
                        want.extend_from_slice(q.destination.as_ref());
                        want.extend_from_slice(&q.withdrawal_amount.to_be_bytes());
                        r.eq(tx.data.clone(), want, "call data", || show.clone());
                        match catch(|| TransactionCallData::decode(&tx.data)) {
                            Ok(Ok(TransactionCallData::Erc20Transfer { to, value })) => r.check(to == q.destination && value == q.withdrawal_amount, "call data read back", || show.clone()),
                            x => crate::vh::fail(r.section, "call data read back", &format!("{x:?}: {show}")),
                        }
                    }
                    Err(_) => r.check(need.is_none_or(|f| f > budget), "refused although the budget covers the minimum price", || show.clone()),
                }
            }
        }
        // anything that is not a transfer is not read as one
        let mut data = r.rng.bytes(68);
        let k = r.rng.below(75) as usize;
        if r.rng.bool() {
            data[..4].copy_from_slice(&[0xa9, 0x05, 0x9c, 0xbb]);
            for b in data.iter_mut().skip(4).take(12) {
                *b = 0;
            }
        }
        data.resize(k, 7);
        let ok = data.len() == 68 && data[..4] == [0xa9, 0x05, 0x9c, 0xbb];
        if let Ok(x) = catch(|| TransactionCallData::decode(&data)) {
            r.check(x.is_err() || ok, "only transfers are decoded", || format!("{:?}", hex::encode(&data)));
        }
    });
}
