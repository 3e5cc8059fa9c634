//@ in src/tx.rs as crate::tx
// encodings against independent encoders and decoders
use super::{AccessList, AccessListItem, Eip1559Signature, Eip1559TransactionRequest, SignedEip1559TransactionRequest, StorageKey};
use crate::eth_types::Address;
use crate::evm_config::EvmNetwork;
use crate::numeric::{GasAmount, TransactionNonce, Wei, WeiPerGas};
use crate::vh::{catch, Rng, Run};
use candid::{Nat, Principal};
use ethnum::u256;
use num_bigint::BigUint;
use std::collections::BTreeMap;
use std::str::FromStr;

fn num(g: &mut Rng) -> u256 {
    let b = g.bytes32();
    let n = u256::from_be_bytes(b);
    match g.below(8) {
        0 => n >> g.below(256) as u32,
        1 => (u256::ONE << g.below(256) as u32) - g.below(2) as u128,
        2 => (u256::ONE << (8 * g.below(32)) as u32) + g.below(3) as u128,
        3 => u256::from(u32::MAX) + g.below(3) as u128 - 1,
        4 => u256::from(u64::MAX) + g.below(3) as u128 - 1,
        _ => n,
    }
}

fn enc<T>(v: &T, f: impl Fn(&T, &mut minicbor::Encoder<&mut Vec<u8>>) -> bool) -> Option<Vec<u8>> {
    let mut buf = vec![];
    let mut e = minicbor::Encoder::new(&mut buf);
    if f(v, &mut e) { Some(buf) } else { None }
}

fn round<T: PartialEq + std::fmt::Debug + Clone>(r: &mut Run, name: &str, v: T, f: impl Fn(&T, &mut minicbor::Encoder<&mut Vec<u8>>) -> bool, d: impl Fn(&mut minicbor::Decoder) -> Option<T>) {
    let got = catch(|| {
        // something else follows in the stream
        let mut b = enc(&v, &f)?;
        let n = b.len();
        b.push(7);
        let mut de = minicbor::Decoder::new(&b);
        let x = d(&mut de)?;
        if de.position() != n { return None }
        Some(x)
    });
    r.eq(got.clone(), Ok(Some(v.clone())), name, || format!("{v:?}"));
}

fn bytes(out: &mut Vec<u8>, base: u8, payload: &[u8]) {
    if payload.len() < 56 {
        out.push(base + payload.len() as u8);
    } else {
        let l = payload.len().to_be_bytes();
        let l: Vec<u8> = l.iter().copied().skip_while(|x| *x == 0).collect();
        out.push(base + 55 + l.len() as u8);
        out.extend(l);
    }
    out.extend(payload);
}
fn rlp_str(out: &mut Vec<u8>, s: &[u8]) {
    if s.len() == 1 && s[0] < 0x80 { out.push(s[0]) } else { bytes(out, 0x80, s) }
}
fn rlp_int(out: &mut Vec<u8>, n: u256) {
    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    rlp_str(out, &b)
}
fn rlp_fields(t: &Eip1559TransactionRequest) -> Vec<u8> {
    let mut o = vec![];
    rlp_int(&mut o, u256::from(t.chain_id));
    for n in [t.nonce.to_be_bytes(), t.max_priority_fee_per_gas.to_be_bytes(), t.max_fee_per_gas.to_be_bytes(), t.gas_limit.to_be_bytes()] { rlp_int(&mut o, u256::from_be_bytes(n)) }
    rlp_str(&mut o, &t.destination.into_bytes());
    rlp_int(&mut o, u256::from_be_bytes(t.amount.to_be_bytes()));
    rlp_str(&mut o, &t.data);
    let mut al = vec![];
    for i in &t.access_list.0 {
        let (mut it, mut ks) = (vec![], vec![]);
        rlp_str(&mut it, &i.address.into_bytes());
        for k in &i.storage_keys { rlp_str(&mut ks, &k.0) }
        bytes(&mut it, 0xc0, &ks);
        bytes(&mut al, 0xc0, &it);
    }
    bytes(&mut o, 0xc0, &al);
    o
}
fn typed(fields: &[u8]) -> Vec<u8> {
    let mut o = vec![2];
    bytes(&mut o, 0xc0, fields);
    o
}
fn keccak(b: &[u8]) -> [u8; 32] {
    ic_sha3::Keccak256::hash(b)
}

fn address(g: &mut Rng) -> Address {
    let b = g.bytes32();
    Address::new(b[g.below(13) as usize..][..20].try_into().unwrap())
}

fn tx(g: &mut Rng) -> Eip1559TransactionRequest {
    let len = match g.below(5) { 0 => 0, 1 => 1, 2 => 50 + g.below(10), 3 => 68, _ => g.below(300) } as usize;
    let mut data = g.bytes(len);
    if len == 1 && g.bool() { data[0] &= 0x7f }
    Eip1559TransactionRequest {
        chain_id: match g.below(4) { 0 => g.below(3), 1 => 11155111, 2 => 127 + g.below(3), _ => g.u64() >> g.below(64) },
        nonce: TransactionNonce::from_be_bytes(num(g).to_be_bytes()),
        max_priority_fee_per_gas: WeiPerGas::from_be_bytes(num(g).to_be_bytes()),
        max_fee_per_gas: WeiPerGas::from_be_bytes(num(g).to_be_bytes()),
        gas_limit: GasAmount::from_be_bytes(num(g).to_be_bytes()),
        destination: address(g),
        amount: Wei::from_be_bytes(num(g).to_be_bytes()),
        data,
        access_list: if g.chance(3) {
            AccessList((0..g.below(3)).map(|_| AccessListItem { address: address(g), storage_keys: (0..g.below(4)).map(|_| StorageKey(g.bytes32())).collect() }).collect())
        } else { AccessList::new() },
    }
}

pub fn run(r: &mut Run) {
    let chains: BTreeMap<u64, EvmNetwork> = [(1, EvmNetwork::Ethereum), (11155111, EvmNetwork::Sepolia), (42161, EvmNetwork::ArbitrumOne), (56, EvmNetwork::BSC), (137, EvmNetwork::Polygon), (10, EvmNetwork::Optimism), (8453, EvmNetwork::Base), (43114, EvmNetwork::Avalanche), (250, EvmNetwork::Fantom), (97, EvmNetwork::BSCTestnet)].into_iter().collect();
    for (id, n) in &chains {
        r.case(("chain", id));
        r.eq(EvmNetwork::chain_id(n), *id, "the chain id of a network", || format!("{n:?}"));
        r.eq(EvmNetwork::try_from(*id).ok(), Some(*n), "the network of a chain id", || format!("{id}"));
    }
    r.repeat(300, 100_000_000, |r| {
        let g = &mut r.rng;
        let (v, id, small) = (num(g), g.u64(), num(g));
        let chain = match g.below(4) { 0 => g.below(70000), 1 => *chains.keys().nth(g.below(10) as usize).unwrap() ^ (1 << g.below(64)), _ => g.u64() >> g.below(64) };
        let plen = g.below(30) as usize;
        let principal = Principal::from_slice(&g.bytes(plen));
        let nat = match g.below(3) {
            0 => { let n = g.below(80) as usize; Nat(BigUint::from_bytes_be(&g.bytes(n))) }
            _ => Nat(BigUint::from_bytes_be(&small.to_be_bytes())),
        };
        let a = address(g);
        let mut word = g.bytes32();
        if g.bool() { word[..12].fill(0) }
        if g.chance(3) { let i = g.below(13) as usize; word[i] = 1 << g.below(8) }
        let t = tx(g);
        let sig = Eip1559Signature { signature_y_parity: g.bool(), r: num(g), s: num(g) };
        r.case((v.to_be_bytes(), t.data.len(), a.into_bytes()));

        // stored values
        round(r, "a stored number decodes to itself", v, |v, e| crate::cbor::u256::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::u256::decode(d, &mut ()).ok());
        let w = Wei::from_be_bytes(v.to_be_bytes());
        round(r, "a stored amount decodes to itself", w, |v, e| e.encode(v).is_ok(), |d| d.decode().ok());
        round(r, "a stored natural decodes to itself", nat.clone(), |v, e| crate::cbor::nat::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::nat::decode(d, &mut ()).ok());
        round(r, "a stored optional natural decodes to itself", Some(nat), |v, e| crate::cbor::nat::option::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::nat::option::decode(d, &mut ()).ok());
        round(r, "no natural decodes to itself", None, |v, e| crate::cbor::nat::option::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::nat::option::decode(d, &mut ()).ok());
        round(r, "a stored principal decodes to itself", principal, |v, e| crate::cbor::principal::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::principal::decode(d, &mut ()).ok());
        round(r, "a stored optional principal decodes to itself", Some(principal), |v, e| crate::cbor::principal::option::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::principal::option::decode(d, &mut ()).ok());
        round(r, "no principal decodes to itself", None, |v, e| crate::cbor::principal::option::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::principal::option::decode(d, &mut ()).ok());
        let ident: crate::numeric::LedgerBurnIndex = phantom_newtype::Id::new(id);
        round(r, "a stored id decodes to itself", ident, |v, e| crate::cbor::id::encode(v, e, &mut ()).is_ok(), |d| crate::cbor::id::decode(d, &mut ()).ok());
        round(r, "a stored transaction decodes to itself", t.clone(), |v, e| e.encode(v).is_ok(), |d| d.decode().ok());
        round(r, "a stored signature decodes to itself", sig.clone(), |v, e| e.encode(v).is_ok(), |d| d.decode().ok());

        // networks
        r.eq(EvmNetwork::try_from(chain).ok(), chains.get(&chain).copied(), "the network of a chain id", || format!("{chain}"));

        // addresses
        let hexa: String = a.into_bytes().iter().map(|b| format!("{b:02x}")).collect();
        r.eq(a.to_string().to_lowercase(), format!("0x{hexa}"), "an address prints its bytes", || format!("{a:?}"));
        let sum = keccak(hexa.as_bytes());
        let mixed: String = hexa.chars().enumerate().map(|(i, c)| if (sum[i / 2] >> (4 * (1 - i % 2))) & 15 >= 8 { c.to_ascii_uppercase() } else { c }).collect();
        r.eq(a.to_string(), format!("0x{mixed}"), "an address prints its checksum", || format!("{a:?}"));
        r.eq(format!("{a:x}{a:X}"), format!("0x{hexa}0x{}", hexa.to_uppercase()), "an address prints in hex", || hexa.clone());
        r.eq(Address::from_str(&a.to_string()), Ok(a), "a printed address parses back", || hexa.clone());
        r.eq(Address::from_str(&format!("0x{hexa}")), Ok(a), "a lower-case address parses", || hexa.clone());
        let cut = r.rng.below(40) as usize;
        for bad in [format!("0x{}", &hexa[..cut]), format!("0x{hexa}{}", &hexa[..cut + 1]), hexa.clone(), format!("0X{hexa}"), format!("0x{}g{}", &hexa[..cut], &hexa[cut + 1..]), format!("00{hexa}"), format!("0x0x{}", &hexa[2..])] {
            r.eq(catch(|| Address::from_str(&bad).is_err()), Ok(true), "what is not an address is refused", || bad.clone());
        }
        r.eq(Address::try_from(&word).ok().map(|x| x.into_bytes()), if word[..12].iter().all(|b| *b == 0) { Some(word[12..].try_into().unwrap()) } else { None }, "a word is an address only with 12 leading zeros", || format!("{word:?}"));
        let mut back = [0u8; 32];
        back[12..].copy_from_slice(&a.into_bytes());
        r.eq(<[u8; 32]>::from(&a), back, "the word of an address", || format!("{a:?}"));

        // transactions
        let fields = rlp_fields(&t);
        r.eq(t.hash().0, keccak(&typed(&fields)), "the signing payload is the EIP-1559 encoding", || format!("{t:?}"));
        let mut signed = fields.clone();
        rlp_int(&mut signed, u256::from(sig.signature_y_parity as u8));
        rlp_int(&mut signed, sig.r);
        rlp_int(&mut signed, sig.s);
        let raw = typed(&signed);
        let s = SignedEip1559TransactionRequest::new(t.clone(), sig.clone());
        r.eq(s.raw_transaction_hex(), format!("0x{}", raw.iter().map(|b| format!("{b:02x}")).collect::<String>()), "the raw transaction is the EIP-1559 encoding", || format!("{t:?} {sig:?}"));
        r.eq(s.hash().0, keccak(&raw), "the transaction hash is the hash of the raw transaction", || format!("{t:?} {sig:?}"));
        round(r, "a stored signed transaction decodes to itself", s, |v, e| e.encode(v).is_ok(), |d| d.decode().ok());
    });
}
