"""Shapes of data types of dependencies (declared order of fields and variants), as MIR names them. Trusted."""
from .rtypes import ty

NAT, P, S = "candid::Nat", "candid::Principal", "std::string::String"
SUB, MEMO = "std::option::Option<[u8; 32]>", "std::option::Option<icrc_ledger_types::icrc1::transfer::Memo>"
ACC = "icrc_ledger_types::icrc1::account::Account"
_on = f"std::option::Option<{NAT}>"
STRUCTS = {
    ACC: [("owner", P), ("subaccount", SUB)],
    "icrc_ledger_types::icrc1::transfer::Memo": [("0", "serde_bytes::ByteBuf")],
    "icrc_ledger_types::icrc1::transfer::TransferArg": [("from_subaccount", SUB), ("to", ACC), ("fee", _on), ("created_at_time", "std::option::Option<u64>"), ("memo", MEMO), ("amount", NAT)],
    "icrc_ledger_types::icrc2::transfer_from::TransferFromArgs": [("spender_subaccount", SUB), ("from", ACC), ("to", ACC), ("amount", NAT), ("fee", _on), ("memo", MEMO), ("created_at_time", "std::option::Option<u64>")],
    "icrc_ledger_client_cdk::ICRC1Client": [("runtime", "icrc_ledger_client_cdk::CdkRuntime"), ("ledger_canister_id", P)],
    "icrc_ledger_client_cdk::CdkRuntime": [],
}
_err = [("BadFee", [("expected_fee", NAT)]), ("BadBurn", [("min_burn_amount", NAT)]), ("InsufficientFunds", [("balance", NAT)])]
_gen = ("GenericError", [("error_code", NAT), ("message", S)])
_late = ("CreatedInFuture", [("ledger_time", "u64")])
_dup = ("Duplicate", [("duplicate_of", NAT)])
ENUMS = {
    "icrc_ledger_types::icrc1::transfer::TransferError": _err + [("TooOld", []), _late, ("TemporarilyUnavailable", []), _dup, _gen],
    "icrc_ledger_types::icrc2::transfer_from::TransferFromError": _err + [("InsufficientAllowance", [("allowance", NAT)]), ("TooOld", []), _late, _dup, ("TemporarilyUnavailable", []), _gen],
}
# evm_rpc_types 1.2.0
_E = "evm_rpc_types::"
_o = lambda t: f"std::option::Option<{t}>"     # noqa
_v = lambda t: f"std::vec::Vec<{t}>"     # noqa
_r = "std::result::Result<T, evm_rpc_types::RpcError>"
N2, H20, H32 = _E + "Nat256", _E + "Hex20", _E + "Hex32"
ENUMS.update({
    _E + "MultiRpcResult": [("Consistent", [("0", _r)]), ("Inconsistent", [("0", _v(f"({_E}RpcService, {_r})"))])],
    _E + "RpcError": [(n, [("0", _E + n)]) for n in ("ProviderError", "HttpOutcallError", "JsonRpcError", "ValidationError")],
    _E + "ProviderError": [("NoPermission", []), ("TooFewCycles", [("expected", "u128"), ("received", "u128")]), ("ProviderNotFound", []), ("MissingRequiredProvider", []),
                           ("InvalidRpcConfig", [("0", S)])],
    _E + "HttpOutcallError": [("IcError", [("code", "ic_cdk::api::call::RejectionCode"), ("message", S)]),
                              ("InvalidHttpJsonRpcResponse", [("status", "u16"), ("body", S), ("parsing_error", _o(S))])],
    _E + "ValidationError": [("Custom", [("0", S)]), ("InvalidHex", [("0", S)])],
    _E + "BlockTag": [("Latest", []), ("Finalized", []), ("Safe", []), ("Earliest", []), ("Pending", []), ("Number", [("0", N2)])],
    _E + "SendRawTransactionStatus": [("Ok", [("0", _o(H32))]), ("InsufficientFunds", []), ("NonceTooLow", []), ("NonceTooHigh", [])],
})
STRUCTS.update({
    _E + "JsonRpcError": [("code", "i64"), ("message", S)],
    _E + "FeeHistory": [("oldest_block", N2), ("base_fee_per_gas", _v(N2)), ("gas_used_ratio", _v("f64")), ("reward", _v(_v(N2)))],
    _E + "LogEntry": [("address", H20), ("topics", _v(H32)), ("data", _E + "Hex"), ("block_number", _o(N2)), ("transaction_hash", _o(H32)), ("transaction_index", _o(N2)),
                      ("block_hash", _o(H32)), ("log_index", _o(N2)), ("removed", "bool")],
    _E + "TransactionReceipt": [("block_hash", H32), ("block_number", N2), ("effective_gas_price", N2), ("gas_used", N2), ("status", _o(N2)), ("transaction_hash", H32),
                                ("contract_address", _o(H20)), ("from", H20), ("logs", _v(_E + "LogEntry")), ("logs_bloom", _E + "Hex256"), ("to", _o(H20)),
                                ("transaction_index", N2), ("tx_type", _E + "HexByte")],
    _E + "Block": [("base_fee_per_gas", _o(N2)), ("number", N2), ("difficulty", _o(N2)), ("extra_data", _E + "Hex"), ("gas_limit", N2), ("gas_used", N2), ("hash", H32),
                   ("logs_bloom", _E + "Hex256"), ("miner", H20), ("mix_hash", H32), ("nonce", N2), ("parent_hash", H32), ("receipts_root", H32), ("sha3_uncles", H32), ("size", N2),
                   ("state_root", H32), ("timestamp", N2), ("total_difficulty", _o(N2)), ("transactions", _v(H32)), ("transactions_root", _o(H32)), ("uncles", _v(H32))],
    _E + "GetTransactionCountArgs": [("address", H20), ("block", _E + "BlockTag")],
    _E + "GetLogsArgs": [("from_block", _o(_E + "BlockTag")), ("to_block", _o(_E + "BlockTag")), ("addresses", _v(H20)), ("topics", _o(_v(_v(H32))))],
    _E + "FeeHistoryArgs": [("block_count", N2), ("newest_block", _E + "BlockTag"), ("reward_percentiles", _o(_v("u8")))],
    H20: [("0", "[u8; 20]")], H32: [("0", "[u8; 32]")], _E + "Hex": [("0", _v("u8"))], _E + "Hex256": [("0", "[u8; 256]")],
})
# byte streams, as the tokens written or read (see mirv/wire.py)
ENUMS.update({
    "minicbor::data::Tag": [(n, []) for n in ("DateTime", "Timestamp", "PosBignum", "NegBignum", "Decimal", "Bigfloat", "ToBase64Url", "ToBase64", "ToBase16", "Cbor", "Uri",
                                             "Base64Url", "Base64", "Regex", "Mime")] + [("Unassigned", [("0", "u64")])],
    "minicbor::Tok": [("Num", [("0", "u64")]), ("Tag", [("0", "minicbor::data::Tag")]), ("Bytes", [("0", _v("u8"))]), ("Null", []), ("Other", [("0", "u64")])],
    "rlp::Tok": [("Open", []), ("Close", []), ("Begin", [("0", "usize")]), ("Bytes", [("0", _v("u8"))]), ("List", [("0", "tx::AccessList")])],
})
STRUCTS.update({
    "minicbor::Encoder": [("out", _v("minicbor::Tok"))],
    "minicbor::Decoder": [("inp", _v("minicbor::Tok")), ("pos", "usize")],
    "minicbor::decode::Error": [("mismatch", "bool")],
    "rlp::RlpStream": [("out", _v("rlp::Tok"))],
})
PARAMS = {_E + "MultiRpcResult": ["T"]}
_cache = {}


def extern_def(path, args=()):
    if path not in _cache:
        d = None
        f = lambda fl: [(n, ty(t)) for n, t in fl]     # noqa
        if path in STRUCTS:
            d = [(None, 0, f(STRUCTS[path]))]
        elif path in ENUMS:
            d = [(n, i, f(fl)) for i, (n, fl) in enumerate(ENUMS[path])]
        _cache[path] = d
    d = _cache[path]
    if d is not None and path in PARAMS:
        from .rtypes import subst
        env = dict(zip(PARAMS[path], args))
        return [(n, i, [(fn, subst(t, env)) for fn, t in fl]) for n, i, fl in d]
    return d
