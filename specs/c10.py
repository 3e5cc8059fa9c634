"""C10: block ranges and the progress of log scraping."""
from specs.wtx import *
from specs.common import *
from mirv.spec import step, outcall, havoc_state, GSTATE, Ctx
from mirv.engine import RET
from mirv.values import Agg, UNIT_T, opt

MAX = U256_MAX
BN = {"T": ("adt", "checked_amount::CheckedAmountOf", (("adt", "numeric::BlockNumberTag", ()),))}


def lo(r):
    return N(r[0].start)


def hi(r):
    return N(r[0].end)


def live(r):
    return z3.Not(r[0].exhausted.z)


def plain(*names):
    """a range that was built, not one half-way through an iteration"""
    return lambda c: [live(c.a(n)) for n in names]


def part(c):
    r, m = c.a(0), N(c.a(1))
    l, h = lo(r), hi(r)
    L, R = c.ret[0], c.ret[1]
    l1, r1 = L.as_("Some"), R.as_("Some")
    return [("low side exists exactly when the cut is above the start", L.is_("Some") == (m > l)),
            ("high side exists exactly when the cut is not above the end (or nothing is below it)", R.is_("Some") == z3.Or(m <= h, m <= l)),
            ("low side starts where the range starts and ends before the cut", z3.Implies(L.is_("Some"), z3.And(lo(l1) == l, hi(l1) == z3.If(m <= h, m - 1, h), live(l1)))),
            ("high side starts at the cut and ends where the range ends", z3.Implies(R.is_("Some"), z3.And(lo(r1) == z3.If(m > l, m, l), hi(r1) == h, live(r1))))]


def halves(c):
    r = c.a(0)
    l, h = lo(r), hi(r)
    L, R = c.ret[0], c.ret[1]
    l1, r1 = L.as_("Some"), R.as_("Some")
    return [("there is a first half", L.is_("Some")), ("a second exactly when there is more than one block", R.is_("Some") == (l < h)),
            ("first half starts the range", lo(l1) == l), ("single block or empty: returned as it is", z3.Implies(l >= h, hi(l1) == h)),
            ("both halves are non-empty, adjacent and end where the range ends", z3.Implies(l < h, z3.And(hi(l1) >= l, lo(r1) == hi(l1) + 1, lo(r1) <= hi(r1), hi(r1) == h))),
            ("plain ranges", z3.And(live(l1), z3.Implies(R.is_("Some"), live(r1))))]


def join(c):
    a, b, r = c.a(0), c.a(1), c.ret
    return [("starts at the lower start", lo(r) == z3.If(lo(a) <= lo(b), lo(a), lo(b))), ("ends at the higher end", hi(r) == z3.If(hi(a) >= hi(b), hi(a), hi(b))), ("plain range", live(r))]


def left(ch):
    """(is anything left, first block left, last block left)"""
    return z3.And(z3.Not(ch.exhausted.z), lo(ch.range) <= hi(ch.range)), lo(ch.range), hi(ch.range)


def nxt(c):
    a, b, o = c.a(0), c.f(0), c.ret
    some, l, h = left(a)
    some1, l1, h1 = left(b)
    p = o.as_("Some")
    I = z3.Implies
    return [("a piece exactly when something is left", o.is_("Some") == some),
            ("the piece starts with the first block left", I(some, lo(p) == l)), ("the piece is not empty and lies in the range", I(some, z3.And(lo(p) <= hi(p), hi(p) <= h))),
            ("the piece is within the size limit", I(some, hi(p) - lo(p) + 1 <= a.chunk_size.z)),
            ("what is left is exactly the rest", I(some, z3.And(some1 == (hi(p) < h), I(some1, z3.And(l1 == hi(p) + 1, h1 == h))))),
            ("nothing left stays nothing", I(z3.Not(some), z3.Not(some1))), ("size limit kept", b.chunk_size == a.chunk_size),
            ("plain range", I(live(a.range), live(b.range))), ("plain piece", I(some, live(p)))]


def chunks(c):
    r, ch = c.a(0), c.ret
    some, l, h = left(ch)
    return [("size limit is positive", c.a(1).z > 0), ("everything is still to come", z3.And(some == (lo(r) <= hi(r)), l == lo(r), h == hi(r))), ("size limit", ch.chunk_size == c.a(1)), ("plain range", live(ch.range))]


# ---------------------------------------------------------------- scraping
# Ghost: cov = highest block such that every block from the start of the work up to it was fetched and registered, or skipped alone after a failed fetch.
# from/to/ok/logs = the last fetch of logs and its outcome.
G = lambda n: ("G", n)      # noqa
CUR = {}


def ghosts(c):
    st, e = c.st, c.eng
    CUR["ctx"] = c
    CUR["m0"] = N(c.g0.last_scraped_block_number)
    st.cells[G("cov")] = CUR["m0"]
    st.cells[G("from")], st.cells[G("to")] = e.const(z3.IntSort(), "from"), e.const(z3.IntSort(), "to")
    st.cells[G("ok")] = z3.BoolVal(False)
    st.cells[G("logs")] = e.const(e.S.sort(e.S.norm(e.ty("std::vec::Vec<rpc_declrations::LogEntry>"))), "logs")


def marker(e, st):
    return N(W(e, st, st.cells[GSTATE], opt(Ctx.g0v[1])).as_("Some").last_scraped_block_number)


def fetched(c, m):
    """rpc_client.get_logs(request)"""
    e, st, u = c.eng, c.st, CUR["ctx"]
    q = W(e, st, m.args[1][0], m.args[1][1])
    r = W(e, st, m.retv, m.ret_ty)
    f, t = q.from_block, q.to_block
    e.oblige(st, "logs are asked for by block numbers", z3.And(f.is_("Number"), t.is_("Number")))
    e.oblige(st, "logs are asked of the helper contract only", z3.And(q.address.len == 1, q.address.at(0) == u.a("contract_address")))
    e.oblige(st, "logs are asked with the given topics", q.topics == u.a("topics"))
    st.cells[G("from")], st.cells[G("to")] = N(f.as_("Number")), N(t.as_("Number"))
    st.cells[G("ok")] = r.is_("Ok")
    st.cells[G("logs")] = r.as_("Ok").z


def registered(call, env=None):
    """register_deposit_events(events, errors): verified below"""
    e, st = call.eng, call.st
    e.used_models["contract: register_deposit_events"] = 1
    x = W(e, st, call.args[0], call.argtys[0])
    y = W(e, st, call.args[1], call.argtys[1])
    pt = e.S.norm(("tuple", (e.S.norm(call.argtys[0]), e.S.norm(call.argtys[1]))))
    lg = st.cells[G("logs")]
    p = W(e, st, e.uf("parse_all_logs#ret", lg.sort(), e.S.sort(pt))(lg), pt)
    good = z3.And(st.cells[G("ok")], x.z == p[0].z, y.z == p[1].z, st.cells[G("from")] == st.cells[G("cov")] + 1)
    st.cells[G("cov")] = z3.If(good, st.cells[G("to")], st.cells[G("cov")])
    st.cells[G("ok")] = z3.BoolVal(False)
    havoc_state(call, "last_scraped_block_number")
    return [(st, (RET, Agg(UNIT_T, None, [])))]


def evented(call, env=None):
    """process_event(state, payload): C09"""
    e, st = call.eng, call.st
    e.used_models["contract: process_event"] = 1
    p = W(e, st, call.args[1], call.argtys[1])
    b = N(p.as_("SkippedBlock", "block_number"))
    g = lambda n: st.cells[G(n)]     # noqa
    good = z3.And(p.is_("SkippedBlock"), z3.Not(g("ok")), g("from") == b, g("to") == b, b == g("cov") + 1)
    st.cells[G("cov")] = z3.If(good, b, g("cov"))
    e.oblige(st, "only a skipped block is recorded here", p.is_("SkippedBlock"))
    havoc_state(call, "last_scraped_block_number")
    return [(st, (RET, Agg(UNIT_T, None, [])))]


SCRAPE = {"rpc_client::RpcClient::get_logs": outcall("get_logs", fetched, keep=("last_scraped_block_number",), record=False),
          "deposit::register_deposit_events": registered, "state::audit::process_event": evented,
          "deposit_logs::parser::LogParser::parse_all_logs": step("parse_all_logs", record=False)}


def sub_inv(l):
    e, st = l.eng, l.st
    u = CUR["ctx"]
    v = l.var("subranges")
    q = W(e, st, v, e.S.norm(e.ty("std::collections::VecDeque<numeric::range::BlockRangeInclusive>")))
    n, end, m, cov = q.len, hi(u.a("block_range")), marker(e, st), st.cells[G("cov")]
    a, b = q.at(0), q.at(1)
    return [n >= 0, n <= 2, m == cov, m >= CUR["m0"], z3.Implies(n == 0, m == end),
            z3.Implies(n >= 1, z3.And(live(a), lo(a) == m + 1, lo(a) <= hi(a), hi(a) <= end, z3.Implies(n == 1, hi(a) == end))),
            z3.Implies(n == 2, z3.And(live(b), lo(b) == hi(a) + 1, lo(b) <= hi(b), hi(b) == end))]


def scrape_pre(c):
    r = c.a("block_range")
    return [live(r), lo(r) <= hi(r), lo(r) == N(c.g0.last_scraped_block_number) + 1]


def scraped(c):
    m, cov, end = N(c.g.last_scraped_block_number), c.st.cells[G("cov")], hi(c.a("block_range"))
    return [("success means the whole range is done", z3.Implies(c.ret.is_("Ok"), m == end)),
            ("the marker passes only blocks that were fetched and registered, or skipped alone", m <= cov),
            ("the marker never goes back", m >= CUR["m0"]), ("nor beyond the end of the range", m <= end)]


def range_scraped(c, m):
    """contract of scrape_block_range, as proved above"""
    e, st = c.eng, c.st
    r = W(e, st, m.args[3][0], m.args[3][1])
    s = W(e, st, m.args[1][0], m.args[1][1])
    m0 = CUR["marker"]
    e.oblige(st, "each piece starts right after the last scraped block", z3.And(live(r), lo(r) <= hi(r), lo(r) == m0 + 1))
    e.oblige(st, "each piece is within the size limit", hi(r) - lo(r) + 1 <= CUR["ctx"].a("max_block_spread").z)
    e.oblige(st, "no piece goes beyond the last block", hi(r) <= N(CUR["ctx"].a("last_block_number")))
    h = CUR["ctx"].g0.helper_contract_address
    e.oblige(st, "logs of the helper contract", s == h.as_("Some"))
    m1 = marker(e, st)
    st.facts += [m1 >= m0, m1 <= hi(r), z3.Implies(W(e, st, m.retv, m.ret_ty).is_("Ok"), m1 == hi(r))]


def block_range_contract(call, env=None):
    inner = outcall("scrape_block_range", range_scraped, record=False)
    outs = inner(call, env)
    f = outs[0][1][1]
    run0 = f.run

    def run(c):
        CUR["marker"] = marker(c.eng, c.st)
        return run0(c)
    f.run = run
    return outs


def until_inv(l):
    e, st = l.eng, l.st
    ch = W(e, st, l.var("iter"), e.S.norm(e.ty("numeric::range::BlockRangeChunks")))
    some, a, b = left(ch)
    u = CUR["ctx"]
    m = marker(e, st)
    end = N(u.a("last_block_number"))
    return [ch.chunk_size == u.a("max_block_spread"), live(ch.range), z3.Implies(some, z3.And(a == m + 1, b == end)), m >= CUR["m0"], z3.Or(m <= end, m == CUR["m0"]),
            z3.Implies(z3.Not(some), m >= end)]


def until_setup(c):
    CUR["ctx"] = c
    CUR["m0"] = N(c.g0.last_scraped_block_number)


def until(c):
    m, end = N(c.g.last_scraped_block_number), N(c.a("last_block_number"))
    return [("the marker never goes back", m >= CUR["m0"]), ("nor beyond the requested block", z3.Or(m <= end, m == CUR["m0"]))]


def evs(e):
    return e.S.norm(e.ty("std::vec::Vec<state::event::EventType>"))


def reg_setup(c):
    e = c.eng
    CUR["ctx"] = c
    t = evs(e)
    c.st.cells[G("done")] = e.seq_mk(e.S.elem_type(t), z3.IntVal(0), e.const(z3.ArraySort(z3.IntSort(), e.S.sort(e.S.elem_type(t))), "done"))
    CUR["src"] = e.S.sort(e.S.norm(e.ty("deposit_logs::EventSource")))
    c.st.cells[G("invalid")] = z3.K(CUR["src"], z3.BoolVal(False))


def reg_event(call, env=None):
    """process_event: the payload is logged and applied (C09)"""
    e, st = call.eng, call.st
    e.used_models["contract: process_event"] = 1
    p = W(e, st, call.args[1], call.argtys[1])
    inv = p.is_("InvalidDeposit")
    d = W(e, st, st.cells[G("done")], evs(e))
    e.oblige(st, "only deposits are recorded here", z3.Or(inv, p.is_("AcceptedDeposit"), p.is_("AcceptedErc20Deposit")))
    n = z3.If(inv, d.len, d.len + 1)
    st.cells[G("done")] = e.seq_mk(e.S.elem_type(evs(e)), n, z3.If(inv, e.seq_arr(d._v), z3.Store(e.seq_arr(d._v), d.len, p.z)))
    st.cells[G("invalid")] = z3.If(inv, z3.Store(st.cells[G("invalid")], p.as_("InvalidDeposit", "event_source").z, z3.BoolVal(True)), st.cells[G("invalid")])
    havoc_state(call, "last_scraped_block_number")
    return [(st, (RET, Agg(UNIT_T, None, [])))]


def accepted(ev, p):
    return z3.If(ev.is_("Native"), z3.And(p.is_("AcceptedDeposit"), p.as_("AcceptedDeposit").z == ev.as_("Native").z),
                 z3.And(p.is_("AcceptedErc20Deposit"), p.as_("AcceptedErc20Deposit").z == ev.as_("Erc20").z))


def recorded(e, st, n):
    """exactly the first n events, in order"""
    u = CUR["ctx"]
    d = W(e, st, st.cells[G("done")], evs(e))
    i = z3.Int("i!rec")
    ev = W(e, st, u.pre[0][0], u.tys[0])
    return z3.And(d.len == n, forall([i], z3.Implies(z3.And(0 <= i, i < n), accepted(ev.at(i), d.at(i))), z3.Select(e.seq_arr(ev._v), i)))


def rejected(e, st, n):
    """the sources of exactly the first n errors that have one"""
    u = CUR["ctx"]
    er = W(e, st, u.pre[1][0], u.tys[1])
    inv = st.cells[G("invalid")]
    i, x = z3.Int("i!rej"), z3.Const("x!rej", CUR["src"])
    src = lambda j: er.at(j).as_("InvalidEventSource", "source").z       # noqa
    w = e.uf("witness", CUR["src"], z3.IntSort())
    return [forall([i], z3.Implies(z3.And(0 <= i, i < n, er.at(i).is_("InvalidEventSource")), z3.Select(inv, src(i))), z3.Select(e.seq_arr(er._v), i)),
            z3.ForAll([x], z3.Implies(z3.Select(inv, x), z3.Exists([i], z3.And(0 <= i, i < n, er.at(i).is_("InvalidEventSource"), src(i) == x))))]


def reg_inv1(l):
    it = l.iters()[-1]
    return [it.pos >= 0, it.pos <= it.hi, recorded(l.eng, l.st, it.pos), l.st.cells[G("invalid")] == z3.K(CUR["src"], z3.BoolVal(False)), marker(l.eng, l.st) == N(CUR["ctx"].g0.last_scraped_block_number)]


def reg_inv2(l):
    it = l.iters()[-1]
    n = CUR["ctx"].a(0).len
    return [it.pos >= 0, it.pos <= it.hi, recorded(l.eng, l.st, n), marker(l.eng, l.st) == N(CUR["ctx"].g0.last_scraped_block_number)] + rejected(l.eng, l.st, it.pos)


def registers(c):
    r = rejected(c.eng, c.st, c.a(1).len)
    return [("every decoded deposit is recorded once, in order", recorded(c.eng, c.st, c.a(0).len)), ("every undecodable deposit is recorded as invalid", r[0]), ("nothing else is recorded as invalid", r[1]),
            ("the marker is not moved", N(c.g.last_scraped_block_number) == N(c.g0.last_scraped_block_number))]


MARGIN = {"BSC": 20, "ArbitrumOne": 12, "Base": 12, "Optimism": 12, "Avalanche": 12, "Fantom": 12}


def observed(c):
    net = c.g0.evm_network
    m = z3.IntVal(0)
    for k, v in MARGIN.items():
        m = z3.If(net.is_(k), z3.IntVal(v), m)
    G_ = c.calls("get_block_by_number")
    out = [("one block asked for", z3.BoolVal(len(G_) == 1 and len(c.calls()) == 1))]
    if len(G_) != 1:
        return out
    r, q = G_[0].ret(c), G_[0].a(c, 1)
    num = N(r.as_("Ok").number)
    ok = r.is_("Ok")
    tag = q.as_("Tag")
    return out + [("the configured height is asked for", z3.And(q.is_("Tag"), tag == c.g0.block_height)),
                  ("the safety margin of the network is kept", z3.Implies(z3.And(ok, c.ret.is_("Some")), N(c.ret.as_("Some")) == num - m)),
                  ("no block when the chain is shorter than the margin", z3.Implies(z3.And(ok, c.ret.is_("None")), num < m)),
                  ("observed block is recorded", z3.Implies(ok, c.g.last_observed_block_number == c.ret)),
                  ("on failure the last observation is used", z3.Implies(z3.Not(ok), c.ret == c.g.last_observed_block_number))]


def task(e, name):
    t = e.S.norm(e.ty("state::TaskType"))
    return e.z(Agg(t, e.variant_index(t, name), []), t)


def keep_task(name):
    def rely(old, new):
        t = task(old._e, name)
        return [new.active_tasks.has(t) == old.active_tasks.has(t)]
    return rely


def scrape_logs(c):
    t = task(c.eng, "ScrapLogs")
    busy = c.g0.active_tasks.has(t)
    U, S = c.calls("observe"), c.calls("until")
    out = [("nothing happens while another run is active", z3.Implies(busy, z3.BoolVal(not c.calls()))), ("at most one pass", z3.BoolVal(len(S) <= 1)),
           ("the task is released at the end, and only by its own run", c.g.active_tasks.has(t) == busy)]
    if len(S) == 1:
        r = U[-1].ret(c)
        out += [("up to the block observed", z3.And(r.is_("Some"), S[0].a(c, 0) == r.as_("Some"))), ("with a positive spread within the provider limit", z3.And(S[0].a(c, 1).z > 0, S[0].a(c, 1).z <= 1000))]
    return out


R = "numeric::range::BlockRangeInclusive::"
# --- the filter of the log query ----------------------------------------------------------------------------------
TOPIC = bytes.fromhex("deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275")


def word_is(w, bs):
    return z3.And([w.f(0).at(i).z == b for i, b in enumerate(bs)])


def filter_(c):
    """topic 0 selects deposit events, topic 1 the zero address and the registered token contracts, nothing else"""
    e, st = c.eng, c.st
    s, r = c.a("state"), c.ret.as_("Some")
    t0, t1 = r.topics.at(0), r.topics.at(1)
    l = t1.as_("Multiple")
    reg = s.erc20_tokens.map.by_alt_key
    asort = reg.z.sort().domain()
    a, a2, j, j2 = z3.Const("a?f", asort), z3.Const("a2?f", asort), z3.Int("j?f"), z3.Int("j2?f")
    av = lambda a: [z3.Select(e.seq_arr(e.acc(asort.accessor(0, 0), a)), i) for i in range(20)]
    at = lambda k: W(e, st, z3.Select(e.seq_arr(l.z), k), e.S.elem_type(l._t))
    word = lambda bs: [0] * 12 + bs
    idx = e.uf(f"keyidx[{reg.z.sort()}]", reg.z.sort(), asort, z3.IntSort())(reg.z, a)
    # hints only: places where the word of a registered address may be found
    near = lambda p: z3.Or([z3.And(inl(k), p(k)) for k in (idx, idx + 1)])
    inl = lambda k: z3.And(k >= 0, k < l.len)
    one = z3.Or(z3.And(t0.is_("Single"), word_is(t0.as_("Single"), TOPIC)),
                z3.And(t0.is_("Multiple"), t0.as_("Multiple").len == 1, word_is(t0.as_("Multiple").at(0), TOPIC)))
    return [("there is a query", c.ret.is_("Some")),
            ("of the helper contract", r.contract_address == s.helper_contract_address.as_("Some")),
            ("from the last scraped block", r.last_scraped_block_number == s.last_scraped_block_number),
            ("for deposit events", z3.And(r.topics.len == 2, one)),
            ("of a list of tokens", t1.is_("Multiple")),
            ("the native token is selected", z3.Exists([j], z3.And(inl(j), word_is(at(j), [0] * 32)))),
            ("every registered token is selected", z3.ForAll([a], z3.Implies(reg.has(a), z3.Or(near(lambda k: word_is(at(k), word(av(a)))), z3.Exists([j], z3.And(inl(j), word_is(at(j), word(av(a))))))))),
            ("nothing else is selected", z3.ForAll([j], z3.Implies(inl(j), z3.Or(word_is(at(j), [0] * 32), z3.Exists([a], z3.And(reg.has(a), word_is(at(j), word(av(a)))))))))]


units = [
    Unit(R + "new", ensures=lambda c: [("bounds", z3.And(lo(c.ret) == N(c.a(0)), hi(c.ret) == N(c.a(1)), live(c.ret)))], traps="never"),
    Unit(R + "into_inner", ensures=lambda c: [("bounds", z3.And(N(c.ret[0]) == lo(c.a(0)), N(c.ret[1]) == hi(c.a(0))))], traps="never"),
    Unit(R + "partition_at_checked", requires=plain(0), ensures=part, tenv=BN, traps="never"),
    Unit(R + "partition_into_halves", requires=plain(0), ensures=halves, traps="never"),
    Unit(R + "join_with", requires=plain(0, 1), ensures=join, traps="never"),
    Unit(R + "into_chunks", requires=plain(0), ensures=chunks, traps=lambda c: c.a(1).z == 0),
    Unit("<BlockRangeChunks as Iterator>::next", requires=lambda c: [live(c.a(0).range), c.a(0).chunk_size.z > 0], ensures=nxt, traps="never"),
    Unit("deposit::scrape_block_range", requires=scrape_pre, ensures=scraped, setup=ghosts, gstate=True, is_async=True, loops={0: sub_inv}, callee=SCRAPE),
    Unit("deposit::scrape_until_block", requires=lambda c: [c.a("max_block_spread").z > 0, N(c.g0.last_scraped_block_number) < MAX], ensures=until, setup=until_setup, gstate=True, is_async=True, loops={0: until_inv},
         callee={"deposit::scrape_block_range": block_range_contract, "rpc_client::RpcClient::from_state_all_providers": step("providers", record=False)}),
    Unit("deposit::update_last_observed_block_number", ensures=observed, gstate=True, is_async=True,
         callee={"rpc_client::RpcClient::get_block_by_number": outcall("get_block_by_number", keep=("evm_network", "block_height")), "rpc_client::RpcClient::from_state_one_provider_public_node": step("one provider", record=False)}),
    Unit("deposit::scrape_logs", ensures=scrape_logs, gstate=True, is_async=True,
         callee={"deposit::update_last_observed_block_number": outcall("observe", rely=keep_task("ScrapLogs")), "deposit::scrape_until_block": outcall("until", rely=keep_task("ScrapLogs"))}),
    Unit("<ReceivedDepositLogScraping as LogScraping>::next_scrape", ensures=filter_, traps=lambda c: c.a("state").helper_contract_address.is_("None")),
    Unit("deposit::register_deposit_events", ensures=registers, gstate=True, setup=reg_setup, loops={0: reg_inv1, 1: reg_inv2}, callee={"state::audit::process_event": reg_event}),
]
