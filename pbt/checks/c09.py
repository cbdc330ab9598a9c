"""C09: prices are exact, monotone and charged as quoted."""

from hypothesis import strategies as st

from ..core import Check, check, check_equal

CHECK = Check(
    "C09",
    rule=(
        "Generated pass values, share size lists, encoding parameters, file sizes and"
        " sequences of mutable writes with sizes up to 2**80 and clustered around"
        " multiples of the pass value, compared with exact integer arithmetic and with"
        " each other.  Non-trivial: the price is at least two and some size is not a"
        " multiple of the pass value."
    ),
)


def ceil_div(a, b):
    return -(-a // b)


@st.composite
def values(draw):
    return draw(
        st.one_of(
            st.integers(1, 20),
            st.integers(1, 2**20),
            st.sampled_from([1024 * 1024, 1000000, 128 * 1024, 2**53, 2**64 - 1]),
            st.integers(1, 2**70),
        )
    )


def sizes_near(pv):
    return st.one_of(
        st.tuples(
            st.one_of(st.integers(0, 5), st.integers(0, 2**40)), st.integers(-2, 2)
        ).map(lambda t: max(0, t[0] * pv + t[1])),
        st.integers(0, 3 * pv),
        st.integers(0, 2**80),
        st.integers(2**53 - 3, 2**53 + 3),
    )


@st.composite
def share_cases(draw):
    pv = draw(values())
    return {
        "pass_value": pv,
        "sizes": draw(st.lists(sizes_near(pv), max_size=8)),
        "extra": draw(sizes_near(pv)),
        "grow": draw(st.tuples(st.integers(0, 20), sizes_near(pv))),
        "other_value": draw(values()),
    }


@CHECK.test(share_cases, quick=4000)
def share_prices(case, ctx):
    from _zkapauthorizer.storage_common import required_passes

    pv, sizes = case["pass_value"], case["sizes"]
    got = required_passes(pv, sizes)
    check_equal(got, sum(ceil_div(s, pv) for s in sizes), "price of shares")
    check(type(got) is int, "a price of type {}", type(got))
    check_equal(
        required_passes(pv, {n: s for n, s in enumerate(sizes)}.values()),
        got,
        "price of the same shares given as a dict's values",
    )
    check_equal(required_passes(pv, list(reversed(sizes))), got, "price in another order")
    check(required_passes(pv, sizes + [case["extra"]]) >= got, "adding a share got cheaper")
    check_equal(
        required_passes(pv, sizes + [case["extra"]]),
        got + required_passes(pv, [case["extra"]]),
        "price of one more share",
    )
    if sizes:
        n, by = case["grow"]
        grown = list(sizes)
        grown[n % len(sizes)] += by
        check(required_passes(pv, grown) >= got, "enlarging a share got cheaper")
    low, high = sorted([pv, case["other_value"]])
    check(
        required_passes(low, sizes) >= required_passes(high, sizes),
        "a smaller pass value got cheaper",
    )
    if got >= 2 and any(s % pv for s in sizes):
        ctx.nontrivial()


@st.composite
def quote_cases(draw):
    k = draw(st.one_of(st.integers(1, 10), st.integers(1, 256)))
    n = draw(st.one_of(st.integers(k, k + 10), st.integers(k, max(k, 256))))
    pv = draw(values())
    size = st.one_of(
        sizes_near(pv),
        st.tuples(st.integers(0, 4), st.integers(-3, 3)).map(
            lambda t: max(0, t[0] * pv * k + t[1])
        ),
    )
    return {
        "needed": k,
        "total": n,
        "pass_value": pv,
        "sizes": draw(st.lists(size, max_size=6)),
        "extra": draw(size),
    }


@CHECK.test(quote_cases, quick=4000)
def quotes(case, ctx):
    from _zkapauthorizer.pricecalculator import PriceCalculator
    from _zkapauthorizer.storage_common import share_size_for_data

    k, n, pv, sizes = case["needed"], case["total"], case["pass_value"], case["sizes"]
    calc = PriceCalculator(shares_needed=k, shares_total=n, pass_value=pv)
    got = calc.calculate(sizes)
    check_equal(
        got,
        sum(n * ceil_div(ceil_div(s, k), pv) for s in sizes),
        "price quoted for the files",
    )
    check_equal(calc.calculate(iter(sizes)), got, "quote for an iterator of sizes")
    check_equal(
        calc.calculate(sizes + [case["extra"]]),
        got + calc.calculate([case["extra"]]),
        "quote for one more file",
    )
    for s in sizes:
        check_equal(share_size_for_data(k, s), ceil_div(s, k), "size of one share")
    if got >= 2 and any(s % (k * pv) for s in sizes):
        ctx.nontrivial()


@st.composite
def write_cases(draw):
    pv = draw(st.one_of(st.integers(1, 300), values()))
    shnum = st.integers(0, 5)
    size = st.one_of(
        st.tuples(st.integers(0, 5), st.integers(-2, 2)).map(
            lambda t: max(0, t[0] * pv + t[1])
        ),
        st.integers(0, 4 * pv),
    )
    write = st.tuples(size, st.integers(0, 40))
    vectors = st.dictionaries(shnum.map(str), st.lists(write, max_size=3), max_size=4)
    return {
        "pass_value": pv,
        "current": draw(st.dictionaries(shnum.map(str), size, max_size=4)),
        "history": draw(st.lists(vectors, min_size=1, max_size=4)),
    }


@CHECK.test(write_cases, quick=3000)
def mutable_writes(case, ctx):
    """The cost of writes is the price of what they result in less what was paid."""
    from _zkapauthorizer.storage_common import (
        get_required_new_passes_for_mutable_write,
        required_passes,
    )

    pv = case["pass_value"]
    current = {int(k): v for k, v in case["current"].items()}
    start = sum(ceil_div(s, pv) for s in current.values())
    charged = 0
    for vectors in case["history"]:
        tw = {
            int(k): ([], [(off, b"x" * n) for off, n in writes], None)
            for k, writes in vectors.items()
        }
        before = dict(current)
        cost = get_required_new_passes_for_mutable_write(pv, current, tw)
        check_equal(current, before, "the sizes given")
        after = dict(current)
        for k, (_, writes, _) in tw.items():
            if writes:
                after[k] = max([after.get(k, 0)] + [off + len(d) for off, d in writes])
        expected = sum(ceil_div(s, pv) for s in after.values()) - sum(
            ceil_div(s, pv) for s in current.values()
        )
        check_equal(cost, expected, "cost of the write")
        check(cost >= 0, "a negative cost")
        charged += cost
        current = after
    check_equal(
        start + charged,
        required_passes(pv, list(current.values())),
        "everything paid for the final shares",
    )
    if charged >= 2:
        ctx.nontrivial()
