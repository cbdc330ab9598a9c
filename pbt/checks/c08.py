"""C08: reported share sizes and lease expirations are true."""

import os
from struct import pack

from hypothesis import strategies as st

from ..core import Check, check_equal
from ..storage import START, World, cancel_secret, programs, renew_secret, specs, storage_index
from ..zk import stretch, sync, weighted

CHECK = Check(
    "C08",
    rule=(
        "(1) generated populations of immutable shares (both file versions, sizes up"
        " to and beyond 4 GiB, 0 to 40 leases) and mutable shares (sizes up to and"
        " beyond 4 GiB, 0 to 9 leases) written in Tahoe-LAFS' format, (2) generated"
        " operation histories; all queries compared with a model, over the server's"
        " remote interface and through the client.  Non-trivial: at least two shares"
        " with different statistics."
    ),
    assumptions=["Shares on disk are well formed."],
)

GIB = 2**30


def share_sizes():
    return st.one_of(
        st.integers(0, 2000),
        st.sampled_from([0, 1, 2**16, 2**20 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1]),
        st.sampled_from([4 * GIB + 12345, 5 * GIB, 17 * GIB]),
    )


def expirations():
    return st.one_of(
        st.integers(0, 2**32 - 1),
        st.integers(START - 100, START + 100),
        st.sampled_from([1, 2**31 - 1, 2**31, 2**32 - 1]),
    )


def populations():
    immutable = st.fixed_dictionaries(
        {
            "kind": st.just("immutable"),
            "version": st.sampled_from([1, 2]),
            "size": share_sizes(),
            "leases": st.one_of(
                st.lists(expirations(), max_size=4), st.lists(expirations(), max_size=40)
            ),
        }
    )
    mutable = st.fixed_dictionaries(
        {
            "kind": st.just("mutable"),
            "version": st.sampled_from([1, 2]),
            "size": share_sizes(),
            "leases": st.lists(
                st.one_of(expirations(), expirations(), st.none()), max_size=9
            ),
            "slack": st.sampled_from([0, 0, 1, 500]),
        }
    )

    def slot(kind):
        return st.lists(
            st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 255)), kind),
            max_size=4,
            unique_by=lambda t: t[0],
        )

    return st.fixed_dictionaries(
        {
            "slots": st.lists(weighted((1, slot(immutable)), (1, slot(mutable))), max_size=4),
            "queries": st.lists(
                st.tuples(
                    st.lists(st.integers(0, 5), max_size=6),
                    st.one_of(
                        st.none(), st.lists(st.integers(0, 255), max_size=6, unique=True)
                    ),
                    st.lists(st.integers(0, 6), max_size=3, unique=True),
                ),
                min_size=1,
                max_size=4,
            ),
        }
    )


def lease_fields(n, version):
    r, c = renew_secret(n), cancel_secret(n)
    if version == 2:
        # Hashed secrets: any 32 bytes do.
        r, c = stretch("hashed r", n, 32), stretch("hashed c", n, 32)
    return r, c


def write_immutable(path, share):
    with open(path, "wb") as f:
        f.write(pack(">LLL", share["version"], share["size"] % 2**32, len(share["leases"])))
        f.truncate(12 + share["size"])
        f.seek(12 + share["size"])
        for n, e in enumerate(share["leases"]):
            r, c = lease_fields(n, share["version"])
            f.write(pack(">L32s32sL", 0, r, c, e))


def write_mutable(path, share):
    from allmydata.storage.mutable_schema import ALL_SCHEMAS

    [schema] = [s for s in ALL_SCHEMAS if s.version == share["version"]]
    magic = schema.header(b"x" * 20, b"w" * 32)[:32]
    leases = share["leases"]
    extra_offset = 468 + share["size"] + share["slack"]

    def record(n, e):
        if e is None:
            return b"\0" * 92
        r, c = lease_fields(n, share["version"])
        return pack(">LL32s32s20s", 1, e, r, c, b"x" * 20)

    first = (leases + [None] * 4)[:4]
    extra = leases[4:]
    with open(path, "wb") as f:
        f.write(magic + pack(">20s32sQQ", b"x" * 20, b"w" * 32, share["size"], extra_offset))
        for n, e in enumerate(first):
            f.write(record(n, e))
        f.truncate(extra_offset)
        f.seek(extra_offset)
        f.write(pack(">L", len(extra)))
        for n, e in enumerate(extra):
            f.write(record(n + 4, e))


@CHECK.test(populations, quick=1600)
def crafted_shares(case, ctx):
    from allmydata.storage.common import storage_index_to_dir

    from foolscap.storage import serialize, unserialize

    w = World(ctx, 100, {"stats"})
    truth = {}
    for i, slot in enumerate(case["slots"]):
        d = os.path.join(w.original.sharedir, storage_index_to_dir(storage_index(i)))
        truth[i] = {}
        for shnum, share in slot:
            if share["kind"] == "immutable" and 12 + share["size"] + 72 * len(share["leases"]) < 32:
                # Shorter than any share file Tahoe-LAFS writes.
                continue
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, str(shnum))
            (write_immutable if share["kind"] == "immutable" else write_mutable)(path, share)
            real = [e for e in share["leases"] if e is not None]
            truth[i][shnum] = (share["size"], max(real + [0]))
            if share["size"] >= 2**32:
                ctx.event(f"{share['kind']} beyond 4 GiB")
            if len(real) > 4:
                ctx.event(f"{share['kind']} with many leases")
            if not real:
                ctx.event("share without lease")
    for indexes, sharenums, present in case["queries"]:
        sis = [storage_index(i) for i in indexes]
        want = [truth.get(i, {}) for i in indexes]
        for how, answers in (
            ("server", w.remote_call("stat_shares", sis)),
            ("client", ("ok", sync(w.client.stat_shares(sis)))),
        ):
            ok, answers = answers
            if ok == "error":
                raise answers
            # As it arrives at the other end of a Foolscap connection.
            answers = sync(unserialize(sync(serialize(answers))))
            got = [{n: (s.size, s.lease_expiration) for n, s in a.items()} for a in answers]
            check_equal(got, want, f"statistics reported by the {how}")
        for i in indexes[:2]:
            have = truth.get(i, {})
            wanted = sharenums
            if wanted is not None:
                # Ask for some that exist, too.
                wanted = list(wanted) + [n for k, n in enumerate(sorted(have)) if k in present and n not in wanted]
            for form in ((wanted, set(wanted), tuple(wanted)) if wanted is not None else (None,)):
                ok, got = w.remote_call("share_sizes", storage_index(i), form)
                if ok == "error":
                    raise got
                check_equal(
                    got,
                    {n: s for n, (s, _) in have.items() if wanted is None or n in wanted},
                    f"share sizes for {form!r}",
                )
    everything = [s for slot in truth.values() for s in slot.values()]
    if len(set(everything)) >= 2:
        ctx.nontrivial()


@CHECK.test(
    lambda: programs(
        weighted((1, st.just("client")), (3, specs())), weights={"stat": 9, "newlen": 0}
    ),
    quick=1000,
)
def history(case, ctx):
    w = World(ctx, case["pass_value"], {"stats"}, wallet=600)
    w.run(case["ops"])
    # Everything, at the end.
    w.do_stat([0, 1, 2, 3, 4], [0, 1, 2, 3], False)
    w.do_stat([4, 3, 2, 1, 0, 0], [0, 2], True)
    stats = [s for i in w.slots for s in w.stats(i).values()]
    if len(set(stats)) >= 2:
        ctx.nontrivial()
