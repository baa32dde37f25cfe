"""C32: the ids attached to data identify its property combination and its mixture."""
from vf import qr
from vf.core import Sub, eq, require, sut

RULE = ("query results of 1-6 property combinations over 1-4 files of 1-3 datasets, 1-6 mixtures (static, inferred, none; strict or best-effort; "
        "any chunk sizes) in sequence with 0-4 chunks drawn from each and the last one drained; every chunk's mixture id and key ids against "
        "the mixtures requested and the keys seen so far; non-trivial = chunks of at least two different mixtures")


def run(case):
    state = {"phase": -1, "tried": 0, "last": None, "ids": {}, "clean": True}
    labels = set()

    def describe(mix, spec):
        rows = qr.requested(mix)
        return (sorted((str(k), n) for k, n in rows.items() if n), mix.strict) if any(rows.values()) else ("arbitrary", mix.chunk_size)

    def on_switch(mix, spec, q, owner):
        state.update(phase=state["phase"] + 1, now=describe(mix, spec), drawn=False)
        state["q"] = q

    def attempt():
        if not state["drawn"]:
            state["drawn"] = True
            state["tried"] += 1

    def on_chunk(chunk, mix, spec):
        attempt()
        mid = chunk.mixture_id
        require(isinstance(mid, int) and 0 <= mid < state["tried"], "mixture id %s after %s mixtures", mid, state["tried"])
        if state["last"] is not None:
            phase, before, was = state["last"]
            if phase == state["phase"]:
                eq(mid, before, "mixture id of successive chunks of the same mixture")
            elif was != state["now"]:
                require(mid > before, "mixture id %s for %s, but %s for %s before", mid, state["now"], before, was)
                labels.add("nt")
            else:
                require(mid >= before, "mixture id %s after %s", mid, before)
        state["last"] = (state["phase"], mid, state["now"])
        keys = chunk._key_id_map
        for k in chunk._result_index:
            require(k in keys, "no id for key %s of the chunk", k)
        for k, i in keys.items():
            require(isinstance(i, int) and i >= 0, "key id %r", i)
            eq(state["ids"].setdefault(qr.content(k), i), i, f"id of key {k}")
        require(len(set(state["ids"].values())) == len(state["ids"]), "two keys share an id: %s", state["ids"])

    def on_none(mix, spec, fails, stopped):
        attempt()

    with sut("iterating with mixtures"):
        q, owner, _ = qr.play(case, on_chunk, on_none, on_switch)
        ids = {qr.content(k): i for k, i in q._key_id_map.items()}
        index = [qr.content(k) for k in q._chunker_index]
    eq(sorted(ids.values()), list(range(len(ids))), "key ids of the job")
    for k, i in state["ids"].items():
        eq(ids.get(k), i, f"id of key {k} at the end")
    require(set(index) <= set(ids), "property combinations without id: %s", set(index) - set(ids))
    return labels


def _case():
    return qr.history(max_phases=6)


SUBS = [Sub("history", _case, run, quick=4000, thorough=150000, shards=8, cpu=20)]
