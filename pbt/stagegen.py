"""Generated pipelines of stages: specs (plain data), real Stage classes, reference rules.

A spec is {"init": [arg...], "stages": [{"in": [arg...], "out": [arg...],
"before": [i...], "after": [i...]}...]} where arg is "a0" (name a, type variant 0).
Indices in before/after may point one past the last stage: a stage nobody adds.
"""
from __future__ import annotations

import hashlib
from typing import Any, NamedTuple

from hypothesis import strategies as st

TYPES: list[Any] = [list, tuple, list[int], list[str], list[int] | None, dict[str, list[int]]]


class Boom(Exception):
    """Raised by a stage that is told to fail."""


class RefError(Exception):
    """The reference says: not resolvable."""


def arg_name(a: str) -> str:
    return "arg_" + a[:-1]


def arg_type(a: str) -> Any:
    return TYPES[int(a[-1])]


def make_classes(spec: dict[str, Any], log: list[Any] | None = None,
                 mutate_inputs: bool = False, tag: str = "S",
                 failing: set[int] | None = None) -> list[Any]:
    """Real Stage subclasses for a spec (one extra, never added, at the end)."""
    from instancespace.stages.stage import RunAfter, RunBefore, Stage

    n = len(spec["stages"])
    in_types: list[Any] = [None] * (n + 1)
    out_types: list[Any] = [None] * (n + 1)
    classes: list[Any] = []

    def build(i: int) -> Any:
        def _inputs() -> Any:
            return in_types[i]

        def _outputs() -> Any:
            return out_types[i]

        def _run(inputs: Any) -> Any:
            s = spec["stages"][i]
            seen = {a: getattr(inputs, arg_name(a)) for a in s["in"]}
            frozen = {a: str(v) for a, v in seen.items()}
            if log is not None:
                log.append((i, frozen))
            vals = stage_values(i, s["out"], frozen)
            if mutate_inputs:
                for v in seen.values():
                    scribble(v)
            if failing is not None and i in failing:
                raise Boom(f"stage {i}")
            return out_types[i](**{arg_name(a): nest(v) for a, v in vals.items()})

        return type(tag if spec.get("same") else f"{tag}{i}", (Stage,), {
            "_inputs": staticmethod(_inputs), "_outputs": staticmethod(_outputs),
            "_run": staticmethod(_run)})

    for i in range(n + 1):
        classes.append(build(i))
    for i in range(n + 1):
        s = spec["stages"][i] if i < n else {"in": [], "out": [], "before": [], "after": []}
        fields: list[Any] = [(arg_name(a), arg_type(a)) for a in s["in"]]
        fields += [(f"before_{j}", RunBefore[classes[j]]) for j in s["before"]]
        fields += [(f"after_{j}", RunAfter[classes[j]]) for j in s["after"]]
        k = "" if spec.get("same") else i
        in_types[i] = NamedTuple(f"In{k}", fields)
        out_types[i] = NamedTuple(f"Out{k}", [(arg_name(a), arg_type(a)) for a in s["out"]])
    return classes


def nest(v: str) -> Any:
    """A value with mutable data at three depths; now and then one that is false."""
    h = hashlib.md5(v.encode()).digest()[0]
    if h < 40:
        return [None, [], 0, False, ""][h % 5]
    return [v, [v, {"k": [v]}]]


def scribble(v: Any) -> None:
    """Alter a nested value at every depth (deepest first)."""
    if isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribble")
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v["scribble"] = 1


def stage_values(i: int, outs: list[str], frozen: dict[str, str]) -> dict[str, str]:
    base = f"{i}|" + "|".join(f"{a}={v}" for a, v in sorted(frozen.items()))
    return {a: hashlib.md5(f"{base}->{a}".encode()).hexdigest()[:8] for a in outs}


def init_type(args: list[str], name: str = "Init") -> Any:
    return NamedTuple(name, [(arg_name(a), arg_type(a)) for a in args])


def reference_schedule(spec: dict[str, Any]) -> list[frozenset[int]]:
    """The documented resolution rules, applied to indices."""
    stages = spec["stages"]
    n = len(stages)
    ins = [frozenset(s["in"]) for s in stages]
    outs = [frozenset(s["out"]) for s in stages]
    must_precede: dict[int, set[int]] = {i: set(stages[i]["after"]) for i in range(n)}
    for i, s in enumerate(stages):
        for j in s["before"]:
            if j < n:
                must_precede[j].add(i)
    mutated = [ins[i] & outs[i] for i in range(n)]
    have = set(spec["init"])
    done: set[int] = set()
    order: list[frozenset[int]] = []
    while len(done) < n:
        ready = [i for i in range(n) if i not in done and ins[i] <= have
                 and must_precede[i] <= done]
        for a in ready:
            for b in ready:
                if a < b and mutated[a] & mutated[b]:
                    raise RefError("two mutating stages of one argument at once")
        batch = [s for s in ready
                 if not any(m != s and mutated[m] & ins[s] for m in ready)]
        for a in batch:
            for b in batch:
                if a < b and outs[a] & outs[b]:
                    raise RefError("one output from two stages at once")
        if not batch:
            raise RefError("nothing left can run")
        order.append(frozenset(batch))
        done |= set(batch)
        for s in batch:
            have |= outs[s]
    return order


@st.composite
def layered_specs(draw: Any, max_stages: int = 7, restrictions: bool = True,
                  fresh_only: bool = False) -> dict[str, Any]:
    """Pipelines built stage by stage from what is available: most of them resolve."""
    n_init = draw(st.integers(1, 3))
    init = [f"{c}0" for c in "abc"[:n_init]]
    avail = list(init)
    n = draw(st.integers(1, max_stages))
    if max_stages == 7 and draw(st.integers(0, 60)) == 0:
        n = draw(st.sampled_from([12, 20]))
    stages: list[dict[str, Any]] = []
    counter = 0
    for i in range(n):
        ins = draw(st.lists(st.sampled_from(avail), min_size=0, max_size=3, unique=True))
        outs: list[str] = []
        kind = draw(st.integers(0, 9))
        if ins and kind <= 2:
            outs.append(draw(st.sampled_from(ins)))
        if kind >= 1:
            for _ in range(draw(st.integers(1, 2))):
                outs.append(f"n{counter}{draw(st.integers(0, 5))}")
                counter += 1
        if not fresh_only and kind == 9 and avail:
            outs.append(draw(st.sampled_from(avail)))
        outs = list(dict.fromkeys(outs))
        before: list[int] = []
        after: list[int] = []
        if restrictions and i and draw(st.integers(0, 3)) == 0:
            after = draw(st.lists(st.integers(0, i - 1), max_size=2, unique=True))
        if restrictions and draw(st.integers(0, 4)) == 0:
            hi = n if not fresh_only else n - 1
            lo = 0 if not fresh_only else i + 1
            if lo <= hi:
                before = draw(st.lists(st.integers(lo, hi), max_size=2, unique=True))
        stages.append({"in": ins, "out": outs, "before": before, "after": after})
        avail += [o for o in outs if o not in avail]
    return {"init": init, "stages": stages, "same": draw(st.integers(0, 5)) == 0}


@st.composite
def random_specs(draw: Any) -> dict[str, Any]:
    """Unconstrained small pipelines over few arguments: often ambiguous or unresolvable."""
    k1, k2 = draw(st.sampled_from([(0, 1), (0, 2), (2, 3), (2, 4), (3, 5)]))
    args = [f"a{k1}", "b0", "c0", "d0", f"a{k2}"]
    n = draw(st.integers(1, 4))
    some = st.lists(st.sampled_from(args), max_size=2, unique=True)
    idx = st.lists(st.integers(0, n), max_size=1, unique=True)
    rare = st.one_of(st.just([]), st.just([]), idx)

    def names_unique(xs: list[str]) -> list[str]:
        out: dict[str, str] = {}
        for x in xs:
            out.setdefault(x[:-1], x)
        return list(out.values())

    return {
        "same": draw(st.integers(0, 5)) == 0,
        "init": names_unique(draw(st.lists(st.sampled_from(args), min_size=1, max_size=3,
                                           unique=True))),
        "stages": [{"in": names_unique(draw(some)), "out": names_unique(draw(some)),
                    "before": draw(rare), "after": draw(rare)} for _ in range(n)],
    }
