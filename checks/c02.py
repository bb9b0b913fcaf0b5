"""C02: tracks depend on inputs and seeds only, not on process layout or history."""
import random
import shutil
import os

import numpy as np

from harness import core, trackgen


def make():
    return core.Check("C02", "one evaluation per (season, layout) comparison with the single-process reference",
                      ["process layouts are explored with a deterministic stand-in for the message layer"])


def clear(s):
    d = os.path.join(s.root, "tracks")
    shutil.rmtree(d)
    os.makedirs(d)


def same(a, b):
    if len(a) != len(b):
        return "%d tracks instead of %d" % (len(b), len(a))
    for x, y in zip(a, b):
        if x.id != y.id:
            return "track id %s instead of %s" % (y.id, x.id)
        if x.raw.shape != y.raw.shape:
            return "track %s has %d points instead of %d" % (x.id, y.raw.size, x.raw.size)
        for n in x.raw.dtype.names:
            if not np.array_equal(x.raw[n], y.raw[n]):
                return "track %s differs in %s" % (x.id, n)
    return None


def pollute(rank):
    """Leave the global generators in an unrelated state, as other stages would."""
    np.random.seed(12345 + 7 * rank)
    np.random.normal(size=101 + 13 * rank)
    random.seed(99 + rank)
    [random.random() for _ in range(17)]


def scenario(chk, k):
    rng = chk.rng("scenario", k)
    s = trackgen.make(chk.scratch("s"), rng, mslp_n=(37, 30, 60), mask_step=0.25, nsim=int(rng.integers(3, 7)), freq=float(rng.uniform(2, 4)),
                      steps=60, dt=float(rng.choice([1.0, 2.0, 3.0])),
                      track_seed=[None, 1, 7, 2 ** 31 - 1][k % 4])
    if trackgen.failed(chk, trackgen.run(s), "generation-failed", "single process", trackgen.describe(s)):
        return
    ref = trackgen.read_all(s)
    chk.count("reference_tracks", sum(map(len, ref.values())))
    layouts = [("repeat", dict(ranks=1)), ("prior-draws", dict(ranks=1, before=pollute)),
               ("ranks2", dict(ranks=2)), ("ranks3-prior-draws", dict(ranks=3, before=pollute)),
               ("more-ranks-than-seasons", dict(ranks=s.nsim + 2))]
    if not chk.quick:
        layouts += [("ranks%d-%d" % (r, q), dict(ranks=r, mode=m))
                    for q, (r, m) in enumerate([(2, "parallel"), (4, "serial"), (5, "parallel"), (8, "parallel")])]
    for name, kw in layouts:
        clear(s)
        res = trackgen.run(s, seed=int(rng.integers(1 << 30)), **kw)
        rep = dict(trackgen.describe(s), layout=name, processes=kw["ranks"])
        if trackgen.failed(chk, res, "generation-failed", "layout " + name, rep):
            continue
        got = trackgen.read_all(s)
        chk.expect(sorted(got) == sorted(ref), "season-set", "layout %s wrote seasons %s, reference %s"
                   % (name, sorted(got), sorted(ref)), rep)
        for sim in ref:
            if sim in got:
                d = same(ref[sim], got[sim])
                chk.expect(d is None, "tracks-differ", "layout %s season %d: %s" % (name, sim, d), rep)
                chk.evaluated((k, sim, name) if ref[sim] else None,
                              {"scenario": k, "season": sim, "layout": name, "tracks": len(ref[sim])})
    # seasons are distinct from one another, and another seed gives other tracks
    sims = sorted(ref)
    for i in sims:
        for j in sims:
            if i < j and ref[i] and ref[j]:
                a, b = ref[i][0].raw, ref[j][0].raw
                chk.expect(not (a.shape == b.shape and np.array_equal(a["Longitude"], b["Longitude"])
                                and np.array_equal(a["CentralPressure"], b["CentralPressure"])),
                           "seasons-repeat", "seasons %d and %d start with the same track" % (i, j),
                           trackgen.describe(s))
    clear(s)
    txt = open(s.config).read().replace("TrackSeed=%d" % s.track_seed, "TrackSeed=%d" % (s.track_seed % 10 ** 6 + 1000))
    open(s.config, "w").write(txt)
    if not trackgen.failed(chk, trackgen.run(s), "generation-failed", "other track seed", trackgen.describe(s)):
        got = trackgen.read_all(s)
        for sim in ref:
            if ref[sim] and got.get(sim):
                chk.expect(same(ref[sim][:1], got[sim][:1]) is not None, "seed-ignored",
                           "season %d unchanged with another track seed" % sim, trackgen.describe(s))
                chk.evaluated((k, sim, "other-seed"))


def twice(chk, k):
    """Two runs inside one process must both give the reference result."""
    rng = chk.rng("twice", k)
    s = trackgen.make(chk.scratch("s"), rng, mslp_n=(37, 30, 60), mask_step=0.25, nsim=3, freq=3.0, steps=50, dt=2.0)

    def body(rank):
        import TrackGenerator
        TrackGenerator.run(s.config)
        a = trackgen.read_all(s)
        clear(s)
        TrackGenerator.run(s.config)
        b = trackgen.read_all(s)
        return [same(a[q], b.get(q, [])) for q in a], [len(a[q]) for q in a]
    res = trackgen.fakempi.run_ranks(1, body)
    if trackgen.failed(chk, res, "generation-failed", "two runs in one process", trackgen.describe(s)):
        return
    for q, d in enumerate(res.values[0][0]):
        chk.expect(d is None, "tracks-differ", "second run in the same process, season %d: %s" % (q, d),
                   trackgen.describe(s))
        chk.evaluated((k, q, "twice"))


def job(chk, k):
    return twice(chk, k) if k < 0 else scenario(chk, k)


def run(chk):
    chk.pmap(job, [-1] + list(range(chk.n(6, 24))))
