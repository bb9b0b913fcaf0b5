"""C03: every season written exactly once with its drawn event count and ids."""
import os

import numpy as np

from harness import core, trackgen


def make():
    return core.Check("C03", "one evaluation per season file checked against the drawn count",
                      ["a season with no events leaves no file"])


def scenario(chk, item):
    k, nsim, ranks, freq, years = item
    rng = chk.rng("scenario", k)
    s = trackgen.make(chk.scratch("s"), rng, mslp_n=(37, 30, 60), mask_step=0.25, nsim=nsim, freq=freq, years=years, steps=40,
                      dt=float(rng.choice([1.0, 3.0])))
    rep = dict(trackgen.describe(s), processes=ranks)
    # files of seasons that this run does not produce must not be confused with its output
    res = trackgen.run(s, ranks=ranks, seed=int(rng.integers(1 << 30)),
                       mode="serial" if k % 2 else "parallel")
    if trackgen.failed(chk, res, "generation-failed", "%d seasons on %d processes" % (nsim, ranks), rep):
        return
    want = np.random.RandomState(s.season_seed).poisson(years * freq, nsim)
    expected = {i: int(n) for i, n in enumerate(want) if n > 0}
    files = trackgen.track_files(s)
    names = sorted("tracks.%05d.nc" % i for i in expected)
    chk.expect([f for f in files if f.endswith(".nc")] == names, "season-files",
               "files %s, expected %s (drawn counts %s)" % (files, names, want), rep)
    got = trackgen.read_all(s)
    for i in range(nsim):
        n = len(got.get(i, []))
        chk.expect(n == want[i], "event-count", "season %d has %d tracks, drawn %d" % (i, n, want[i]), rep)
        ids = [t.id for t in got.get(i, [])]
        chk.expect(ids == [(j, i) for j in range(n)], "track-ids", "season %d ids %s" % (i, ids[:10]), rep)
        for j, t in enumerate(got.get(i, [])):
            chk.expect((t.cn == j).all(), "cyclone-number",
                       "season %d track %d carries event numbers %s" % (i, j, sorted(set(t.cn.tolist()))[:4]), rep)
        chk.evaluated((k, i, int(want[i])), {"season": i, "drawn": int(want[i]), "ids": ids[:3], "processes": ranks})
        chk.count("zero_event_seasons" if want[i] == 0 else "seasons_with_events")
        chk.count("tracks", n)
    chk.count("runs_with_more_processes_than_seasons", ranks > nsim)


def run(chk):
    rng = chk.rng("plan")
    items = [(0, 1, 1, 4.0, 1), (1, 1, 3, 3.0, 1), (2, 6, 4, 0.5, 1), (3, 5, 2, 1.2, 3), (4, 3, 8, 2.0, 2),
             (5, 9, 3, 0.8, 1), (6, 12, 5, 1.0, 1)]
    for k in range(7, chk.n(12, 60)):
        items.append((k, int(rng.integers(1, 14)), int(rng.integers(1, 9)),
                      float(rng.choice([0.2, 0.7, 1.5, 4.0])), int(rng.integers(1, 4))))
    chk.pmap(scenario, items)
