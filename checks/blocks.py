"""C04 block parsing, C05 header stream, C06 heights, links, median time and difficulty."""
from lib.vf import run_scenarios


def plan(rng, n, quick):
    """What to do with n blocks: each parsed in both forms, into fresh and used storage, whole and cut."""
    p = []
    for k in range(1, n + 1):
        for js in (0, 1):
            p.append({"op": "parse", "k": k, "slot": rng.randint(1, 3), "json": js})
            if rng.random() < .6: p.append({"op": "cuts", "k": k, "slot": rng.randint(4, 5), "json": js, "all": 250 if quick else 900, "at": [rng.random() for _ in range(40)]})
            if rng.random() < .5: p.append({"op": "parse", "k": rng.randint(1, n), "slot": rng.randint(4, 5), "json": rng.randrange(2)})
        if rng.random() < .6: p.append({"op": "txs", "k": k, "json": rng.randrange(2)})
        # parsed anew after something else was there, and others looked at again
        p.append({"op": "parse", "k": rng.randint(1, k), "slot": rng.randint(1, 3), "json": rng.randrange(2)})
    seen = {a["slot"] for a in p if a["op"] == "parse" and a["slot"] < 4}
    for s in sorted(seen): p.append({"op": "again", "slot": s})
    return p


def C04(c):
    rng, scs = c.rng, []
    c.model_check("BlockCodecMC.tla", "BlockCodecMC.cfg", coverage=False)
    if not c.quick: c.model_check("BlockCodecMC.tla", "BlockCodecMC2.cfg", coverage=False, workers=8, timeout=900)
    m = 1 if c.quick else 6
    for num, blocks, wide in ((40, 4, 0), (10, 12, 0), (24, 3, 1)):
        for g in c.generate("BlockGen.tla", "gen.cfg", num * m, blocks + 5, seed_off=blocks + wide, env={"GEN_BLOCKS": blocks, "GEN_WIDE": wide}):
            p = plan(rng, blocks, c.quick)
            for a in p:      # values that JSON cannot carry
                if a["k" if "k" in a else "slot"] and a["op"] != "again" and a.get("json") and g[a["k"] - 1]["b"]["big"]: a["json"] = 0
            scs.append({"cfg": {"plan": p}, "ops": g})
    tr = run_scenarios(c, "codecdrv", scs, label="parsing", parallel=8, timeout=300)
    c.validate("BlockTrace.tla", "blocktrace.cfg", tr, "parsing", chunk=8)
    c.sample([e for e in tr[1] if e["op"] == "cuts"][:1])


KINDS = ("err", "500", "cut", "short", "close")


def C05(c):
    from checks.chain import chains
    rng, scs, m = c.rng, [], 1 if c.quick else 8
    c.model_check("HeaderStream.tla", "HeaderStream.cfg", must_cover=["Grow", "Window", "Fail"])
    c.model_check("Fetch.tla", "Fetch.cfg", must_cover=["Take", "Try", "Emit", "Close"])
    for g in c.generate("StreamGen.tla", "gen.cfg", 40 * m, 40, env={"GEN_TOP": 4}): scs.append({"cfg": {}, "ops": g})
    tr = run_scenarios(c, "streamdrv", scs, label="header stream", parallel=8, timeout=300)
    c.validate("StreamTrace.tla", "streamtrace.cfg", tr, "header stream", chunk=20)
    c.sample(tr[0][:4])
    scs = []
    for num, blocks, busy, scripts in ((4, 1, 0, 3), (10, 6, 6, 4), (6, 40, 4, 9)):
        for ch in chains(c, num * m, blocks, busy, scripts, 1, 0, off=3 + blocks):
            runs = []
            for v in range(5):
                of = list(range(rng.randint(0, blocks))) if v == 0 else list(range(blocks))
                if v == 4: of = sorted(rng.sample(of, rng.randint(1, len(of))))
                f = {}
                if v: 
                    for _ in range(rng.choice((0, 1, 3, blocks))):
                        h = rng.randrange(blocks); f[h, 0] = rng.choice(KINDS)
                        if rng.random() < .5: f[h, 1] = rng.choice(KINDS)
                runs.append({"of": of, "threads": rng.choice((1, 2, 3, 8, 30)), "json": rng.randrange(2), "buf": rng.choice((0, 1, 50)), "seed": rng.randrange(10**6),
                             "delay": rng.choice((0, 0, 300, 2000)), "faults": [[h, a, k] for (h, a), k in f.items()], "hold": [[rng.randrange(blocks), rng.choice((1, 3, 20))] for _ in range(rng.choice((0, 1, 3)))]})
            scs.append({"cfg": {"fetch": 1, "runs": runs}, "ops": ch})
    tr = run_scenarios(c, "streamdrv", scs, label="fetching", parallel=8, timeout=300)
    c.validate("StreamTrace.tla", "streamtrace.cfg", tr, "fetching", chunk=8)
    if not c.quick:
        tr = run_scenarios(c, "streamdrv", scs[:40], label="fetching (race detector)", parallel=8, timeout=600, race=True)
        c.validate("StreamTrace.tla", "streamtrace.cfg", tr, "fetching under the race detector", chunk=8)


def C06(c):
    rng, scs, m = c.rng, [], 1 if c.quick else 8
    c.model_check("BlockHolderMC.tla", "BlockHolderMC.cfg")
    for num, blocks in ((30, 3), (40, 14), (10, 40), (2, 300)):
        for g in c.generate("HolderGen.tla", "gen.cfg", num * m, blocks + 4, seed_off=blocks, env={"GEN_BLOCKS": blocks}): scs.append({"cfg": {}, "ops": g})
    tr = run_scenarios(c, "holderdrv", scs, label="block holders", parallel=8, timeout=300)
    c.validate("HolderTrace.tla", "holdertrace.cfg", tr, "block holders", chunk=12)
    c.sample([e for e in tr[35] if e["op"] == "take"][:2])
