"""C01 stored chain, C02 links, C03 parallel import (three phases, real code, synthetic chains)."""
from lib.vf import run_scenarios

BINS = (2, 4, 6, 10, 256)


def chains(c, num, blocks, busy, scripts, dup=0, big=0, off=0):
    return c.generate("ChainGen.tla", "gen.cfg", num, 60 * blocks, seed_off=off,
                      env={"GEN_BLOCKS": blocks, "GEN_BUSY": busy, "GEN_SCRIPTS": scripts, "GEN_DUP": dup, "GEN_BIG": big})


def index(rng, k):
    """Phase two parameters; small enough for a chain of a few blocks."""
    return {"bits": (16, 31, 33)[k % 3], "est": (10, 100, 1000)[(k // 2) % 3], "digits": 1 + k % 3, "bins": BINS[k % 5],
            "entries": (1, 2, 3, 10)[(k // 3) % 4], "adaptive": (k // 2) % 2}


def stored(c, label, reads):
    rng, k, scs = c.rng, c.seed, []
    c.model_check("ChainStoreMC.tla", "ChainStoreMC.cfg", must_cover=["NewTx", "Gather", "TxiWord", "TxoWord", "EndTx"])
    if not c.quick: c.model_check("ChainStoreMC.tla", "ChainStoreMC2.cfg", workers=8, timeout=3000, heap="12g")
    m = 1 if c.quick else 6
    for num, blocks, busy, scripts, dup, big in ((6, 1, 0, 3, 0, 0), (6, 2, 5, 1, 1, 0), (14, 5, 6, 4, 1, 0), (14, 12, 5, 8, 1, 0), (8, 6, 8, 6, 0, 1), (5, 25, 4, 60, 1, 1), (1, 12, 10, 90, 1, 0)):
        for ch in chains(c, num * m, blocks, busy, scripts, dup, big, off=blocks * 10 + big):
            k += 1
            run = dict(index(rng, k), threads=1 + k % 4, chi=k % 2, json=0 if big else (k // 2) % 2, reads=1, dump=1, lists=1, inram=(k // 3) % 2,
                       hashram=(k // 5) % 2, seed=k, direct=(k // 4) % 2, syncs=(0, 1, 3)[k % 3], reopens=(0, 2, 1, 5)[(k // 2) % 4], sample=0 if blocks < 10 else 60)
            # the chain stored anew, from other sources
            run.update(copy=("", "reader", "made", "made", "chi", "cri")[rng.randrange(6)], ways=rng.randrange(256), delegated=rng.randrange(2))
            # several imports, and a part of the chain only
            cfg = {"runs": [run], "n": rng.randint(1, blocks) if k % 4 == 0 else 0}
            scs.append({"cfg": cfg, "ops": ch})
    tr = run_scenarios(c, "chaindrv", scs, label=label, parallel=8, timeout=400)
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, label, chunk=10)
    c.sample([e for e in tr[8] if e["op"] in ("rtrn", "rtxi", "radr")][:3])


def C01(c):
    stored(c, "stored chain", "all")


def C02(c):
    stored(c, "links of a stored chain", "links")


KINDS = ("err", "500", "cut", "short", "close")


def disturb(rng, run, n):
    """How the node behaves in a run: delays, answers held back until later requests have come, failures."""
    if rng.random() < .6: run["delay"] = rng.choice((200, 1000, 4000))
    if rng.random() < .6: run["hold"] = [[rng.randrange(n), rng.choice((1, 3, 10, 120))] for _ in range(rng.choice((1, 1, 3)))]
    if rng.random() < .7:
        f = {}
        for _ in range(rng.choice((1, 2, 5, n // 2 + 1))):
            h = rng.randrange(n)
            f[h, 0] = rng.choice(KINDS)
            if rng.random() < .4: f[h, 1] = rng.choice(KINDS)
        run["faults"] = [[h, a, k] for (h, a), k in f.items()]
    return run


def C03(c):
    rng, k, scs = c.rng, c.seed, []
    c.model_check("Pipeline.tla", "Pipeline1.cfg")
    m = 1 if c.quick else 5
    for num, blocks, busy, scripts, variants in ((6, 4, 6, 4, 4), (10, 12, 5, 6, 4), (3, 130, 1, 20, 2), (2, 260, 0, 9, 2)):
        if not c.quick: variants += 3
        for ch in chains(c, num * m, blocks, busy, scripts, 1, 0, off=7 + blocks):
            k += 1
            n = rng.randint(max(1, blocks - 3), blocks) if k % 2 else blocks
            base = dict(index(rng, k), seed=k, digests=1, sample=20)
            if blocks > 100: base.update(bins=256, entries=10)
            runs = [dict(base, threads=1, json=k % 2, chi=0, dump=1, lists=1, direct=(k // 2) % 2)]
            for v in range(variants):
                r = dict(base, threads=rng.choice((2, 3, 8, 16, 16)), json=rng.randrange(2), chi=v % 2 if v < 2 else rng.randrange(2),
                         hashram=rng.randrange(2), adaptive=rng.randrange(2), seed=1000 * k + v)
                runs.append(disturb(rng, r, n))
            runs[-1]["dump"] = runs[-1]["lists"] = runs[-1]["reads"] = 1
            scs.append({"cfg": {"runs": runs, "n": 0 if n == blocks else n}, "ops": ch})
    tr = run_scenarios(c, "chaindrv", scs, label="import", parallel=8, timeout=600)
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, "import", chunk=6)
    small = [s for s in scs if len(s["ops"]) < 20][:: 3 if c.quick else 2]
    tr = run_scenarios(c, "chaindrv", small, label="import (race detector)", parallel=8, timeout=600, race=True)
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, "import under the race detector", chunk=6)
    c.sample([{k: r.get(k) for k in ("threads", "json", "chi", "faults", "hold", "delay")} for r in scs[5]["cfg"]["runs"]])


def C07(c):
    """Whatever was synced, at whichever block, is on disk: the lists of phase one, and the files of phase three."""
    rng, k, scs = c.rng, c.seed, []
    c.model_check("ChainStoreMC.tla", "ChainStoreMC.cfg", must_cover=["NewTx", "Gather", "TxiWord", "TxoWord", "EndTx"])
    m = 1 if c.quick else 6
    for num, blocks, busy, scripts in ((6, 1, 0, 2), (12, 4, 6, 3), (8, 9, 5, 6), (3, 25, 4, 9)):
        for ch in chains(c, num * m, blocks, busy, scripts, k % 2, 0, off=40 + blocks):
            runs = []
            for v in range(2):
                k += 1
                runs.append(dict(index(rng, k), threads=2, chi=(k + v) % 2, json=rng.randrange(2), hashram=rng.randrange(2), direct=1, image=1, seed=k,
                                 syncs=(1, 2, 3)[k % 3] if blocks < 20 else 5, reopens=(0, 0, 2)[k % 3], lists=1, dump=1))
            scs.append({"cfg": {"runs": runs, "n": 0}, "ops": ch})
    tr = run_scenarios(c, "chaindrv", scs, label="synced chain", parallel=8, timeout=400)
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, "synced chain", chunk=8)
    c.sample([e for e in tr[8] if e["op"] in ("slists", "sfile", "sadr")][:3])


STORED = ("firsttrans", "/Blocks/time", "difficulty", "/Blocks/weight", "/Transactions/size", "vsize", "/Transactions/firsttxo", "firsttxi", "value", "spenttotxi", "address", "vout", "/tx.int",
          "additionaltxos", "parentblock", "parenttransoftxo", "parenttransoftxi", "/Addresses/firsttxo", "/Addresses", "locktime", "nonce", "")


def fault(rng, phase):
    """The k-th operation of a kind on some of the files fails, or all from the k-th on."""
    few = rng.choice((1, 1, 2, 3, rng.randint(1, 20), rng.randint(1, 80)))
    if phase == "hashes": kind, at = rng.choice(("write", "write", "sync", "open", "mkdir")), rng.choice(("/Blocks", "/Transactions", "/Addresses", "Hashes.hsh"))
    elif phase == "index":
        kind = rng.choice(("write", "write", "read", "open", "sync", "mkdir"))
        at = "" if kind == "mkdir" else rng.choice(("BinStarts", "BinNums", "BinOverflows", "Hashes.hsh", "IndexingParams", "/Addresses", "/Transactions", "/Blocks"))
    else: kind, at = rng.choice(("write", "write", "write", "sync", "sync", "open", "read", "read", "rename", "mkdir")), rng.choice(STORED)
    if kind in ("rename", "mkdir") and phase == "store": at = ""
    return {"kind": kind, "in": at, "k": 1 if kind in ("sync", "mkdir", "rename") else few, "part": rng.choice((0, 0, 1, 7)), "ever": rng.randrange(2)}


def stops(rng, blocks, faults=False):
    """Earlier attempts at the phases of an import, none of which lives to its end (or so it should be)."""
    res = []
    for phase in rng.choice((("hashes",), ("index",), ("index",), ("store",), ("store",), ("store",), ("hashes", "index", "store"), ("index", "store", "store"))):
        s = {"phase": phase, "json": rng.randrange(2), "chi": rng.randrange(2), "threads": rng.choice((1, 2, 4)), "adaptive": rng.randrange(2)}
        if faults:
            s["fault"] = fault(rng, phase)
            res.append(s)
            continue
        if rng.random() < .3: s["n"] = rng.randint(1, blocks)      # an earlier import asked for fewer blocks
        if phase != "index" and rng.random() < .7: s.update(at=rng.randint(1, blocks + 2), us=rng.choice((0, 0, 100, 500, 2000, 10000)))
        elif rng.random() < .3: s["us"] = rng.choice((500, 2000, 5000, 10000, 20000, 40000))
        else: s["full"] = rng.choice((16, 100, 700, 1500, 5000, 20000))
        if phase != "index" and "at" not in s and rng.random() < .5: s["direct"] = 1
        res.append(s)
    return res


def C08(c):
    """An import is made again where earlier attempts at it have stopped midway."""
    rng, k, scs = c.rng, c.seed, []
    c.faults = True
    m = 1 if c.quick else 6
    for num, blocks, busy, scripts in ((6, 2, 3, 2), (10, 6, 6, 4), (8, 14, 6, 7), (4, 40, 5, 9)):
        for ch in chains(c, num * m, blocks, busy, scripts, k % 2, 0, off=70 + blocks):
            k += 1
            base = dict(index(rng, k), seed=k, digests=1, sample=30)
            runs = [dict(base, threads=2, chi=k % 2, json=0)]
            for v in range(6):
                runs.append(dict(base, threads=rng.choice((1, 2, 4)), json=rng.randrange(2), chi=rng.randrange(2), adaptive=rng.randrange(2),
                                 hashram=rng.randrange(2), stops=stops(rng, blocks, v >= 3), reads=1, lists=1))
            scs.append({"cfg": {"runs": runs, "n": 0}, "ops": ch})
    tr = run_scenarios(c, "chaindrv", scs, label="import made again", parallel=8, timeout=600)
    c.extra["attempts"] = {x: sum(e.get("op") == "attempt" and e["end"] == x for t in tr for e in t) for x in ("killed", "error", "panic", "finished")}
    c.extra["faults"] = {x: sum(e.get("op") == "attempt" and e["end"] == x and "a fault was met" in e["text"] for t in tr for e in t) for x in ("error", "finished")}
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, "import made again", chunk=6)


def C09(c):
    """A stored chain is read while operations on its files fail."""
    rng, k, scs = c.rng, c.seed, []
    c.faults = True
    m = 1 if c.quick else 6
    for num, blocks, busy, scripts in ((4, 2, 3, 2), (10, 6, 6, 4), (4, 14, 6, 7)):
        for ch in chains(c, num * m, blocks, busy, scripts, k % 2, 0, off=90 + blocks):
            k += 1
            bad = [{"what": rng.randrange(7), "at": rng.randrange(1000), "kind": rng.choice(("read", "read", "read", "open")), "in": rng.choice(("", "", rng.choice(STORED))),
                    "k": rng.choice((1, 1, 2, 3, rng.randint(1, 12))), "part": rng.choice((0, 0, 1, 7)), "ever": rng.randrange(2)} for _ in range(20)]
            bad += [{"what": w, "at": rng.randrange(1000), "kind": kind, "in": "", "k": 0, "part": rng.choice((0, 1, 7)), "ever": rng.randrange(4) == 0} for w in range(7) for kind in ("read",) + ("open",) * (rng.random() < .3)]
            run = dict(index(rng, k), seed=k, threads=2, chi=k % 2, json=0, reads=1, digests=1, sample=3, bad=bad, inram=k // 2 % 2)
            scs.append({"cfg": {"runs": [run], "n": 0}, "ops": ch})
    tr = run_scenarios(c, "chaindrv", scs, label="chain read while files fail", parallel=8, timeout=600)
    es = [e for t in tr for e in t if e.get("bad")]
    c.extra["asked"] = {"error": sum(e["err"] != "" for e in es), "answered": sum(e["err"] == "" for e in es)}
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, "chain read while files fail", chunk=6)
