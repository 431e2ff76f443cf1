"""F01-F05: word files, append-optimised files, memory-held and mapped files, hash lists, durability."""
from lib.vf import run_scenarios, CheckError


def file_scenarios(c, kind, num, depth, ks, off):
    behs = c.generate("FileGen.tla", "gen.cfg", num, depth * 3, env={"GEN_DEPTH": depth, "GEN_KIND": kind}, seed_off=off)
    return [{"cfg": {"k": ks[j % len(ks)]}, "ops": b} for j, b in enumerate(behs)]


def with_kind(scs, kind):
    out = []
    for s in scs:
        ops = [dict(o, kind=kind) if o["op"] in ("new", "reopen") else o for o in s["ops"]]
        out.append({"cfg": s["cfg"], "ops": ops})
    return out


KS = [1, 3, 700, 1366, 2048, 4095, 4096, 4097, 9000]


def F02(c):
    c.model_check("AppendOptimized.tla", "AppendOptimized.cfg", must_cover=["Write", "ReadAt", "Sync"])
    n, d = (400, 14) if c.quick else (4000, 40)
    scs = file_scenarios(c, "ao", n, d, KS, 1)
    scs += with_kind(file_scenarios(c, "ao", n // 4, d, [1, 700], 2), "fws")
    tr = run_scenarios(c, "filedrv", scs, label="file history", parallel=4)
    c.validate("FileTrace.tla", "trace.cfg", tr, "append-optimised file")
    c.sample(tr[0][:8])


def word_scenarios(c, kind, num, depth, off, big=0, crash=0, full=0):
    behs = c.generate("WordGen.tla", "gen.cfg", num, depth * 3, seed_off=off,
                      env={"GEN_DEPTH": depth, "GEN_KIND": kind, "GEN_BIG": big, "GEN_CRASH": crash, "GEN_FULL": full})
    ws = [32] if kind == "hash" else [1, 2, 3, 4, 5, 6, 7, 8]
    return [{"cfg": {"w": ws[j % len(ws)], "limits": full}, "ops": b} for j, b in enumerate(behs)]


def words(c, scs, label):
    tr = run_scenarios(c, "worddrv", scs, label=label, parallel=4)
    c.validate("WordTrace.tla", "trace.cfg", tr, label)
    c.sample([{k: v for k, v in e.items()} for e in tr[0][:8]])
    return tr


def F01(c):
    c.model_check("WordFileMC.tla", "WordFileMC.cfg", must_cover=["Write", "Read", "Sync", "Crash"])
    n, d = (480, 14) if c.quick else (4000, 40)
    words(c, word_scenarios(c, "word", n, d, 11), "word file")
    words(c, word_scenarios(c, "word", n // 6, 12, 12, big=1), "word file with long runs")


def F03(c):
    c.model_check("AppendOptimized.tla", "AppendOptimized.cfg", must_cover=["Write", "ReadAt", "Sync"])
    n, d = (250, 12) if c.quick else (2500, 30)
    scs = file_scenarios(c, "fixed", n, d, KS, 3) + file_scenarios(c, "mmap", n, d, KS, 4)
    tr = run_scenarios(c, "filedrv", scs, label="file history", parallel=4)
    c.validate("FileTrace.tla", "trace.cfg", tr, "memory-held/mapped file")
    c.sample(tr[0][:8])
    # the memory-shadowed and mapped word files
    scs = word_scenarios(c, "word", n, d, 13)
    for s in scs:
        for o in s["ops"]:
            if o["op"] in ("new", "reopen") and o["kind"] == "plain": o["kind"] = "shadow"
    words(c, scs, "memory-shadowed word file")


def F04(c):
    c.model_check("WordFileMC.tla", "WordFileMC.cfg", must_cover=["Write", "Read", "Sync", "Crash"])
    n, d = (200, 14) if c.quick else (2500, 40)
    words(c, word_scenarios(c, "hash", n, d, 14), "hash list")
    words(c, word_scenarios(c, "hash", n // 4, 12, 15, big=1), "hash list with long runs")
    # the three lists of a chain, closed and opened again between blocks
    from checks.chain import chains
    scs, k = [], c.seed
    for num, blocks, busy, scripts in ((6, 5, 6, 4), (4, 20, 4, 9)):
        for ch in chains(c, num if c.quick else 8 * num, blocks, busy, scripts, 1, 0, off=20 + blocks):
            k += 1
            runs = [{"hashesonly": 1, "direct": 1, "lists": 1, "chi": (k + v) % 2, "json": c.rng.randrange(2), "syncs": c.rng.randrange(3), "reopens": (1, 2, 3, 0)[v]} for v in range(4)]
            scs.append({"cfg": {"runs": runs, "n": 0}, "ops": ch})
    tr = run_scenarios(c, "chaindrv", scs, label="the lists of a chain", parallel=8, timeout=300)
    c.validate("ChainTrace.tla", "chaintrace.cfg", tr, "the lists of a chain", chunk=10)


def F05(c):
    c.model_check("WordFileMC.tla", "WordFileMC.cfg", must_cover=["Write", "Read", "Sync", "Crash"])
    n, d = (300, 10) if c.quick else (3000, 25)
    words(c, word_scenarios(c, "word", n, d, 16, crash=1), "word file with crashes")
    words(c, word_scenarios(c, "word", n // 4, 10, 17, big=1, crash=1), "word file with long runs and crashes")
    words(c, word_scenarios(c, "hash", n // 2, d, 18, crash=1), "hash list with crashes")
    words(c, word_scenarios(c, "hash", n // 8, 10, 19, big=1, crash=1), "hash list with long runs and crashes")
    from checks.maps import maps, map_scenarios
    c.model_check("IntArrayMapMC.tla", "IntArrayMapMC.cfg", must_cover=["Append1", "Flush", "Crash"])
    maps(c, map_scenarios(c, n // 2, d, 3, crash=1), "array map with crashes")


def F06(c):
    c.faults = True
    c.model_check("WordFullMC.tla", "WordFullMC.cfg", must_cover=["Write", "Sync", "SyncFull", "Crash"])
    c.model_check("MapFullMC.tla", "MapFullMC.cfg", must_cover=["Append1", "FailAppend", "Flush", "FailFlush"])
    n, d = (400, 16) if c.quick else (4000, 40)
    for k, kind in enumerate(("word", "hash")):
        m = n // (k + 1)
        words(c, word_scenarios(c, kind, m, d, 30 + k, crash=1, full=1), f"{kind} file on a full disk")
        words(c, word_scenarios(c, kind, m // 2, d, 32 + k, big=1, crash=1, full=1), f"{kind} file with long runs on a full disk")
    from checks.maps import maps, map_scenarios
    maps(c, map_scenarios(c, n, d, 7, full=1), "array map on a full disk", module="MapFullTrace.tla")
