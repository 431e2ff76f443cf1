"""M01 growing-array map, M02 numbered folders (and the map part of F05)."""
from lib.vf import run_scenarios


def map_scenarios(c, num, depth, off, crash=0, full=0, cfgs=((1, 1), (1, 2), (2, 2), (2, 1), (3, 2), (0, 2), (2, 3))):
    out = []
    for j, (df, dd) in enumerate(cfgs):
        behs = c.generate("MapGen.tla", "gen.cfg", max(4, num // len(cfgs)), depth * 3, seed_off=off * 50 + j,
                          env={"GEN_DEPTH": depth, "GEN_PERFILE": 10 ** df, "GEN_CRASH": crash, "GEN_FULL": full})
        for k, b in enumerate(behs):
            out.append({"cfg": {"df": df, "dd": dd, "w": [1, 2, 3, 5, 6, 8][k % 6], "cached": (k // 3) % 2}, "ops": b})
    return out


def maps(c, scs, label, module="MapTrace.tla"):
    tr = run_scenarios(c, "mapdrv", scs, label=label, parallel=4)
    c.validate(module, "trace.cfg", tr, label)
    c.sample(tr[0][:6])


def big_runs(c):
    """Arrays around the widths of the stored count: 1, 3 and 5 bytes."""
    scs = []
    for cached in (0, 1):
        for n in (252, 253, 254, 255, 256, 65535, 65536) + (() if c.quick else (70000,)):
            scs.append({"cfg": {"df": 1, "dd": 1, "w": 3, "cached": cached},
                        "ops": [{"op": "new"}, {"op": "append", "key": 4, "v": 9}, {"op": "run", "key": 3, "n": n, "seed": n % 200},
                                {"op": "append", "key": 4, "v": 7}, {"op": "append", "key": 25, "v": 8},
                                {"op": "sync", "keys": [3, 4, 25]}, {"op": "reopen"}, {"op": "append", "key": 3, "v": 5},
                                {"op": "get", "key": 3}, {"op": "get", "key": 4}]})
    return scs


def M01(c):
    c.model_check("IntArrayMapMC.tla", "IntArrayMapMC.cfg", must_cover=["Append1", "Flush", "Crash"])
    n, d = (280, 14) if c.quick else (2800, 40)
    maps(c, map_scenarios(c, n, d, 1), "array map")
    maps(c, map_scenarios(c, 20 if c.quick else 60, d, 2, cfgs=((5, 2),)), "array map with the chain store's settings")
    maps(c, big_runs(c), "array map with long arrays")


def M02(c):
    c.model_check("FoldersMC.tla", "FoldersMC.cfg")
    per = 260 if c.quick else 1500
    scs = []
    for df in range(0, 7):
        for dd in range(1, 5):
            nums = []
            for k in range(0, 16):
                for dlt in (-2, -1, 0, 1, 2):
                    v = 10 ** k + dlt
                    if 0 <= v < 10 ** 15: nums.append(v)
            while len(nums) < per:
                v = c.rng.randrange(10 ** c.rng.randint(1, 15)); nums.append(v)
                r = c.rng.random()
                s = str(v)
                if r < .3: nums.append(min(v + 1, 10 ** 15 - 1))
                elif r < .7:                                  # change one digit
                    p = c.rng.randrange(len(s)); nums.append(int(s[:p] + str(c.rng.randrange(10)) + s[p + 1:]))
                elif r < .85 and len(s) < 15:                 # insert a zero
                    p = c.rng.randrange(len(s)) + 1; nums.append(int(s[:p] + "0" + s[p:]))
                else: nums.append(v - v % 10 ** df)
            nums = nums[:per]
            c.rng.shuffle(nums)
            nums += nums[:10]                                  # a pure function: asking again changes nothing
            scs.append({"cfg": {"df": df, "dd": dd, "nums": [str(x) for x in nums]}, "ops": []})
    tr = run_scenarios(c, "folderdrv", scs, label="numbered folders")
    c.validate("FoldersTrace.tla", "trace.cfg", tr, "numbered folders")
    c.extra["numbers"] = sum(len(t) - 1 for t in tr)
    c.sample(tr[5][:5])
