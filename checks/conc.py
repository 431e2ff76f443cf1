"""Q01 sequencer, Q02 worker pool, Q03 memory blocker."""
from lib.vf import run_scenarios


def Q01(c):
    c.model_check("Pipeline.tla", "Pipeline.cfg", must_cover=["UpGate", "UpHand", "Deliver", "Emit", "Close"])
    c.model_check("Pipeline.tla", "Pipeline1.cfg", must_cover=["UpGate", "UpHand", "Deliver", "Emit", "Close"])
    if not c.quick:
        c.model_check("Pipeline.tla", "Pipeline2.cfg", workers=8, must_cover=["Emit", "Close"], timeout=800)
    n, d = (40, 24) if c.quick else (300, 60)
    scs = []
    for k, limit in enumerate((1, 2, 3, 4, 7)):
        for j, b in enumerate(c.generate("SeqGen.tla", "gen.cfg", n, d * 3, env={"GEN_DEPTH": d, "GEN_LIMIT": limit}, seed_off=k)):
            scs.append({"cfg": {"kind": "seq", "first": (0, 1, 100, -3)[j % 4], "limit": limit, "outcap": (0, 0, 3)[j % 3]}, "ops": b})
    tr = run_scenarios(c, "seqdrv", scs, label="sequencer", parallel=8, timeout=240)
    c.validate("SeqTrace.tla", "trace.cfg", tr, "sequencer")
    c.sample(tr[0][:8])
    scs = []
    k = 0
    for mode, n in (("random", 1500), ("head", 250), ("even", 400)):
        for w in (1, 2, 3, 8, 32):
            for limit in (1, 2, 3, 5, 50):
                for rep in range(1 if c.quick else 6):
                    k += 1
                    scs.append({"cfg": {"kind": "pipe", "n": n if c.quick else 3 * n, "w": w, "limit": limit, "mode": mode, "seed": c.seed * 1000 + k,
                                        "procs": (0, 1, 2, 4)[k % 4], "outcap": (0, 0, 4)[k % 3]}, "ops": []})
    tr = run_scenarios(c, "seqdrv", scs, label="pipeline", parallel=8, timeout=400)
    c.validate("SeqTrace.tla", "trace.cfg", tr, "pipeline around the sequencer")
    c.extra["pipelines"] = len(tr)
    tr = run_scenarios(c, "seqdrv", scs[::4], label="pipeline (race detector)", parallel=6, timeout=400, race=True)
    c.validate("SeqTrace.tla", "trace.cfg", tr, "pipeline around the sequencer, race build")


def Q02(c):
    c.model_check("WorkerPoolMC.tla", "WorkerPoolMC.cfg", must_cover=["Take", "Run", "Tell", "Mark", "Close"])
    scs = []
    reps = 3 if c.quick else 30
    for w in (1, 2, 3, 5, 8, 32):
        for r in range(reps):
            ops = []
            for _ in range(6):
                kind = c.rng.choice(["tasks", "tasks", "barrier", "hold"])
                ops.append({"op": kind, "n": c.rng.choice([1, w, w + 1, 2 * w, 40]), "senders": c.rng.choice([1, 2, 5])})
            ops += [{"op": "barrier"}, {"op": "hold", "n": 2 * w + 1}, {"op": "close"}]
            scs.append({"cfg": {"kind": "pool", "w": w, "seed": c.seed * 77 + r}, "ops": ops})
    tr = run_scenarios(c, "seqdrv", scs, label="worker pool", parallel=4, timeout=300)
    c.validate("PoolTrace.tla", "trace.cfg", tr, "worker pool")
    c.sample(tr[0][:8])
    tr = run_scenarios(c, "seqdrv", scs[::3], label="worker pool (race detector)", parallel=4, timeout=300, race=True)
    c.validate("PoolTrace.tla", "trace.cfg", tr, "worker pool, race build")


def Q03(c):
    c.model_check("MemBlockerMC.tla", "MemBlockerMC.cfg", must_cover=["Grab", "Look", "FDrop", "FTell", "Take"])
    if not c.quick:
        c.model_check("MemBlockerMC.tla", "MemBlockerMC2.cfg", workers=8, timeout=800, heap="8g")
    n, d = (60, 14) if c.quick else (600, 30)
    scs = [{"cfg": {}, "ops": b} for b in c.generate("MemGen.tla", "gen.cfg", n, 3 * d, env={"GEN_DEPTH": d})]
    tr = run_scenarios(c, "memdrv", scs, label="memory blocker", parallel=4, timeout=400)
    c.validate("MemTrace.tla", "trace.cfg", tr, "memory blocker")
    c.sample(tr[0][:8])
