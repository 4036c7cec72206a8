#!/usr/bin/env python3
"""Writes specs/*.json: the runs of every check."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
def run(prop, name, pkg, func, what, rounds=4, th=None, **kw):
    r = {"name": name, "pkg": pkg, "func": func, "rounds": rounds, "what": what}
    params = kw.pop("params", {})
    if params: r["params"] = params
    r.update(kw)
    if th: r["thorough"] = th
    S.setdefault(prop, []).append(r)

PK = "goroutines/zzverif/pools"
KINDS = [(0, "limited"), (1, "pooled")]
for k, kn in KINDS:
    run("C01", kn+"-jobs", PK, "Jobs", "2 jobs, blocking or not, from one goroutine; Wait; one more; Wait", params=dict(kind=k, size=1, jobs=2, again=1), th=dict(rounds=6))
    run("C01", kn+"-two", PK, "Jobs", "jobs from two goroutines", params=dict(kind=k, size=2, jobs=1, more=1, again=1), th=dict(rounds=6))
    run("C01", kn+"-three", PK, "Jobs", "3 jobs, size 2", rounds=3, params=dict(kind=k, size=2, jobs=3), th=dict(rounds=5))
    run("C01", kn+"-early", PK, "Early", "Wait while another goroutine goes on submitting", params=dict(kind=k, size=1, jobs=2), th=dict(rounds=6))
    run("C01", kn+"-many", PK, "Jobs", "5 jobs from two goroutines, size 3", rounds=8, switches=1, hold=3, unwind=9, params=dict(kind=k, size=3, jobs=3, more=2, again=1), th=dict(rounds=10, switches=2))
    run("C01", kn+"-long", PK, "Jobs", "20 jobs, size 2, one order", rounds=26, switches=0, unwind=30, max_slice=40, params=dict(kind=k, size=2, jobs=20, again=1, oneorder=1), th=dict(rounds=45, unwind=50, max_slice=60, params=dict(jobs=40)))
    run("C01", kn+"-ctx", PK, "Jobs", "a context that is cancelled at any moment", params=dict(kind=k, size=1, jobs=2, ctx=2, again=1), th=dict(rounds=6))
    run("C01", kn+"-named", PK, "Jobs", "a named pool, the name may be taken", params=dict(kind=k, size=1, jobs=2, named=1, ctx=1), th=dict(rounds=6))
    run("C01", kn+"-rev", PK, "Jobs", "2 jobs, reversed thread order", order="rev", params=dict(kind=k, size=1, jobs=2, more=1), th=dict(rounds=5))
    run("C02", kn+"-one", PK, "Limit", "size 1, 2 blocking jobs", params=dict(kind=k, size=1, jobs=2), th=dict(rounds=6))
    run("C02", kn+"-two", PK, "Limit", "size 1, two submitters", params=dict(kind=k, size=1, jobs=1, more=1), th=dict(rounds=6))
    run("C02", kn+"-size2", PK, "Limit", "size 2, 3 blocking jobs", params=dict(kind=k, size=2, jobs=3), th=dict(rounds=5))
    run("C02", kn+"-mix", PK, "Limit", "size 1, non-blocking jobs in between", params=dict(kind=k, size=1, jobs=2, nb=1), th=dict(rounds=5))
    run("C02", kn+"-many", PK, "Limit", "size 2, 6 jobs from two goroutines", rounds=8, switches=1, hold=3, unwind=9, params=dict(kind=k, size=2, jobs=4, more=2), th=dict(rounds=10, switches=2))
    run("C02", kn+"-three", PK, "Limit", "size 3, 5 jobs", rounds=6, switches=2, hold=3, unwind=9, params=dict(kind=k, size=3, jobs=5), th=dict(rounds=8, switches=3))
    run("C02", kn+"-full3", PK, "Full", "size 3, saturated, then a fourth job", rounds=6, switches=2, hold=3, unwind=9, params=dict(kind=k, size=3), th=dict(rounds=8, switches=3))
    run("C02", kn+"-ctx", PK, "Limit", "size 1, a context that is cancelled at any moment", params=dict(kind=k, size=1, jobs=2, ctx=2), th=dict(rounds=6))
    run("C02", kn+"-cancelled", PK, "Limit", "size 1, 3 jobs, cancelled contexts", params=dict(kind=k, size=1, jobs=3, ctx=1), th=dict(rounds=6))
    run("C02", kn+"-named", PK, "Limit", "a named pool, the name may be taken", params=dict(kind=k, size=1, jobs=2, named=1), th=dict(rounds=6))
    run("C02", kn+"-full-ctx", PK, "Full", "size 1, saturated, a context that is cancelled at any moment", rounds=5, params=dict(kind=k, size=1, ctx=2), th=dict(rounds=7))
    run("C02", kn+"-full", PK, "Full", "size 2, saturated, then a third job", rounds=5, params=dict(kind=k, size=2), th=dict(rounds=7))
    run("C02", kn+"-full1", PK, "Full", "size 1, saturated, then a second job", rounds=5, params=dict(kind=k, size=1), th=dict(rounds=7))
    run("C03", kn+"-reject", PK, "Reject", "any two options, nil job or not; then all slots are used", rounds=5, params=dict(kind=k, size=1), th=dict(rounds=6, params=dict(size=2, maxopts=3)))
    run("C03", kn+"-reject-ctx", PK, "Reject", "also with a cancelled context and a taken name", rounds=4, params=dict(kind=k, size=1, maxopts=1, ctx=1, named=1), th=dict(rounds=6))
    run("C04", kn+"-nb", PK, "NonBlocking", "occupied pool, the non-blocking job releases the others", rounds=5, params=dict(kind=k, size=1, jobs=2), th=dict(rounds=7))
    run("C04", kn+"-nb2", PK, "NonBlocking", "size 2", rounds=5, params=dict(kind=k, size=2, jobs=2), th=dict(rounds=7, params=dict(jobs=3)))
    run("C04", kn+"-late", PK, "NonBlocking", "a blocking Submit competes", rounds=5, params=dict(kind=k, size=1, jobs=1, late=1), th=dict(rounds=7, params=dict(jobs=2)))
    run("C04", kn+"-nb3", PK, "NonBlocking", "size 3, 5 other jobs", rounds=6, switches=2, hold=3, unwind=9, params=dict(kind=k, size=3, jobs=5), th=dict(rounds=8, switches=3))
    run("C04", kn+"-ctx", PK, "NonBlocking", "a context that is cancelled at any moment", rounds=5, params=dict(kind=k, size=1, jobs=1, ctx=2), th=dict(rounds=7, params=dict(jobs=2)))
    run("C05", kn+"-many", PK, "Close", "size 3, 5 jobs", rounds=7, switches=1, hold=3, unwind=9, params=dict(kind=k, size=3, jobs=5), th=dict(rounds=8, switches=2))
    run("C05", kn+"-ctx", PK, "Close", "a context that is cancelled at any moment", rounds=4, params=dict(kind=k, size=1, jobs=2, ctx=2), th=dict(rounds=6))
    run("C05", kn+"-close", PK, "Close", "close with a job, then reuse of the name", rounds=5, params=dict(kind=k, size=1, jobs=1), th=dict(rounds=7, params=dict(jobs=2)))
    run("C05", kn+"-close2", PK, "Close", "size 2, 2 jobs", rounds=4, params=dict(kind=k, size=2, jobs=2), th=dict(rounds=6))
    run("C06", kn+"-validate", PK, "Validate", "any name of up to 4 ASCII characters, any size from -1 to 2", rounds=2, params=dict(kind=k), th=dict(params=dict(len=7)))
    run("C06", kn+"-names", PK, "Names", "three pools of one name, listing", rounds=4, unwind=12, params=dict(kind=k, pools=3, multi=1), th=dict(params=dict(pools=4)))
    run("C06", kn+"-twelve", PK, "Names", "twelve pools of one name", rounds=2, unwind=20, params=dict(kind=k, pools=12, list=0))
    run("C06", kn+"-closing", PK, "Names", "any of the pools is closed before the last one is made", rounds=4, unwind=12, params=dict(kind=k, pools=3, closing=1), th=dict(params=dict(pools=4)))
    run("C06", kn+"-concurrent", PK, "Concurrent", "two pools of one name made at the same time", rounds=4, unwind=6, params=dict(kind=k, pools=2), th=dict(rounds=5, params=dict(pools=3)))
    run("C06", kn+"-working", PK, "Working", "Close waits for a job that makes another pool of the name", rounds=6, unwind=12, params=dict(kind=k, again=1), th=dict(rounds=8))
    run("C06", kn+"-churn", PK, "Churn", "a pool is closed while another one of its name is made", rounds=4, unwind=6, params=dict(kind=k, pools=1), th=dict(rounds=5))
    run("C06", kn+"-look", PK, "Churn", "a pool is closed while another one of its name is made and the pools are listed; data races", rounds=5, unwind=6, races=True, params=dict(kind=k, pools=1, look=1), th=dict(rounds=6))
    run("C06", kn+"-churn2", PK, "Churn", "a pool is closed while two others of its name are made and the pools are listed", rounds=7, unwind=8, params=dict(kind=k, pools=2, look=1), th=dict(rounds=8))
    run("C06", kn+"-unnamed", PK, "Unnamed", "pools without name are not registered", rounds=4, unwind=6, params=dict(kind=k))
    run("C07", kn+"-counters", PK, "Counters", "an observer samples Running and Len at any moment", rounds=4, params=dict(kind=k, size=1, jobs=2), th=dict(rounds=6))
    run("C07", kn+"-many", PK, "Counters", "size 3, 5 jobs", rounds=7, switches=1, hold=3, unwind=9, params=dict(kind=k, size=3, jobs=5, inside=1, looks=1), th=dict(rounds=8, switches=2))
    run("C07", kn+"-ctx", PK, "Counters", "a context that is cancelled at any moment", rounds=4, params=dict(kind=k, size=1, jobs=2, ctx=2, named=1), th=dict(rounds=6))
    run("C07", kn+"-inside", PK, "Counters", "jobs look at Running; two rounds", rounds=4, params=dict(kind=k, size=2-k, jobs=2, inside=1, watch=0, again=2), th=dict(rounds=6))

exec(open(os.path.join(ROOT, "tools", "specs_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "specs_more.py")) else None
os.makedirs(os.path.join(ROOT, "specs"), exist_ok=True)
for f in os.listdir(os.path.join(ROOT, "specs")):
    os.remove(os.path.join(ROOT, "specs", f))
for p in sorted(S):
    with open(os.path.join(ROOT, "specs", p + ".json"), "w") as f:
        f.write('{"id":"%s","runs":[\n' % p + ",\n".join(" " + json.dumps(r) for r in S[p]) + "\n]}\n")
