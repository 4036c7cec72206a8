# runs of C08 and up; executed by mkspecs.py
ER = "zzverif/errs"
run("C08", "two", ER, "Record", "2 recorders, 2 errors each", rounds=3, races=True, params=dict(recorders=2, each=2), th=dict(rounds=4))
run("C08", "three", ER, "Record", "3 recorders, 1 error each", rounds=4, races=True, params=dict(recorders=3, each=1), th=dict(rounds=6))
run("C08", "looks", ER, "Record", "Error and Errors are called meanwhile", rounds=4, races=True, params=dict(recorders=1, each=3, looks=2, stamps=0), th=dict(rounds=6, params=dict(recorders=2)))
run("C08", "self", ER, "Record", "each recorder looks as well", rounds=4, races=True, params=dict(recorders=2, each=1, self=1, looks=1, stamps=0), th=dict(rounds=6))
run("C08", "many", ER, "Record", "3 recorders, 2 errors each", rounds=6, switches=1, hold=3, unwind=8, params=dict(recorders=3, each=2, stamps=0), th=dict(rounds=6, switches=2))
run("C08", "handed", ER, "Handed", "lists handed out between records", rounds=2, unwind=10, params=dict(each=5), th=dict(params=dict(each=8)))

WG = "zzverif/waits"
for pl, pn in [(0, "go"), (1, "limited"), (2, "pooled")]:
    run("C09", pn+"-all", WG, "Barrier", "3 functions", rounds=4, params=dict(pool=pl, size=2, funcs=3), th=dict(rounds=6))
    run("C09", pn+"-cancel", WG, "Barrier", "2 functions, the context is cancelled at any moment", rounds=4, params=dict(pool=pl, size=1, funcs=2, cancel=1), th=dict(rounds=6, params=dict(funcs=3)))
    run("C09", pn+"-more", WG, "Barrier", "functions handed over by two goroutines", rounds=4, params=dict(pool=pl, size=2, funcs=1, more=2), th=dict(rounds=6))
    run("C09", pn+"-foreign", WG, "Barrier", "another group uses the pool and is done only later", rounds=4, params=dict(pool=pl, size=2, funcs=2, foreign=1), th=dict(rounds=6))
    run("C09", pn+"-nest", WG, "Barrier", "a function hands over another one", rounds=4, params=dict(pool=pl, size=2, funcs=2, nest=1), th=dict(rounds=6))
    run("C09", pn+"-many", WG, "Barrier", "6 functions", rounds=8, switches=1, hold=3, unwind=8, params=dict(pool=pl, size=2, funcs=6), th=dict(rounds=9, switches=2))
    run("C10", pn+"-many", WG, "Errors", "5 functions, any of them fails, context errors too", rounds=7, switches=int(pl < 2), hold=3, unwind=8, params=dict(pool=pl, size=3, funcs=5 if pl < 2 else 4, outcomes=4), th=dict(rounds=8, switches=2-(pl == 2)))
    run("C11", pn+"-many", WG, "Cancel", "5 functions, any of them fails", rounds=7, switches=1, hold=3, unwind=8, params=dict(pool=pl, size=3, funcs=5 if pl < 2 else 4), th=dict(rounds=8, switches=2))
    run("C12", pn+"-many", WG, "Reuse", "3 rounds of 3 functions", rounds=12, switches=int(pl < 2), hold=3, unwind=8, params=dict(pool=pl, size=2, funcs=3, again=3, inside=1), th=dict(switches=2-(pl == 2)))
    run("C10", pn+"-errors", WG, "Errors", "3 functions, any of them fails", rounds=4, params=dict(pool=pl, size=2, funcs=3), th=dict(rounds=6))
    run("C10", pn+"-kinds", WG, "Errors", "2 functions, also context errors and wrapped ones", rounds=4, params=dict(pool=pl, size=2, funcs=2, outcomes=4), th=dict(rounds=6))
    run("C10", pn+"-one", WG, "Errors", "1 function, every kind of error", rounds=3, params=dict(pool=pl, funcs=1, outcomes=4))
    run("C10", pn+"-cancel", WG, "Errors", "2 functions, the context is cancelled at any moment", rounds=4, params=dict(pool=pl, size=1, funcs=2, cancel=1), th=dict(rounds=6))
    run("C11", pn+"-cancel", WG, "Cancel", "2 functions, any of them fails", rounds=4, params=dict(pool=pl, size=2, funcs=2), th=dict(rounds=6, params=dict(funcs=3)))
    run("C11", pn+"-feed", WG, "Feed", "one function fails, the caller waits for the cancel", rounds=4, params=dict(pool=pl, size=1, funcs=1), th=dict(rounds=6))
    run("C11", pn+"-feed2", WG, "Feed", "two functions, any fail", rounds=4, params=dict(pool=pl, size=2, funcs=2), th=dict(rounds=6))
    if pl < 2: run("C11", pn+"-mixed", WG, "Mixed", "3 functions: skipped because of their own context, failing, or released by the cancel only", rounds=5, params=dict(pool=pl, size=3, funcs=3), th=dict(rounds=7))
    else:
        run("C11", pn+"-mixed", WG, "Mixed", "2 functions: skipped because of their own context, failing, or released by the cancel only", rounds=5, params=dict(pool=pl, size=2, funcs=2), th=dict(rounds=6))
        run("C11", pn+"-mixed3", WG, "Mixed", "3 functions: skipped because of their own context, failing, or released by the cancel only", rounds=7, switches=1, hold=3, unwind=8, params=dict(pool=pl, size=3, funcs=3), th=dict(switches=2))
    run("C11", pn+"-block", WG, "Cancel", "functions blocked until the cancel", rounds=4, params=dict(pool=pl, size=2, funcs=2, block=1), th=dict(rounds=6))
    run("C12", pn+"-reuse", WG, "Reuse", "2 rounds of 2 functions", rounds=4, params=dict(pool=pl, size=2, funcs=2), th=dict(rounds=6))
    run("C12", pn+"-watch", WG, "Reuse", "an observer looks at Running at any moment", rounds=4, params=dict(pool=pl, size=1, funcs=1, watch=1, inside=1, cancelfn=1), th=dict(rounds=6, params=dict(watch=2)))
for pl, pn in [(1, "limited"), (2, "pooled")]:
    run("C09", pn+"-nonblocking", WG, "Barrier", "with the non-blocking option", rounds=4, params=dict(pool=pl, size=1, funcs=2, options=1), th=dict(rounds=6))
    run("C10", pn+"-rejected", WG, "Errors", "the pool rejects the functions", rounds=4, params=dict(pool=pl, size=1, funcs=2, options=2), th=dict(rounds=6))
AT = "zzverif/atom"
run("C19", "loads", AT, "Loads", "one writer, two readers", rounds=4, races=True, params=dict(writers=1, writes=2, readers=2, loads=2), th=dict(rounds=6))
run("C19", "writers", AT, "Loads", "two writers, one reader", rounds=4, races=True, params=dict(writers=2, writes=1, readers=1, loads=2, fails=1), th=dict(rounds=6, params=dict(writes=2)))
run("C19", "noblock", AT, "NoBlock", "Load while a replacer runs", rounds=4, races=True, th=dict(rounds=6))
run("C19", "noblock-writer", AT, "NoBlock", "and a Store waits", rounds=4, races=True, params=dict(writer=1), th=dict(rounds=6))
run("C19", "many", AT, "Loads", "two writers, three readers", rounds=8, switches=1, hold=3, unwind=8, races=True, params=dict(writers=2, writes=3, readers=3, loads=3, fails=1), th=dict(switches=2))
run("C20", "two", AT, "Replace", "two LoadReplace goroutines", rounds=4, params=dict(writers=2, writes=2), th=dict(rounds=6))
run("C20", "three", AT, "Replace", "three LoadReplace goroutines", rounds=4, params=dict(writers=3, writes=1), th=dict(rounds=6))
run("C20", "store", AT, "Replace", "two LoadReplace goroutines and a Store", rounds=4, params=dict(writers=2, writes=1, stores=1), th=dict(rounds=6))
run("C20", "many", AT, "Replace", "four LoadReplace goroutines and a Store", rounds=8, switches=2, hold=3, unwind=8, params=dict(writers=4, writes=3, stores=1), th=dict(switches=3))

SL = "zzverif/sl"
PL = [(0, "default"), (1, "limited"), (2, "pooled")]
for pl, pn in PL:
    big = dict(pool=pl, size=2, len=3) if pl < 2 else dict(pool=pl, size=2, len=2)
    run("C13", pn+"-visit", SL, "Visit", "any accessors modify, any fail", rounds=4, num_cpu=2, params=big, th=dict(rounds=5))
    run("C13", pn+"-one", SL, "Visit", "a pool of one", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=2, twice=1), th=dict(rounds=5, params=dict(len=3)))
    run("C14", pn+"-serial", SL, "Stop", "stop on error, one accessor at a time", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=2, serial=1), th=dict(rounds=5, params=dict(len=3)))
    run("C14", pn+"-parallel", SL, "Stop", "stop on error, two at a time", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2), th=dict(rounds=5, params=dict(len=3)))
    run("C14", pn+"-cancel", SL, "Stop", "the context is cancelled at any moment", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=2, stop=0, cancel=1), th=dict(rounds=5))
    run("C14", pn+"-both", SL, "Stop", "stop on error and cancellation", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2, cancel=1), th=dict(rounds=5))
    run("C14", pn+"-before", SL, "Stop", "cancelled beforehand", rounds=3, num_cpu=2, params=dict(pool=pl, size=2, len=2, cancel=2))
run("C13", "long", SL, "Visit", "17 elements", rounds=4, switches=0, unwind=40, num_cpu=1, max_slice=20, params=dict(pool=1, size=1, len=17, quiet=1, nb=1), covers=["none failed"], th=dict(max_slice=40, params=dict(len=33)))
for pl, pn in PL:
    run("C13", pn+"-many", SL, "Visit", "many elements, any fail", rounds=9, switches=1, hold=3, unwind=8, num_cpu=2, params=dict(pool=pl, size=2, len=6 if pl < 2 else 4), th=dict(rounds=10, switches=2, hold=3, params=dict(len=5)))
    run("C13", pn+"-nine", SL, "Visit", "9 elements", rounds=12, switches=1, hold=3, unwind=11, num_cpu=2, params=dict(pool=pl, size=2, len=9, quiet=1), covers=["none failed"], th=dict(switches=2))
    run("C14", pn+"-many", SL, "Stop", "5 elements, stop on error, cancelled at any moment", rounds=9, switches=1, hold=3, unwind=8, num_cpu=2, params=dict(pool=pl, size=2, len=5, cancel=1), th=dict(rounds=10, switches=2))
run("C13", "empty", SL, "NoPool", "empty slice", rounds=2, covers=["end"], params=dict(len=0))
for pl, pn in PL[1:]:
    run("C13", pn+"-foreign", SL, "Visit", "a job of somebody else in the pool is done only later", rounds=5, params=dict(pool=pl, size=2, len=2, foreign=1), th=dict(rounds=6))
    run("C14", pn+"-foreign", SL, "Stop", "stop on error; a job of somebody else in the pool is done only later", rounds=4, params=dict(pool=pl, size=2, len=2, stop=1, foreign=1), th=dict(rounds=6))
    run("C18", "slices-"+pn, SL, "Options", "the pool limits the accessors", rounds=4, params=dict(pool=pl, size=1, len=2), th=dict(rounds=5, params=dict(len=3)))
    for o, on in [(2, "after"), (3, "before")]:
        run("C18", "slices-"+pn+"-nb-"+on, SL, "Options", "two submit options, one of them "+on+" the other", rounds=5, params=dict(pool=pl, size=1, len=2, nb=o), th=dict(rounds=6))
    run("C18", "slices-"+pn+"-nb", SL, "Options", "submit options are used: all accessors have to meet", rounds=5, params=dict(pool=pl, size=1, len=2, nb=1), th=dict(rounds=6, params=dict(len=3)))
run("C18", "slices-nopool", SL, "NoPool", "nothing is left behind", rounds=4, num_cpu=2, params=dict(len=2, cancelled=1), th=dict(rounds=6))
CH = "zzverif/ch"
for pl, pn in PL:
    run("C15", pn+"-all", CH, "All", "2 values, any fail", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2), th=dict(rounds=5, params=dict(len=3)))
    run("C15", pn+"-one", CH, "All", "a pool of one, buffered input", rounds=5, num_cpu=1, params=dict(pool=pl, size=1, len=2, buffer=2), th=dict(rounds=5, params=dict(len=3)))
    run("C16", pn+"-cancel", CH, "Stop", "cancelled at any moment, input closed or idle", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=1), th=dict(rounds=5, params=dict(len=2)))
    run("C16", pn+"-stop", CH, "Stop", "an accessor fails and the input stays idle", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=1, stop=1, cancel=0, idle=1, mustfail=1), th=dict(rounds=5, params=dict(len=2)))
    run("C16", pn+"-serial", CH, "Stop", "stop on error, one accessor at a time", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=2, stop=1, cancel=1, serial=1), th=dict(rounds=5))
    run("C16", pn+"-two", CH, "Stop", "two accessors at a time", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2, stop=1, cancel=1), th=dict(rounds=5))
    run("C17", pn+"-modify", CH, "Modify", "2 values, any fail", rounds=5, num_cpu=2, params=dict(pool=pl, size=2, len=2), th=dict(rounds=6))
    run("C17", pn+"-cancel", CH, "Modify", "cancelled at any moment", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2, cancel=1), th=dict(rounds=5))
    run("C17", pn+"-stop", CH, "Modify", "stop on error", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2, stop=1), th=dict(rounds=5))
    run("C17", pn+"-gone", CH, "Modify", "cancelled and nobody takes results", rounds=4, num_cpu=1, params=dict(pool=pl, size=1, len=2, cancel=1, reader=0, outbuffer=1), th=dict(rounds=5))
for pl, pn in PL:
    run("C15", pn+"-ctxerrs", CH, "All", "2 values, context errors too", rounds=4, num_cpu=2, params=dict(pool=pl, size=2, len=2, ctxerrs=1), th=dict(rounds=5))
    run("C15", pn+"-full", CH, "All", "4 values wait in the buffer, any fail", rounds=8, switches=1, hold=3, unwind=7, num_cpu=2, params=dict(pool=pl, size=2, len=4, buffer=4, full=1), th=dict(rounds=10, switches=2, hold=3, params=dict(len=5, buffer=5)))
    run("C15", pn+"-many", CH, "All", "5 values", rounds=12, switches=1, hold=3, unwind=10, num_cpu=1, params=dict(pool=pl, size=1, len=5, quiet=1), covers=["none failed"], th=dict(rounds=16, switches=2, hold=3, params=dict(len=8)))
    run("C17", pn+"-ctxerrs", CH, "Modify", "2 values, context errors too", rounds=5, num_cpu=2, params=dict(pool=pl, size=2, len=2, ctxerrs=1), th=dict(rounds=6))
    run("C17", pn+"-many", CH, "Modify", "many values, any fail", rounds=10, switches=1, hold=3, unwind=7, num_cpu=2, params=dict(pool=pl, size=2, len=4 if pl < 2 else 3), th=dict(rounds=12, switches=2))
    run("C17", pn+"-many-stop", CH, "Modify", "many values, stop on error", rounds=10, switches=1, hold=3, unwind=7, num_cpu=2, params=dict(pool=pl, size=2, len=4 if pl < 2 else 3, stop=1), th=dict(rounds=12, switches=2))
    if pl < 2: run("C16", pn+"-many", CH, "Stop", "3 values, stop on error, cancelled at any moment", rounds=7, switches=1, hold=3, unwind=7, num_cpu=2, params=dict(pool=pl, size=2, len=3, stop=1, cancel=1), th=dict(rounds=12, switches=2))
run("C15", "nil", CH, "Nil", "nil channels", rounds=2)
run("C17", "nil", CH, "Nil", "nil channels", rounds=2)
for pl, pn in PL[1:]:
    run("C15", pn+"-foreign", CH, "All", "a job of somebody else in the pool is done only later", rounds=5, params=dict(pool=pl, size=2, len=2, foreign=1), th=dict(rounds=6))
    run("C17", pn+"-foreign", CH, "Modify", "a job of somebody else in the pool is done only later", rounds=6, params=dict(pool=pl, size=2, len=2, foreign=1), th=dict(rounds=7))
    for md, mn in [(0, "access"), (1, "modify")]:
        run("C18", mn+"-"+pn, CH, "Options", "the pool limits the accessors", rounds=4, params=dict(pool=pl, size=1, len=2, modify=md), th=dict(rounds=5, params=dict(len=3)))
        for o, on in [(2, "after"), (3, "before")]:
            run("C18", mn+"-"+pn+"-nb-"+on, CH, "Options", "two submit options, one of them "+on+" the other", rounds=5, params=dict(pool=pl, size=1, len=2, nb=o, modify=md), th=dict(rounds=6))
        run("C18", mn+"-"+pn+"-nb", CH, "Options", "submit options are used: all accessors have to meet", rounds=5, params=dict(pool=pl, size=1, len=2, nb=1, modify=md), th=dict(rounds=6))
for md, mn in [(0, "access"), (1, "modify")]:
    run("C18", mn+"-nopool", CH, "NoPool", "nothing is left behind", rounds=4, num_cpu=2, params=dict(len=2, modify=md), th=dict(rounds=6))
PI = "zzverif/pipe"
run("C21", "one", PI, "Groups", "one group, 2 requests, any fails", rounds=6, order="rev", params=dict(reqs=2))
run("C21", "two", PI, "Groups", "two groups at the same time", rounds=6, order="rev", params=dict(reqs=1, groups=2))
run("C21", "seq", PI, "Groups", "two groups one after the other", rounds=8, order="rev", params=dict(reqs=1, groups=2, seq=1))
run("C21", "workers", PI, "Groups", "two workers", rounds=6, order="rev", params=dict(reqs=2, par=2))
run("C21", "cancel", PI, "Groups", "cancelled at any moment", rounds=6, order="rev", params=dict(reqs=2, cancel=1, nilctx=1, second=1))
run("C21", "many", PI, "Groups", "two groups of 3 requests, two workers, any fails", rounds=12, switches=1, unwind=9, order="rev", params=dict(reqs=3, groups=2, par=2), th=dict(switches=2))
run("C22", "workers", PI, "Groups", "two workers, any fails", rounds=7, order="rev", max_slice=40, params=dict(reqs=2, par=2, ordered=1))
run("C22", "three", PI, "Groups", "two workers, 3 requests", rounds=5, order="rev", max_slice=40, params=dict(reqs=3, par=2, ordered=1, fails=0), th=dict(rounds=6))
run("C22", "cancel", PI, "Groups", "cancelled at any moment", rounds=6, order="rev", max_slice=40, params=dict(reqs=2, par=2, ordered=1, cancel=1, nilctx=1))
run("C22", "groups", PI, "Groups", "two groups at the same time", rounds=7, order="rev", max_slice=40, params=dict(reqs=2, par=1, ordered=1, groups=2))
run("C22", "many", PI, "Groups", "three workers, 5 requests", rounds=12, switches=1, hold=3, unwind=9, order="rev", max_slice=40, params=dict(reqs=5, par=3, ordered=1, fails=0), th=dict(switches=2))
run("C23", "route", PI, "Route", "any route of up to 3 stages, any stage fails", rounds=4, order="rev", params=dict(errs=1), th=dict(rounds=5, params=dict(steps=5)))
run("C23", "prep", PI, "Route", "two preprocessors, any of them or any stage fails, Next is preset", rounds=4, order="rev", params=dict(errs=1, prep=2, preset=1), th=dict(rounds=5, params=dict(steps=4)))
run("C23", "prepsplit", PI, "Route", "two preprocessors given one by one", rounds=4, order="rev", params=dict(prep=2, split=1, steps=2), th=dict(params=dict(steps=4)))
run("C23", "kill", PI, "Route", "any stage cancels the context", rounds=4, order="rev", params=dict(kill=1, prep=1), th=dict(rounds=5, params=dict(steps=4)))
run("C23", "two", PI, "Route", "two requests in two workers", rounds=5, order="rev", params=dict(reqs=2, par=2, prep=1, steps=2, errs=1, prefail=0, kill=0, **{"yield": 1}), th=dict(rounds=6, params=dict(steps=3)))
run("C23", "many", PI, "Route", "three requests in two workers", rounds=10, switches=1, unwind=9, order="rev", params=dict(reqs=3, par=2, prep=1, steps=3, errs=1), th=dict(switches=2))
run("C24", "one", PI, "Route", "any route of up to 4 stages", rounds=4, order="rev", params=dict(dag=1, steps=4, errs=1), th=dict(rounds=5, params=dict(steps=5)))
run("C24", "sub", PI, "Route", "a stage of another object has the same method name", rounds=4, order="rev", params=dict(dag=1, steps=4, errs=1, sub=1), th=dict(rounds=5, params=dict(steps=5)))
run("C24", "after", PI, "Route", "two requests, one worker", rounds=5, order="rev", params=dict(dag=1, reqs=2, steps=3), th=dict(rounds=7, params=dict(steps=4)))
run("C24", "two", PI, "Route", "two requests, two workers", rounds=5, order="rev", params=dict(dag=1, reqs=2, par=2, steps=2, **{"yield": 1}), th=dict(rounds=5, params=dict(steps=3)))
run("C24", "many", PI, "Route", "three requests, two workers", rounds=10, switches=1, unwind=9, order="rev", params=dict(dag=1, reqs=3, par=2, steps=3), th=dict(switches=2))
run("C24", "line", PI, "Route", "6 stages in a line, then any route of two more", rounds=4, order="rev", unwind=14, max_slice=16, params=dict(dag=1, line=6, steps=8), th=dict(rounds=5, params=dict(steps=9)))
run("C24", "line9", PI, "Route", "9 stages in a line, then any other", rounds=4, order="rev", unwind=18, max_slice=24, params=dict(dag=1, line=9, steps=10), th=dict(params=dict(line=11, steps=12)))
run("C23", "line", PI, "Route", "6 stages in a line, then any route of one more", rounds=4, order="rev", unwind=14, max_slice=16, params=dict(line=6, steps=7, prep=1), th=dict(rounds=5, params=dict(steps=8)))
run("C24", "off", PI, "Route", "without the option", rounds=4, order="rev", params=dict(dag=0, steps=4), th=dict(rounds=5, params=dict(steps=5)))
run("C24", "again", PI, "Again", "from a DAG pipeline to one without DAG", rounds=7, order="rev", params=dict(steps=3), th=dict(rounds=8, params=dict(steps=4)))
run("C24", "again-dag", PI, "Again", "from a DAG pipeline to another one", rounds=7, order="rev", params=dict(steps=2, dag2=1), th=dict(params=dict(steps=3)))
run("C24", "races", PI, "Route", "two requests, two workers, data races", rounds=4, order="rev", races=True, params=dict(dag=1, reqs=2, par=2, steps=2), th=dict(rounds=5))
IG = dict(leak_ignore=["johnsiilver/pools@"])
run("C25", "one", PI, "Close", "one group, one request", rounds=7, order="rev", params=dict(reqs=1), th=dict(rounds=9), **IG)
run("C25", "two", PI, "Close", "one group, two requests", rounds=7, order="rev", params=dict(reqs=2), th=dict(rounds=9), **IG)
run("C25", "early", PI, "Close", "closed once everything is submitted", rounds=6, order="rev", params=dict(reqs=2, early=1), th=dict(rounds=8), **IG)
run("C25", "groups", PI, "Close", "two groups, closed once everything is submitted", rounds=6, order="rev", params=dict(reqs=1, groups=2, early=1), th=dict(rounds=8), **IG)
run("C25", "none", PI, "Close", "a group without requests", rounds=5, order="rev", params=dict(reqs=0), th=dict(rounds=7), **IG)
run("C25", "nogroup", PI, "Close", "no group", rounds=5, order="rev", params=dict(reqs=0, groups=0, par=2), th=dict(rounds=7), **IG)
run("C25", "dead", PI, "Close", "cancelled before the submission", rounds=6, order="rev", params=dict(reqs=1, dead=1, second=1), th=dict(rounds=8), **IG)
run("C25", "workers", PI, "Close", "two workers", rounds=6, order="rev", params=dict(reqs=2, par=2, early=1), th=dict(rounds=8), **IG)
run("C25", "ordered", PI, "Close", "ordered", rounds=6, order="rev", max_slice=40, params=dict(reqs=2, ordered=1), th=dict(rounds=8), **IG)
run("C25", "many", PI, "Close", "two groups of 3 requests, two workers", rounds=14, switches=1, unwind=9, order="rev", params=dict(reqs=3, par=2, groups=2, early=1), th=dict(switches=2), **IG)
run("C25", "many-ordered", PI, "Close", "two groups of 2 requests, two workers, ordered", rounds=14, switches=0, unwind=9, order="rev", max_slice=40, params=dict(reqs=2, par=2, groups=2, early=1, ordered=1), th=dict(switches=1), **IG)
run("C25", "group", PI, "GroupClose", "closing a group waits for its requests", rounds=6, order="rev", params=dict(reqs=2), th=dict(rounds=8))
run("C25", "next", PI, "GroupClose", "then another group", rounds=9, order="rev", params=dict(reqs=1, next=1), th=dict(rounds=10))
run("C26", "one", PI, "Stats", "one worker, 2 requests", rounds=6, order="rev", params=dict(reqs=2, exact=1), th=dict(rounds=8, params=dict(max=200)))
run("C26", "pause", PI, "Stats", "one worker, time passes anywhere", rounds=6, order="rev", params=dict(reqs=2, pause=3, **{"yield": 1}), th=dict(rounds=8))
run("C26", "workers", PI, "Stats", "two workers", rounds=5, order="rev", params=dict(reqs=2, par=2, **{"yield": 1}), th=dict(rounds=7))
run("C26", "looks", PI, "Stats", "an observer looks at any moment", rounds=5, order="rev", params=dict(reqs=1, looks=2, avg=0, **{"yield": 1}), th=dict(rounds=7, params=dict(reqs=2)))
run("C26", "many", PI, "Stats", "two workers, 3 requests", rounds=10, switches=1, hold=3, unwind=9, order="rev", params=dict(reqs=3, par=2, **{"yield": 1}), th=dict(switches=2))
for n, s, b in [(1, 1, 0), (2, 1, 0), (1, 2, 0), (1, 3, 0), (1, 1, 1), (1, 1, 2), (1, 1, 3), (1, 1, 4), (2, 1, 1)]:
    run("C27", "par%d-stages%d-subs%d" % (n, s, b), PI, "Parallel", "%d pipelines, %d stages, sub-stage objects %d" % (n, s, b), rounds=7, order="rev", unwind=9, max_chan=9, params=dict(par=n, stages=s, subs=b), th=dict(rounds=8))
run("C27", "construct", PI, "Construct", "any number from -2 to 2, any state machine, any delay", rounds=4, unwind=9, order="rev", params=dict(num=2), th=dict(rounds=5), **IG)
run("C27", "delay", PI, "Groups", "the delay warning fires at any moment", rounds=6, order="rev", params=dict(reqs=2, delay=1, ticks=2), th=dict(rounds=8))
QU = "pipelines/stagedpipe/zzverif/q"
run("C28", "one", QU, "Queue", "one pusher, one popper", rounds=4, params=dict(each=2), th=dict(rounds=6, params=dict(each=3)))
run("C28", "poppers", QU, "Queue", "one pusher, two poppers", rounds=4, params=dict(each=2, poppers=2), th=dict(rounds=6))
run("C28", "pushers", QU, "Queue", "two pushers, one popper", rounds=4, params=dict(each=1, pushers=2), th=dict(rounds=6, params=dict(each=2)))
run("C28", "both", QU, "Queue", "two pushers, two poppers", rounds=4, params=dict(each=1, pushers=2, poppers=2, pops=1), th=dict(rounds=6))
run("C28", "sized", QU, "Queue", "size 1, one pusher, one popper", rounds=5, params=dict(each=2, size=1), th=dict(rounds=6, params=dict(each=3)))
run("C28", "sized2", QU, "Queue", "size 1, two pushers, two poppers", rounds=4, params=dict(each=1, size=1, pushers=2, poppers=2), th=dict(rounds=6))
run("C28", "late", QU, "Queue", "two poppers begin after Close, 2 entries", rounds=5, params=dict(poppers=2, late=1), th=dict(rounds=7, params=dict(each=3)))
run("C28", "late-sized", QU, "Queue", "two poppers begin after Close, 3 entries, size 3", rounds=4, params=dict(poppers=2, late=1, each=3, size=3), th=dict(rounds=6))
run("C28", "many", QU, "Queue", "one pusher, one popper, 4 entries", rounds=8, switches=2, unwind=6, params=dict(each=4), th=dict(switches=3, params=dict(each=5)))
run("C28", "sized-many", QU, "Queue", "size 2, one pusher, one popper, 5 entries", rounds=12, switches=1, unwind=8, params=dict(each=5, size=2), th=dict(switches=2))
run("C28", "sized-poppers", QU, "Queue", "size 2, one pusher, two poppers, 4 entries", rounds=10, switches=1, unwind=8, params=dict(each=4, size=2, poppers=2), th=dict(switches=2))
run("C28", "full-many", QU, "Full", "size 5", rounds=10, switches=1, unwind=12, params=dict(size=5), th=dict(switches=2))
run("C28", "full", QU, "Full", "size 1", rounds=4, params=dict(size=1), th=dict(rounds=6))
run("C28", "full2", QU, "Full", "size 2", rounds=4, params=dict(size=2), th=dict(rounds=6))
# tracing
for pl, pn in [(0, "go"), (1, "limited"), (2, "pooled")]:
    run("C29", pn+"-barrier", WG, "Barrier", "wait group, 3 functions", rounds=4, params=dict(pool=pl, size=2, funcs=3, traced=1), th=dict(rounds=6))
    run("C29", pn+"-errors", WG, "Errors", "wait group, 3 functions, any of them fails", rounds=4, params=dict(pool=pl, size=2, funcs=3, traced=1), th=dict(rounds=6))
    run("C29", pn+"-cancel", WG, "Barrier", "wait group, 2 functions, the context is cancelled at any moment", rounds=4, params=dict(pool=pl, size=1, funcs=2, cancel=1, traced=1), th=dict(rounds=6))
    run("C29", pn+"-reuse", WG, "Reuse", "wait group, 2 rounds of 2 functions", rounds=4, params=dict(pool=pl, size=2, funcs=2, traced=1), th=dict(rounds=6))
for pl, pn in [(1, "limited"), (2, "pooled")]:
    run("C29", pn+"-rejected", WG, "Errors", "wait group, the pool refuses the functions", rounds=4, params=dict(pool=pl, size=1, funcs=2, options=2, traced=1), th=dict(rounds=6))
    run("C29", pn+"-pool", PK, "Jobs", "pool, 2 jobs, blocking or not", params=dict(kind=pl-1, size=1, jobs=2, again=1, traced=1), th=dict(rounds=6))
run("C29", "nest", WG, "Barrier", "wait group, a function hands over another one", rounds=4, params=dict(funcs=2, nest=1, traced=1), th=dict(rounds=6))
run("C29", "slices", "zzverif/sl", "Visit", "slices.Access, 2 elements, accessors modify and fail", rounds=4, params=dict(len=2, traced=1), th=dict(rounds=6))
run("C29", "slices-stop", "zzverif/sl", "Stop", "slices.Access, 2 elements, stop on error", rounds=4, params=dict(len=2, stop=1, traced=1), th=dict(rounds=6))
run("C29", "chans", "zzverif/ch", "All", "chans.Access, 2 values", rounds=5, order="rev", params=dict(len=2, traced=1), th=dict(rounds=6))
run("C29", "modify", "zzverif/ch", "Modify", "chans.Modify, 2 values", rounds=5, order="rev", params=dict(len=2, traced=1), th=dict(rounds=6))
run("C29", "route", PI, "Route", "any route of up to 3 stages, any stage fails", rounds=4, order="rev", params=dict(errs=1, traced=1), th=dict(rounds=5))
run("C29", "prep", PI, "Route", "a preprocessor; it or any stage fails or cancels the context", rounds=4, order="rev", params=dict(errs=1, prep=1, kill=1, steps=2, traced=1), th=dict(rounds=5))
run("C29", "dag", PI, "Route", "DAG option, any route of up to 3 stages", rounds=4, order="rev", params=dict(dag=1, traced=1), th=dict(rounds=5))
run("C29", "groups", PI, "Groups", "two requests in a group", rounds=5, order="rev", params=dict(reqs=2, traced=1), th=dict(rounds=6))
run("C29", "twogroups", PI, "Groups", "two groups at a time", rounds=5, order="rev", params=dict(reqs=1, groups=2, fails=0, traced=1), th=dict(rounds=6))
run("C29", "ordered", PI, "Groups", "two workers, ordered", rounds=5, order="rev", max_slice=36, params=dict(reqs=2, par=2, ordered=1, fails=0, traced=1), th=dict(rounds=6))
run("C29", "submit", PI, "Groups", "the context is cancelled at any moment", rounds=5, order="rev", params=dict(reqs=2, cancel=1, fails=0, traced=1), th=dict(rounds=6))
run("C29", "close", PI, "Close", "pipelines are closed", rounds=5, order="rev", params=dict(reqs=1, traced=1), th=dict(rounds=6), **IG)

# the same runs with every plain access to shared memory of the library as a scheduling point
RACES = dict(C01="limited-two pooled-two", C02="limited-two pooled-two", C03="limited-reject pooled-reject", C04="limited-nb2 pooled-nb2",
    C05="limited-close pooled-close", C06="limited-concurrent pooled-concurrent limited-closing pooled-closing", C07="limited-counters pooled-counters",
    C09="go-more limited-more pooled-more", C10="go-errors limited-errors pooled-one", C11="go-cancel limited-cancel pooled-cancel",
    C12="go-watch limited-watch pooled-watch", C13="default-visit pooled-one", C14="default-parallel pooled-serial", C15="default-all pooled-one",
    C16="default-stop pooled-cancel", C17="default-modify pooled-stop", C18="access-nopool modify-limited slices-pooled", C20="two store",
    C21="two workers", C22="cancel", C23="two", C25="two", C26="looks", C27="par1-stages1-subs0", C28="both sized2", C29="twogroups go-barrier")
for i, names in RACES.items():
    for n in names.split():
        o = [r for r in S[i] if r["name"] == n][0]
        r = json.loads(json.dumps(o))
        if i == "C22":
            r["rounds"] -= 1
        r.update(name=n+"-races", races=True, what=o["what"]+"; data races")
        S[i].append(r)
