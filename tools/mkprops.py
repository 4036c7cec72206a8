#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json,os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
LIM='goroutines/limited/goroutines.go'; POO='goroutines/pooled/goroutines.go'
WAIT='prim/wait/wait.go'; SL='prim/slices/slice.go'; CH='prim/chans/chans.go'; AT='prim/atomics/atomics.go'
SP='pipelines/stagedpipe/stagedpipe.go'; ST='pipelines/stagedpipe/stats.go'; REG='goroutines/internal/register/register.go'
GO='goroutines/goroutines.go'; Q='pipelines/stagedpipe/internal/queue/queue.go'
p('C01','Pools run every accepted job exactly once, and Wait covers all of them',
 'For the limited and the pooled pool, every job for which Submit returned nil is executed exactly once, with the context given to Submit, whether it was submitted blocking or non-blocking. Wait returns only after every job whose Submit returned before it has finished, and it does return once they have; the pool stays usable afterwards.',
 ['schedules','configurations','histories'],'every interleaving of submitters, pool goroutines and waiters; every pool size and mix of blocking/non-blocking submissions',
 'The two TestPool tests sample one schedule of 1000 non-blocking-free jobs; a lost or doubled job or an early Wait needs a particular interleaving.',
 [LIM,POO],[('WaitGroup Add before hand-off, Done after job',LIM+':Submit'),('queue + runner loop',POO+':Submit, runner')],
 [('wg','jobs accepted and not finished',LIM),('queue','hand-off to pool goroutines',POO)],['Submit','Wait','the job function'])
p('C02','Pool size is a hard limit on concurrently running blocking jobs',
 'At no instant are more jobs that were submitted without the non-blocking option executing in a pool than the size the pool was created with. A Submit that finds the pool saturated waits, and goes through once a running job finishes.',
 ['schedules','configurations'],'every interleaving of jobs and submitters, every size, blocking and non-blocking jobs mixed',
 'No test measures how many jobs run at once; TestPool passes with no limit at all.',
 [LIM,POO],[('semaphore channel held for the life of the job',LIM+':Submit'),('fixed number of runners',POO+':New, runner')],
 [('queue','slots in use',LIM)],['concurrency level observed inside jobs'])
p('C03','A rejected Submit has no effect',
 'Submit of a nil job, or with an option made for the other kind of pool, returns a non-nil error; Submit of a valid job with valid options returns nil. A rejected job never runs, and the rejection leaves the pool exactly as it was: it consumes no slot, does not change Running, and does not make Wait or a later Submit block.',
 ['inputs','histories','schedules'],'every combination and order of valid and invalid options and jobs, interleaved with accepted jobs',
 'No test submits an invalid job or option.',
 [LIM,POO],[('validation before any accounting',LIM+':Submit'),('validation before any accounting',POO+':Submit')],[],['Submit error','Running','Wait'])
p('C04','Non-blocking Submit never waits for another job',
 'A Submit with the non-blocking option returns without waiting for any running or queued job to finish, and its job gets to run even if every other job of the pool stays blocked until it has run. This holds when all the pool goroutines or slots are occupied and when they are free.',
 ['schedules','configurations'],'every interleaving of the submitter with occupied, just-freed and idle pool goroutines; every size',
 'TestNonBlocking uses a pool without any goroutines; occupation by a blocked job is never exercised.',
 [LIM,POO],[('select with default, else a fresh goroutine',POO+':Submit'),('limit skipped',LIM+':Submit')],[('queue','hand-off buffer',POO)],['Submit return','job start'])
p('C05','Closing a pool waits for its jobs, stops its goroutines, frees its name',
 'Close of a pool returns once every submitted job has finished and never before, and afterwards no goroutine of the pool is left running or blocked. After Close the name of the pool is free again: a new pool of that name gets exactly that name.',
 ['schedules','configurations','histories'],'every interleaving of Close with running and queued jobs; every size; repeated create/close',
 'No test observes goroutines or names after Close.',
 [LIM,POO,REG],[('Wait, close(queue), Unregister','Close in both pools'),('range over queue ends',POO+':runner')],[('registry','names in use',REG)],['Close return','goroutines left','GetName of a new pool'])
p('C06','Pool names are validated and unique among live pools',
 'New returns for every name and size: an error exactly if the size is below 1 or the name contains a digit, a hyphen or white space. Any number of live pools may be created with the same non-empty base name; New returns for each of them, the first gets the base name, later ones the base name followed by a hyphen and a number, and no two live pools ever share a name; a pool stays live while Close waits for its jobs. Pools with the empty name are never registered, and listing the registered pools yields exactly the live named ones and then ends.',
 ['inputs','histories','schedules'],'every name up to a bounded length, every int size; every history of create and close, concurrent creation included',
 'Tests create one pool per name; three live pools of the same name, or an invalid name, are never tried.',
 [REG,LIM,POO],[('ValidateBaseName, NewName, Register under a lock',REG),('retry loop','New in both pools')],[('registry','name to pool',REG)],['New error','GetName','register.Pools'])
p('C07','Pool Running and Len report the truth',
 'Running is never negative, never exceeds the number of submissions that have begun, is at least the number of jobs executing at that instant, and is 0 whenever Wait has returned and no new submission has begun. Len is the size the pool was created with, at any time before or during use.',
 ['schedules','histories'],'every interleaving of observers with submitters and jobs',
 'No test reads Running or Len of a pool.',
 [LIM,POO],[('running counter incremented before hand-off, decremented before Done','Submit/runner'),('Len','Len in both pools')],[('running','jobs in flight','pools')],['Running','Len'])
p('C08','Concurrent error recording loses nothing and is race free',
 'Any number of goroutines may call Record, Error and Errors of an error collection at the same time without a data race. Once the recorders are done Errors holds every recorded error exactly once, in an order compatible with the order of the Record calls, and Error is its first element (nil if nothing was recorded); a list already handed out is not changed by later records.',
 ['schedules','histories'],'every interleaving of recorders and readers',
 'There is no test of the collection.',
 [GO],[('mutex around append',GO+':Record')],[('errors','recorded errors',GO)],['Errors','Error'])
p('C09','Group.Wait is a barrier; every function runs exactly once',
 'Each function passed to a wait group is called exactly once unless its context was already cancelled when its turn came, in which case it may be skipped and the context error is reported instead; with a pool the same holds and the functions run in that pool. Wait returns only after every function handed to Go before it has returned, and does return once they have, whatever else runs in the pool.',
 ['schedules','configurations','inputs'],'every interleaving of Go, Wait and the functions, with no pool, a limited and a pooled pool, every set of failing functions',
 'TestWaitGroupBasic samples one schedule of five functions; dropped or doubled calls on rare schedules, and mixed outcomes, are outside it.',
 [WAIT],[('wg.Add before launch, Done by defer',WAIT+':Go'),('wg.Wait',WAIT+':Wait')],[('wg','functions outstanding',WAIT)],['Wait return','function calls'])
p('C10','Group.Wait reports every error that a function returned',
 'Wait returns nil exactly if no function returned an error, none was skipped because of its context and none was refused by the pool it was handed to; it returns in each of these cases. Otherwise, whatever the order in which the functions fail, the returned error wraps (errors.Is) every error returned by a function, except that a context cancellation or deadline error may be dropped if another error was recorded before it.',
 ['schedules','inputs','fault_sequences'],'every subset of functions failing, with ordinary and context errors, in every order and interleaving',
 'Tests have exactly one failing function, and check only that some error comes back.',
 [WAIT],[('applyErr compare-and-swap loop',WAIT+':applyErr')],[('errors','error so far',WAIT)],['error returned by Wait'])
p('C11','A failing function triggers the group cancel; Wait always calls it',
 'If a cancel function is set, it is called when any function returns an error, before Wait returns and without waiting for the other functions, so functions blocked on the cancelled context are released. If no function fails it is not called before all functions have finished; in any case it has been called when Wait returns, and it is unset after Wait.',
 ['schedules','fault_sequences'],'every choice of the failing function and every interleaving',
 'TestWaitGroupCancelOnErr fails one fixed function on one schedule.',
 [WAIT],[('CancelOnErr call after applyErr',WAIT+':Go'),('CancelOnErr call and reset',WAIT+':Wait')],[('CancelOnErr','cancel function',WAIT)],['cancel calls','context seen by functions'])
p('C12','A group is clean after Wait: counters, errors, reuse',
 'Running of a group is never negative, at most the number of functions handed to Go since the last Wait, and at least the number of functions executing; it is 0 from the moment Wait returns until the next Go. A group can be reused after Wait: a later round reports only its own errors and works as the first did.',
 ['schedules','histories'],'every interleaving of the goroutines that finish with Wait, with Running and with the next round',
 'The window between the last Done and the last decrement is a few instructions wide; the test reads Running once.',
 [WAIT],[('count decremented by defer',WAIT+':Go'),('reset',WAIT+':reset')],[('count','functions running',WAIT)],['Running','second Wait'])
p('C13','slices.Access visits every element exactly once and then returns',
 'Without stop-on-error and with a live context, Access calls the accessor exactly once for every index of the slice with that index and the value there; the modifier passed to a call changes that element and no other. Access returns after all accessor calls have returned, nil if none failed and otherwise an error that wraps the accessor errors, also for the empty slice (nil) and with a caller supplied pool.',
 ['schedules','inputs','configurations'],'every slice length in the bound, every set of failing indices, every interleaving',
 'Tests cover two fixed slices of five elements on the schedules that happen.',
 [SL],[('one Go per index, per-iteration index',SL+':Access')],[],['slice contents','accessor calls','error'])
p('C14','slices.Access stops on error or cancellation without losing the error',
 'With the stop-on-error option an accessor error makes Access stop starting accessors and return an error that wraps the accessor error that caused the stop, not merely a cancellation error. When the context passed in is cancelled, Access returns a non-nil error unless every element had been processed; in no case is any accessor still running, or started, after Access has returned.',
 ['schedules','fault_sequences'],'every failing index and every point at which the context is cancelled',
 'No test uses the option or cancels the context.',
 [SL,'prim/slices/options.go'],[('ctx.Err check in the loop, cancel on error',SL+':Access')],[],['error','accessor calls after return'])
p('C15','chans.Access handles every received value exactly once and then returns',
 'Without stop-on-error and with a live context, Access calls the accessor exactly once for every value sent on the input channel until that is closed, and returns after the channel is closed and all accessor calls have returned, nil if none failed and otherwise an error that wraps the accessor errors. A nil input returns nil at once.',
 ['schedules','inputs','configurations'],'every number of values in the bound, every set of failing values, buffered and unbuffered input, every interleaving with the producer',
 'prim/chans has no tests.',
 [CH],[('range over input, one Go per value',CH+':Access')],[],['accessor calls','error'])
p('C16','chans.Access stops on error or cancellation, even when the input is idle',
 'When the context is cancelled Access stops and returns even if no further value arrives on the input and the input is never closed, with a non-nil error unless all work was complete. With the stop-on-error option an accessor error makes it stop likewise and return an error that wraps that accessor error; in no case is an accessor running or started after Access has returned.',
 ['schedules','fault_sequences'],'every point of cancellation or failure relative to the producer, including an idle producer',
 'prim/chans has no tests.',
 [CH],[('ctx check in the receive loop, cancel on error',CH+':Access')],[],['Access return','accessor calls after return'])
p('C17','chans.Modify emits exactly one result per input and closes its output',
 'With a live context every value received from the input yields exactly one result on the output: the modifier value, or its error. The output channel is closed exactly once, after the last result, and nothing is ever sent on it after it is closed, also when the context is cancelled or stop-on-error is set while modifiers are running. Modify returns an error that wraps the modifier errors, nil if there were none, and an error at once when either channel is nil. Once its context is cancelled it returns even if nobody reads the output any more.',
 ['schedules','inputs','fault_sequences'],'every set of failing values, every point of cancellation, every interleaving with producer and consumer',
 'prim/chans has no tests.',
 [CH],[('send in the accessor, deferred close',CH+':Modify')],[],['output channel'])
p('C18','The parallel helpers honour their options',
 'Every documented option of slices.Access, chans.Access and chans.Modify is accepted. When the pool option is given, every accessor runs as a job of that pool with the given submit options, so that the limit of the pool holds, and the pool is left open and usable by the caller; without it no pool or goroutine is left behind when the call returns.',
 ['configurations','schedules'],'every combination of options, every interleaving',
 'No test passes any option.',
 [SL,CH,'prim/slices/options.go','prim/chans/options.go'],[('option application',SL+':Access'),('option application',CH+':Access'),('WithPoolOptions','options.go')],[],['pool usage','error'])
p('C19','RWValue Load returns the latest value whole, without blocking on writers',
 'A Load returns the value of a Store or successful LoadReplace, or the zero value if there was none; it never returns a mixture, and once a write has returned no later Load returns an older value. Load does not block, even while a replacer function is running, and there is no data race.',
 ['schedules','histories'],'every interleaving of readers and writers',
 'TestRWValue checks the final value of one long run only.',
 [AT],[('atomic pointer to an immutable copy',AT)],[('v','current value',AT)],['Load'])
p('C20','RWValue LoadReplace is an atomic read-modify-write',
 'Concurrent LoadReplace and Store calls take effect one at a time: a replacer sees the value left by the previous write (the zero value if none) and no update is lost; it is called exactly once per LoadReplace. If the replacer returns an error, LoadReplace returns that error, the value is unchanged and later writers are not blocked.',
 ['schedules','histories','inputs'],'every interleaving of writers, every pattern of failing replacers, set and unset initial value',
 'TestRWValue replaces with the identity and never on an unset value.',
 [AT],[('mutex around load, call and store',AT+':LoadReplace')],[('mu','writer lock',AT)],['values seen by replacers'])
p('C21','Each submitted request comes out once, of its own request group',
 'Every request whose Submit returned nil comes out of the Out channel of the request group it was submitted to exactly once, carrying its processed data, and of no other group, also when groups are created and closed concurrently, stages return errors or the context is cancelled after submission. A request whose Submit returned an error (nil or cancelled context) never comes out and does not keep the group from closing.',
 ['schedules','configurations','fault_sequences','histories'],'every interleaving of submitters, workers, router and consumers; several groups; cancellation at any point',
 'TestPipelines uses one group at a time on sampled schedules; concurrent group creation and removal is not tested.',
 [SP],[('group number, demultiplexer',SP+':NewRequestGroup, Submit'),('runner loop',SP+':runner')],[('wg','requests outstanding',SP)],['Out channel','Submit error'])
p('C22','Ordered pipelines emit each group in submission order, without loss',
 'With the ordered option the requests of a request group come out in the order in which they were submitted, whatever order the parallel workers finish them in, independently for each group. Requests that fail in a stage keep their place, and a Submit that returned an error leaves no hole: later requests of the group still come out.',
 ['schedules','fault_sequences'],'every completion order of the workers; failing stages and failed submissions at any position',
 'TestOrdered never fails a submission and sees only the completion orders that happen.',
 [SP],[('item numbers and reordering',SP+':Submit, NewRequestGroup')],[('itemNum','position in the group',SP)],['order on Out'])
p('C23','Stages run as routed; errors and cancellation stop a request',
 'A request runs Start and then exactly the stages named by Next, one at a time, until a stage leaves Next nil; Next is cleared before each stage. All preprocessors run once, in the order given, before every stage; if a preprocessor or stage sets Err no further stage runs and the request comes out with that error. If the context of the request is cancelled before a stage, that stage does not run and the request comes out with the context error.',
 ['inputs','programs','fault_sequences'],'every routing decision, failing position and cancellation point in the bound',
 'Tests have two fixed stages and no preprocessors.',
 [SP],[('stage loop',SP+':processReq, execStage')],[],['stage and preprocessor call log','request on Out'])
p('C24','DAG mode stops a request exactly when it would repeat a stage',
 'With the DAG option no stage function is executed twice for one request: a request routed to a stage it already ran comes out with an error recognised as cyclic, and a request that repeats no stage never gets one, whatever was processed before or in parallel. Without the option repeating stages is allowed (stages are methods of a non-generic state machine type), also for a request that came out of a DAG pipeline and is submitted again.',
 ['inputs','schedules','histories'],'every routing sequence in the bound, every reuse of per-request bookkeeping across requests',
 'TestDAG has four requests with one fixed cycle; leaks of bookkeeping between requests need particular histories.',
 [SP],[('seen-stage list from a pool',SP+':processReq, execStage')],[('seenStages','stages run so far',SP)],['Err on Out','stage calls'])
p('C25','Closing groups and pipelines terminates, completely and in order',
 'Closing a request group returns once all of its requests have been taken out, and its output channel is then closed after the last request. After the pipelines are closed and their groups drained, every goroutine the pipelines started ends and Close of the state machine is called exactly once, after the last stage execution.',
 ['schedules','histories'],'every interleaving of Close with in-flight requests, zero or more requests and groups',
 'Tests never observe the state machine Close or the goroutines left behind.',
 [SP],[('wait groups and channel closing',SP+':Close, RequestGroup.Close, NewRequestGroup')],[('wg','requests in the pipelines',SP)],['StateMachine.Close','Out closed','goroutines left'])
p('C26','Pipeline statistics are exact when the pipeline is quiet',
 'When every submitted request has come out, Stats reports Running 0 and Completed equal to the number of requests. The run time and ingestion Min, Avg and Max are then the minimum, the (truncated) mean and the maximum of the measured times, whatever those times were and whichever workers recorded them; while requests are in flight Running is between 0 and the number submitted.',
 ['schedules','inputs'],'every sequence of clock readings, every interleaving of the recording workers',
 'No test reads Stats; the minimum and maximum depend on clock values that tests do not control.',
 [ST,SP],[('setMin/setMax compare-and-swap',ST),('calcExitStats',SP)],[('stats','counters',ST)],['Stats'])
p('C27','Pipelines process as many requests at once as parallelism times stages',
 'A pipeline set made with parallelism n over a state machine with s public stage methods, plus those of the counted sub-stage objects, can execute exactly n*s requests at the same time: that many stage executions can be in progress together, and never more. Construction fails with an error for n < 1, a missing state machine or a negative delay warning, leaving no goroutine behind, and succeeds otherwise; an enabled delay warning changes nothing about what comes out.',
 ['configurations','schedules','inputs'],'every parallelism and stage count in the bound, every int for the rejected values, every timing of the warning timer',
 'No test measures concurrency or uses the constructor errors, sub-stages or the delay warning.',
 [SP],[('worker count',SP+':newPipeline, numStages, CountSubStages'),('validation',SP+':New, DelayWarning')],[],['stages in progress at once','New error'])
p('C28','The internal queue is FIFO, bounded, and loses nothing',
 'Values pushed to the queue are popped exactly once and in the order in which their pushes took effect, by any number of concurrent pushers and poppers. A sized queue never holds more than its size, with Push waiting for room; Pop waits while the queue is open and empty, and reports the end only when the queue is closed and every pushed value has been popped.',
 ['schedules','configurations'],'every interleaving of pushers, poppers and Close',
 'The package has no tests.',
 [Q],[('compare-and-swap linked list',Q+':simple'),('limit channel, closed flag',Q+':Push, Pop')],[],['Pop results'])
p('C29','Tracing changes no result and ends every span it starts',
 'With a recording OpenTelemetry span in the contexts all calls behave as without one: every function, job, accessor and stage runs and every error is reported just the same. The span of the caller is never ended, every span the library starts is ended exactly once: that of a stage when the stage returns, that of a wait group when Wait returns, and those of a request group and its requests once its output has been drained and its Close has returned, also of a request whose Submit failed. A stage runs in a live span of its own that is a child of the live span of its request, the functions of a wait group run in the span of that group.',
 ['inputs','schedules','histories'],'every interleaving, failing function, failing stage and cancellation point in the bound, each with the spans of the real tracing code',
 'No test puts a recording span into a context, so the tracing code never runs in them.',
 [WAIT,SP],[('span of the group',WAIT+':Go, Wait'),('spans of groups, requests and stages',SP+':Submit, execStage, otelEnd, RequestGroup.Close')],[],['Start and End of the spans','spans in the contexts'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
