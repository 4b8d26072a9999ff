# C12  Synchronized suite setup: one decision, faithfully broadcast
guard parallel_support.ServerHandler.lock: beforeSuiteState, reportBeforeSuiteState, shouldAbort, numSuiteDidBegins, numSuiteDidEnds, aggregatedReport, reportHoldingArea
guard parallel_support.ServerHandler.counterLock: counter
pureftype func() bool

# ---- the server: what process 1 published, and what the others are told
func parallel_support.newServerHandler(parallelTotal, reporter) (h)
  ensures unpublished: h != nil && h.lock != nil && h.beforeSuiteState.State == types.SpecStateInvalid && h.reportBeforeSuiteState == types.SpecStateInvalid && h.numSuiteDidEnds == 0
  ensures processes: len(h.alives) == parallelTotal && h.parallelTotal == parallelTotal
  ensures all-presumed-alive: forall i int {h.alives[i]} :: 0 <= i && i < parallelTotal ==> h.alives[i] == nil

pred presumedAlive(h *parallel_support.ServerHandler, proc int) bool = h.alives[proc - 1] == nil || apply(h.alives[proc - 1])

func parallel_support.(*ServerHandler).registerAlive(handler, proc, alive)
  requires handler != nil && handler.lock != nil && 1 <= proc && proc <= len(handler.alives)
  locks
  modifies elems(handler.alives)
  ensures registered: handler.alives[proc - 1] == alive
  ensures others: forall i int {handler.alives[i]} :: 0 <= i && i < len(handler.alives) && i != proc - 1 ==> handler.alives[i] == old(handler.alives[i])

func parallel_support.(*ServerHandler).procIsAlive(handler, proc) (r)
  requires handler != nil && handler.lock != nil && 1 <= proc && proc <= len(handler.alives)
  locks
  ensures answer: r == presumedAlive(handler, proc)

func parallel_support.(*ServerHandler).BeforeSuiteCompleted(handler, state, void) (err)
  requires handler != nil && handler.lock != nil
  locks
  modifies handler.beforeSuiteState
  ensures published: handler.beforeSuiteState == state && err == nil

func parallel_support.(*ServerHandler).ReportBeforeSuiteCompleted(handler, state, void) (err)
  requires handler != nil && handler.lock != nil
  locks
  modifies handler.reportBeforeSuiteState
  ensures published: handler.reportBeforeSuiteState == state && err == nil

func parallel_support.(*ServerHandler).BeforeSuiteState(handler, void, out) (err)
  requires handler != nil && handler.lock != nil && out != nil && len(handler.alives) >= 1
  locks
  modifies *out
  ensures told-exactly: err == nil ==> *out == handler.beforeSuiteState && handler.beforeSuiteState.State != types.SpecStateInvalid
  ensures told-once-published: handler.beforeSuiteState.State != types.SpecStateInvalid ==> err == nil
  ensures not-yet: err != nil && presumedAlive(handler, 1) ==> err == parallel_support.ErrorEarly
  ensures gone: err != nil && !presumedAlive(handler, 1) ==> err == parallel_support.ErrorGone
  ensures nothing-told: err != nil ==> *out == old(*out)

func parallel_support.(*ServerHandler).ReportBeforeSuiteState(handler, void, out) (err)
  requires handler != nil && handler.lock != nil && out != nil && len(handler.alives) >= 1
  locks
  modifies *out
  ensures told-exactly: err == nil ==> *out == handler.reportBeforeSuiteState && handler.reportBeforeSuiteState != types.SpecStateInvalid
  ensures told-once-published: handler.reportBeforeSuiteState != types.SpecStateInvalid ==> err == nil
  ensures not-yet: err != nil && presumedAlive(handler, 1) ==> err == parallel_support.ErrorEarly
  ensures gone: err != nil && !presumedAlive(handler, 1) ==> err == parallel_support.ErrorGone
  ensures nothing-told: err != nil ==> *out == old(*out)

func parallel_support.(*ServerHandler).HaveNonprimaryProcsFinished(handler, void, void2) (err)
  requires handler != nil && handler.lock != nil && len(handler.alives) == handler.parallelTotal
  locks
  ensures finished: err == nil ==> (forall p int {handler.alives[p - 1]} :: 2 <= p && p <= handler.parallelTotal ==> !presumedAlive(handler, p))
  ensures early: err != nil ==> err == parallel_support.ErrorEarly && (exists p int {handler.alives[p - 1]} :: 2 <= p && p <= handler.parallelTotal && presumedAlive(handler, p))
  cand $i: int :: forall p int {handler.alives[p - 1]} :: 2 <= p && p < $i ==> !presumedAlive(handler, p)

func parallel_support.(*ServerHandler).AggregatedNonprimaryProcsReport(handler, void, out) (err)
  requires handler != nil && handler.lock != nil && out != nil && len(handler.alives) == handler.parallelTotal
  locks
  modifies *out
  ensures complete: err == nil ==> *out == handler.aggregatedReport && handler.numSuiteDidEnds == handler.parallelTotal - 1
  ensures all-finished: err == nil ==> (forall p int {handler.alives[p - 1]} :: 2 <= p && p <= handler.parallelTotal ==> !presumedAlive(handler, p))
  ensures refused: err != nil ==> *out == old(*out) && (err == parallel_support.ErrorEarly || err == parallel_support.ErrorGone)
  ensures gone: err == parallel_support.ErrorGone ==> handler.numSuiteDidEnds != handler.parallelTotal - 1 && (forall p int {handler.alives[p - 1]} :: 2 <= p && p <= handler.parallelTotal ==> !presumedAlive(handler, p))
  cand $i: int :: forall p int {handler.alives[p - 1]} :: 2 <= p && p < $i ==> !presumedAlive(handler, p)

# ---- the suite: who runs which part, and what is published
include suite
ghost myProc int
ghost proc1Ran bool
ghost proc1Data []byte
ghost ranState types.SpecState
ghost published int
ghost pubState types.SpecState
ghost pubData []byte
ghost told bool
ghost othersDone bool
ghost afterProc1 func(internal.SpecContext)
ghost forced bool

# process 1's part of SynchronizedBeforeSuite
functype func(internal.SpecContext) []byte :: (f, c) (data)
  requires only-on-process-1: myProc == 1
  modifies proc1Ran, proc1Data
  ensures proc1Ran && proc1Data == data

# every process's part of SynchronizedBeforeSuite
functype func(internal.SpecContext, []byte) :: (f, c, data)
  requires process-1-passed-here: myProc == 1 ==> proc1Ran && ranState == types.SpecStatePassed && data == proc1Data
  requires process-1-passed-there: myProc != 1 ==> told && pubState == types.SpecStatePassed && data == pubData

# any other node body; process 1's part of SynchronizedAfterSuite runs on process 1 only, after the others finished
functype func(internal.SpecContext) :: (f, c)
  requires after-suite-proc1: f == afterProc1 ==> myProc == 1 && (forced ==> othersDone)

# runNode reports one of the declared outcomes
pred isOutcome(s types.SpecState) bool = s == types.SpecStateInvalid || s == types.SpecStatePending || s == types.SpecStateSkipped || s == types.SpecStatePassed || s == types.SpecStateFailed || s == types.SpecStateAborted || s == types.SpecStatePanicked || s == types.SpecStateInterrupted || s == types.SpecStateTimedout
func internal.(*Suite).runNode(suite, node, deadline, text) (state, failure)
  trusted
  calls ran: node.Body
  modifies ranState, suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport
  ensures ranState == state && isOutcome(state)
  ensures state == types.SpecStatePassed ==> ran
  ensures suite.currentSpecReport.State == old(suite.currentSpecReport.State)

invoke parallel_support.Client.PostSynchronizedBeforeSuiteCompleted(c, state, data) (err)
  requires publishes-what-happened: myProc == 1 && state == ranState && (state == types.SpecStatePassed ==> data == proc1Data)
  requires published-once: published == 0
  modifies published
  ensures published == 1
invoke parallel_support.Client.BlockUntilSynchronizedBeforeSuiteData(c) (state, data, err)
  modifies told
  ensures err == nil ==> told && state == pubState && data == pubData && state != types.SpecStateInvalid
  ensures err != nil ==> state == types.SpecStateInvalid && !told
invoke parallel_support.Client.BlockUntilNonprimaryProcsHaveFinished(c) (err)
  modifies othersDone
  ensures err == nil ==> othersDone

func internal.(*Suite).failureForLeafNodeWithMessage(suite, node, message) (f)
  trusted
  pure

func internal.(*Suite).runSuiteNode(suite, node)
  requires suite != nil && suite.config.ParallelProcess == myProc && published == 0 && !told && !proc1Ran && !othersDone
  requires suite.currentSpecReport.State == types.SpecStateInvalid
  requires suite.client != nil && suite.writer != nil && suite.outputInterceptor != nil && suite.reporter != nil
  requires afterProc1 == node.SynchronizedAfterSuiteProc1Body && node.Body != afterProc1 && node.SynchronizedAfterSuiteAllProcsBody != afterProc1
  requires forced == (suite.config.ParallelTotal > 1)
  modifies suite.currentSpecReport, suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes
  modifies proc1Ran, proc1Data, ranState, published, told, othersDone
  ensures process-1-publishes: !suite.config.DryRun && node.NodeType == types.NodeTypeSynchronizedBeforeSuite && myProc == 1 && suite.config.ParallelTotal > 1 ==> published == 1
  ensures others-publish-nothing: myProc != 1 ==> published == 0
  ensures dry-run-runs-nothing: suite.config.DryRun ==> !proc1Ran && published == 0 && !told
  ensures gone-is-not-a-pass: !suite.config.DryRun && node.NodeType == types.NodeTypeSynchronizedBeforeSuite && myProc != 1 && !told ==> suite.currentSpecReport.State == types.SpecStateFailed
  ensures failure-is-not-a-pass: !suite.config.DryRun && node.NodeType == types.NodeTypeSynchronizedBeforeSuite && myProc != 1 && told && pubState != types.SpecStatePassed ==> suite.currentSpecReport.State != types.SpecStatePassed
