# C10 A suite passes only if nothing failed
include runonce
include node
include suite
include time
pred failing(s types.SpecState) bool = s == types.SpecStateFailed || s == types.SpecStateTimedout || s == types.SpecStateAborted || s == types.SpecStatePanicked || s == types.SpecStateInterrupted
pred isState(s types.SpecState) bool = failing(s) || s == types.SpecStatePassed || s == types.SpecStateSkipped || s == types.SpecStatePending || s == types.SpecStateInvalid
# nFailed: a node that ran for the current report failed (a flake retry forgives it). pFailed: another process, or the way to it, failed.
# sFailed: a report that was handed out failed. gIntr: the interrupt status last read; gFresh: it was read after the last node that is not a ReportAfterSuite ran
pred kept(s *internal.Suite, r types.SpecReport) bool = s.currentSpecReport.MaxFlakeAttempts == r.MaxFlakeAttempts && s.currentSpecReport.MaxMustPassRepeatedly == r.MaxMustPassRepeatedly
ghost nFailed bool
ghost pFailed bool
ghost sFailed bool
ghost gIntr bool
ghost gFresh bool
ghost gFinal bool
ghost gEnded bool
ghost inNode bool
invoke interrupt_handler.InterruptHandlerInterface.Status(h) (st)
  modifies gIntr, gFresh
  ensures gFresh && gIntr == (st.Level != interrupt_handler.InterruptLevelUninterrupted)
invoke reporters.Reporter.SuiteWillBegin(r, report)
invoke reporters.Reporter.WillRun(r, report)
  modifies inNode
  ensures inNode
invoke reporters.Reporter.DidRun(r, report)
  requires a-failed-node-fails-its-report: nFailed ==> failing(report.State)
  requires a-failed-peer-fails-its-report: pFailed ==> failing(report.State)
  requires isState(report.State)
  modifies nFailed, pFailed, sFailed, inNode
  ensures !inNode && !nFailed && !pFailed && sFailed == (old(sFailed) || failing(report.State))
invoke reporters.Reporter.SuiteDidEnd(r, report)
  modifies gFinal, gEnded
  ensures gEnded && gFinal == report.SuiteSucceeded
invoke parallel_support.Client.PostSuiteWillBegin(c, report) (err)
invoke parallel_support.Client.PostDidRun(c, report) (err)
invoke parallel_support.Client.PostAbort(c) (err)
invoke parallel_support.Client.PostSuiteDidEnd(c, report) (err)
  requires the-same-verdict: gEnded && report.SuiteSucceeded == gFinal
invoke parallel_support.Client.PostReportBeforeSuiteCompleted(c, state) (err)
  requires tells-the-others: sFailed ==> state == types.SpecStateFailed
invoke parallel_support.Client.FetchNextCounter(c) (i, err)
  ensures err == nil ==> i >= 0
invoke parallel_support.Client.PostSynchronizedBeforeSuiteCompleted(c, state, data) (err)
  requires tells-the-others: nFailed ==> failing(state)
  modifies pFailed
  ensures pFailed == (old(pFailed) || err != nil)
invoke parallel_support.Client.BlockUntilSynchronizedBeforeSuiteData(c) (state, data, err)
  modifies pFailed
  ensures isState(state) && pFailed == (old(pFailed) || failing(state) || err != nil)
invoke parallel_support.Client.BlockUntilNonprimaryProcsHaveFinished(c) (err)
  modifies pFailed, bFailed
  ensures pFailed == (old(pFailed) || (err != nil && inNode))
  ensures bFailed == (old(bFailed) || (err != nil && !inNode))
invoke parallel_support.Client.BlockUntilAggregatedNonprimaryProcsReport(c) (r, err)
  modifies pFailed
  ensures pFailed == (old(pFailed) || err != nil)
# a ReportBeforeSuite node failed on process 1: every process fails
ghost bFailed bool
invoke parallel_support.Client.BlockUntilReportBeforeSuiteCompleted(c) (state, err)
  modifies bFailed
  ensures bFailed == (old(bFailed) || err != nil || state == types.SpecStateFailed)
functype func() (int, error) :: (f) (i, err)
  ensures err == nil ==> i >= 0
func internal.(*Suite).failureForLeafNodeWithMessage(suite, node, message) (f)
  trusted
func internal.(*Suite).isRunningInParallel(suite) (r)
  requires suite != nil
  ensures r == (suite.config.ParallelTotal > 1)
func internal.(*Suite).runNode(suite, node, deadline, text) (state, failure)
  trusted
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, nFailed, gFresh
  ensures isState(state) && state != types.SpecStateInvalid && state != types.SpecStatePending
  ensures kept(suite, old(suite.currentSpecReport)) && suite.currentSpecReport.State == old(suite.currentSpecReport.State)
  ensures nFailed == (old(nFailed) || failing(state))
  ensures gFresh ==> old(gFresh) && isType(node, types.NodeTypeReportAfterSuite)
  ensures old(gFresh) && isType(node, types.NodeTypeReportAfterSuite) ==> gFresh
func internal.(*Suite).handleSpecEvent(suite, event) (e)
  trusted
  modifies suite.timelineOrder, suite.currentSpecReport, nFailed
  ensures kept(suite, old(suite.currentSpecReport)) && suite.currentSpecReport.State == old(suite.currentSpecReport.State)
  ensures nFailed == (old(nFailed) && event.SpecEventType != types.SpecEventSpecRetry)

func internal.(*Suite).processCurrentSpecReport(suite)
  requires suite != nil && isState(suite.currentSpecReport.State)
  requires a-failed-node-fails-its-report: nFailed ==> failing(suite.currentSpecReport.State)
  requires a-failed-peer-fails-its-report: pFailed ==> failing(suite.currentSpecReport.State)
  modifies suite.report, suite.skipAll, nFailed, pFailed, sFailed, inNode, elemheap(types.SpecReport)
  ensures !nFailed && !pFailed && !inNode
  ensures sFailed == (old(sFailed) || failing(suite.currentSpecReport.State))
  ensures a-failure-fails-the-suite-for-good: suite.report.SuiteSucceeded == (old(suite.report.SuiteSucceeded) && !failing(suite.currentSpecReport.State))
  ensures suite.report.EndTime == old(suite.report.EndTime)
  ensures rest-skipped-after: suite.skipAll == (old(suite.skipAll) || (failing(suite.currentSpecReport.State) && (suite.config.FailFast || suite.currentSpecReport.State == types.SpecStateAborted)))
func internal.(*Suite).reportEach(suite, spec, nodeType)
  requires suite != nil && isState(suite.currentSpecReport.State)
  requires nFailed ==> failing(suite.currentSpecReport.State)
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, nFailed, gFresh
  ensures kept(suite, old(suite.currentSpecReport)) && isState(suite.currentSpecReport.State)
  ensures failure-kept: nFailed || failing(old(suite.currentSpecReport.State)) ==> failing(suite.currentSpecReport.State)
  cand kept(suite, old(suite.currentSpecReport)) && isState(suite.currentSpecReport.State)
  cand nFailed || failing(old(suite.currentSpecReport.State)) ==> failing(suite.currentSpecReport.State)

func internal.(*Suite).runSuiteNode(suite, node)
  requires suite != nil && inNode && suite.currentSpecReport.State == types.SpecStateInvalid && !nFailed && !pFailed
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, nFailed, pFailed, bFailed, gFresh
  ensures isState(suite.currentSpecReport.State)
  ensures a-failed-body-fails-the-node: nFailed ==> failing(suite.currentSpecReport.State)
  ensures a-failed-peer-fails-the-node: pFailed ==> failing(suite.currentSpecReport.State)
  ensures inNode && bFailed == old(bFailed)
func internal.(*Suite).runReportSuiteNode(suite, node, report)
  requires suite != nil && inNode && suite.currentSpecReport.State == types.SpecStateInvalid && !nFailed && !pFailed
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, nFailed, pFailed, bFailed, gFresh
  ensures isState(suite.currentSpecReport.State)
  ensures a-failed-body-fails-the-node: nFailed ==> failing(suite.currentSpecReport.State)
  ensures a-failed-peer-fails-the-node: pFailed ==> failing(suite.currentSpecReport.State)
  ensures inNode && bFailed == old(bFailed)
  ensures old(gFresh) && isType(node, types.NodeTypeReportAfterSuite) ==> gFresh
func internal.(*Suite).runBeforeSuite(suite, n)
  requires suite != nil && suite.selectiveLock != nil && !held(suite.selectiveLock) && !nFailed && !pFailed && !inNode
  locks
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, suite.report, suite.skipAll, nFailed, pFailed, sFailed, bFailed, inNode, gFresh, elemheap(types.SpecReport), elemheap(string)
  ensures !nFailed && !pFailed && !inNode && (old(sFailed) ==> sFailed)
  ensures a-failure-fails-the-suite-for-good: suite.report.SuiteSucceeded ==> old(suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed))
  ensures bFailed == old(bFailed)
func internal.(*Suite).runAfterSuiteCleanup(suite, n)
  requires suite != nil && suite.selectiveLock != nil && !held(suite.selectiveLock) && !nFailed && !pFailed && !inNode
  locks
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, suite.report, suite.skipAll, nFailed, pFailed, sFailed, bFailed, inNode, gFresh, elemheap(types.SpecReport), elemheap(string)
  ensures !nFailed && !pFailed && !inNode && (old(sFailed) ==> sFailed)
  ensures a-failure-fails-the-suite-for-good: suite.report.SuiteSucceeded ==> old(suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed))
  ensures bFailed == old(bFailed)
  cand !nFailed && !pFailed && !inNode && (old(sFailed) ==> sFailed) && !held(suite.selectiveLock)
  cand suite.report.SuiteSucceeded ==> old(suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed))
  cand bFailed == old(bFailed)
func internal.(*Suite).runReportSuiteNodesIfNeedBe(suite, nodeType)
  requires suite != nil && suite.selectiveLock != nil && !held(suite.selectiveLock) && !nFailed && !pFailed && !inNode
  requires nodeType == types.NodeTypeReportBeforeSuite || nodeType == types.NodeTypeReportAfterSuite
  requires nodeType == types.NodeTypeReportBeforeSuite ==> (sFailed ==> !suite.report.SuiteSucceeded)
  locks
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, suite.report, suite.skipAll, nFailed, pFailed, sFailed, bFailed, inNode, gFresh, elemheap(types.SpecReport), elemheap(string)
  ensures !nFailed && !pFailed && !inNode && (old(sFailed) ==> sFailed)
  ensures a-failure-fails-the-suite-for-good: suite.report.SuiteSucceeded ==> old(suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed)) && (bFailed ==> old(bFailed))
  ensures nodeType == types.NodeTypeReportAfterSuite && old(gFresh) ==> gFresh
  ensures old(bFailed) ==> bFailed
  ensures suite.report.EndTime == old(suite.report.EndTime)
  cand suite.report.EndTime == old(suite.report.EndTime)
  cand !nFailed && !pFailed && !inNode && (old(sFailed) ==> sFailed) && !held(suite.selectiveLock)
  cand suite.report.SuiteSucceeded ==> old(suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed))
  cand bFailed == old(bFailed)
  cand nodeType == types.NodeTypeReportAfterSuite && old(gFresh) ==> gFresh
  cand @n: []internal.Node :: allTypes(elems(@n), len(@n), nodeType)
func internal.(*group).evaluateSkipStatus(g, spec) (state, failure)
  requires g != nil && g.suite != nil
  modifies gIntr, gFresh
  ensures isState(g.suite.currentSpecReport.State) ==> isState(state)
func internal.(*group).initialReportForSpec(g, spec) (r)
  trusted
  ensures r.State == types.SpecStateInvalid
func internal.(Nodes).BestTextFor(n, node) (s)
  trusted
func internal.(Spec).SpecTimeout(s) (d)
  trusted
pred over(s types.SpecState) bool = failing(s) || s == types.SpecStatePassed || s == types.SpecStateSkipped
# assumed of the specs of a tree: an It, which is never run once per container
pred specShape(s internal.Spec) bool = isType(subject(s), types.NodeTypeIt) && plainIn(elems(s.Nodes), len(s.Nodes), subject(s).ID)
func internal.(*group).attemptSpec(g, isFinalAttempt, spec) (failedOnce)
  effort 2
  requires g != nil && g.suite != nil && !nFailed && g.runOnceTracker != nil
  requires isState(g.suite.currentSpecReport.State)
  requires its-subject-is-not-run-once: isType(subject(spec), types.NodeTypeIt) && noPair(elems(g.runOncePairs[subject(spec).ID]), len(g.runOncePairs[subject(spec).ID]), subject(spec).ID)
  modifies g.suite.currentNode, g.suite.currentNodeStartTime, g.suite.currentSpecContext, g.suite.currentByStep, g.suite.timelineOrder, g.suite.cleanupNodes, g.suite.currentSpecReport, contents(g.runOnceTracker), elemheap(types.AdditionalFailure), nFailed, gFresh
  ensures kept(g.suite, old(g.suite.currentSpecReport)) && isState(g.suite.currentSpecReport.State)
  ensures a-failed-node-fails-the-attempt: nFailed ==> failing(g.suite.currentSpecReport.State)
  cand isState(g.suite.currentSpecReport.State)
  cand nFailed ==> failing(g.suite.currentSpecReport.State)
  cand over(g.suite.currentSpecReport.State)
  cand $i: int, @n: []internal.Node :: $i >= len(@n) ==> over(g.suite.currentSpecReport.State)
  cand @n: []internal.Node :: @n[len(@n) - 1] == subject(spec)
  cand !nFailed
  cand kept(g.suite, old(g.suite.currentSpecReport))
func internal.(*group).run(g, specs)
  requires g != nil && g.suite != nil && g.suite.selectiveLock != nil && !held(g.suite.selectiveLock) && g.runOncePairs != nil && g.runOnceTracker != nil && len(specs) > 0
  requires !nFailed && !pFailed && !inNode
  requires spec-shape: forall k int {specs[k]} :: 0 <= k && k < len(specs) ==> specShape(specs[k])
  locks
  modifies g.specs, g.continueOnFailure, g.succeeded, g.failedInARunOnceBefore, contents(g.runOncePairs), contents(g.runOnceTracker), elemheap(types.AdditionalFailure), elemheap(types.SpecReport)
  modifies g.suite.currentNode, g.suite.currentNodeStartTime, g.suite.currentSpecContext, g.suite.currentByStep, g.suite.timelineOrder, g.suite.cleanupNodes, g.suite.currentSpecReport, g.suite.report, g.suite.skipAll
  modifies nFailed, pFailed, sFailed, inNode, gIntr, gFresh
  ensures !nFailed && !pFailed && !inNode && (old(sFailed) ==> sFailed)
  ensures a-failure-fails-the-suite-for-good: g.suite.report.SuiteSucceeded ==> old(g.suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed))
  cand !nFailed && !pFailed && !inNode
  cand !pFailed && (old(sFailed) ==> sFailed) && !held(g.suite.selectiveLock)
  cand g.suite.report.SuiteSucceeded ==> old(g.suite.report.SuiteSucceeded) && (sFailed ==> old(sFailed))
  cand isState(g.suite.currentSpecReport.State) && (nFailed ==> failing(g.suite.currentSpecReport.State))
  cand $a: int, $m: int :: nFailed ==> g.suite.currentSpecReport.MaxFlakeAttempts > 0 || $m <= $a
  cand $a: int :: $a == 0 ==> !nFailed
  cand $i: int :: forall k int {specs[k]} :: 0 <= k && k < $i ==> noPair(elems(g.runOncePairs[subject(specs[k]).ID]), len(g.runOncePairs[subject(specs[k]).ID]), subject(specs[k]).ID)
  cand forall k int {specs[k]} :: 0 <= k && k < len(specs) ==> noPair(elems(g.runOncePairs[subject(specs[k]).ID]), len(g.runOncePairs[subject(specs[k]).ID]), subject(specs[k]).ID)
  cand forall k int {specs[k]} :: 0 <= k && k < len(specs) ==> specShape(specs[k])
  cand $m: int :: g.suite.currentSpecReport.MaxFlakeAttempts > 0 || g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 || $m <= 1
func internal.newGroup(suite) (g)
  ensures g != nil && fresh(g) && g.suite == suite && g.runOncePairs != nil && g.runOnceTracker != nil
func internal.OrderSpecs(specs, config) (a, b)
  trusted
  ensures forall k int {a[k]} :: 0 <= k && k < len(a) ==> len(a[k]) > 0
  ensures forall k int {b[k]} :: 0 <= k && k < len(b) ==> len(b[k]) > 0
func internal.MakeIncrementingIndexCounter() (f)
  trusted
fn pendingAmong(a array[int,internal.Spec], n int) bool = exists k int {a[k]} :: 0 <= k && k < n && isPending(a[k])
pred isPending(s internal.Spec) bool = pendingNode(elems(s.Nodes), len(s.Nodes))
fn pendingNode(a array[int,internal.Node], n int) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k].MarkedPending
fn toRun(a array[int,internal.Spec], n int) int = ite(n <= 0, 0, toRun(a, n - 1) + ite(a[n - 1].Skip, 0, 1))
func internal.(Specs).HasAnySpecsMarkedPending(s) (r)
  ensures r == pendingAmong(elems(s), len(s))
  cand $i: int :: forall k int {s[k]} :: 0 <= k && k < $i ==> !isPending(s[k])
func internal.(Specs).CountWithoutSkip(s) (n)
  ensures n == toRun(elems(s), len(s))
  cand $i: int, @c: int :: @c == toRun(elems(s), $i)
func internal.(Specs).AtIndices(s, indices) (out)
  trusted
  ensures len(out) == len(indices)
  ensures spec-shape: forall k int {out[k]} :: 0 <= k && k < len(out) ==> specShape(out[k])
pred lateEnd(s *internal.Suite) bool = !noTime(s.deadline) && tAfter(s.report.EndTime, s.deadline)
decl tAfter(t time.Time, u time.Time) bool
ext (time.Time).After(t, u) (r)
  ensures r == tAfter(t, u)
func internal.(*Suite).runSpecs(suite, description, suiteLabels, suitePath, hasProgrammaticFocus, specs) (r)
  requires suite != nil && suite.selectiveLock != nil && !held(suite.selectiveLock)
  requires !nFailed && !pFailed && !sFailed && !bFailed && !gEnded && !inNode
  locks
  modifies everything
  ensures the-verdict-is-what-the-report-says: r == suite.report.SuiteSucceeded && r == gFinal && gEnded
  ensures no-failure-anywhere: r ==> !sFailed && !bFailed && !nFailed && !pFailed
  ensures not-interrupted: r ==> gFresh && !gIntr
  ensures not-too-late: r ==> !lateEnd(suite)
  ensures no-pending-when-forbidden: r ==> !(old(suite.config.FailOnPending) && pendingAmong(old(elems(specs)), len(specs)))
  ensures not-empty-when-forbidden: r ==> !(old(suite.config.FailOnEmpty) && toRun(old(elems(specs)), len(specs)) == 0)
  cand !nFailed && !pFailed && !inNode && !held(suite.selectiveLock)
  cand suite.report.SuiteSucceeded ==> !sFailed && !bFailed
  cand @g: internal.GroupedSpecIndices :: forall k int {@g[k]} :: 0 <= k && k < len(@g) ==> len(@g[k]) > 0
