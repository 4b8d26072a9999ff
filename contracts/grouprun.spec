# running a group of specs: what is run, how often, and what is reported
include runonce
include suite
include time
pred failing(s types.SpecState) bool = s == types.SpecStateFailed || s == types.SpecStateTimedout || s == types.SpecStateAborted || s == types.SpecStatePanicked || s == types.SpecStateInterrupted
pred isState(s types.SpecState) bool = failing(s) || s == types.SpecStatePassed || s == types.SpecStateSkipped || s == types.SpecStatePending || s == types.SpecStateInvalid
# the run has been interrupted; it stays so (C13)
ghost gIntr bool
invoke interrupt_handler.InterruptHandlerInterface.Status(h) (st)
  modifies gIntr
  ensures (old(gIntr) ==> gIntr) && gIntr == (st.Level != interrupt_handler.InterruptLevelUninterrupted)
pred isPending(s internal.Spec) bool = exists k int {s.Nodes[k]} :: 0 <= k && k < len(s.Nodes) && s.Nodes[k].MarkedPending
func internal.(*Suite).failureForLeafNodeWithMessage(suite, node, message) (f)
  trusted
func internal.(*group).evaluateSkipStatus(g, spec) (state, failure)
  requires g != nil && g.suite != nil
  modifies gIntr
  ensures old(gIntr) ==> gIntr
  ensures pending: isPending(spec) ==> state == types.SpecStatePending
  ensures skip-wins-unless-pending: !isPending(spec) && (spec.Skip || g.suite.skipAll || old(gIntr) || (!g.succeeded && !g.continueOnFailure) || (g.failedInARunOnceBefore && g.continueOnFailure) || skippedBefore(g, subject(spec).ID)) ==> state == types.SpecStateSkipped
  ensures dry-run: g.suite.config.DryRun ==> state == types.SpecStatePending || state == types.SpecStateSkipped || state == types.SpecStatePassed
  ensures only-these: state == types.SpecStatePending || state == types.SpecStateSkipped || (g.suite.config.DryRun && state == types.SpecStatePassed) || (!g.suite.config.DryRun && state == g.suite.currentSpecReport.State)
  ensures no-other-reason: !spec.Skip && !g.suite.skipAll && !gIntr && noTime(g.suite.deadline) && g.succeeded && !g.failedInARunOnceBefore && !skippedBefore(g, subject(spec).ID) && state == types.SpecStateSkipped ==> g.suite.currentSpecReport.State == types.SpecStateSkipped
  cand $i: int, @p: internal.runOncePairs :: forall k int {@p[k]} :: 0 <= k && k < $i ==> (g.runOnceTracker[@p[k]] & types.SpecStateSkipped) == 0

# ---- the protocol of a group's run. rReported specs of curG.specs have been reported; the next one is the current spec
ghost curG *internal.group
ghost rReported int
ghost rAnnounced bool
ghost rAtt int
ghost rLast types.SpecState
ghost rFailed bool
# the last attempt of the current spec / of an earlier spec failed in a run-once node
ghost rOnceNow bool
ghost rOnce bool
pred cur() internal.Spec = curG.specs[rReported]
pred rep(s internal.Spec) int = innermostRepeat(elems(s.Nodes), len(s.Nodes))
pred flk(s internal.Spec) int = innermostFlake(elems(s.Nodes), len(s.Nodes))
pred repeatMode(g *internal.group, s internal.Spec) bool = g.suite.config.MustPassRepeatedly > 0 || rep(s) > 0
pred flakeMode(g *internal.group, s internal.Spec) bool = !repeatMode(g, s) && (g.suite.config.FlakeAttempts > 0 || flk(s) > 0)
pred allowed(g *internal.group, s internal.Spec) int = ite(g.suite.config.MustPassRepeatedly > 0, g.suite.config.MustPassRepeatedly, ite(rep(s) > 0, rep(s), ite(g.suite.config.FlakeAttempts > 0, g.suite.config.FlakeAttempts, ite(flk(s) > 0, flk(s), 1))))
pred endsFlake(s types.SpecState) bool = s == types.SpecStatePassed || s == types.SpecStateSkipped || s == types.SpecStateAborted || s == types.SpecStateInterrupted
pred attemptsOver(g *internal.group, s internal.Spec) bool = rAtt >= allowed(g, s) || (repeatMode(g, s) && rLast != types.SpecStatePassed) || (flakeMode(g, s) && endsFlake(rLast))
invoke reporters.Reporter.WillRun(r, report)
  requires announced-once: !rAnnounced
  modifies rAnnounced
  ensures rAnnounced
invoke reporters.Reporter.DidRun(r, report)
  requires announced-before: rAnnounced
  requires attempts-reported: report.NumAttempts == rAtt
  requires attempted-unless-excluded: rAtt == 0 ==> curG.suite.config.DryRun || failing(report.State) || report.State == types.SpecStateSkipped || report.State == types.SpecStatePending
  requires not-stopped-early: rAtt > 0 ==> attemptsOver(curG, cur())
  requires no-better-than-its-last-attempt: rAtt > 0 && report.State == types.SpecStatePassed ==> rLast == types.SpecStatePassed
  requires failure-kept: rAtt > 0 && failing(rLast) ==> failing(report.State)
  requires pending-or-skipped-said-so: rAtt == 0 && isPending(cur()) ==> report.State == types.SpecStatePending || failing(report.State)
  requires skipped-said-so: rAtt == 0 && !isPending(cur()) && cur().Skip ==> report.State == types.SpecStateSkipped || failing(report.State)
  modifies rAnnounced, rReported, rAtt, rLast, rFailed, rOnceNow, rOnce
  ensures rOnce == (old(rOnce) || (old(rOnceNow) && failing(report.State))) && !rOnceNow
  ensures !rAnnounced && rReported == old(rReported) + 1 && rAtt == 0 && rLast == types.SpecStateInvalid && rFailed == (old(rFailed) || failing(report.State))
func internal.(*group).attemptSpec(g, isFinalAttempt, spec) (failedOnce)
  trusted
  requires the-current-spec: spec == cur() && g == curG && rAnnounced
  requires not-pending: !isPending(spec)
  requires not-skipped: !spec.Skip
  requires not-in-a-dry-run: !g.suite.config.DryRun
  requires not-after-an-abort: !g.suite.skipAll
  requires not-after-a-run-once-failure: !rOnce
  requires not-after-a-failure-in-its-group: rFailed ==> outerOrdered(curG.specs[0].Nodes).MarkedContinueOnFailure
  requires allowed-that-often: rAtt < allowed(g, spec)
  requires repeated-only-while-passing: rAtt > 0 && repeatMode(g, spec) ==> rLast == types.SpecStatePassed
  requires retried-only-after-failing: rAtt > 0 && flakeMode(g, spec) ==> !endsFlake(rLast)
  requires numbered: g.suite.currentSpecReport.NumAttempts == rAtt + 1
  requires final-attempt: isFinalAttempt == (repeatMode(g, spec) || rAtt + 1 == allowed(g, spec))
  modifies g.suite.currentNode, g.suite.currentNodeStartTime, g.suite.currentSpecContext, g.suite.currentByStep, g.suite.timelineOrder, g.suite.cleanupNodes, g.suite.currentSpecReport, contents(g.runOnceTracker), elemheap(types.AdditionalFailure)
  modifies rAtt, rLast, gIntr, rOnceNow
  ensures rOnceNow == failedOnce
  ensures rAtt == old(rAtt) + 1 && rLast == g.suite.currentSpecReport.State && isState(rLast) && rLast != types.SpecStateInvalid && rLast != types.SpecStatePending
  ensures kept(g.suite, old(g.suite.currentSpecReport))
  ensures old(gIntr) ==> gIntr
pred kept(s *internal.Suite, r types.SpecReport) bool = s.currentSpecReport.NumAttempts == r.NumAttempts && s.currentSpecReport.MaxFlakeAttempts == r.MaxFlakeAttempts && s.currentSpecReport.MaxMustPassRepeatedly == r.MaxMustPassRepeatedly
func internal.(*Suite).runNode(suite, node, deadline, text) (state, failure)
  trusted
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, gIntr
  ensures isState(state) && state != types.SpecStateInvalid && state != types.SpecStatePending
  ensures kept(suite, old(suite.currentSpecReport)) && suite.currentSpecReport.State == old(suite.currentSpecReport.State)
  ensures old(gIntr) ==> gIntr
func internal.(Nodes).BestTextFor(n, node) (s)
  trusted
func internal.(*Suite).reportEach(suite, spec, nodeType)
  requires suite != nil && isState(suite.currentSpecReport.State)
  modifies suite.currentNode, suite.currentNodeStartTime, suite.currentSpecContext, suite.currentByStep, suite.timelineOrder, suite.cleanupNodes, suite.currentSpecReport, gIntr
  ensures kept(suite, old(suite.currentSpecReport)) && isState(suite.currentSpecReport.State)
  ensures failure-kept: failing(old(suite.currentSpecReport.State)) ==> failing(suite.currentSpecReport.State)
  ensures only-to-a-failure: suite.currentSpecReport.State == old(suite.currentSpecReport.State) || failing(suite.currentSpecReport.State)
  ensures old(gIntr) ==> gIntr
  cand kept(suite, old(suite.currentSpecReport)) && isState(suite.currentSpecReport.State)
  cand failing(old(suite.currentSpecReport.State)) ==> failing(suite.currentSpecReport.State)
  cand suite.currentSpecReport.State == old(suite.currentSpecReport.State) || failing(suite.currentSpecReport.State)
  cand old(gIntr) ==> gIntr
func internal.(*Suite).handleSpecEvent(suite, event) (e)
  trusted
  modifies suite.timelineOrder, suite.currentSpecReport
  ensures kept(suite, old(suite.currentSpecReport)) && suite.currentSpecReport.State == old(suite.currentSpecReport.State)
func internal.(*Suite).isRunningInParallel(suite) (r)
  ensures r == (suite.config.ParallelTotal > 1)
invoke parallel_support.Client.PostDidRun(c, report) (err)
invoke parallel_support.Client.PostAbort(c) (err)
func internal.(*Suite).processCurrentSpecReport(suite)
  requires suite != nil && curG != nil && suite == curG.suite
  requires announced-before: rAnnounced
  requires attempts-reported: suite.currentSpecReport.NumAttempts == rAtt
  requires attempted-unless-excluded: rAtt == 0 ==> curG.suite.config.DryRun || failing(suite.currentSpecReport.State) || suite.currentSpecReport.State == types.SpecStateSkipped || suite.currentSpecReport.State == types.SpecStatePending
  requires not-stopped-early: rAtt > 0 ==> attemptsOver(curG, cur())
  requires no-better-than-its-last-attempt: rAtt > 0 && suite.currentSpecReport.State == types.SpecStatePassed ==> rLast == types.SpecStatePassed
  requires failure-kept: rAtt > 0 && failing(rLast) ==> failing(suite.currentSpecReport.State)
  requires pending-or-skipped-said-so: rAtt == 0 && isPending(cur()) ==> suite.currentSpecReport.State == types.SpecStatePending || failing(suite.currentSpecReport.State)
  requires skipped-said-so: rAtt == 0 && !isPending(cur()) && cur().Skip ==> suite.currentSpecReport.State == types.SpecStateSkipped || failing(suite.currentSpecReport.State)
  requires isState(suite.currentSpecReport.State)
  modifies suite.report, suite.skipAll, rAnnounced, rReported, rAtt, rLast, rFailed, rOnceNow, rOnce, elemheap(types.SpecReport)
  ensures reported-once: !rAnnounced && rReported == old(rReported) + 1 && rAtt == 0 && rLast == types.SpecStateInvalid
  ensures rFailed == (old(rFailed) || failing(suite.currentSpecReport.State))
  ensures rOnce == (old(rOnce) || (old(rOnceNow) && failing(suite.currentSpecReport.State))) && !rOnceNow
  ensures a-failure-fails-the-suite: suite.report.SuiteSucceeded == (old(suite.report.SuiteSucceeded) && !failing(suite.currentSpecReport.State))
  ensures rest-skipped-after: suite.skipAll == (old(suite.skipAll) || (failing(suite.currentSpecReport.State) && (suite.config.FailFast || suite.currentSpecReport.State == types.SpecStateAborted)))
  ensures in-the-report: len(suite.report.SpecReports) == old(len(suite.report.SpecReports)) + 1 && suite.report.SpecReports[old(len(suite.report.SpecReports))] == suite.currentSpecReport
func internal.(*group).initialReportForSpec(g, spec) (r)
  requires g != nil && g.suite != nil
  ensures r.State == types.SpecStateInvalid && r.NumAttempts == 0 && r.LeafNodeType == types.NodeTypeIt
  ensures r.MaxFlakeAttempts == flk(spec) && r.MaxMustPassRepeatedly == rep(spec)
  ensures r.LeafNodeText == subject(spec).Text && r.LeafNodeLocation == subject(spec).CodeLocation
func internal.(Nodes).Texts(n) (r)
  trusted
func internal.(Nodes).Labels(n) (r)
  trusted
func internal.(*group).run(g, specs)
  effort 2
  requires g != nil && g.suite != nil && g.suite.selectiveLock != nil && !held(g.suite.selectiveLock) && curG == g && len(specs) > 0 && g.runOncePairs != nil && g.runOnceTracker != nil
  requires a-fresh-group: g.succeeded && !g.failedInARunOnceBefore && rReported == 0 && !rAnnounced && rAtt == 0 && !rFailed && !rOnce && !rOnceNow
  locks
  modifies g.specs, g.continueOnFailure, g.succeeded, g.failedInARunOnceBefore, contents(g.runOncePairs), contents(g.runOnceTracker), elemheap(types.AdditionalFailure), elemheap(types.SpecReport)
  modifies g.suite.currentNode, g.suite.currentNodeStartTime, g.suite.currentSpecContext, g.suite.currentByStep, g.suite.timelineOrder, g.suite.cleanupNodes, g.suite.currentSpecReport, g.suite.report, g.suite.skipAll
  modifies rAnnounced, rReported, rAtt, rLast, rFailed, rOnceNow, rOnce, gIntr
  ensures every-spec-reported-once: rReported == len(specs) && !rAnnounced
  ensures verdict: rFailed ==> !g.succeeded
  ensures suite-verdict: g.suite.report.SuiteSucceeded == (old(g.suite.report.SuiteSucceeded) && !rFailed)
  cand $i: int :: rReported == $i && !rAnnounced && rAtt == 0
  cand rReported < len(specs) && rAnnounced
  cand g.suite.report.SuiteSucceeded == (old(g.suite.report.SuiteSucceeded) && !rFailed)
  cand rFailed ==> !g.succeeded
  cand rOnce ==> rFailed && g.failedInARunOnceBefore
  cand !rOnceNow
  cand !rOnce
  cand @b: bool :: rOnceNow == @b
  cand !rFailed ==> g.succeeded && !g.failedInARunOnceBefore
  cand g.specs == specs && g.continueOnFailure == outerOrdered(specs[0].Nodes).MarkedContinueOnFailure
  cand $a: int :: rAtt == $a && rAtt <= allowed(g, cur())
  cand rAtt == g.suite.currentSpecReport.NumAttempts
  cand rAtt > 0 ==> rLast == g.suite.currentSpecReport.State
  cand rAtt > 0 && rAtt < allowed(g, cur()) ==> !attemptsOver(g, cur())
  cand !held(g.suite.selectiveLock)
  cand $m: int :: $m == allowed(g, cur())
  cand !isPending(cur()) && !cur().Skip && !g.suite.config.DryRun && !g.suite.skipAll
  cand rFailed ==> g.continueOnFailure
  cand isState(g.suite.currentSpecReport.State)
  cand (g.suite.currentSpecReport.MaxMustPassRepeatedly > 0) == repeatMode(g, cur())
  cand (g.suite.currentSpecReport.MaxFlakeAttempts > 0) == flakeMode(g, cur())
