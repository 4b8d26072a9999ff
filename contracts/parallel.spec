# shared by C04 C11 C12: the parallel server's handler and its collaborators
guard parallel_support.ServerHandler.lock: beforeSuiteState, reportBeforeSuiteState, shouldAbort, numSuiteDidBegins, numSuiteDidEnds, aggregatedReport, reportHoldingArea
guard parallel_support.ServerHandler.counterLock: counter

# observable output of the reporter, as a log
ghost evs array[int,Event]
ghost nev int
ghost willPending bool
ghost willReport types.SpecReport
decl evBegin(r types.Report) Event
decl evRun(r types.SpecReport) Event
decl evEnd(r types.Report) Event

invoke reporters.Reporter.SuiteWillBegin(r, report)
  requires no-spec-pending: !willPending
  modifies evs, nev
  ensures nev == old(nev) + 1 && evs == store(old(evs), old(nev), evBegin(report))

invoke reporters.Reporter.WillRun(r, report)
  requires no-spec-pending: !willPending
  modifies willPending, willReport
  ensures willPending && willReport == report

invoke reporters.Reporter.DidRun(r, report)
  requires announced-first: willPending && willReport == report
  modifies willPending, evs, nev
  ensures !willPending
  ensures nev == old(nev) + 1 && evs == store(old(evs), old(nev), evRun(report))

invoke reporters.Reporter.SuiteDidEnd(r, report)
  requires no-spec-pending: !willPending
  modifies evs, nev
  ensures nev == old(nev) + 1 && evs == store(old(evs), old(nev), evEnd(report))

pureftype func() bool
