# C11  Parallel reports are aggregated without loss
include parallel
include lib

func parallel_support.newServerHandler(parallelTotal, reporter) (h)
  ensures empty: h != nil && h.lock != nil && h.numSuiteDidBegins == 0 && h.numSuiteDidEnds == 0 && len(h.reportHoldingArea) == 0 && h.parallelTotal == parallelTotal && h.reporter == reporter

func parallel_support.(*ServerHandler).SpecSuiteWillBegin(handler, report, void) (err)
  requires handler != nil && handler.lock != nil && !willPending
  locks
  modifies handler.numSuiteDidBegins, handler.reportHoldingArea, evs, nev, willPending, willReport
  ensures ok: err == nil
  ensures counts: handler.numSuiteDidBegins == old(handler.numSuiteDidBegins) + 1
  ensures not-yet: handler.numSuiteDidBegins != handler.parallelTotal ==> nev == old(nev) && evs == old(evs) && handler.reportHoldingArea == old(handler.reportHoldingArea)
  ensures how-many: handler.numSuiteDidBegins == handler.parallelTotal ==> nev == old(nev) + 1 + old(len(handler.reportHoldingArea)) && len(handler.reportHoldingArea) == 0
  ensures starts: handler.numSuiteDidBegins == handler.parallelTotal ==> evs[old(nev)] == evBegin(report)
  ensures forwards-held: handler.numSuiteDidBegins == handler.parallelTotal ==> (forall k int {evs[k]} :: old(nev) + 1 <= k && k < nev ==> evs[k] == evRun(old(handler.reportHoldingArea[k - nev - 1])))
  ensures keeps-history: forall k int {evs[k]} :: k < old(nev) ==> evs[k] == old(evs)[k]
  ensures !willPending
  cand $i: int :: nev == entry(nev) + $i
  cand $i: int, @h: []types.SpecReport :: forall k int {evs[k]} :: entry(nev) <= k && k < nev ==> evs[k] == evRun(@h[k - entry(nev)])
  cand forall k int {evs[k]} :: k < entry(nev) ==> evs[k] == entry(evs)[k]
  cand !willPending

func parallel_support.(*ServerHandler).DidRun(handler, report, void) (err)
  requires handler != nil && handler.lock != nil && !willPending
  locks
  modifies handler.reportHoldingArea, elems(handler.reportHoldingArea), evs, nev, willPending, willReport
  ensures ok: err == nil
  ensures forwarded: handler.numSuiteDidBegins == handler.parallelTotal ==> nev == old(nev) + 1 && evs == store(old(evs), old(nev), evRun(report)) && handler.reportHoldingArea == old(handler.reportHoldingArea)
  ensures held: handler.numSuiteDidBegins != handler.parallelTotal ==> nev == old(nev) && evs == old(evs)
     && len(handler.reportHoldingArea) == old(len(handler.reportHoldingArea)) + 1 && handler.reportHoldingArea[old(len(handler.reportHoldingArea))] == report
  ensures held-kept: forall i int {handler.reportHoldingArea[i]} :: 0 <= i && i < old(len(handler.reportHoldingArea)) ==> handler.reportHoldingArea[i] == old(handler.reportHoldingArea[i])
  ensures !willPending

# instants in time are totally ordered; Before/After compare them (assumed of package time)
decl instant(t time.Time) int
ext (time.Time).Before(t, u) (r)
  pure
  ensures r == (instant(t) < instant(u))
ext (time.Time).After(t, u) (r)
  pure
  ensures r == (instant(t) > instant(u))
ext (time.Time).Equal(t, u) (r)
  pure
  ensures r == (instant(t) == instant(u))

pred isSum(r types.Report, a types.Report, b types.Report) bool =
   r.SuiteSucceeded == (a.SuiteSucceeded && b.SuiteSucceeded)
   && len(r.SpecReports) == len(a.SpecReports) + len(b.SpecReports)
   && (forall i int {r.SpecReports[i]} :: 0 <= i && i < len(a.SpecReports) ==> r.SpecReports[i] == a.SpecReports[i])
   && (forall i int {r.SpecReports[i]} :: len(a.SpecReports) <= i && i < len(r.SpecReports) ==> r.SpecReports[i] == b.SpecReports[i - len(a.SpecReports)])
   && (r.StartTime == a.StartTime || r.StartTime == b.StartTime) && instant(r.StartTime) <= instant(a.StartTime) && instant(r.StartTime) <= instant(b.StartTime)
   && (r.EndTime == a.EndTime || r.EndTime == b.EndTime) && instant(r.EndTime) >= instant(a.EndTime) && instant(r.EndTime) >= instant(b.EndTime)
   && (forall i int {a.SpecialSuiteFailureReasons[i]} :: 0 <= i && i < len(a.SpecialSuiteFailureReasons) ==> listed(r.SpecialSuiteFailureReasons, a.SpecialSuiteFailureReasons[i]))
   && (forall i int {b.SpecialSuiteFailureReasons[i]} :: 0 <= i && i < len(b.SpecialSuiteFailureReasons) ==> listed(r.SpecialSuiteFailureReasons, b.SpecialSuiteFailureReasons[i]))
   && (forall i int {r.SpecialSuiteFailureReasons[i]} :: 0 <= i && i < len(r.SpecialSuiteFailureReasons) ==> listed(a.SpecialSuiteFailureReasons, r.SpecialSuiteFailureReasons[i]) || listed(b.SpecialSuiteFailureReasons, r.SpecialSuiteFailureReasons[i]))


func types.(Report).Add(report, other) (r)
  ensures sum: isSum(r, report, other)
  ensures suite-identity: r.SuitePath == report.SuitePath && r.SuiteDescription == report.SuiteDescription && r.SuiteLabels == report.SuiteLabels && r.SuiteConfig == report.SuiteConfig && r.SuiteHasProgrammaticFocus == report.SuiteHasProgrammaticFocus && r.PreRunStats == report.PreRunStats
  cand @o: []string, @m: map[string]bool :: forall x string {@m[x]} :: @m[x] ==> listed(@o, x)
  cand @m: map[string]bool, @s: []string, $i: int :: forall j int {@s[j]} :: 0 <= j && j < $i && j < len(@s) ==> @m[@s[j]]
  cand @o: []string :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> listed(report.SpecialSuiteFailureReasons, @o[j]) || listed(other.SpecialSuiteFailureReasons, @o[j])
  cand @d: []types.SpecReport :: forall k int {@d[k]} :: 0 <= k && k < len(report.SpecReports) ==> @d[k] == report.SpecReports[k]
  cand $i: int, @d: []types.SpecReport :: forall k int {@d[k]} :: len(report.SpecReports) <= k && k < len(report.SpecReports) + $i ==> @d[k] == other.SpecReports[k - len(report.SpecReports)]
  cand @m: map[string]bool, @s: []string :: forall j int {@s[j]} :: 0 <= j && j < len(@s) ==> @m[@s[j]]
  cand $i: int, @m: map[string]bool :: $i >= 1 ==> (forall j int {report.SpecialSuiteFailureReasons[j]} :: 0 <= j && j < len(report.SpecialSuiteFailureReasons) ==> @m[report.SpecialSuiteFailureReasons[j]])
  cand $i: int, @m: map[string]bool :: $i >= 2 ==> (forall j int {other.SpecialSuiteFailureReasons[j]} :: 0 <= j && j < len(other.SpecialSuiteFailureReasons) ==> @m[other.SpecialSuiteFailureReasons[j]])

func parallel_support.(*ServerHandler).SpecSuiteDidEnd(handler, report, void) (err)
  requires handler != nil && handler.lock != nil && !willPending
  locks
  modifies handler.numSuiteDidEnds, handler.aggregatedReport, evs, nev
  ensures ok: err == nil
  ensures counts: handler.numSuiteDidEnds == old(handler.numSuiteDidEnds) + 1
  ensures first: old(handler.numSuiteDidEnds) == 0 ==> handler.aggregatedReport == report
  ensures adds: old(handler.numSuiteDidEnds) != 0 ==> isSum(handler.aggregatedReport, old(handler.aggregatedReport), report)
  ensures emits-once: handler.numSuiteDidEnds == handler.parallelTotal ==> nev == old(nev) + 1 && evs == store(old(evs), old(nev), evEnd(handler.aggregatedReport))
  ensures not-yet: handler.numSuiteDidEnds != handler.parallelTotal ==> nev == old(nev) && evs == old(evs)
