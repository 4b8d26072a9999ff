# C19  Report model: filters, counts and enums are faithful
include strings
include lib
client c19.go

# ---- counting and filtering
fn cntState(a array[int,types.SpecReport], n int, st types.SpecState) int = ite(n <= 0, 0, cntState(a, n - 1, st) + ite((a[n - 1].State & st) != 0, 1, 0))
fn cntType(a array[int,types.SpecReport], n int, nt types.NodeType) int = ite(n <= 0, 0, cntType(a, n - 1, nt) + ite((a[n - 1].LeafNodeType & nt) != 0, 1, 0))
pred flaked(r types.SpecReport) bool = r.MaxFlakeAttempts > 1 && r.State == types.SpecStatePassed && r.NumAttempts > 1
pred repeated(r types.SpecReport) bool = r.MaxMustPassRepeatedly > 1 && failing(r.State) && r.NumAttempts > 1
pred failing(s types.SpecState) bool = (s & (types.SpecStateFailed | types.SpecStateTimedout | types.SpecStateAborted | types.SpecStatePanicked | types.SpecStateInterrupted)) != 0

lemma cntStateNonneg(a array[int,types.SpecReport], n int, st types.SpecState)
  ensures 0 <= cntState(a, n, st)
  induct n
  trigger cntState(a, n, st)
  auto
lemma cntStateMono(a array[int,types.SpecReport], k int, n int, st types.SpecState)
  requires k <= n
  ensures cntState(a, k, st) <= cntState(a, n, st)
  ensures k >= 0 && k < n && (a[k].State & st) != 0 ==> cntState(a, k, st) < cntState(a, n, st)
  induct n
  trigger cntState(a, k, st), cntState(a, n, st)
  auto
lemma cntTypeNonneg(a array[int,types.SpecReport], n int, nt types.NodeType)
  ensures 0 <= cntType(a, n, nt)
  induct n
  trigger cntType(a, n, nt)
  auto
lemma cntTypeMono(a array[int,types.SpecReport], k int, n int, nt types.NodeType)
  requires k <= n
  ensures cntType(a, k, nt) <= cntType(a, n, nt)
  ensures k >= 0 && k < n && (a[k].LeafNodeType & nt) != 0 ==> cntType(a, k, nt) < cntType(a, n, nt)
  induct n
  trigger cntType(a, k, nt), cntType(a, n, nt)
  auto

func types.(SpecReports).WithState(reports, states) (out)
  ensures only-and-all-counted: len(out) == cntState(elems(reports), len(reports), states)
  ensures in-order: forall i int {reports[i]} :: 0 <= i && i < len(reports) && (reports[i].State & states) != 0 ==> out[cntState(elems(reports), i, states)] == reports[i]
  cand $i: int, @c: int :: @c == cntState(elems(reports), $i, states)
  cand $i: int, @o: []types.SpecReport :: len(@o) == cntState(elems(reports), $i, states)
  cand @o: []types.SpecReport :: len(@o) == cntState(elems(reports), len(reports), states)
  cand $i: int, @o: []types.SpecReport :: forall k int {cntState(elems(reports), k, states)} :: 0 <= k && k < $i && (reports[k].State & states) != 0 ==> @o[cntState(elems(reports), k, states)] == reports[k]
func types.(SpecReports).WithLeafNodeType(reports, nodeTypes) (out)
  ensures only-and-all-counted: len(out) == cntType(elems(reports), len(reports), nodeTypes)
  ensures in-order: forall i int {reports[i]} :: 0 <= i && i < len(reports) && (reports[i].LeafNodeType & nodeTypes) != 0 ==> out[cntType(elems(reports), i, nodeTypes)] == reports[i]
  cand $i: int, @c: int :: @c == cntType(elems(reports), $i, nodeTypes)
  cand $i: int, @o: []types.SpecReport :: len(@o) == cntType(elems(reports), $i, nodeTypes)
  cand @o: []types.SpecReport :: len(@o) == cntType(elems(reports), len(reports), nodeTypes)
  cand $i: int, @o: []types.SpecReport :: forall k int {cntType(elems(reports), k, nodeTypes)} :: 0 <= k && k < $i && (reports[k].LeafNodeType & nodeTypes) != 0 ==> @o[cntType(elems(reports), k, nodeTypes)] == reports[k]
func types.(SpecReports).CountWithState(reports, states) (n)
  ensures counts: n == cntState(elems(reports), len(reports), states)
  cand $i: int, @c: int :: @c == cntState(elems(reports), $i, states)
fn cntFlaked(a array[int,types.SpecReport], n int) int = ite(n <= 0, 0, cntFlaked(a, n - 1) + ite(a[n - 1].MaxFlakeAttempts > 1 && (a[n - 1].State & types.SpecStatePassed) != 0 && a[n - 1].NumAttempts > 1, 1, 0))
fn cntRepeated(a array[int,types.SpecReport], n int) int = ite(n <= 0, 0, cntRepeated(a, n - 1) + ite(repeated(a[n - 1]), 1, 0))
func types.(SpecReports).CountOfFlakedSpecs(reports) (n)
  ensures counts: n == cntFlaked(elems(reports), len(reports))
  cand $i: int, @c: int :: @c == cntFlaked(elems(reports), $i)
func types.(SpecReports).CountOfRepeatedSpecs(reports) (n)
  ensures counts: n == cntRepeated(elems(reports), len(reports))
  cand $i: int, @c: int :: @c == cntRepeated(elems(reports), $i)
func types.(SpecReport).Failed(report) (r)
  ensures r == failing(report.State)

# ---- text and labels
func types.(SpecReport).FullText(report) (s)
  ensures container-text: report.LeafNodeText == "" ==> s == joined(elems(report.ContainerHierarchyTexts), len(report.ContainerHierarchyTexts), " ")
  ensures leaf-text: report.LeafNodeText != "" ==> s == joined(store(elems(report.ContainerHierarchyTexts), len(report.ContainerHierarchyTexts), report.LeafNodeText), len(report.ContainerHierarchyTexts) + 1, " ")
# an arbitrary label
ghost probe string
pred noLabelIs(report types.SpecReport, v string) bool = (forall k int {report.LeafNodeLabels[k]} :: 0 <= k && k < len(report.LeafNodeLabels) ==> report.LeafNodeLabels[k] != v)
  && (forall c int, k int {report.ContainerHierarchyLabels[c][k]} :: 0 <= c && c < len(report.ContainerHierarchyLabels) && 0 <= k && k < len(report.ContainerHierarchyLabels[c]) ==> report.ContainerHierarchyLabels[c][k] != v)
func types.(SpecReport).Labels(report) (out)
  ensures leaf-labels: forall k int {report.LeafNodeLabels[k]} :: 0 <= k && k < len(report.LeafNodeLabels) ==> listed(out, report.LeafNodeLabels[k])
  ensures container-labels: forall c int, k int {report.ContainerHierarchyLabels[c][k]} :: 0 <= c && c < len(report.ContainerHierarchyLabels) && 0 <= k && k < len(report.ContainerHierarchyLabels[c]) ==> listed(out, report.ContainerHierarchyLabels[c][k])
  ensures nothing-invented: old(noLabelIs(report, probe)) ==> (forall j int {out[j]} :: 0 <= j && j < len(out) ==> out[j] != probe)
  ensures once-each: forall i int, j int {out[i], out[j]} :: 0 <= i && i < j && j < len(out) ==> out[i] != out[j]
  cand @o: []string, @m: map[string]bool :: forall x string {@m[x]} :: @m[x] ==> listed(@o, x)
  cand @o: []string, @m: map[string]bool :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> @m[@o[j]]
  cand @o: []string :: forall i int, j int {@o[i], @o[j]} :: 0 <= i && i < j && j < len(@o) ==> @o[i] != @o[j]
  cand $i: int, @m: map[string]bool :: forall c int, k int {report.ContainerHierarchyLabels[c][k]} :: 0 <= c && c < $i && 0 <= k && k < len(report.ContainerHierarchyLabels[c]) ==> @m[report.ContainerHierarchyLabels[c][k]]
  cand @m: map[string]bool :: forall c int, k int {report.ContainerHierarchyLabels[c][k]} :: 0 <= c && c < len(report.ContainerHierarchyLabels) && 0 <= k && k < len(report.ContainerHierarchyLabels[c]) ==> @m[report.ContainerHierarchyLabels[c][k]]
  cand $i: int, $j: int, @m: map[string]bool :: forall k int {report.ContainerHierarchyLabels[$j][k]} :: 0 <= k && k < $i ==> @m[report.ContainerHierarchyLabels[$j][k]]
  cand $i: int, @m: map[string]bool :: forall k int {report.LeafNodeLabels[k]} :: 0 <= k && k < $i && k < len(report.LeafNodeLabels) ==> @m[report.LeafNodeLabels[k]]
  cand @o: []string :: old(noLabelIs(report, probe)) ==> (forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> @o[j] != probe)

# ---- enumerations
decl jsonString(a array[int,byte], n int) bool
decl jsonNull(a array[int,byte], n int) bool
decl jsonValue(a array[int,byte], n int) string
ext encoding/json.Marshal(v) (b, err)
  ensures err == nil
  ensures typeIs(v, string) ==> jsonString(elems(b), len(b)) && jsonValue(elems(b), len(b)) == unbox(v, string)
  ensures v == nil ==> jsonNull(elems(b), len(b))
ext encoding/json.Unmarshal(b, v) (err)
  requires typeIs(v, *string)
  modifies *unbox(v, *string)
  ensures jsonString(elems(b), len(b)) ==> err == nil && *unbox(v, *string) == jsonValue(elems(b), len(b))
  ensures jsonNull(elems(b), len(b)) ==> err == nil && *unbox(v, *string) == old(*unbox(v, *string))

# every value of the table has a name of its own, which is not empty
pred wellFormed(es types.EnumSupport) bool = es.toString != nil && es.toEnum != nil && has(es.toString, 0) && !has(es.toEnum, "")
  && (forall k uint {has(es.toString, k)} :: has(es.toString, k) ==> has(es.toEnum, es.toString[k]) && es.toEnum[es.toString[k]] == k && es.toString[k] != "" && k <= es.maxEnum)
pred distinctNames(m map[uint]string) bool = m != nil && has(m, 0) && (forall k uint {has(m, k)} :: has(m, k) ==> m[k] != "") && (forall k uint, l uint {has(m, k), has(m, l)} :: has(m, k) && has(m, l) && m[k] == m[l] ==> k == l)
func types.NewEnumSupport(toString) (es)
  ensures same-table: es.toString == toString
  ensures table: distinctNames(toString) ==> es.toEnum != nil && has(es.toString, 0) && !has(es.toEnum, "")
  ensures inverse: distinctNames(toString) ==> (forall k uint {has(toString, k)} :: has(toString, k) ==> has(es.toEnum, toString[k]) && es.toEnum[toString[k]] == k && toString[k] != "")
  ensures max: forall k uint {has(toString, k)} :: has(toString, k) ==> k <= es.maxEnum
  cand $v: array[uint,bool], @m: map[string]uint :: distinctNames(toString) ==> (forall k uint {has(toString, k)} :: $v[k] ==> has(@m, toString[k]) && @m[toString[k]] == k)
  cand $v: array[uint,bool], $x: uint :: forall k uint {has(toString, k)} :: $v[k] ==> k <= $x
  cand @m: map[string]uint :: distinctNames(toString) ==> !has(@m, "")
  cand $v: array[uint,bool] :: forall k uint {$v[k]} :: $v[k] ==> has(toString, k)

func types.(EnumSupport).String(es, e) (s)
  ensures named: wellFormed(es) && has(es.toString, e) ==> s == es.toString[e]
  ensures unknown: wellFormed(es) && e > es.maxEnum ==> s == es.toString[0]
func types.goverEnumRoundTrip(es, e) (r)
  ensures round-trip: wellFormed(es) && has(es.toString, e) ==> r == e

# the tables of this package, as the package's own initialisation builds them
func types.init()
  modifies everything
  ensures SpecState: wellFormed(types.ssEnumSupport) && has(types.ssEnumSupport.toString, types.SpecStatePending) && has(types.ssEnumSupport.toString, types.SpecStateSkipped) && has(types.ssEnumSupport.toString, types.SpecStatePassed) && has(types.ssEnumSupport.toString, types.SpecStateFailed) && has(types.ssEnumSupport.toString, types.SpecStateAborted) && has(types.ssEnumSupport.toString, types.SpecStatePanicked) && has(types.ssEnumSupport.toString, types.SpecStateInterrupted) && has(types.ssEnumSupport.toString, types.SpecStateTimedout)
  ensures NodeType: wellFormed(types.ntEnumSupport) && has(types.ntEnumSupport.toString, types.NodeTypeContainer) && has(types.ntEnumSupport.toString, types.NodeTypeIt) && has(types.ntEnumSupport.toString, types.NodeTypeBeforeEach) && has(types.ntEnumSupport.toString, types.NodeTypeJustBeforeEach) && has(types.ntEnumSupport.toString, types.NodeTypeAfterEach) && has(types.ntEnumSupport.toString, types.NodeTypeJustAfterEach) && has(types.ntEnumSupport.toString, types.NodeTypeBeforeAll) && has(types.ntEnumSupport.toString, types.NodeTypeAfterAll) && has(types.ntEnumSupport.toString, types.NodeTypeBeforeSuite) && has(types.ntEnumSupport.toString, types.NodeTypeSynchronizedBeforeSuite) && has(types.ntEnumSupport.toString, types.NodeTypeAfterSuite) && has(types.ntEnumSupport.toString, types.NodeTypeSynchronizedAfterSuite) && has(types.ntEnumSupport.toString, types.NodeTypeReportBeforeEach) && has(types.ntEnumSupport.toString, types.NodeTypeReportAfterEach) && has(types.ntEnumSupport.toString, types.NodeTypeReportBeforeSuite) && has(types.ntEnumSupport.toString, types.NodeTypeReportAfterSuite) && has(types.ntEnumSupport.toString, types.NodeTypeCleanupInvalid) && has(types.ntEnumSupport.toString, types.NodeTypeCleanupAfterEach) && has(types.ntEnumSupport.toString, types.NodeTypeCleanupAfterAll) && has(types.ntEnumSupport.toString, types.NodeTypeCleanupAfterSuite)
  ensures SpecEventType: wellFormed(types.seEnumSupport) && has(types.seEnumSupport.toString, types.SpecEventByStart) && has(types.seEnumSupport.toString, types.SpecEventByEnd) && has(types.seEnumSupport.toString, types.SpecEventNodeStart) && has(types.seEnumSupport.toString, types.SpecEventNodeEnd) && has(types.seEnumSupport.toString, types.SpecEventSpecRepeat) && has(types.seEnumSupport.toString, types.SpecEventSpecRetry)
  ensures FailureNodeContext: wellFormed(types.fncEnumSupport) && has(types.fncEnumSupport.toString, types.FailureNodeIsLeafNode) && has(types.fncEnumSupport.toString, types.FailureNodeAtTopLevel) && has(types.fncEnumSupport.toString, types.FailureNodeInContainer)
  ensures ReportEntryVisibility: wellFormed(types.revEnumSupport) && has(types.revEnumSupport.toString, types.ReportEntryVisibilityAlways) && has(types.revEnumSupport.toString, types.ReportEntryVisibilityFailureOrVerbose) && has(types.revEnumSupport.toString, types.ReportEntryVisibilityNever)
# given those tables, every declared value survives
func types.goverSpecState(v) (r)
  requires wellFormed(types.ssEnumSupport) && has(types.ssEnumSupport.toString, v)
  ensures round-trip: r == v
func types.goverSpecStateText(v) (s)
  requires wellFormed(types.ssEnumSupport) && has(types.ssEnumSupport.toString, v)
  ensures named: s == types.ssEnumSupport.toString[v]

func types.goverNodeType(v) (r)
  requires wellFormed(types.ntEnumSupport) && has(types.ntEnumSupport.toString, v)
  ensures round-trip: r == v
func types.goverNodeTypeText(v) (s)
  requires wellFormed(types.ntEnumSupport) && has(types.ntEnumSupport.toString, v)
  ensures named: s == types.ntEnumSupport.toString[v]

func types.goverSpecEventType(v) (r)
  requires wellFormed(types.seEnumSupport) && has(types.seEnumSupport.toString, v)
  ensures round-trip: r == v
func types.goverSpecEventTypeText(v) (s)
  requires wellFormed(types.seEnumSupport) && has(types.seEnumSupport.toString, v)
  ensures named: s == types.seEnumSupport.toString[v]

func types.goverFailureNodeContext(v) (r)
  requires wellFormed(types.fncEnumSupport) && has(types.fncEnumSupport.toString, v)
  ensures round-trip: r == v
func types.goverFailureNodeContextText(v) (s)
  requires wellFormed(types.fncEnumSupport) && has(types.fncEnumSupport.toString, v)
  ensures named: s == types.fncEnumSupport.toString[v]

func types.goverReportEntryVisibility(v) (r)
  requires wellFormed(types.revEnumSupport) && has(types.revEnumSupport.toString, v)
  ensures round-trip: r == v
func types.goverReportEntryVisibilityText(v) (s)
  requires wellFormed(types.revEnumSupport) && has(types.revEnumSupport.toString, v)
  ensures named: s == types.revEnumSupport.toString[v]

# ---- failure queries
func types.(SpecReport).FailureMessage(report) (s)
  ensures s == report.Failure.Message
func types.(SpecReport).FailureLocation(report) (s)
  ensures s == report.Failure.Location
func types.(SpecReport).FileName(report) (s)
  ensures s == report.LeafNodeLocation.FileName
func types.(SpecReport).LineNumber(report) (s)
  ensures s == report.LeafNodeLocation.LineNumber
