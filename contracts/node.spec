include lib
fn hasLabel(a array[int,internal.Node], n int, v string) bool = exists k int {a[k]} :: 0 <= k && k < n && listed(a[k].Labels, v)
pred carries(n []internal.Node, v string) bool = hasLabel(elems(n), len(n), v)

func internal.(Nodes).HasNodeMarkedPending(n) (r)
  ensures r == (exists k int {n[k]} :: 0 <= k && k < len(n) && n[k].MarkedPending)
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> !n[k].MarkedPending
func internal.(Nodes).HasNodeMarkedFocus(n) (r)
  ensures r == (exists k int {n[k]} :: 0 <= k && k < len(n) && n[k].MarkedFocus)
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> !n[k].MarkedFocus
func internal.(Nodes).HasNodeMarkedSerial(n) (r)
  ensures r == (exists k int {n[k]} :: 0 <= k && k < len(n) && n[k].MarkedSerial)
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> !n[k].MarkedSerial
func internal.(Nodes).CodeLocations(n) (out)
  ensures len(out) == len(n) && fresh(ref(out))
  ensures forall k int {out[k]} {n[k]} :: 0 <= k && k < len(n) ==> out[k] == n[k].CodeLocation
  cand $i: int, @o: []types.CodeLocation :: forall k int {@o[k]} :: 0 <= k && k < $i ==> @o[k] == n[k].CodeLocation
  cand @o: []types.CodeLocation :: len(@o) == len(n)
func internal.(Nodes).UnionOfLabels(n) (out)
  ensures fresh(ref(out)) || cap(out) == 0
  ensures exactly: forall v string {listed(out, v)} :: listed(out, v) == old(carries(n, v))
  ensures once-each: forall i int, j int {out[i], out[j]} :: 0 <= i && i < j && j < len(out) ==> out[i] != out[j]
  cand @o: []string :: fresh(ref(@o)) || cap(@o) == 0
  cand @o: []string, @m: map[string]bool :: forall x string {@m[x]} :: @m[x] ==> listed(@o, x)
  cand @o: []string, @m: map[string]bool :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> @m[@o[j]]
  cand @o: []string :: forall i int, j int {@o[i], @o[j]} :: 0 <= i && i < j && j < len(@o) ==> @o[i] != @o[j]
  cand @m: map[string]bool :: forall x string {@m[x]} :: @m[x] ==> old(carries(n, x))
  cand $i: int, @m: map[string]bool :: forall c int, k int {n[c].Labels[k]} :: 0 <= c && c < $i && 0 <= k && k < len(n[c].Labels) ==> @m[n[c].Labels[k]]
  cand $i: int, $j: int, @m: map[string]bool :: forall k int {n[$j].Labels[k]} :: 0 <= k && k < $i ==> @m[n[$j].Labels[k]]
fn texts(a array[int,internal.Node], n int) string = ite(n <= 0, "", ite(a[n - 1].Text == "", texts(a, n - 1), ite(texts(a, n - 1) == "", a[n - 1].Text, texts(a, n - 1) + " " + a[n - 1].Text)))
