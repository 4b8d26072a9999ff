# lists of nodes: queries, filters, orderings
include node
pred isType(n internal.Node, t types.NodeType) bool = (n.NodeType & t) != 0
pred isTear(n internal.Node) bool = isType(n, types.NodeTypeAfterEach | types.NodeTypeJustAfterEach | types.NodeTypeAfterAll | types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterAll)
fn allTear(a array[int,internal.Node], n int) bool = forall k int {a[k]} :: 0 <= k && k < n ==> isTear(a[k])
fn amongNodes(a array[int,internal.Node], n int, x internal.Node) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k] == x
fn cntOf(a array[int,internal.Node], n int, t types.NodeType) int = ite(n <= 0, 0, cntOf(a, n - 1, t) + ite((a[n - 1].NodeType & t) != 0, 1, 0))
lemma cntOfNonneg(a array[int,internal.Node], n int, t types.NodeType)
  ensures 0 <= cntOf(a, n, t)
  induct n
  trigger cntOf(a, n, t)
  auto
lemma cntOfMono(a array[int,internal.Node], k int, n int, t types.NodeType)
  requires k <= n
  ensures cntOf(a, k, t) <= cntOf(a, n, t)
  ensures k >= 0 && k < n && (a[k].NodeType & t) != 0 ==> cntOf(a, k, t) < cntOf(a, n, t)
  induct n
  trigger cntOf(a, k, t), cntOf(a, n, t)
  auto
fn cntNot(a array[int,internal.Node], n int, t types.NodeType) int = ite(n <= 0, 0, cntNot(a, n - 1, t) + ite((a[n - 1].NodeType & t) == 0, 1, 0))
lemma cntNotNonneg(a array[int,internal.Node], n int, t types.NodeType)
  ensures 0 <= cntNot(a, n, t)
  induct n
  trigger cntNot(a, n, t)
  auto
lemma cntNotMono(a array[int,internal.Node], k int, n int, t types.NodeType)
  requires k <= n
  ensures cntNot(a, k, t) <= cntNot(a, n, t)
  ensures k >= 0 && k < n && (a[k].NodeType & t) == 0 ==> cntNot(a, k, t) < cntNot(a, n, t)
  induct n
  trigger cntNot(a, k, t), cntNot(a, n, t)
  auto

fn firstNodeFrom(a array[int,internal.Node], i int, n int, t types.NodeType) internal.Node = ite(i >= n, zero(internal.Node), ite((a[i].NodeType & t) != 0, a[i], firstNodeFrom(a, i + 1, n, t)))
pred firstOf(a array[int,internal.Node], n int, t types.NodeType) internal.Node = firstNodeFrom(a, 0, n, t)
func internal.(Nodes).FirstNodeWithType(n, nodeTypes) (r)
  ensures the-first: r == firstOf(elems(n), len(n), nodeTypes)
  cand $i: int :: firstOf(elems(n), len(n), nodeTypes) == firstNodeFrom(elems(n), $i, len(n), nodeTypes)
fn firstOrderedFrom(a array[int,internal.Node], i int, n int) internal.Node = ite(i >= n, zero(internal.Node), ite(a[i].MarkedOrdered, a[i], firstOrderedFrom(a, i + 1, n)))
pred outerOrdered(n []internal.Node) internal.Node = firstOrderedFrom(elems(n), 0, len(n))
func internal.(Nodes).FirstNodeMarkedOrdered(n) (r)
  ensures the-outermost: r == outerOrdered(n)
  cand $i: int :: firstOrderedFrom(elems(n), 0, len(n)) == firstOrderedFrom(elems(n), $i, len(n))
func internal.(Nodes).IndexOfFirstNodeMarkedOrdered(n) (r)
  ensures none: r == -1 ==> (forall k int {n[k]} :: 0 <= k && k < len(n) ==> !n[k].MarkedOrdered)
  ensures first: r != -1 ==> 0 <= r && r < len(n) && n[r].MarkedOrdered && (forall j int {n[j]} :: 0 <= j && j < r ==> !n[j].MarkedOrdered)
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> !n[k].MarkedOrdered
func internal.(Nodes).WithType(n, nodeTypes) (out)
  effort 2
  proves counted: len(out) == cntOf(elems(n), len(n), nodeTypes)
  proves placed: forall i int {n[i]} :: 0 <= i && i < len(n) && isType(n[i], nodeTypes) ==> 0 <= cntOf(elems(n), i, nodeTypes) && amongNodes(elems(out), len(out), n[i])
  ensures keeps: forall i int {n[i]} :: 0 <= i && i < len(n) && isType(n[i], nodeTypes) ==> amongNodes(elems(out), len(out), n[i])
  ensures only-those: forall j int {out[j]} :: 0 <= j && j < len(out) ==> isType(out[j], nodeTypes)
  ensures from-there: forall j int {out[j]} :: 0 <= j && j < len(out) ==> amongNodes(old(elems(n)), len(n), out[j])
  cand @c: int, @o: []internal.Node :: forall j int {@o[j]} :: 0 <= j && j < @c ==> isType(@o[j], nodeTypes)
  cand @c: int, @o: []internal.Node :: forall j int {@o[j]} :: 0 <= j && j < @c ==> amongNodes(old(elems(n)), len(n), @o[j])
  proves in-order: forall i int {n[i]} :: 0 <= i && i < len(n) && isType(n[i], nodeTypes) ==> out[cntOf(elems(n), i, nodeTypes)] == n[i]
  ensures fresh(ref(out)) && cap(out) == len(out)
  cand $i: int, @c: int :: @c == cntOf(elems(n), $i, nodeTypes)
  cand @o: []internal.Node :: len(@o) == cntOf(elems(n), len(n), nodeTypes)
  cand $i: int, @o: []internal.Node :: forall k int {cntOf(elems(n), k, nodeTypes)} :: 0 <= k && k < $i && isType(n[k], nodeTypes) ==> @o[cntOf(elems(n), k, nodeTypes)] == n[k]
func internal.(Nodes).WithoutType(n, nodeTypes) (out)
  ensures counted: len(out) == cntNot(elems(n), len(n), nodeTypes)
  ensures in-order: forall i int {n[i]} :: 0 <= i && i < len(n) && !isType(n[i], nodeTypes) ==> out[cntNot(elems(n), i, nodeTypes)] == n[i]
  ensures fresh(ref(out)) && cap(out) == len(out)
  cand $i: int, @c: int :: @c == cntNot(elems(n), $i, nodeTypes)
  cand @o: []internal.Node :: len(@o) == cntNot(elems(n), len(n), nodeTypes)
  cand $i: int, @o: []internal.Node :: forall k int {cntNot(elems(n), k, nodeTypes)} :: 0 <= k && k < $i && !isType(n[k], nodeTypes) ==> @o[cntNot(elems(n), k, nodeTypes)] == n[k]
func internal.(Nodes).CopyAppend(n, nodes) (out)
  ensures both: len(out) == len(n) + len(nodes) && (forall k int {out[k]} {n[k]} :: 0 <= k && k < len(n) ==> out[k] == n[k]) && (forall k int {out[len(n) + k]} {nodes[k]} :: 0 <= k && k < len(nodes) ==> out[len(n) + k] == nodes[k])
  ensures own-storage: fresh(ref(out)) && cap(out) == len(out)
  cand $i: int, @o: []internal.Node :: forall k int {@o[k]} {n[k]} :: 0 <= k && k < len(n) ==> @o[k] == n[k]
  cand $i: int, @o: []internal.Node :: forall k int {@o[len(n) + k]} {nodes[k]} :: 0 <= k && k < $i ==> @o[len(n) + k] == nodes[k]
func internal.(Nodes).SplitAround(n, pivot) (left, right)
  ensures at-the-pivot: forall p int {n[p]} :: 0 <= p && p < len(n) && n[p].ID == pivot.ID && (forall j int {n[j]} :: 0 <= j && j < p ==> n[j].ID != pivot.ID) ==> len(left) == p && len(right) == len(n) - p - 1 && (forall k int {left[k]} {n[k]} :: 0 <= k && k < p ==> left[k] == n[k]) && (forall k int {right[k]} :: 0 <= k && k < len(right) ==> right[k] == n[p + 1 + k])
  ensures no-pivot: (forall j int {n[j]} :: 0 <= j && j < len(n) ==> n[j].ID != pivot.ID) ==> len(left) == len(n) && len(right) == 0
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> n[k].ID != pivot.ID
func internal.(Nodes).Reverse(n) (out)
  ensures len(out) == len(n) && fresh(ref(out)) && (forall k int {out[k]} :: 0 <= k && k < len(n) ==> out[k] == n[len(n) - 1 - k])
  cand $i: int, @o: []internal.Node :: forall k int {@o[k]} :: len(n) - $i <= k && k < len(n) ==> @o[k] == n[len(n) - 1 - k]
func internal.(Nodes).ContainsNodeID(n, id) (r)
  ensures r == (exists k int {n[k]} :: 0 <= k && k < len(n) && n[k].ID == id)
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> n[k].ID != id
fn innermostFlake(a array[int,internal.Node], n int) int = ite(n <= 0, 0, ite(a[n - 1].FlakeAttempts > 0, a[n - 1].FlakeAttempts, innermostFlake(a, n - 1)))
fn innermostRepeat(a array[int,internal.Node], n int) int = ite(n <= 0, 0, ite(a[n - 1].MustPassRepeatedly > 0, a[n - 1].MustPassRepeatedly, innermostRepeat(a, n - 1)))
func internal.(Nodes).GetMaxFlakeAttempts(n) (r)
  ensures innermost: r == innermostFlake(elems(n), len(n))
  cand $i: int, @c: int :: @c == innermostFlake(elems(n), $i)
func internal.(Nodes).GetMaxMustPassRepeatedly(n) (r)
  ensures innermost: r == innermostRepeat(elems(n), len(n))
  cand $i: int, @c: int :: @c == innermostRepeat(elems(n), $i)
func internal.(Spec).FlakeAttempts(s) (r)
  ensures innermost: r == innermostFlake(elems(s.Nodes), len(s.Nodes))
  cand $i: int, @c: int :: @c == innermostFlake(elems(s.Nodes), $i)
func internal.(Spec).MustPassRepeatedly(s) (r)
  ensures innermost: r == innermostRepeat(elems(s.Nodes), len(s.Nodes))
  cand $i: int, @c: int :: @c == innermostRepeat(elems(s.Nodes), $i)
fn cntWithin(a array[int,internal.Node], n int, l int) int = ite(n <= 0, 0, cntWithin(a, n - 1, l) + ite(a[n - 1].NestingLevel <= l, 1, 0))
lemma cntWithinNonneg(a array[int,internal.Node], n int, l int)
  ensures 0 <= cntWithin(a, n, l)
  induct n
  trigger cntWithin(a, n, l)
  auto
lemma cntWithinMono(a array[int,internal.Node], k int, n int, l int)
  requires k <= n
  ensures cntWithin(a, k, l) <= cntWithin(a, n, l)
  ensures k >= 0 && k < n && a[k].NestingLevel <= l ==> cntWithin(a, k, l) < cntWithin(a, n, l)
  induct n
  trigger cntWithin(a, k, l), cntWithin(a, n, l)
  auto
func internal.(Nodes).WithinNestingLevel(n, deepestNestingLevel) (out)
  effort 2
  proves counted: len(out) == cntWithin(elems(n), len(n), deepestNestingLevel)
  ensures fresh(ref(out)) && cap(out) == len(out)
  proves placed: forall i int {n[i]} :: 0 <= i && i < len(n) && n[i].NestingLevel <= deepestNestingLevel ==> 0 <= cntWithin(elems(n), i, deepestNestingLevel) && amongNodes(elems(out), len(out), n[i])
  ensures keeps: forall i int {n[i]} :: 0 <= i && i < len(n) && n[i].NestingLevel <= deepestNestingLevel ==> amongNodes(elems(out), len(out), n[i])
  proves in-order: forall i int {n[i]} :: 0 <= i && i < len(n) && n[i].NestingLevel <= deepestNestingLevel ==> out[cntWithin(elems(n), i, deepestNestingLevel)] == n[i]
  ensures only-those: forall j int {out[j]} :: 0 <= j && j < len(out) ==> out[j].NestingLevel <= deepestNestingLevel
  ensures from-there: forall j int {out[j]} :: 0 <= j && j < len(out) ==> amongNodes(old(elems(n)), len(n), out[j])
  ensures still-teardown: allTear(elems(n), len(n)) ==> allTear(elems(out), len(out))
  cand $i: int, @c: int :: @c == cntWithin(elems(n), $i, deepestNestingLevel)
  cand @o: []internal.Node :: len(@o) == cntWithin(elems(n), len(n), deepestNestingLevel)
  cand $i: int, @o: []internal.Node :: forall k int {cntWithin(elems(n), k, deepestNestingLevel)} :: 0 <= k && k < $i && n[k].NestingLevel <= deepestNestingLevel ==> @o[cntWithin(elems(n), k, deepestNestingLevel)] == n[k]
  cand @c: int, @o: []internal.Node :: forall j int {@o[j]} :: 0 <= j && j < @c ==> @o[j].NestingLevel <= deepestNestingLevel
  cand @c: int, @o: []internal.Node :: forall j int {@o[j]} :: 0 <= j && j < @c ==> amongNodes(old(elems(n)), len(n), @o[j])
func internal.(Nodes).SortedByAscendingNestingLevel(n) (out)
  ensures len(out) == len(n) && fresh(ref(out)) && cap(out) == len(out)
  proves outermost-first: forall i int, j int {out[i], out[j]} :: 0 <= i && i < j && j < len(out) ==> out[i].NestingLevel <= out[j].NestingLevel
  ensures keeps-all: forall k int {n[k]} :: 0 <= k && k < len(n) ==> amongNodes(elems(out), len(out), n[k])
  ensures adds-none: forall j int {out[j]} :: 0 <= j && j < len(out) ==> amongNodes(elems(n), len(n), out[j])
  ensures still-teardown: allTear(elems(n), len(n)) ==> allTear(elems(out), len(out))
func internal.(Nodes).SortedByDescendingNestingLevel(n) (out)
  ensures len(out) == len(n) && fresh(ref(out)) && cap(out) == len(out)
  proves innermost-first: forall i int, j int {out[i], out[j]} :: 0 <= i && i < j && j < len(out) ==> out[i].NestingLevel >= out[j].NestingLevel
  ensures keeps-all: forall k int {n[k]} :: 0 <= k && k < len(n) ==> amongNodes(elems(out), len(out), n[k])
  ensures adds-none: forall j int {out[j]} :: 0 <= j && j < len(out) ==> amongNodes(elems(n), len(n), out[j])
  ensures still-teardown: allTear(elems(n), len(n)) ==> allTear(elems(out), len(out))
fn firstAtFrom(a array[int,internal.Node], i int, n int, level int) internal.Node = ite(i >= n, zero(internal.Node), ite(a[i].NestingLevel == level, a[i], firstAtFrom(a, i + 1, n, level)))
func internal.(Nodes).FirstWithNestingLevel(n, level) (r)
  ensures the-first: r == firstAtFrom(elems(n), 0, len(n), level)
  cand $i: int :: firstAtFrom(elems(n), 0, len(n), level) == firstAtFrom(elems(n), $i, len(n), level)
func internal.(Nodes).WithoutNode(n, nodeToExclude) (out)
  ensures absent: (forall k int {n[k]} :: 0 <= k && k < len(n) ==> n[k].ID != nodeToExclude.ID) ==> out == n
  ensures removed: forall p int {n[p]} :: 0 <= p && p < len(n) && n[p].ID == nodeToExclude.ID && (forall j int {n[j]} :: 0 <= j && j < p ==> n[j].ID != nodeToExclude.ID) ==> len(out) == len(n) - 1 && fresh(ref(out)) && (forall k int {out[k]} {n[k]} :: 0 <= k && k < p ==> out[k] == n[k]) && (forall k int {out[k]} :: p <= k && k < len(out) ==> out[k] == n[k + 1])
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> n[k].ID != nodeToExclude.ID
  cand $i: int, @p: int, @c: int :: @c == ite($i > @p, $i - 1, $i)
  cand $i: int, @p: int, @o: []internal.Node :: forall k int {@o[k]} {n[k]} :: 0 <= k && k < $i && k < @p ==> @o[k] == n[k]
  cand $i: int, @p: int, @o: []internal.Node :: forall k int {@o[k]} :: @p <= k && k < $i - 1 ==> @o[k] == n[k + 1]
pureftype func(internal.Node) bool
fn cntSat(f func(internal.Node) bool, a array[int,internal.Node], n int) int = ite(n <= 0, 0, cntSat(f, a, n - 1) + ite(apply(f, a[n - 1]), 1, 0))
lemma cntSatNonneg(f func(internal.Node) bool, a array[int,internal.Node], n int)
  ensures 0 <= cntSat(f, a, n)
  induct n
  trigger cntSat(f, a, n)
  auto
lemma cntSatMono(f func(internal.Node) bool, a array[int,internal.Node], k int, n int)
  requires k <= n
  ensures cntSat(f, a, k) <= cntSat(f, a, n)
  ensures k >= 0 && k < n && apply(f, a[k]) ==> cntSat(f, a, k) < cntSat(f, a, n)
  induct n
  trigger cntSat(f, a, k), cntSat(f, a, n)
  auto
func internal.(Nodes).Filter(n, filter) (out)
  effort 2
  proves counted: len(out) == cntSat(filter, elems(n), len(n))
  ensures fresh(ref(out)) && cap(out) == len(out)
  proves placed: forall i int {n[i]} :: 0 <= i && i < len(n) && apply(filter, n[i]) ==> 0 <= cntSat(filter, elems(n), i) && amongNodes(elems(out), len(out), n[i])
  ensures keeps: forall i int {n[i]} :: 0 <= i && i < len(n) && apply(filter, n[i]) ==> amongNodes(elems(out), len(out), n[i])
  proves in-order: forall i int {n[i]} :: 0 <= i && i < len(n) && apply(filter, n[i]) ==> out[cntSat(filter, elems(n), i)] == n[i]
  ensures only-those: forall j int {out[j]} :: 0 <= j && j < len(out) ==> apply(filter, out[j])
  ensures from-there: forall j int {out[j]} :: 0 <= j && j < len(out) ==> amongNodes(old(elems(n)), len(n), out[j])
  ensures still-teardown: allTear(elems(n), len(n)) ==> allTear(elems(out), len(out))
  cand $i: int, @t: []bool :: forall k int {@t[k]} :: 0 <= k && k < $i ==> @t[k] == apply(filter, n[k])
  cand $i: int, @t: []bool :: forall k int {@t[k]} :: $i <= k && k < len(n) ==> !@t[k]
  cand $i: int, @c: int :: @c == cntSat(filter, elems(n), $i)
  cand @o: []internal.Node :: len(@o) == cntSat(filter, elems(n), len(n))
  cand $i: int, @o: []internal.Node :: forall k int {cntSat(filter, elems(n), k)} :: 0 <= k && k < $i && apply(filter, n[k]) ==> @o[cntSat(filter, elems(n), k)] == n[k]
  cand @c: int, @o: []internal.Node :: forall j int {@o[j]} :: 0 <= j && j < @c ==> apply(filter, @o[j])
  cand @c: int, @o: []internal.Node :: forall j int {@o[j]} :: 0 <= j && j < @c ==> amongNodes(old(elems(n)), len(n), @o[j])
func internal.(Nodes).FirstSatisfying(n, filter) (r)
  ensures none: (forall k int {n[k]} :: 0 <= k && k < len(n) ==> !apply(filter, n[k])) ==> r == zero(internal.Node)
  ensures first: forall k int {n[k]} :: 0 <= k && k < len(n) && apply(filter, n[k]) && (forall j int {n[j]} :: 0 <= j && j < k ==> !apply(filter, n[j])) ==> r == n[k]
  cand $i: int :: forall k int {n[k]} :: 0 <= k && k < $i ==> !apply(filter, n[k])
