# run-once pairs: which node runs once for which container
include nodelist
fn firstPairFrom(a array[int,internal.runOncePair], i int, n int, id uint) internal.runOncePair = ite(i >= n, zero(internal.runOncePair), ite(a[i].nodeID == id, a[i], firstPairFrom(a, i + 1, n, id)))
pred firstPair(a array[int,internal.runOncePair], n int, id uint) internal.runOncePair = firstPairFrom(a, 0, n, id)
fn pairOf(ps internal.runOncePairs, id uint) internal.runOncePair = firstPair(elems(ps), len(ps), id)
fn noPair(a array[int,internal.runOncePair], n int, id uint) bool = forall k int {a[k]} :: 0 <= k && k < n ==> a[k].nodeID != id
func internal.(runOncePair).isZero(pair) (r)
  ensures r == (pair.nodeID == 0)
func internal.runOncePairForNode(node, containerID) (p)
  ensures p.nodeID == node.ID && p.nodeType == node.NodeType && p.containerID == containerID
func internal.(runOncePairs).runOncePairFor(pairs, nodeID) (r)
  ensures the-pair: r == firstPair(elems(pairs), len(pairs), nodeID)
  ensures none: noPair(elems(pairs), len(pairs), nodeID) ==> r.nodeID == 0
  cand $i: int :: firstPair(elems(pairs), len(pairs), nodeID) == firstPairFrom(elems(pairs), $i, len(pairs), nodeID)
func internal.(runOncePairs).hasRunOncePair(pairs, pair) (r)
  ensures r == amongPairs(elems(pairs), len(pairs), pair)
  cand $i: int :: forall k int {pairs[k]} :: 0 <= k && k < $i ==> pairs[k] != pair
fn amongPairs(a array[int,internal.runOncePair], n int, x internal.runOncePair) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k] == x
fn cntPair(a array[int,internal.runOncePair], n int, t types.NodeType) int = ite(n <= 0, 0, cntPair(a, n - 1, t) + ite((a[n - 1].nodeType & t) != 0, 1, 0))
lemma cntPairNonneg(a array[int,internal.runOncePair], n int, t types.NodeType)
  ensures 0 <= cntPair(a, n, t)
  induct n
  trigger cntPair(a, n, t)
  auto
lemma cntPairMono(a array[int,internal.runOncePair], k int, n int, t types.NodeType)
  requires k <= n
  ensures cntPair(a, k, t) <= cntPair(a, n, t)
  ensures k >= 0 && k < n && (a[k].nodeType & t) != 0 ==> cntPair(a, k, t) < cntPair(a, n, t)
  induct n
  trigger cntPair(a, k, t), cntPair(a, n, t)
  auto
func internal.(runOncePairs).withType(pairs, nodeTypes) (out)
  effort 2
  proves counted: len(out) == cntPair(elems(pairs), len(pairs), nodeTypes)
  ensures fresh(ref(out))
  proves placed: forall i int {pairs[i]} :: 0 <= i && i < len(pairs) && (pairs[i].nodeType & nodeTypes) != 0 ==> 0 <= cntPair(elems(pairs), i, nodeTypes) && amongPairs(elems(out), len(out), pairs[i])
  ensures keeps: forall i int {pairs[i]} :: 0 <= i && i < len(pairs) && (pairs[i].nodeType & nodeTypes) != 0 ==> amongPairs(elems(out), len(out), pairs[i])
  proves in-order: forall i int {pairs[i]} :: 0 <= i && i < len(pairs) && (pairs[i].nodeType & nodeTypes) != 0 ==> out[cntPair(elems(pairs), i, nodeTypes)] == pairs[i]
  ensures only-those: forall j int {out[j]} :: 0 <= j && j < len(out) ==> (out[j].nodeType & nodeTypes) != 0
  ensures from-there: forall j int {out[j]} :: 0 <= j && j < len(out) ==> amongPairs(old(elems(pairs)), len(pairs), out[j])
  cand $i: int, @c: int :: @c == cntPair(elems(pairs), $i, nodeTypes)
  cand @o: internal.runOncePairs :: len(@o) == cntPair(elems(pairs), len(pairs), nodeTypes)
  cand $i: int, @o: internal.runOncePairs :: forall k int {cntPair(elems(pairs), k, nodeTypes)} :: 0 <= k && k < $i && (pairs[k].nodeType & nodeTypes) != 0 ==> @o[cntPair(elems(pairs), k, nodeTypes)] == pairs[k]
  cand @c: int, @o: internal.runOncePairs :: forall j int {@o[j]} :: 0 <= j && j < @c ==> (@o[j].nodeType & nodeTypes) != 0
  cand @c: int, @o: internal.runOncePairs :: forall j int {@o[j]} :: 0 <= j && j < @c ==> amongPairs(old(elems(pairs)), len(pairs), @o[j])

pred subject(s internal.Spec) internal.Node = firstOf(elems(s.Nodes), len(s.Nodes), types.NodeTypeIt)
func internal.(Spec).SubjectID(s) (id)
  ensures id == subject(s).ID
func internal.(Spec).FirstNodeWithType(s, nodeTypes) (r)
  ensures r == firstOf(elems(s.Nodes), len(s.Nodes), nodeTypes)
# a spec whose run-once setup was skipped will not run: it does not need the teardown of that pair
fn pairSkipped(g *internal.group, a array[int,internal.runOncePair], n int) bool = exists k int {a[k]} :: 0 <= k && k < n && (a[k].nodeType & (types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach)) != 0 && (g.runOnceTracker[a[k]] & types.SpecStateSkipped) != 0
pred skippedBefore(g *internal.group, id uint) bool = pairSkipped(g, elems(g.runOncePairs[id]), len(g.runOncePairs[id]))
pred needs(g *internal.group, s internal.Spec, id uint, pair internal.runOncePair) bool = !s.Skip && (subject(s).ID == id || !skippedBefore(g, subject(s).ID)) && amongPairs(elems(g.runOncePairs[subject(s).ID]), len(g.runOncePairs[subject(s).ID]), pair)
fn lastNeeding(g *internal.group, a array[int,internal.Spec], n int, id uint, pair internal.runOncePair) uint = ite(n <= 0, 0, ite(needs(g, a[n - 1], id, pair), subject(a[n - 1]).ID, lastNeeding(g, a, n - 1, id, pair)))
func internal.(*group).hasSkippedBeforeOncePair(g, specID) (r)
  requires g != nil
  ensures r == skippedBefore(g, specID)
  cand $i: int, @p: internal.runOncePairs :: forall k int {@p[k]} :: 0 <= k && k < $i ==> (g.runOnceTracker[@p[k]] & types.SpecStateSkipped) == 0
func internal.(*group).isLastSpecWithPair(g, specID, pair) (r)
  requires g != nil
  ensures the-last-spec-that-needs-it: r == (lastNeeding(g, elems(g.specs), len(g.specs), specID, pair) == specID)
  cand $i: int, @l: uint :: @l == lastNeeding(g, elems(g.specs), $i, specID, pair)
fn pairedWith(a array[int,internal.runOncePair], n int, x internal.Node) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k].nodeID == x.ID && a[k].nodeType == x.NodeType
fn aNodeOf(a array[int,internal.Node], n int, p internal.runOncePair) bool = exists k int {a[k]} :: 0 <= k && k < n && p.nodeID == a[k].ID && p.nodeType == a[k].NodeType && (isType(a[k], types.NodeTypeBeforeAll | types.NodeTypeAfterAll) || a[k].MarkedOncePerOrdered)
# no node with that ID is to run once
fn plainIn(a array[int,internal.Node], n int, id uint) bool = forall k int {a[k]} :: 0 <= k && k < n && a[k].ID == id ==> !isType(a[k], types.NodeTypeBeforeAll | types.NodeTypeAfterAll) && !a[k].MarkedOncePerOrdered
func internal.runOncePairsForSpec(spec) (out)
  inlines internal.(Nodes).FirstSatisfying
  ensures every-before-and-after-all: forall k int {spec.Nodes[k]} :: 0 <= k && k < len(spec.Nodes) && isType(spec.Nodes[k], types.NodeTypeBeforeAll | types.NodeTypeAfterAll) ==> pairedWith(elems(out), len(out), spec.Nodes[k])
  ensures never-for-a-plain-node: forall id uint {plainIn(elems(spec.Nodes), len(spec.Nodes), id)} :: plainIn(old(elems(spec.Nodes)), len(spec.Nodes), id) ==> noPair(elems(out), len(out), id)
  ensures nothing-else: forall j int {out[j]} :: 0 <= j && j < len(out) ==> aNodeOf(old(elems(spec.Nodes)), len(spec.Nodes), out[j])
  cand $i: int, @o: internal.runOncePairs :: forall k int {spec.Nodes[k]} :: 0 <= k && k < $i && isType(spec.Nodes[k], types.NodeTypeBeforeAll | types.NodeTypeAfterAll) ==> pairedWith(elems(@o), len(@o), spec.Nodes[k])
  cand @o: internal.runOncePairs :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> aNodeOf(old(elems(spec.Nodes)), len(spec.Nodes), @o[j])
  cand @o: internal.runOncePairs :: fresh(ref(@o)) || cap(@o) == 0
