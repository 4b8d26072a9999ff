# C15  Label filter language means what it says
include regexp
include text
include errors
include lib
pureftype func([]string) bool

# ---- what the parts of the language mean, for the labels a[0..n)
fn hasLabel(label string, a array[int,string], n int) bool = exists k int {a[k]} :: 0 <= k && k < n && lowered(a[k]) == lowered(label)
fn matchesLabel(re string, a array[int,string], n int) bool = exists k int {a[k]} :: 0 <= k && k < n && matchesRe(re, a[k])
# v is a value of the key: some label is "key:v", ignoring case and surrounding space
pred isValue(l string, key string, v string) bool = splitCount(l, ":", 2) >= 2 && lowered(trimmed(splitPiece(l, ":", 2, 0))) == lowered(trimmed(key)) && lowered(trimmed(splitPiece(l, ":", 2, 1))) == v
fn valueOf(key string, a array[int,string], n int, v string) bool = exists k int {a[k]} :: 0 <= k && k < n && isValue(a[k], key, v)

func types.matchLabelAction(label) (f)
  ensures f != nil
  ensures literal: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == hasLabel(label, a, n)
  cand $i: int, @l: []string :: forall k int {@l[k]} :: 0 <= k && k < $i ==> lowered(@l[k]) != lowered(label)
func types.matchLabelRegexAction(regex) (f)
  requires regex != nil
  ensures f != nil
  ensures some-label-matches: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == matchesLabel(source(regex), a, n)
  cand $i: int, @l: []string :: forall k int {@l[k]} :: 0 <= k && k < $i ==> !matchesRe(source(regex), @l[k])
func types.notAction(filter) (f)
  requires filter != nil
  ensures f != nil
  ensures negation: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == !applyc(filter, a, n)
func types.andAction(a, b) (f)
  requires a != nil && b != nil
  ensures f != nil
  ensures conjunction: forall c array[int,string], n int {applyc(f, c, n)} :: 0 <= n ==> applyc(f, c, n) == (applyc(a, c, n) && applyc(b, c, n))
func types.orAction(a, b) (f)
  requires a != nil && b != nil
  ensures f != nil
  ensures disjunction: forall c array[int,string], n int {applyc(f, c, n)} :: 0 <= n ==> applyc(f, c, n) == (applyc(a, c, n) || applyc(b, c, n))
func types.labelSetFor(key, labels) (out)
  ensures fresh(ref(out))
  ensures values-of-the-key: forall v string {has(out, v)} {valueOf(key, elems(labels), len(labels), v)} :: has(out, v) == valueOf(key, elems(labels), len(labels), v)
  ensures all-true: forall v string {out[v]} :: out[v] == has(out, v)
  cand $i: int, @m: map[string]bool :: forall v string {has(@m, v)} :: has(@m, v) == valueOf(key, elems(labels), $i, v)
  cand @m: map[string]bool :: forall v string {@m[v]} :: @m[v] == has(@m, v)

func types.isEmptyLabelSetAction(key) (f)
  ensures f != nil
  ensures no-value: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == (forall v string {valueOf(key, a, n, v)} :: !valueOf(key, a, n, v))
func types.containsAnyLabelSetAction(key, expectedValues) (f)
  ensures f != nil
  ensures some-value: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == (exists j int {expectedValues[j]} :: 0 <= j && j < len(expectedValues) && valueOf(key, a, n, expectedValues[j]))
  cand $i: int, @m: map[string]bool :: forall j int {expectedValues[j]} :: 0 <= j && j < $i ==> !has(@m, expectedValues[j])
func types.containsAllLabelSetAction(key, expectedValues) (f)
  ensures f != nil
  ensures every-value: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == (forall j int {expectedValues[j]} :: 0 <= j && j < len(expectedValues) ==> valueOf(key, a, n, expectedValues[j]))
  cand $i: int, @m: map[string]bool :: forall j int {expectedValues[j]} :: 0 <= j && j < $i ==> has(@m, expectedValues[j])
func types.isSubsetOfLabelSetAction(key, expectedValues) (f)
  ensures f != nil
  ensures no-other-value: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == (forall v string {valueOf(key, a, n, v)} :: valueOf(key, a, n, v) ==> listed(expectedValues, v))
  cand $i: int, @m: map[string]bool :: forall v string {@m[v]} {has(@m, v)} {listedIn(elems(expectedValues), $i, v)} :: has(@m, v) == listedIn(elems(expectedValues), $i, v) && has(@m, v) == @m[v]
  cand $v: array[string,bool] :: forall s string {$v[s]} :: $v[s] ==> listed(expectedValues, s)
func types.consistsOfLabelSetAction(key, expectedValues) (f)
  ensures f != nil
  ensures same-set: forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == (forall v string {valueOf(key, a, n, v)} {listed(expectedValues, v)} :: valueOf(key, a, n, v) == listed(expectedValues, v))
  cand $i: int, @m: map[string]bool :: forall v string {@m[v]} {has(@m, v)} {listedIn(elems(expectedValues), $i, v)} :: has(@m, v) == listedIn(elems(expectedValues), $i, v) && has(@m, v) == @m[v]
  cand $v: array[string,bool] :: forall s string {$v[s]} :: $v[s] ==> listed(expectedValues, s)
  cand $i: int, @m: map[string]bool :: forall j int {expectedValues[j]} :: 0 <= j && j < $i ==> has(@m, expectedValues[j])

# ---- the meaning of a parse tree (fixed by the tree as it is: see treeMeaning)
decl means(t *types.treeNode, a array[int,string], n int) bool
decl complete(t *types.treeNode) bool
pred elementsOk(s string) bool = forall j int {piece(s, ",", j)} :: 0 <= j && j < pieces(s, ",") ==> !hasAnyOf(lowered(trimmed(piece(s, ",", j))), "&|!,()/") && lowered(trimmed(piece(s, ",", j))) != ""
pred element(s string, v string) bool = exists j int {piece(s, ",", j)} :: 0 <= j && j < pieces(s, ",") && v == lowered(trimmed(piece(s, ",", j)))
pred isOp(t *types.treeNode, op string) bool = t.token == types.lfTokenSetOperation && lowered(t.value) == op
pred isSetOpWithArgument(t *types.treeNode) bool = isOp(t, "containsany") || isOp(t, "containsall") || isOp(t, "consistsof") || isOp(t, "issubsetof")
pred treeMeaning() bool =
     (forall t *types.treeNode, a array[int,string], n int {means(t, a, n)} :: t != nil && complete(t) && 0 <= n ==>
          (t.token == types.lfTokenLabel ==> means(t, a, n) == hasLabel(t.value, a, n))
       && (t.token == types.lfTokenRegexp ==> means(t, a, n) == matchesLabel(t.value, a, n))
       && (t.token == types.lfTokenNot ==> means(t, a, n) == !means(t.rightNode, a, n))
       && (t.token == types.lfTokenAnd ==> means(t, a, n) == (means(t.leftNode, a, n) && means(t.rightNode, a, n)))
       && (t.token == types.lfTokenOr ==> means(t, a, n) == (means(t.leftNode, a, n) || means(t.rightNode, a, n)))
       && (t.token == types.lfTokenRoot || t.token == types.lfTokenCloseGroup ==> means(t, a, n) == means(t.rightNode, a, n))
       && (isOp(t, "isempty") ==> means(t, a, n) == (forall v string {valueOf(t.leftNode.value, a, n, v)} :: !valueOf(t.leftNode.value, a, n, v)))
       && (isOp(t, "containsany") ==> means(t, a, n) == (exists j int {piece(t.rightNode.value, ",", j)} :: 0 <= j && j < pieces(t.rightNode.value, ",") && valueOf(t.leftNode.value, a, n, lowered(trimmed(piece(t.rightNode.value, ",", j))))))
       && (isOp(t, "containsall") ==> means(t, a, n) == (forall j int {piece(t.rightNode.value, ",", j)} :: 0 <= j && j < pieces(t.rightNode.value, ",") ==> valueOf(t.leftNode.value, a, n, lowered(trimmed(piece(t.rightNode.value, ",", j))))))
       && (isOp(t, "consistsof") ==> means(t, a, n) == (forall v string {valueOf(t.leftNode.value, a, n, v)} :: valueOf(t.leftNode.value, a, n, v) == element(t.rightNode.value, v)))
       && (isOp(t, "issubsetof") ==> means(t, a, n) == (forall v string {valueOf(t.leftNode.value, a, n, v)} :: valueOf(t.leftNode.value, a, n, v) ==> element(t.rightNode.value, v))))
  && (forall t *types.treeNode {complete(t)} :: t != nil ==> complete(t) == (
          t.token == types.lfTokenLabel
       || t.token == types.lfTokenRegexp && compiles(t.value)
       || isOp(t, "isempty")
       || isSetOpWithArgument(t) && t.rightNode != nil && elementsOk(t.rightNode.value)
       || (t.token == types.lfTokenRoot || t.token == types.lfTokenCloseGroup || t.token == types.lfTokenNot) && t.rightNode != nil && complete(t.rightNode)
       || (t.token == types.lfTokenAnd || t.token == types.lfTokenOr) && t.leftNode != nil && complete(t.leftNode) && t.rightNode != nil && complete(t.rightNode)))
# every set operation knows its key
pred keyed(t *types.treeNode) bool = t.token == types.lfTokenSetOperation ==> t.leftNode != nil && (isOp(t, "isempty") || isSetOpWithArgument(t))
pred linked(t *types.treeNode) bool = (t.rightNode != nil ==> t.rightNode.parent != nil) && (t.leftNode != nil ==> t.leftNode.parent != nil)
pred wellLinked() bool = forall t *types.treeNode {t.token} {t.rightNode} {t.leftNode} {t.parent} :: t != nil ==> linked(t) && (t.parent != nil ==> keyed(t) && (t.parent.parent != nil || t.parent.token == types.lfTokenRoot))

func types.(*treeNode).constructLabelFilter(tn, input) (f, err)
  requires treeMeaning()
  requires tn != nil && (tn.parent != nil || tn.token == types.lfTokenRoot) && wellLinked()
  ensures accepted-exactly-when-complete: (err == nil) == complete(tn)
  ensures meaning: err == nil ==> f != nil && (forall a array[int,string], n int {applyc(f, a, n)} :: 0 <= n ==> applyc(f, a, n) == means(tn, a, n))
  cand $i: int :: forall j int {piece(tn.rightNode.value, ",", j)} :: 0 <= j && j < $i ==> !hasAnyOf(lowered(trimmed(piece(tn.rightNode.value, ",", j))), "&|!,()/") && lowered(trimmed(piece(tn.rightNode.value, ",", j))) != ""
  cand $i: int, @v: []string :: forall j int {@v[j]} {piece(tn.rightNode.value, ",", j)} :: 0 <= j && j < $i ==> @v[j] == lowered(trimmed(piece(tn.rightNode.value, ",", j)))
  cand @r: []string :: forall j int {@r[j]} {piece(tn.rightNode.value, ",", j)} :: 0 <= j && j < len(@r) ==> @r[j] == piece(tn.rightNode.value, ",", j)
  cand @r: []string :: len(@r) == pieces(tn.rightNode.value, ",")
