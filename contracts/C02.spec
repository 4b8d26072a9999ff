# C02  Nested programmatic focus: an outer focus yields to a focused descendant
include tree

ghost root *internal.TreeNode
# what was declared, and what follows from it (fixed by the declarations: see declared)
decl focus0(t *internal.TreeNode) bool
decl hasFocus(t *internal.TreeNode) bool
decl focusBelow(t *internal.TreeNode) bool
decl witness(t *internal.TreeNode) int
decl shielded(t *internal.TreeNode) bool
# hasFocus: t or something effective below it is focused; a pending node shields what is below it
pred declared(root *internal.TreeNode) bool =
     (forall t *internal.TreeNode {hasFocus(t)} :: under(root, t) ==> hasFocus(t) == (!t.Node.MarkedPending && (focus0(t) || focusBelow(t))))
  && (forall t *internal.TreeNode, i int {t.Children[i], focusBelow(t)} {hasFocus(t.Children[i])} :: under(root, t) && 0 <= i && i < len(t.Children) && hasFocus(t.Children[i]) ==> focusBelow(t))
  && (forall t *internal.TreeNode {focusBelow(t)} :: under(root, t) && focusBelow(t) ==> 0 <= witness(t) && witness(t) < len(t.Children) && hasFocus(t.Children[witness(t)]))
  && (forall t *internal.TreeNode, i int {shielded(t.Children[i])} :: under(root, t) && 0 <= i && i < len(t.Children) ==> shielded(t.Children[i]) == (shielded(t) || t.Children[i].Node.MarkedPending))
  && (forall t *internal.TreeNode, m *internal.TreeNode {pre(t), shielded(m)} :: under(root, t) && under(t, m) && m != t && shielded(t) ==> shielded(m))
  && shielded(root) == root.Node.MarkedPending
# the policy: a declared focus survives exactly when nothing effective below it is focused
fn keeps(t *internal.TreeNode) bool = focus0(t) && (shielded(t) || !focusBelow(t))

rec internal.ApplyNestedFocusPolicyToTree(t) (r)
  sig (*internal.TreeNode)(bool)
  requires treeShape(root) && declared(root) && under(root, t) && shielded(t) == t.Node.MarkedPending
  requires untouched: forall m *internal.TreeNode {m.Node.MarkedFocus} :: under(t, m) ==> m.Node.MarkedFocus == focus0(m)
  modifies internal.TreeNode.Node
  ensures found: r == hasFocus(t)
  ensures policy: forall m *internal.TreeNode {m.Node} :: under(t, m) ==> m.Node == upd(old(m.Node), MarkedFocus, keeps(m))
  ensures nothing-else: forall m *internal.TreeNode {m.Node} :: !under(t, m) ==> m.Node == old(m.Node)
  cand $i: int :: forall m *internal.TreeNode {m.Node} :: under(t, m) && m != t && below(t, m) < $i ==> m.Node == upd(old(m.Node), MarkedFocus, keeps(m))
  cand $i: int :: forall m *internal.TreeNode {m.Node} :: !under(t, m) || m == t || below(t, m) >= $i ==> m.Node == old(m.Node)
  cand $i: int, @b: bool :: @b ==> focusBelow(t)
  cand $i: int, @b: bool :: forall k int {t.Children[k]} :: 0 <= k && k < $i && hasFocus(t.Children[k]) ==> @b

func internal.ApplyNestedFocusPolicyToTree(tree)
  requires tree == root && treeShape(root) && declared(root)
  requires forall m *internal.TreeNode {m.Node.MarkedFocus} :: under(root, m) ==> m.Node.MarkedFocus == focus0(m)
  modifies internal.TreeNode.Node
  ensures policy: forall m *internal.TreeNode {m.Node} :: under(root, m) ==> m.Node == upd(old(m.Node), MarkedFocus, keeps(m))
  ensures adds-no-focus: forall m *internal.TreeNode {m.Node} :: under(root, m) && m.Node.MarkedFocus ==> old(m.Node.MarkedFocus)
  ensures only-focus-marks: forall m *internal.TreeNode {m.Node} :: !under(root, m) ==> m.Node == old(m.Node)
