# the spec tree: finite, unshared. pre/last number it depth first (any finite unshared tree has such a numbering)
decl pre(t *internal.TreeNode) int
decl last(t *internal.TreeNode) int
decl below(t *internal.TreeNode, m *internal.TreeNode) int
pred under(t *internal.TreeNode, m *internal.TreeNode) bool = m != nil && pre(t) <= pre(m) && pre(m) <= last(t)
pred treeShape(root *internal.TreeNode) bool =
     root != nil && pre(root) <= last(root)
  && (forall t *internal.TreeNode {pre(t)} :: under(root, t) ==> pre(t) <= last(t) && last(t) <= last(root))
  && (forall t *internal.TreeNode, i int {t.Children[i]} :: under(root, t) && 0 <= i && i < len(t.Children) ==> t.Children[i] != nil && pre(t) < pre(t.Children[i]) && pre(t.Children[i]) <= last(t.Children[i]) && last(t.Children[i]) <= last(t))
  && (forall t *internal.TreeNode, i int, j int {t.Children[i], t.Children[j]} :: under(root, t) && 0 <= i && i < j && j < len(t.Children) ==> last(t.Children[i]) < pre(t.Children[j]))
  && (forall t *internal.TreeNode, m *internal.TreeNode {pre(t), pre(m)} :: under(root, t) && under(root, m) && pre(t) == pre(m) ==> t == m)
  && (forall t *internal.TreeNode, m *internal.TreeNode {below(t, m)} :: under(root, t) && under(t, m) && m != t ==> 0 <= below(t, m) && below(t, m) < len(t.Children) && under(t.Children[below(t, m)], m))
