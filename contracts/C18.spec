# C18  Tree expansion: one spec per leaf, with its full context
include nodelist
include tree
root internal.(TreeNodes).WithID internal.(TreeNodes).Nodes internal.(Nodes).SplitAround internal.(Nodes).WithoutType internal.(Nodes).CopyAppend internal.(Nodes).FirstNodeWithType internal.(Nodes).WithType
func internal.(TreeNodes).WithID(tn, id) (r)
  requires forall k int {tn[k]} :: 0 <= k && k < len(tn) ==> tn[k] != nil
  ensures found: forall p int {tn[p]} :: 0 <= p && p < len(tn) && tn[p].Node.ID == id && (forall j int {tn[j]} :: 0 <= j && j < p ==> tn[j].Node.ID != id) ==> r == tn[p]
  ensures none: (forall j int {tn[j]} :: 0 <= j && j < len(tn) ==> tn[j].Node.ID != id) ==> r == nil
  cand $i: int :: forall k int {tn[k]} :: 0 <= k && k < $i ==> tn[k].Node.ID != id
func internal.(TreeNodes).Nodes(tn) (out)
  requires forall k int {tn[k]} :: 0 <= k && k < len(tn) ==> tn[k] != nil
  ensures len(out) == len(tn) && fresh(ref(out)) && (forall k int {out[k]} {tn[k]} :: 0 <= k && k < len(tn) ==> out[k] == tn[k].Node)
  cand $i: int, @o: []internal.Node :: forall k int {@o[k]} :: 0 <= k && k < $i ==> @o[k] == tn[k].Node
func internal.(*TreeNode).AppendChild(tn, child)
  requires tn != nil && child != nil
  modifies tn.Children, child.Parent, elems(tn.Children)
  ensures keeps: len(tn.Children) == old(len(tn.Children)) + 1 && (forall k int {tn.Children[k]} :: 0 <= k && k < old(len(tn.Children)) ==> tn.Children[k] == old(tn.Children[k]))
  ensures adds: tn.Children[old(len(tn.Children))] == child && child.Parent == tn
