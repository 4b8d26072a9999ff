# C03  Spec ordering: a seeded partition that never loses, duplicates or splits
include nodelist
root internal.NewSortableSpecs internal.(*SortableSpecs).Len internal.(*SortableSpecs).Swap internal.(Nodes).FirstNodeMarkedOrdered internal.(Nodes).IndexOfFirstNodeMarkedOrdered internal.(Nodes).HasNodeMarkedSerial internal.(Nodes).WithType internal.(Nodes).FirstNodeWithType
func internal.NewSortableSpecs(specs) (s)
  ensures s != nil && fresh(s) && s.Specs == specs && len(s.Indexes) == len(specs)
  ensures identity: forall k int {s.Indexes[k]} :: 0 <= k && k < len(specs) ==> s.Indexes[k] == k
  cand $i: int, @o: []int :: forall k int {@o[k]} :: 0 <= k && k < $i ==> @o[k] == k
func internal.(*SortableSpecs).Len(s) (n)
  requires s != nil
  ensures n == len(s.Indexes)
func internal.(*SortableSpecs).Swap(s, i, j)
  requires s != nil && 0 <= i && i < len(s.Indexes) && 0 <= j && j < len(s.Indexes)
  modifies elems(s.Indexes)
  ensures exchanges: s.Indexes[i] == old(s.Indexes[j]) && s.Indexes[j] == old(s.Indexes[i])
  ensures nothing-else: forall k int {s.Indexes[k]} :: 0 <= k && k < len(s.Indexes) && k != i && k != j ==> s.Indexes[k] == old(s.Indexes[k])
