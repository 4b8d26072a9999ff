# v is one of the first n elements of a
fn listedIn(a array[int,string], n int, v string) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k] == v
pred listed(s []string, v string) bool = listedIn(elems(s), len(s), v)
lemma listedPrefix(a array[int,string], n int, b array[int,string], m int, v string)
  requires listedIn(a, n, v) && n <= m
  requires forall k int {b[k]} {a[k]} :: 0 <= k && k < n ==> a[k] == b[k]
  ensures listedIn(b, m, v)
  trigger listedIn(a, n, v), listedIn(b, m, v)
  auto
lemma listedLast(a array[int,string], n int, v string)
  requires n >= 1 && a[n - 1] == v
  ensures listedIn(a, n, v)
  trigger listedIn(a, n, v)
  auto
