fn joined(a array[int,string], n int, sep string) string = ite(n <= 0, "", ite(n == 1, a[0], joined(a, n - 1, sep) + sep + a[n - 1]))
lemma joinedEq(a array[int,string], b array[int,string], n int, sep string)
  requires forall k int {a[k]} {b[k]} :: 0 <= k && k < n ==> a[k] == b[k]
  ensures joined(a, n, sep) == joined(b, n, sep)
  induct n
  trigger joined(a, n, sep), joined(b, n, sep)
  auto
ext strings.Join(a, sep) (s)
  pure
  ensures s == joined(elems(a), len(a), sep)
