# packages strings and strconv, as they are assumed to behave
decl pieces(s string, sep string) int
axiom atLeastOnePiece(s string, sep string)
  ensures sep != "" ==> pieces(s, sep) >= 1
  trigger pieces(s, sep)
  auto
decl piece(s string, sep string, i int) string
decl trimmed(s string) string
decl isInteger(s string) bool
decl integer(s string) int
ext strings.Split(s, sep) (out)
  ensures len(out) == pieces(s, sep) && len(out) >= 1 && fresh(ref(out))
  ensures forall i int {out[i]} :: 0 <= i && i < len(out) ==> out[i] == piece(s, sep, i)
ext strings.TrimSpace(s) (t)
  pure
  ensures t == trimmed(s)
ext strconv.Atoi(s) (n, err)
  pure
  ensures (err == nil) == isInteger(s)
  ensures err == nil ==> n == integer(s)
decl splitCount(s string, sep string, n int) int
decl splitPiece(s string, sep string, n int, i int) string
ext strings.SplitN(s, sep, n) (out)
  ensures len(out) == splitCount(s, sep, n) && len(out) >= 0 && fresh(ref(out))
  ensures forall i int {out[i]} :: 0 <= i && i < len(out) ==> out[i] == splitPiece(s, sep, n, i)
ext strings.ToLower(s) (t)
  pure
  ensures t == lowered(s)
decl lowered(s string) string
decl hasAnyOf(s string, chars string) bool
ext strings.ContainsAny(s, chars) (r)
  pure
  ensures r == hasAnyOf(s, chars)
