# C16  File filters select exactly the given files and lines
include regexp
include text

# ---- matching
pred inLines(ls []types.LineFilter, n int) bool = len(ls) == 0 || (exists j int {ls[j]} :: 0 <= j && j < len(ls) && ls[j].Min <= n && n < ls[j].Max)
pred filterMatches(f types.FileFilter, locs []types.CodeLocation) bool = exists i int {locs[i]} :: 0 <= i && i < len(locs) && matchesRe(source(f.Filename), locs[i].FileName) && inLines(f.LineFilters, locs[i].LineNumber)
func types.(LineFilter).Matches(lf, line) (r)
  ensures half-open: r == (lf.Min <= line && line < lf.Max)
func types.(LineFilters).Matches(lfs, line) (r)
  ensures some-range: r == inLines(lfs, line)
  cand $i: int :: forall j int {lfs[j]} :: 0 <= j && j < $i ==> !(lfs[j].Min <= line && line < lfs[j].Max)
func types.(FileFilter).Matches(f, locations) (r)
  requires f.Filename != nil
  ensures same-location: r == filterMatches(f, locations)
  cand $i: int :: forall j int {locations[j]} :: 0 <= j && j < $i ==> !(matchesRe(source(f.Filename), locations[j].FileName) && inLines(f.LineFilters, locations[j].LineNumber))
func types.(FileFilters).Matches(ffs, locations) (r)
  requires forall k int {ffs[k]} :: 0 <= k && k < len(ffs) ==> ffs[k].Filename != nil
  ensures any-filter: r == (exists k int {ffs[k]} :: 0 <= k && k < len(ffs) && filterMatches(ffs[k], locations))
  cand $i: int :: forall j int {ffs[j]} :: 0 <= j && j < $i ==> !filterMatches(ffs[j], locations)

# ---- parsing
pred okLine(l string) bool = pieces(l, "-") == 1 && isInteger(trimmed(piece(l, "-", 0))) || pieces(l, "-") == 2 && isInteger(trimmed(piece(l, "-", 0))) && isInteger(trimmed(piece(l, "-", 1)))
fn lineMin(l string) int = integer(trimmed(piece(l, "-", 0)))
fn lineMax(l string) int = ite(pieces(l, "-") == 1, integer(trimmed(piece(l, "-", 0))) + 1, integer(trimmed(piece(l, "-", 1))))
fn okFilter(f string) bool = f != "" && (pieces(f, ":") == 1 || pieces(f, ":") == 2) && compiles(piece(f, ":", 0))
    && (pieces(f, ":") == 2 ==> (forall j int {piece(piece(f, ":", 1), ",", j)} :: 0 <= j && j < pieces(piece(f, ":", 1), ",") ==> okLine(piece(piece(f, ":", 1), ",", j))))
pred filterIs(ff types.FileFilter, f string) bool = ff.Filename != nil && source(ff.Filename) == piece(f, ":", 0)
    && (pieces(f, ":") == 1 ==> len(ff.LineFilters) == 0)
    && (pieces(f, ":") == 2 ==> linesAre(ff.LineFilters, piece(f, ":", 1), pieces(piece(f, ":", 1), ",")))
pred linesAre(ls []types.LineFilter, f string, n int) bool = len(ls) == n && (forall j int {ls[j]} {piece(f, ",", j)} :: 0 <= j && j < n ==> ls[j].Min == lineMin(piece(f, ",", j)) && ls[j].Max == lineMax(piece(f, ",", j)))

func types.ParseFileFilters(filters) (ffs, err)
  ensures accepts-exactly-the-well-formed: (err == nil) == (forall i int {filters[i]} :: 0 <= i && i < len(filters) ==> okFilter(filters[i]))
  ensures one-each: err == nil ==> len(ffs) == len(filters)
  ensures in-order: err == nil ==> (forall i int {filters[i]} {ffs[i]} :: 0 <= i && i < len(filters) ==> filterIs(ffs[i], filters[i]))
  cand $i: int :: forall k int {filters[k]} :: 0 <= k && k < $i ==> okFilter(filters[k])
  cand $i: int, @f: []types.FileFilter :: len(@f) == $i
  cand @f: []types.FileFilter :: forall k int {@f[k]} :: 0 <= k && k < len(@f) ==> filterIs(@f[k], filters[k])
  cand @f: []types.FileFilter :: forall k int {@f[k]} :: 0 <= k && k < len(@f) ==> allocated(ref(@f[k].LineFilters))
  cand @f: []types.FileFilter, @c: types.FileFilter :: forall k int {@f[k]} :: 0 <= k && k < len(@f) && len(@f[k].LineFilters) > 0 ==> ref(@f[k].LineFilters) != ref(@c.LineFilters)
  cand $i: int, @c: types.FileFilter :: len(@c.LineFilters) == $i
  cand $i: int, @f: string :: forall j int {piece(piece(@f, ":", 1), ",", j)} :: 0 <= j && j < $i ==> okLine(piece(piece(@f, ":", 1), ",", j))
  cand @c: types.FileFilter, @f: string :: linesAre(@c.LineFilters, piece(@f, ":", 1), len(@c.LineFilters))
  cand @c: types.FileFilter :: cap(@c.LineFilters) == 0 || fresh(ref(@c.LineFilters))
