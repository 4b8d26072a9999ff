# C20  Merging coverage profiles loses and invents no coverage
# position of a block's start; profiles are well formed when their blocks start at increasing positions
pred before(a cover.ProfileBlock, b cover.ProfileBlock) bool = a.StartLine < b.StartLine || (a.StartLine == b.StartLine && a.StartCol < b.StartCol)
pred sameStart(a cover.ProfileBlock, b cover.ProfileBlock) bool = a.StartLine == b.StartLine && a.StartCol == b.StartCol
pred sameEnd(a cover.ProfileBlock, b cover.ProfileBlock) bool = a.EndLine == b.EndLine && a.EndCol == b.EndCol
pred endsAfter(a cover.ProfileBlock, b cover.ProfileBlock) bool = a.EndLine > b.EndLine || (a.EndLine == b.EndLine && a.EndCol > b.EndCol)
pred sorted(a array[int,cover.ProfileBlock], n int) bool = forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> before(a[i], a[j])
pred knownMode(m string) bool = m == "set" || m == "count" || m == "atomic"
# b conflicts with a block already there: another end for the same start, or an end inside the block before it
pred conflicts(a cover.ProfileBlock, b cover.ProfileBlock) bool = (sameStart(a, b) && !sameEnd(a, b)) || (before(a, b) && endsAfter(a, b))
# index of the block that starts at line l, column c
fn idx(a array[int,cover.ProfileBlock], n int, l int, c int) int = ite(n <= 0, -1, ite(a[n - 1].StartLine == l && a[n - 1].StartCol == c, n - 1, idx(a, n - 1, l, c)))
lemma idxBounds(a array[int,cover.ProfileBlock], n int, l int, c int)
  induct n
  ensures -1 <= idx(a, n, l, c) && (n >= 0 ==> idx(a, n, l, c) < n) && (idx(a, n, l, c) >= 0 ==> a[idx(a, n, l, c)].StartLine == l && a[idx(a, n, l, c)].StartCol == c)
  trigger idx(a, n, l, c)
  auto
lemma idxIs(a array[int,cover.ProfileBlock], n int, k int, l int, c int)
  induct n
  requires 0 <= k && k < n && a[k].StartLine == l && a[k].StartCol == c && sorted(a, n)
  ensures idx(a, n, l, c) == k
  trigger idx(a, n, l, c), a[k]
  auto
# b is a with its element k replaced, or with one element inserted at k
fn stepped(a array[int,cover.ProfileBlock], n int, b array[int,cover.ProfileBlock], m int, k int) bool =
   (m == n && 0 <= k && k < n && sameStart(a[k], b[k]) && (forall j int {b[j]} {a[j]} :: 0 <= j && j < n && j != k ==> b[j] == a[j]))
   || (m == n + 1 && 0 <= k && k <= n && (forall j int {b[j]} {a[j]} :: 0 <= j && j < k ==> b[j] == a[j]) && (forall j int {a[j]} :: k <= j && j < n ==> b[j + 1] == a[j]) && (forall j int {b[j]} :: k < j && j <= n ==> b[j] == a[j - 1]))
# the blocks that start at (l, c) are the same in a and b
pred same(a array[int,cover.ProfileBlock], n int, b array[int,cover.ProfileBlock], m int, l int, c int) bool = (idx(a, n, l, c) == -1) == (idx(b, m, l, c) == -1) && (idx(a, n, l, c) >= 0 ==> b[idx(b, m, l, c)] == a[idx(a, n, l, c)])
lemma steppedKeeps(a array[int,cover.ProfileBlock], n int, b array[int,cover.ProfileBlock], m int, k int, l int, c int)
  requires stepped(a, n, b, m, k) && sorted(a, n) && sorted(b, m) && n >= 0
  requires !(b[k].StartLine == l && b[k].StartCol == c)
  ensures same(a, n, b, m, l, c)
  trigger stepped(a, n, b, m, k), idx(a, n, l, c)
  trigger stepped(a, n, b, m, k), idx(b, m, l, c)
  auto
axiom orCommutes(a int, b int)
  ensures (a | b) == (b | a)
  trigger (a | b)
  auto
pred added(mode string, a int, b int, c int) bool = (mode == "set" ==> c == (a | b)) && (mode == "count" || mode == "atomic" ==> c == a + b)
pred sum(mode string, x cover.ProfileBlock, y cover.ProfileBlock, z cover.ProfileBlock) bool = z == upd(x, Count, z.Count) && added(mode, x.Count, y.Count, z.Count)
ext fmt.Errorf(format, a) (e)
  ensures e != nil

func cli.mergeProfileBlock(p, pb, startIndex) (r, err)
  safe
  requires p != nil && 0 <= startIndex && startIndex <= len(p.Blocks) && sorted(elems(p.Blocks), len(p.Blocks))
  requires startIndex > 0 ==> before(p.Blocks[startIndex - 1], pb)
  modifies p.Blocks, elems(p.Blocks)
  let o = old(elems(p.Blocks))
  let on = old(len(p.Blocks))
  let was = idx(old(elems(p.Blocks)), old(len(p.Blocks)), pb.StartLine, pb.StartCol)
  ensures rejected-leaves-it-alone: err != nil ==> p.Blocks == old(p.Blocks) && elems(p.Blocks) == o
  ensures own-storage: ref(p.Blocks) == old(ref(p.Blocks)) || fresh(ref(p.Blocks))
  ensures next: err == nil ==> startIndex < r && r <= len(p.Blocks) && sameStart(p.Blocks[r - 1], pb) && sameEnd(p.Blocks[r - 1], pb)
  ensures still-sorted: sorted(elems(p.Blocks), len(p.Blocks))
  ensures one-more-at-most: err == nil ==> len(p.Blocks) == on || len(p.Blocks) == on + 1
  ensures counted-once: err == nil && was >= 0 ==> sum(p.Mode, o[was], pb, p.Blocks[r - 1]) && sameEnd(o[was], pb)
  ensures added-as-it-is: err == nil && was == -1 ==> p.Blocks[r - 1] == pb
  ensures the-others-stay: err == nil ==> stepped(o, on, elems(p.Blocks), len(p.Blocks), r - 1)
  ensures conflicts-are-rejected: err == nil ==> (forall k int {o[k]} :: 0 <= k && k < on && sameStart(o[k], pb) ==> sameEnd(o[k], pb) && knownMode(p.Mode))
  ensures nothing-else-is-rejected: knownMode(p.Mode) && (forall k int {o[k]} :: 0 <= k && k < on ==> !conflicts(o[k], pb)) ==> err == nil

# what merging b's first n blocks into a yields at (l, c): the block of one of them, or the sum of both
pred merged(mode string, a array[int,cover.ProfileBlock], an int, b array[int,cover.ProfileBlock], bn int, r array[int,cover.ProfileBlock], rn int, l int, c int) bool =
   (idx(r, rn, l, c) == -1) == (idx(a, an, l, c) == -1 && idx(b, bn, l, c) == -1)
   && (idx(a, an, l, c) >= 0 && idx(b, bn, l, c) == -1 ==> r[idx(r, rn, l, c)] == a[idx(a, an, l, c)])
   && (idx(a, an, l, c) == -1 && idx(b, bn, l, c) >= 0 ==> r[idx(r, rn, l, c)] == b[idx(b, bn, l, c)])
   && (idx(a, an, l, c) >= 0 && idx(b, bn, l, c) >= 0 ==> sum(mode, a[idx(a, an, l, c)], b[idx(b, bn, l, c)], r[idx(r, rn, l, c)]) && sameEnd(a[idx(a, an, l, c)], b[idx(b, bn, l, c)]))
fn mergedAll(mode string, a array[int,cover.ProfileBlock], an int, b array[int,cover.ProfileBlock], bn int, r array[int,cover.ProfileBlock], rn int) bool = forall l int, c int {idx(r, rn, l, c)} {idx(a, an, l, c)} {idx(b, bn, l, c)} :: merged(mode, a, an, b, bn, r, rn, l, c)
lemma mergedStepAt(mode string, a array[int,cover.ProfileBlock], an int, b array[int,cover.ProfileBlock], j int, r array[int,cover.ProfileBlock], rn int, q array[int,cover.ProfileBlock], qn int, k int, l int, c int)
  requires mergedAll(mode, a, an, b, j, r, rn) && stepped(r, rn, q, qn, k) && an >= 0 && rn >= 0 && j >= 0
  requires sorted(a, an) && sorted(b, j + 1) && sorted(r, rn) && sorted(q, qn)
  requires sameStart(q[k], b[j])
  requires idx(r, rn, b[j].StartLine, b[j].StartCol) >= 0 ==> sum(mode, r[idx(r, rn, b[j].StartLine, b[j].StartCol)], b[j], q[k]) && sameEnd(r[idx(r, rn, b[j].StartLine, b[j].StartCol)], b[j])
  requires idx(r, rn, b[j].StartLine, b[j].StartCol) == -1 ==> q[k] == b[j]
  case l == b[j].StartLine && c == b[j].StartCol
  ensures merged(mode, a, an, b, j + 1, q, qn, l, c)
  trigger mergedAll(mode, a, an, b, j, r, rn), stepped(r, rn, q, qn, k), idx(q, qn, l, c)
  auto
lemma mergedStep(mode string, a array[int,cover.ProfileBlock], an int, b array[int,cover.ProfileBlock], j int, r array[int,cover.ProfileBlock], rn int, q array[int,cover.ProfileBlock], qn int, k int)
  requires mergedAll(mode, a, an, b, j, r, rn) && stepped(r, rn, q, qn, k) && an >= 0 && rn >= 0 && j >= 0
  requires sorted(a, an) && sorted(b, j + 1) && sorted(r, rn) && sorted(q, qn)
  requires sameStart(q[k], b[j])
  requires idx(r, rn, b[j].StartLine, b[j].StartCol) >= 0 ==> sum(mode, r[idx(r, rn, b[j].StartLine, b[j].StartCol)], b[j], q[k]) && sameEnd(r[idx(r, rn, b[j].StartLine, b[j].StartCol)], b[j])
  requires idx(r, rn, b[j].StartLine, b[j].StartCol) == -1 ==> q[k] == b[j]
  ensures mergedAll(mode, a, an, b, j + 1, q, qn)
  trigger mergedAll(mode, a, an, b, j, r, rn), stepped(r, rn, q, qn, k)
  auto
func cli.MergeCoverProfiles(into, merge) (err)
  safe
  effort 3
  requires into != nil && merge != nil && into != merge && (ref(into.Blocks) != ref(merge.Blocks) || len(merge.Blocks) == 0)
  requires sorted(elems(into.Blocks), len(into.Blocks)) && sorted(elems(merge.Blocks), len(merge.Blocks))
  modifies into.Blocks, elems(into.Blocks)
  let a = old(elems(into.Blocks))
  let an = old(len(into.Blocks))
  let b = old(elems(merge.Blocks))
  let bn = old(len(merge.Blocks))
  ensures own-storage: ref(into.Blocks) == old(ref(into.Blocks)) || fresh(ref(into.Blocks))
  ensures other-modes-are-rejected: err == nil ==> into.Mode == merge.Mode
  ensures still-sorted: sorted(elems(into.Blocks), len(into.Blocks))
  ensures every-block-once: err == nil ==> mergedAll(into.Mode, a, an, b, bn, elems(into.Blocks), len(into.Blocks))
  cand sorted(elems(into.Blocks), len(into.Blocks))
  cand $i: int :: mergedAll(into.Mode, a, an, b, $i, elems(into.Blocks), len(into.Blocks))
  cand $i: int :: 0 <= $i && $i <= len(into.Blocks)
  cand $i: int, $s: int :: $s > 0 ==> $i > 0 && sameStart(into.Blocks[$s - 1], merge.Blocks[$i - 1])
  cand $s: int :: 0 <= $s && $s <= len(into.Blocks)
  cand elems(merge.Blocks) == b && merge.Blocks == old(merge.Blocks)
  cand ref(into.Blocks) == old(ref(into.Blocks)) || fresh(ref(into.Blocks))

# ---- profiles of several files
pred byName(a array[int,*cover.Profile], n int) bool = forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < n ==> strord(a[i].FileName) < strord(a[j].FileName)
fn among(a array[int,*cover.Profile], n int, p *cover.Profile) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k] == p
pred wellFormed(p *cover.Profile) bool = p != nil && sorted(elems(p.Blocks), len(p.Blocks))
pred apart(p *cover.Profile, q *cover.Profile) bool = p != q && ref(p.Blocks) != ref(q.Blocks)
func cli.AddCoverProfile(profiles, p) (r, err)
  safe
  requires wellFormed(p) && byName(elems(profiles), len(profiles))
  requires forall k int {profiles[k]} :: 0 <= k && k < len(profiles) ==> wellFormed(profiles[k]) && apart(p, profiles[k])
  requires forall i int, j int {profiles[i], profiles[j]} :: 0 <= i && i < j && j < len(profiles) ==> apart(profiles[i], profiles[j])
  modifies elems(profiles), cover.Profile.Blocks, elemheap(cover.ProfileBlock)
  let a = old(elems(profiles))
  let n = old(len(profiles))
  ensures own-list: ref(r) == ref(profiles) || fresh(ref(r))
  ensures still-by-name: byName(elems(r), len(r))
  ensures known-file: forall k int {a[k]} :: 0 <= k && k < n && a[k].FileName == p.FileName ==> r == profiles && elems(r) == a
     && (err == nil ==> mergedAll(p.Mode, old(elems(a[k].Blocks)), old(len(a[k].Blocks)), old(elems(p.Blocks)), old(len(p.Blocks)), elems(a[k].Blocks), len(a[k].Blocks)))
  ensures other-files-stay: forall k int {a[k]} :: 0 <= k && k < n && a[k].FileName != p.FileName ==> a[k].Blocks == old(a[k].Blocks) && elems(a[k].Blocks) == old(elems(a[k].Blocks))
  ensures all-well-formed: forall k int {r[k]} :: 0 <= k && k < len(r) ==> wellFormed(r[k])
  ensures kept-apart: forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> apart(r[i], r[j])
  ensures old-or-fresh: forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == p || among(a, n, r[k])
  ensures nothing-else: forall q *cover.Profile {q.Blocks} :: old(allocated(q)) && q.FileName != p.FileName && (forall k int {a[k]} :: 0 <= k && k < n ==> old(ref(q.Blocks)) != old(ref(a[k].Blocks))) ==> q.Blocks == old(q.Blocks) && elems(q.Blocks) == old(elems(q.Blocks))
  ensures new-storage: forall q *cover.Profile {q.Blocks} :: ref(q.Blocks) == old(ref(q.Blocks)) || fresh(ref(q.Blocks))
  ensures new-file: (forall k int {a[k]} :: 0 <= k && k < n ==> a[k].FileName != p.FileName) ==> err == nil && len(r) == n + 1 && among(elems(r), len(r), p) && p.Blocks == old(p.Blocks)
     && (forall k int {a[k]} :: 0 <= k && k < n ==> (strord(a[k].FileName) < strord(p.FileName) ==> r[k] == a[k]) && (strord(p.FileName) < strord(a[k].FileName) ==> r[k + 1] == a[k]))

# ---- writing the result: lines go out per file in the order of the files, every block once and in order
ghost gHead string
ghost gLines array[string,int]
ghost gProfiles array[int,*cover.Profile]
ghost gNum int
ghost gLast string
ghost gAny bool
pred showsBlock(b cover.ProfileBlock, a array[int,any]) bool = a[1] == box(b.StartLine, int) && a[2] == box(b.StartCol, int) && a[3] == box(b.EndLine, int) && a[4] == box(b.EndCol, int) && a[5] == box(b.NumStmt, int) && a[6] == box(b.Count, int)
# gProfiles: what is to be written; gLines: lines written so far per file; gLast: the file of the last line
ext fmt.Fprintf(w, format, a) (n, err)
  requires the-two-line-formats: format == "mode: %s\n" && len(a) == 1 || format == "%s:%d.%d,%d.%d %d %d\n" && len(a) == 7
  requires head-once: format == "mode: %s\n" ==> gHead == "" && typeIs(a[0], string)
  requires head-first: len(a) == 7 ==> gHead != ""
  requires the-next-block-of-its-file: len(a) == 7 ==> typeIs(a[0], string) && (exists k int {gProfiles[k]} :: 0 <= k && k < gNum && gProfiles[k].FileName == unbox(a[0], string) && gLines[unbox(a[0], string)] < len(gProfiles[k].Blocks) && showsBlock(gProfiles[k].Blocks[gLines[unbox(a[0], string)]], elems(a)))
  requires files-in-order: len(a) == 7 && gAny ==> strord(gLast) <= strord(unbox(a[0], string))
  modifies gHead, gLines, gLast, gAny
  ensures len(a) == 7 ==> gAny && gLast == unbox(a[0], string)
  ensures len(a) != 7 ==> gAny == old(gAny) && gLast == old(gLast)
  ensures format == "mode: %s\n" ==> gLines == old(gLines) && gHead == "mode: " + unbox(a[0], string)
  ensures len(a) == 7 ==> gHead == old(gHead) && gLines == store(old(gLines), unbox(a[0], string), old(gLines)[unbox(a[0], string)] + 1)
func cli.DumpCoverProfiles(profiles, out) (err)
  safe
  requires byName(elems(profiles), len(profiles)) && (forall k int {profiles[k]} :: 0 <= k && k < len(profiles) ==> profiles[k] != nil)
  sets gProfiles == elems(profiles) && gNum == len(profiles) && !gAny
  sets gHead == "" && (forall s string {gLines[s]} :: gLines[s] == 0)
  modifies gHead, gLines, gLast, gAny, gProfiles, gNum
  ensures one-mode-line: err == nil && len(profiles) > 0 ==> gHead == "mode: " + profiles[0].Mode
  ensures a-line-per-block: err == nil ==> (forall k int {profiles[k]} :: 0 <= k && k < len(profiles) ==> gLines[profiles[k].FileName] == len(profiles[k].Blocks))
  cand gHead == "mode: " + profiles[0].Mode
  cand $i: int :: forall k int {profiles[k]} :: 0 <= k && k < $i ==> gLines[profiles[k].FileName] == len(profiles[k].Blocks)
  cand $i: int :: forall k int {profiles[k]} :: $i <= k && k < len(profiles) ==> gLines[profiles[k].FileName] == 0
  cand $i: int :: forall k int {profiles[k]} :: $i < k && k < len(profiles) ==> gLines[profiles[k].FileName] == 0
  cand $j: int, @p: *cover.Profile :: gLines[@p.FileName] == $j
  cand $i: int :: forall k int {profiles[k]} :: $i <= k && k < len(profiles) && gAny ==> strord(gLast) < strord(profiles[k].FileName)
  cand $i: int :: forall k int {profiles[k]} :: $i < k && k < len(profiles) && gAny ==> strord(gLast) < strord(profiles[k].FileName)
  cand @p: *cover.Profile :: gAny ==> strord(gLast) <= strord(@p.FileName)

# ---- the whole merge: any rejection is an error, nothing is dropped on the way
ext golang.org/x/tools/cover.ParseProfiles(file) (ps, err)
  ensures err == nil ==> fresh(ref(ps)) && (forall k int {ps[k]} :: 0 <= k && k < len(ps) ==> wellFormed(ps[k]) && fresh(ps[k]) && fresh(ref(ps[k].Blocks)) && allocated(ps[k]) && allocated(ref(ps[k].Blocks)))
  ensures err == nil ==> byName(elems(ps), len(ps)) && (forall i int, j int {ps[i], ps[j]} :: 0 <= i && i < j && j < len(ps) ==> apart(ps[i], ps[j]))
ext os.Remove(f) (err)
ext os.OpenFile(f, flag, perm) (h, err)
ext (*os.File).Close(f) (err)
func cli.MergeAndCleanupCoverProfiles(profiles, destination) (err)
  effort 5
  modifies everything
  cand @m: []*cover.Profile :: byName(elems(@m), len(@m))
  cand @m: []*cover.Profile :: forall k int {@m[k]} :: 0 <= k && k < len(@m) ==> wellFormed(@m[k])
  cand @m: []*cover.Profile :: forall i int, j int {@m[i], @m[j]} :: 0 <= i && i < j && j < len(@m) ==> apart(@m[i], @m[j])
  cand @m: []*cover.Profile, @p: []*cover.Profile, $i: int :: forall j int, k int {@m[j], @p[k]} :: 0 <= j && j < len(@m) && 0 <= k && $i < k && k < len(@p) ==> apart(@m[j], @p[k])

  cand @p: []*cover.Profile :: byName(elems(@p), len(@p))
  cand @p: []*cover.Profile, $i: int :: forall k int {@p[k]} :: 0 <= k && $i < k && k < len(@p) ==> wellFormed(@p[k])
  cand @p: []*cover.Profile, $i: int :: forall i int, j int {@p[i], @p[j]} :: 0 <= i && $i < i && i < j && j < len(@p) ==> apart(@p[i], @p[j])
  cand @m: []*cover.Profile, @p: []*cover.Profile :: ref(@m) != ref(@p)
  cand @m: []*cover.Profile :: forall k int {@m[k]} :: 0 <= k && k < len(@m) ==> allocated(@m[k]) && allocated(ref(@m[k].Blocks))
  cand @m: []*cover.Profile :: allocated(ref(@m))
