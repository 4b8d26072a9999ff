# C01  Spec selection: exactly the filtered, non-pending specs run
include node
include strings
include C16
pureftype func(internal.Spec) bool
pureftype func([]string) bool

func internal.(Spec).Text(s) (r)
  ensures all-nodes: r == texts(elems(s.Nodes), len(s.Nodes))
  cand $i: int, @t: []string :: joined(elems(@t), len(@t), " ") == old(texts(elems(s.Nodes), $i))
  cand $i: int, @t: []string :: (len(@t) == 0) == (old(texts(elems(s.Nodes), $i)) == "")
  cand @t: []string :: forall k int {@t[k]} :: 0 <= k && k < len(@t) ==> @t[k] != ""
  cand @t: []string :: fresh(ref(@t)) || cap(@t) == 0
func internal.UnionOfLabels(labels) (out)
  ensures fresh(ref(out)) || cap(out) == 0
  ensures exactly: forall v string {listed(out, v)} :: listed(out, v) == old(inSome(elems(labels), len(labels), v))
  ensures once-each: forall i int, j int {out[i], out[j]} :: 0 <= i && i < j && j < len(out) ==> out[i] != out[j]
  cand @o: []string :: fresh(ref(@o)) || cap(@o) == 0
  cand @o: []string, @m: map[string]bool :: forall x string {@m[x]} :: @m[x] ==> listed(@o, x)
  cand @o: []string, @m: map[string]bool :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> @m[@o[j]]
  cand @o: []string :: forall i int, j int {@o[i], @o[j]} :: 0 <= i && i < j && j < len(@o) ==> @o[i] != @o[j]
  cand @m: map[string]bool :: forall x string {@m[x]} :: @m[x] ==> old(inSome(elems(labels), len(labels), x))
  cand $i: int, @m: map[string]bool :: forall c int, k int {labels[c][k]} :: 0 <= c && c < $i && 0 <= k && k < len(labels[c]) ==> @m[labels[c][k]]
  cand $i: int, $j: int, @m: map[string]bool :: forall k int {labels[$j][k]} :: 0 <= k && k < $i ==> @m[labels[$j][k]]
fn inSome(a array[int,internal.Labels], n int, v string) bool = exists k int {a[k]} :: 0 <= k && k < n && listed(a[k], v)

# a label filter as a function of the set of labels it is asked about
decl filterOf(s string) types.LabelFilter
decl accepts(f types.LabelFilter, set array[string,bool]) bool
decl setOf(a array[int,string], n int) array[string,bool]
axiom setOfDef(a array[int,string], n int, v string)
  ensures setOf(a, n)[v] == listedIn(a, n, v)
  trigger setOf(a, n)[v]
  auto
func types.ParseLabelFilter(input) (f, err)
  trusted
  ensures f == filterOf(input)

pred pendingSpec(s internal.Spec) bool = exists k int {s.Nodes[k]} :: 0 <= k && k < len(s.Nodes) && s.Nodes[k].MarkedPending
pred focusedSpec(s internal.Spec) bool = exists k int {s.Nodes[k]} :: 0 <= k && k < len(s.Nodes) && s.Nodes[k].MarkedFocus

# the set of labels of a spec: its own and the suite's
ghost suiteLabels0 []string
decl allLabels(s internal.Spec) array[string,bool]
# what one file filter argument selects
pred selects(f string, name string, line int) bool = matchesRe(piece(f, ":", 0), name)
   && (pieces(f, ":") == 1 || (exists j int {piece(piece(f, ":", 1), ",", j)} :: 0 <= j && j < pieces(piece(f, ":", 1), ",") && lineMin(piece(piece(f, ":", 1), ",", j)) <= line && line < lineMax(piece(piece(f, ":", 1), ",", j))))
fn selectsSpec(f string, a array[int,internal.Node], n int) bool = exists k int {a[k]} :: 0 <= k && k < n && selects(f, a[k].CodeLocation.FileName, a[k].CodeLocation.LineNumber)
pred anySelects(fs []string, s internal.Spec) bool = exists i int {fs[i]} :: 0 <= i && i < len(fs) && selectsSpec(fs[i], elems(s.Nodes), len(s.Nodes))
pred wellFormedFilters(fs []string) bool = forall i int {fs[i]} :: 0 <= i && i < len(fs) ==> okFilter(fs[i])
pred rejectedByFilters(s internal.Spec, d string, cfg types.SuiteConfig) bool =
     cfg.LabelFilter != "" && !accepts(filterOf(cfg.LabelFilter), allLabels(s))
  || len(cfg.FocusFiles) > 0 && !anySelects(cfg.FocusFiles, s)
  || len(cfg.SkipFiles) > 0 && anySelects(cfg.SkipFiles, s)
  || joined(elems(cfg.FocusStrings), len(cfg.FocusStrings), "|") != "" && !matchesRe(joined(elems(cfg.FocusStrings), len(cfg.FocusStrings), "|"), d + " " + texts(elems(s.Nodes), len(s.Nodes)))
  || joined(elems(cfg.SkipStrings), len(cfg.SkipStrings), "|") != "" && matchesRe(joined(elems(cfg.SkipStrings), len(cfg.SkipStrings), "|"), d + " " + texts(elems(s.Nodes), len(s.Nodes)))
pred anyFocus(specs []internal.Spec) bool = exists i int {specs[i]} :: 0 <= i && i < len(specs) && focusedSpec(specs[i]) && !pendingSpec(specs[i])
pred mustSkip(specs []internal.Spec, s internal.Spec, d string, cfg types.SuiteConfig) bool =
  pendingSpec(s) || anyFocus(specs) && !focusedSpec(s) || rejectedByFilters(s, d, cfg)

func internal.ApplyFocusToSpecs(specs, description, suiteLabels, suiteConfig) (out, focus)
  effort 5
  requires wellFormedFilters(suiteConfig.FocusFiles) && wellFormedFilters(suiteConfig.SkipFiles)
  requires joined(elems(suiteConfig.FocusStrings), len(suiteConfig.FocusStrings), "|") != "" ==> compiles(joined(elems(suiteConfig.FocusStrings), len(suiteConfig.FocusStrings), "|"))
  requires joined(elems(suiteConfig.SkipStrings), len(suiteConfig.SkipStrings), "|") != "" ==> compiles(joined(elems(suiteConfig.SkipStrings), len(suiteConfig.SkipStrings), "|"))
  # what a set of labels is, and that a label filter looks at nothing else
  requires forall s internal.Spec, v string {allLabels(s)[v]} :: allLabels(s)[v] == (listed(suiteLabels, v) || carries(s.Nodes, v))
  requires forall f types.LabelFilter, a array[int,string], n int, set array[string,bool] {applyc(f, a, n), accepts(f, set)} :: (forall v string {set[v]} :: set[v] == listedIn(a, n, v)) ==> applyc(f, a, n) == accepts(f, set)
  ensures keeps-every-spec: len(out) == len(specs)
  ensures skips-exactly: forall i int {out[i]} {specs[i]} :: 0 <= i && i < len(specs) ==> out[i] == upd(old(specs[i]), Skip, old(specs[i].Skip) || old(mustSkip(specs, specs[i], description, suiteConfig)))
  ensures reports-focus: focus == old(anyFocus(specs))
  cand $i: int :: forall k int {specs[k]} :: 0 <= k && k < $i ==> !(focusedSpec(specs[k]) && !pendingSpec(specs[k]))
  cand $i: int, @o: []internal.Spec :: len(@o) == $i
  cand @o: []internal.Spec :: forall k int {@o[k]} :: 0 <= k && k < len(@o) ==> @o[k] == upd(old(specs[k]), Skip, old(specs[k].Skip) || old(mustSkip(specs, specs[k], description, suiteConfig)))
  cand @o: []internal.Spec :: fresh(ref(@o)) || cap(@o) == 0
  cand $i: int, @f: []func(internal.Spec) bool, @s: internal.Spec :: forall k int {@f[k]} :: 0 <= k && k < $i ==> !apply(@f[k], @s)
  cand @f: []func(internal.Spec) bool :: forall k int, j int {apply(@f[j], specs[k])} :: 0 <= k && k < len(specs) && 0 <= j && j < len(@f) && apply(@f[j], specs[k]) ==> mustSkip(specs, specs[k], description, suiteConfig)
  cand @f: []func(internal.Spec) bool :: forall k int {specs[k]} :: 0 <= k && k < len(specs) && pendingSpec(specs[k]) ==> 0 < len(@f) && apply(@f[0], specs[k]) || 1 < len(@f) && apply(@f[1], specs[k]) || 2 < len(@f) && apply(@f[2], specs[k]) || 3 < len(@f) && apply(@f[3], specs[k]) || 4 < len(@f) && apply(@f[4], specs[k]) || 5 < len(@f) && apply(@f[5], specs[k]) || 6 < len(@f) && apply(@f[6], specs[k])
  cand @f: []func(internal.Spec) bool :: forall k int {specs[k]} :: 0 <= k && k < len(specs) && anyFocus(specs) && !focusedSpec(specs[k]) ==> 0 < len(@f) && apply(@f[0], specs[k]) || 1 < len(@f) && apply(@f[1], specs[k]) || 2 < len(@f) && apply(@f[2], specs[k]) || 3 < len(@f) && apply(@f[3], specs[k]) || 4 < len(@f) && apply(@f[4], specs[k]) || 5 < len(@f) && apply(@f[5], specs[k]) || 6 < len(@f) && apply(@f[6], specs[k])
  cand @f: []func(internal.Spec) bool :: forall k int {specs[k]} :: 0 <= k && k < len(specs) && rejectedByFilters(specs[k], description, suiteConfig) ==> 0 < len(@f) && apply(@f[0], specs[k]) || 1 < len(@f) && apply(@f[1], specs[k]) || 2 < len(@f) && apply(@f[2], specs[k]) || 3 < len(@f) && apply(@f[3], specs[k]) || 4 < len(@f) && apply(@f[4], specs[k]) || 5 < len(@f) && apply(@f[5], specs[k]) || 6 < len(@f) && apply(@f[6], specs[k])
