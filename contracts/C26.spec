# C26  Watch mode reruns every suite a change can affect
include lib
include regexp
# --- time
decl after(t time.Time, u time.Time) bool
axiom notAfterTrans(a time.Time, b time.Time, c time.Time)
  requires !after(a, b) && !after(b, c)
  ensures !after(a, c)
  trigger after(a, b), after(b, c)
  auto
axiom notAfterItself(a time.Time, b time.Time)
  requires after(a, b)
  ensures !after(b, a)
  trigger after(a, b)
  auto
ghost gNow time.Time
ext time.Now() (t)
  modifies gNow
  ensures t == gNow && !after(old(gNow), t)
ext (time.Time).After(t, u) (r)
  ensures r == after(t, u)
ext (time.Time).Before(t, u) (r)
  ensures r == after(u, t)
ext (time.Time).Sub(t, u) (r)
  ensures (r > 0) == after(t, u)
ext math.Max(x, y) (r)
  ensures r == ite(x > y, x, y)
ext println(a)
# --- the file system
decl pathAbs(p string) string
ext path/filepath.Abs(p) (r, err)
  ensures r == pathAbs(p)
decl entIsDir(e os.DirEntry) bool
decl entInfo(e os.DirEntry) os.FileInfo
decl entNoInfo(e os.DirEntry) bool
decl infoName(i os.FileInfo) string
decl infoText(i os.FileInfo) string
decl infoTime(i os.FileInfo) time.Time
decl hidden(i os.FileInfo) bool
ghost gEntries array[string,[]os.DirEntry]
ghost gUnreadable array[string,bool]
ghost gLooked array[string,bool]
ext os.ReadDir(name) (es, err)
  modifies gEntries, gUnreadable, gLooked
  ensures gLooked == store(old(gLooked), name, true)
  ensures gEntries == store(old(gEntries), name, es)
  ensures gUnreadable == store(old(gUnreadable), name, err != nil)
invoke fs.DirEntry.IsDir(e) (r)
  ensures r == entIsDir(e)
invoke fs.DirEntry.Info(e) (i, err)
  ensures i == entInfo(e) && (err != nil) == entNoInfo(e)
invoke fs.FileInfo.Name(i) (r)
  ensures r == infoName(i)
invoke fs.FileInfo.ModTime(i) (r)
  ensures r == infoTime(i)
func watch.isHiddenFile(info) (r)
  trusted
  ensures r == hidden(info)
func watch.(*PackageHash).hashForFileInfo(p, info) (r)
  trusted
  ensures r == infoText(info)
pred seen(e os.DirEntry) bool = !entIsDir(e) && !entNoInfo(e) && !hidden(entInfo(e))
pred isTest(t string, e os.DirEntry) bool = seen(e) && matchesRe(t, infoName(entInfo(e)))
pred isCode(t string, w string, e os.DirEntry) bool = seen(e) && !matchesRe(t, infoName(entInfo(e))) && matchesRe(w, infoName(entInfo(e)))
fn codeText(a array[int,os.DirEntry], n int, t string, w string) string = ite(n <= 0, "", ite(isCode(t, w, a[n - 1]), codeText(a, n - 1, t, w) + infoText(entInfo(a[n - 1])), codeText(a, n - 1, t, w)))
fn testText(a array[int,os.DirEntry], n int, t string) string = ite(n <= 0, "", ite(isTest(t, a[n - 1]), testText(a, n - 1, t) + infoText(entInfo(a[n - 1])), testText(a, n - 1, t)))
pred codeNow(p *watch.PackageHash) string = codeText(elems(gEntries[p.path]), len(gEntries[p.path]), source(watch.goTestRegExp), source(p.watchRegExp))
pred testNow(p *watch.PackageHash) string = testText(elems(gEntries[p.path]), len(gEntries[p.path]), source(watch.goTestRegExp)) + codeNow(p)
func watch.(*PackageHash).computeHashes(p) (codeHash, codeTime, testHash, testTime, deleted)
  requires p != nil && p.watchRegExp != nil && watch.goTestRegExp != nil
  modifies gEntries, gUnreadable, gLooked
  ensures gLooked == store(old(gLooked), p.path, true)
  ensures deleted == gUnreadable[p.path]
  ensures every-matching-file: !deleted ==> codeHash == codeNow(p)
  ensures every-test-file: !deleted ==> testHash == testNow(p)
  cand $i: int, $h: string :: $h == codeText(elems(gEntries[p.path]), $i, source(watch.goTestRegExp), source(p.watchRegExp))
  cand $i: int, $h: string :: $h == testText(elems(gEntries[p.path]), $i, source(watch.goTestRegExp))
func watch.(*PackageHash).timeOfChange(p, newestFile, lastCheck) (r)
  requires p != nil
  ensures not-before-the-last-look: !after(lastCheck, p.checkedAt) ==> !after(lastCheck, r)
  ensures r == newestFile || r == p.checkedAt
func watch.NewPackageHash(path, watchRegExp) (p)
  requires watchRegExp != nil && watch.goTestRegExp != nil
  modifies gNow, gEntries, gUnreadable, gLooked
  ensures forall k string {gLooked[k]} :: old(gLooked[k]) ==> gLooked[k]
  ensures p != nil && fresh(p) && p.path == path && p.watchRegExp == watchRegExp
  ensures !after(p.checkedAt, gNow) && !after(old(gNow), gNow)
  ensures as-it-is-now: p.Deleted == gUnreadable[path] && (!p.Deleted ==> p.codeHash == codeNow(p) && p.testHash == testNow(p))
func watch.(*PackageHash).CheckForChanges(p) (r)
  requires p != nil && p.watchRegExp != nil && watch.goTestRegExp != nil && !after(p.checkedAt, gNow)
  modifies p.CodeModifiedTime, p.TestModifiedTime, p.Deleted, p.checkedAt, p.codeHash, p.testHash, gNow, gEntries, gUnreadable, gLooked
  ensures gLooked == store(old(gLooked), p.path, true)
  ensures !after(p.checkedAt, gNow) && !after(old(gNow), gNow)
  ensures as-it-is-now: p.Deleted == gUnreadable[p.path] && (!p.Deleted ==> p.codeHash == codeNow(p) && p.testHash == testNow(p)) && (p.Deleted ==> p.codeHash == "" && p.testHash == "")
  ensures reported: r == (p.Deleted || p.codeHash != old(p.codeHash) || p.testHash != old(p.testHash))
  ensures code-change-dated: p.codeHash != old(p.codeHash) && !p.Deleted ==> !after(old(p.checkedAt), p.CodeModifiedTime)
  ensures test-change-dated: p.testHash != old(p.testHash) && !p.Deleted ==> !after(old(p.checkedAt), p.TestModifiedTime)
  ensures removal-dated: p.Deleted && !old(p.Deleted) ==> !after(old(p.checkedAt), p.CodeModifiedTime) && !after(old(p.checkedAt), p.TestModifiedTime)
  ensures only-changes-are-dated: (p.codeHash == old(p.codeHash) && p.Deleted == old(p.Deleted) ==> p.CodeModifiedTime == old(p.CodeModifiedTime)) && (p.testHash == old(p.testHash) && p.Deleted == old(p.Deleted) ==> p.TestModifiedTime == old(p.TestModifiedTime))
# --- the packages that are looked at
pred hashesOK(h *watch.PackageHashes) bool = h != nil && h.PackageHashes != nil && h.lock != nil && h.watchRegExp != nil && watch.goTestRegExp != nil && (forall k string {has(h.PackageHashes, k)} :: has(h.PackageHashes, k) ==> allocated(h.PackageHashes[k]) && h.PackageHashes[k] != nil && h.PackageHashes[k].path == k && h.PackageHashes[k].watchRegExp != nil && !after(h.PackageHashes[k].checkedAt, gNow))
func watch.NewPackageHashes(watchRegExp) (h)
  requires watchRegExp != nil && watch.goTestRegExp != nil
  ensures h != nil && fresh(h) && hashesOK(h) && h.usedPaths == nil
func watch.(*PackageHashes).CheckForChanges(h) (modified)
  requires hashesOK(h)
  modifies watch.PackageHash.CodeModifiedTime, watch.PackageHash.TestModifiedTime, watch.PackageHash.Deleted, watch.PackageHash.checkedAt, watch.PackageHash.codeHash, watch.PackageHash.testHash, gNow, gEntries, gUnreadable, gLooked
  ensures hashesOK(h)
  ensures looks-at-every-package: forall k string {has(h.PackageHashes, k)} :: has(h.PackageHashes, k) ==> gLooked[k]
  ensures !after(old(gNow), gNow)
  cand $v: array[string,bool] :: forall k string {$v[k]} :: $v[k] ==> gLooked[k]
  cand hashesOK(h)
  cand !after(old(gNow), gNow)
func watch.(*PackageHashes).Add(h, path) (p)
  requires hashesOK(h)
  modifies contents(h.PackageHashes), contents(h.usedPaths), gNow, gEntries, gUnreadable, gLooked
  ensures forall k string {gLooked[k]} :: old(gLooked[k]) ==> gLooked[k]
  ensures hashesOK(h)
  ensures added: has(h.PackageHashes, pathAbs(path)) && p == h.PackageHashes[pathAbs(path)] && p != nil
  ensures keeps-the-others: forall k string {has(h.PackageHashes, k)} :: old(has(h.PackageHashes, k)) ==> has(h.PackageHashes, k) && h.PackageHashes[k] == old(h.PackageHashes[k])
  ensures used: forall k string {has(h.usedPaths, k)} :: h.usedPaths != nil ==> (h.usedPaths[k] == (old(h.usedPaths[k]) || k == pathAbs(path)))
func watch.(*PackageHashes).Get(h, path) (p)
  requires h != nil && h.lock != nil
  modifies contents(h.usedPaths)
  ensures p == h.PackageHashes[pathAbs(path)]
  ensures used: forall k string {has(h.usedPaths, k)} {h.usedPaths[k]} :: h.usedPaths != nil ==> (h.usedPaths[k] == (old(h.usedPaths[k]) || k == pathAbs(path)))
func watch.(*PackageHashes).StartTrackingUsage(h)
  requires h != nil && h.lock != nil
  modifies h.usedPaths
  ensures fresh(h.usedPaths) && h.usedPaths != nil && (forall k string {has(h.usedPaths, k)} :: !has(h.usedPaths, k))
func watch.(*PackageHashes).StopTrackingUsageAndPrune(h)
  requires hashesOK(h)
  modifies h.usedPaths, contents(h.PackageHashes)
  ensures h.usedPaths == nil && hashesOK(h)
  ensures keeps-what-is-used: forall k string {has(h.PackageHashes, k)} :: old(has(h.PackageHashes, k) && h.usedPaths[k]) ==> has(h.PackageHashes, k) && h.PackageHashes[k] == old(h.PackageHashes[k])
  ensures only-what-is-used: forall k string {has(h.PackageHashes, k)} :: has(h.PackageHashes, k) ==> old(has(h.PackageHashes, k) && h.usedPaths[k])
  cand forall k string {has(h.PackageHashes, k)} :: old(has(h.PackageHashes, k)) && h.usedPaths[k] ==> has(h.PackageHashes, k)
  cand forall k string {has(h.PackageHashes, k)} :: has(h.PackageHashes, k) ==> old(has(h.PackageHashes, k)) && h.PackageHashes[k] == old(h.PackageHashes[k])
  cand $v: array[string,bool] :: forall k string {$v[k]} :: $v[k] && has(h.PackageHashes, k) ==> h.usedPaths[k]
# --- dependencies: what go/build says about a package
decl impFails(path string) bool
decl importsOf(path string) array[int,string]
decl nImports(path string) int
decl testImportsOf(path string) array[int,string]
decl nTestImports(path string) int
decl xtestImportsOf(path string) array[int,string]
decl nXTestImports(path string) int
decl dirOf(path string) string
decl unresolved(imp string) bool
decl inGoroot(imp string) bool
decl dirFor(imp string) string
ext go/build.ImportDir(path, mode) (pkg, err)
  ensures (err != nil) == impFails(path)
  ensures pkg != nil && fresh(pkg) && pkg.Dir == dirOf(path)
  ensures elems(pkg.Imports) == importsOf(path) && len(pkg.Imports) == nImports(path)
  ensures elems(pkg.TestImports) == testImportsOf(path) && len(pkg.TestImports) == nTestImports(path)
  ensures elems(pkg.XTestImports) == xtestImportsOf(path) && len(pkg.XTestImports) == nXTestImports(path)
ext go/build.Import(imp, dir, mode) (pkg, err)
  ensures (err != nil) == unresolved(imp)
  ensures pkg != nil && fresh(pkg) && pkg.Dir == dirFor(imp) && pkg.Goroot == inGoroot(imp)
pred eligible(imp string) bool = !unresolved(imp) && !inGoroot(imp) && (!matchesRe(source(watch.ginkgoAndGomegaFilter), dirFor(imp)) || matchesRe(source(watch.ginkgoIntegrationTestFilter), dirFor(imp)))
# x is the directory of one of the first n imports in a
fn imports(a array[int,string], n int, x string) bool = ite(n <= 0, false, imports(a, n - 1, x) || eligible(a[n - 1]) && dirFor(a[n - 1]) == x)
pred direct(e string, x string) bool = !impFails(e) && imports(importsOf(e), nImports(e), x)
pred seeds(path string, x string) bool = (imports(importsOf(path), nImports(path), x) || imports(testImportsOf(path), nTestImports(path), x) || imports(xtestImportsOf(path), nXTestImports(path), x)) && x != dirOf(path)
pred filters() bool = watch.ginkgoAndGomegaFilter != nil && watch.ginkgoIntegrationTestFilter != nil
func watch.(Dependencies).Dependencies(d) (r)
  ensures r == d.deps
func watch.(Dependencies).addDepIfNotPresent(d, dep, depth)
  requires d.deps != nil
  modifies contents(d.deps)
  ensures adds: has(d.deps, dep) && (old(has(d.deps, dep)) ==> d.deps[dep] == old(d.deps[dep])) && (!old(has(d.deps, dep)) ==> d.deps[dep] == depth)
  ensures only: forall x string {has(d.deps, x)} {d.deps[x]} :: x != dep ==> has(d.deps, x) == old(has(d.deps, x)) && d.deps[x] == old(d.deps[x])
  ensures size: len(d.deps) >= old(len(d.deps)) && (len(d.deps) == old(len(d.deps)) ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == old(has(d.deps, x))))
func watch.(Dependencies).resolveAndAdd(d, deps, depth)
  requires d.deps != nil && filters()
  modifies contents(d.deps)
  ensures adds-them: forall x string {has(d.deps, x)} :: imports(elems(deps), len(deps), x) ==> has(d.deps, x)
  ensures only-them: forall x string {has(d.deps, x)} :: has(d.deps, x) && !old(has(d.deps, x)) ==> imports(elems(deps), len(deps), x) && d.deps[x] == depth
  ensures keeps: forall x string {has(d.deps, x)} :: old(has(d.deps, x)) ==> has(d.deps, x) && d.deps[x] == old(d.deps[x])
  ensures size: len(d.deps) >= old(len(d.deps)) && (len(d.deps) == old(len(d.deps)) ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == old(has(d.deps, x))))
  cand $i: int :: forall x string {has(d.deps, x)} :: imports(elems(deps), $i, x) ==> has(d.deps, x)
  cand $i: int :: forall x string {has(d.deps, x)} :: has(d.deps, x) && !old(has(d.deps, x)) ==> imports(elems(deps), $i, x) && d.deps[x] == depth
  cand forall x string {has(d.deps, x)} :: old(has(d.deps, x)) ==> has(d.deps, x) && d.deps[x] == old(d.deps[x])
  cand len(d.deps) >= old(len(d.deps))
  cand len(d.deps) == old(len(d.deps)) ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == old(has(d.deps, x)))
func watch.(Dependencies).addDepsForDep(d, dep, depth)
  requires d.deps != nil && filters()
  modifies contents(d.deps)
  ensures adds-them: forall x string {has(d.deps, x)} :: direct(dep, x) ==> has(d.deps, x)
  ensures only-them: forall x string {has(d.deps, x)} :: has(d.deps, x) && !old(has(d.deps, x)) ==> direct(dep, x) && d.deps[x] == depth
  ensures keeps: forall x string {has(d.deps, x)} :: old(has(d.deps, x)) ==> has(d.deps, x) && d.deps[x] == old(d.deps[x])
  ensures size: len(d.deps) >= old(len(d.deps)) && (len(d.deps) == old(len(d.deps)) ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == old(has(d.deps, x))))
func watch.(Dependencies).seedWithDepsForPackageAtPath(d, path) (err)
  requires d.deps != nil && filters() && (forall x string {has(d.deps, x)} :: !has(d.deps, x))
  modifies contents(d.deps)
  ensures exactly-its-imports: err == nil ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == seeds(path, x) && (has(d.deps, x) ==> d.deps[x] == 1))
  ensures (err != nil) == impFails(path)
# x is imported by a package at that depth
fn via(dom array[string,bool], depths array[string,int], depth int, x string) bool = exists e string {imports(importsOf(e), nImports(e), x)} :: dom[e] && depths[e] == depth && direct(e, x)
lemma viaIntro(dom array[string,bool], depths array[string,int], depth int, e string, x string)
  requires dom[e] && depths[e] == depth && direct(e, x)
  ensures via(dom, depths, depth, x)
  trigger via(dom, depths, depth, x), imports(importsOf(e), nImports(e), x)
  auto
func watch.(Dependencies).addDepsForDepth(d, depth)
  requires d.deps != nil && filters()
  modifies contents(d.deps)
  ensures adds-the-next-layer: forall e string, x string {imports(importsOf(e), nImports(e), x)} :: old(has(d.deps, e) && d.deps[e] == depth) && direct(e, x) ==> has(d.deps, x)
  ensures only-the-next-layer: forall x string {has(d.deps, x)} :: has(d.deps, x) && !old(has(d.deps, x)) ==> via(old(dom(d.deps)), old(vals(d.deps)), depth, x) && d.deps[x] == depth + 1
  ensures keeps: forall x string {has(d.deps, x)} :: old(has(d.deps, x)) ==> has(d.deps, x) && d.deps[x] == old(d.deps[x])
  ensures size: len(d.deps) >= old(len(d.deps)) && (len(d.deps) == old(len(d.deps)) ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == old(has(d.deps, x))))
  cand $v: array[string,bool] :: forall e string, x string {imports(importsOf(e), nImports(e), x)} :: $v[e] && old(has(d.deps, e) && d.deps[e] == depth) && direct(e, x) ==> has(d.deps, x)
  cand forall x string {has(d.deps, x)} :: has(d.deps, x) && !old(has(d.deps, x)) ==> via(old(dom(d.deps)), old(vals(d.deps)), depth, x) && d.deps[x] == depth + 1
  cand forall x string {has(d.deps, x)} :: old(has(d.deps, x)) ==> has(d.deps, x) && d.deps[x] == old(d.deps[x])
  cand len(d.deps) >= old(len(d.deps))
  cand len(d.deps) == old(len(d.deps)) ==> (forall x string {has(d.deps, x)} :: has(d.deps, x) == old(has(d.deps, x)))
lemma viaKeeps(a array[string,bool], m array[string,int], b array[string,bool], n array[string,int], depth int, x string)
  requires via(a, m, depth, x)
  requires forall e string {a[e]} {b[e]} :: a[e] ==> b[e] && n[e] == m[e]
  ensures via(b, n, depth, x)
  trigger via(a, m, depth, x), via(b, n, depth, x)
  auto
# the packages within maxDepth of path: the imports of path at depth 1, and then whatever a package at a smaller depth imports; nothing else
pred layered(m map[string]int, path string) bool = (forall x string {has(m, x)} :: (has(m, x) && m[x] <= 1) == seeds(path, x)) && (forall x string {has(m, x)} :: has(m, x) && m[x] > 1 ==> via(dom(m), vals(m), m[x] - 1, x))
pred closedBelow(m map[string]int, depth int) bool = forall e string, x string {imports(importsOf(e), nImports(e), x)} :: has(m, e) && m[e] < depth && direct(e, x) ==> has(m, x)
pred within(m map[string]int, depth int) bool = forall x string {has(m, x)} :: has(m, x) ==> 1 <= m[x] && m[x] <= depth
func watch.NewDependencies(path, maxDepth) (d, err)
  requires filters()
  ensures d.deps != nil && fresh(d.deps)
  ensures no-depth-no-dependencies: maxDepth == 0 ==> err == nil && (forall x string {has(d.deps, x)} :: !has(d.deps, x))
  ensures only-what-is-within-the-depth: maxDepth > 0 && err == nil ==> within(d.deps, maxDepth) && layered(d.deps, path)
  ensures all-that-is-within-the-depth: maxDepth > 0 && err == nil ==> closedBelow(d.deps, maxDepth)
  ensures maxDepth > 0 ==> (err != nil) == impFails(path)
  cand @d: watch.Dependencies :: layered(@d.deps, path)
  cand $i: int, @d: watch.Dependencies :: within(@d.deps, $i)
  cand $i: int, @d: watch.Dependencies :: closedBelow(@d.deps, $i)
  cand $i: int :: 1 <= $i
  cand $i: int :: maxDepth > 0 ==> $i <= maxDepth
# --- suites
pred hashed(h *watch.PackageHashes, p string) bool = has(h.PackageHashes, pathAbs(p))
pred suiteOK(s *watch.Suite) bool = s != nil && hashesOK(s.sharedPackageHashes) && s.Dependencies.deps != nil && hashed(s.sharedPackageHashes, s.Suite.Path) && (forall p string {has(s.Dependencies.deps, p)} :: has(s.Dependencies.deps, p) ==> hashed(s.sharedPackageHashes, p) && s.Dependencies.deps[p] >= 1)
pred codeChanged(s *watch.Suite, p string) bool = after(s.sharedPackageHashes.PackageHashes[pathAbs(p)].CodeModifiedTime, s.RunTime)
pred ownChanged(s *watch.Suite) bool = after(s.sharedPackageHashes.PackageHashes[pathAbs(s.Suite.Path)].TestModifiedTime, s.RunTime)
pred quiet(s *watch.Suite) bool = !ownChanged(s) && (forall p string {has(s.Dependencies.deps, p)} :: has(s.Dependencies.deps, p) ==> !codeChanged(s, p))
func watch.NewSuite(suite, maxDepth, shared) (s, err)
  requires hashesOK(shared) && filters() && maxDepth >= 0
  modifies contents(shared.PackageHashes), contents(shared.usedPaths), gNow, gEntries, gUnreadable, gLooked
  ensures forall k string {gLooked[k]} :: old(gLooked[k]) ==> gLooked[k]
  ensures err == nil ==> fresh(s) && suiteOK(s) && s.sharedPackageHashes == shared && s.Suite == suite
  ensures dependencies: err == nil && maxDepth > 0 ==> within(s.Dependencies.deps, maxDepth) && layered(s.Dependencies.deps, suite.Path) && closedBelow(s.Dependencies.deps, maxDepth)
  ensures hashesOK(shared)
  ensures keeps: forall k string {has(shared.PackageHashes, k)} :: old(has(shared.PackageHashes, k)) ==> has(shared.PackageHashes, k) && shared.PackageHashes[k] == old(shared.PackageHashes[k])
  cand forall k string {gLooked[k]} :: old(gLooked[k]) ==> gLooked[k]
  cand hashesOK(shared)
  cand hashed(shared, suite.Path)
  cand $v: array[string,bool] :: forall p string {$v[p]} :: $v[p] ==> hashed(shared, p)
  cand forall k string {has(shared.PackageHashes, k)} :: old(has(shared.PackageHashes, k)) ==> has(shared.PackageHashes, k) && shared.PackageHashes[k] == old(shared.PackageHashes[k])
func watch.(*Suite).dt(s, packagePath, includeTests) (r)
  requires s != nil && hashesOK(s.sharedPackageHashes) && hashed(s.sharedPackageHashes, packagePath)
  modifies contents(s.sharedPackageHashes.usedPaths)
  ensures tests: includeTests ==> (r > 0) == after(s.sharedPackageHashes.PackageHashes[pathAbs(packagePath)].TestModifiedTime, s.RunTime)
  ensures code: !includeTests ==> (r > 0) == codeChanged(s, packagePath)
  ensures used: forall k string {has(s.sharedPackageHashes.usedPaths, k)} {s.sharedPackageHashes.usedPaths[k]} :: s.sharedPackageHashes.usedPaths != nil ==> (s.sharedPackageHashes.usedPaths[k] == (old(s.sharedPackageHashes.usedPaths[k]) || k == pathAbs(packagePath)))
func watch.(*Suite).delta(s, packagePath, includeTests, depth) (r)
  requires s != nil && hashesOK(s.sharedPackageHashes) && hashed(s.sharedPackageHashes, packagePath) && depth >= 0
  modifies contents(s.sharedPackageHashes.usedPaths)
  ensures r >= 0
  ensures tests: includeTests ==> (r > 0) == after(s.sharedPackageHashes.PackageHashes[pathAbs(packagePath)].TestModifiedTime, s.RunTime)
  ensures code: !includeTests ==> (r > 0) == codeChanged(s, packagePath)
  ensures used: forall k string {has(s.sharedPackageHashes.usedPaths, k)} {s.sharedPackageHashes.usedPaths[k]} :: s.sharedPackageHashes.usedPaths != nil ==> (s.sharedPackageHashes.usedPaths[k] == (old(s.sharedPackageHashes.usedPaths[k]) || k == pathAbs(packagePath)))
func watch.(*Suite).Delta(s) (r)
  requires suiteOK(s)
  modifies contents(s.sharedPackageHashes.usedPaths)
  ensures own-package: ownChanged(s) ==> r > 0
  ensures any-dependency: forall p string {has(s.Dependencies.deps, p)} :: has(s.Dependencies.deps, p) && codeChanged(s, p) ==> r > 0
  ensures nothing-else: quiet(s) ==> r <= 0
  ensures uses-them: s.sharedPackageHashes.usedPaths != nil ==> s.sharedPackageHashes.usedPaths[pathAbs(s.Suite.Path)] && (forall p string {has(s.Dependencies.deps, p)} :: has(s.Dependencies.deps, p) ==> s.sharedPackageHashes.usedPaths[pathAbs(p)])
  ensures forall k string {s.sharedPackageHashes.usedPaths[k]} :: old(s.sharedPackageHashes.usedPaths[k]) ==> s.sharedPackageHashes.usedPaths[k]
  cand $d: float64 :: $d >= 0
  cand $d: float64 :: ownChanged(s) ==> $d > 0
  cand $d: float64, $v: array[string,bool] :: forall p string {$v[p]} :: $v[p] && codeChanged(s, p) ==> $d > 0
  cand $d: float64 :: quiet(s) ==> $d <= 0
  cand s.sharedPackageHashes.usedPaths != nil ==> s.sharedPackageHashes.usedPaths[pathAbs(s.Suite.Path)]
  cand $v: array[string,bool] :: forall p string {$v[p]} :: $v[p] && s.sharedPackageHashes.usedPaths != nil ==> s.sharedPackageHashes.usedPaths[pathAbs(p)]
  cand forall k string {s.sharedPackageHashes.usedPaths[k]} :: old(s.sharedPackageHashes.usedPaths[k]) ==> s.sharedPackageHashes.usedPaths[k]
func watch.(*Suite).MarkAsRunAndRecomputedDependencies(s, maxDepth) (err)
  requires suiteOK(s) && filters() && maxDepth >= 0
  modifies s.RunTime, s.Dependencies, contents(s.sharedPackageHashes.PackageHashes), contents(s.sharedPackageHashes.usedPaths), gNow, gEntries, gUnreadable, gLooked
  ensures suiteOK(s)
  ensures run-now: !after(old(gNow), s.RunTime)
  ensures dependencies: err == nil && maxDepth > 0 ==> within(s.Dependencies.deps, maxDepth) && layered(s.Dependencies.deps, s.Suite.Path) && closedBelow(s.Dependencies.deps, maxDepth)
  ensures keeps: forall k string {has(s.sharedPackageHashes.PackageHashes, k)} :: old(has(s.sharedPackageHashes.PackageHashes, k)) ==> has(s.sharedPackageHashes.PackageHashes, k) && s.sharedPackageHashes.PackageHashes[k] == old(s.sharedPackageHashes.PackageHashes[k])
  cand hashesOK(s.sharedPackageHashes)
  cand hashed(s.sharedPackageHashes, s.Suite.Path)
  cand $v: array[string,bool] :: forall p string {$v[p]} :: $v[p] ==> hashed(s.sharedPackageHashes, p)
  cand forall k string {has(s.sharedPackageHashes.PackageHashes, k)} :: old(has(s.sharedPackageHashes.PackageHashes, k)) ==> has(s.sharedPackageHashes.PackageHashes, k) && s.sharedPackageHashes.PackageHashes[k] == old(s.sharedPackageHashes.PackageHashes[k])
# --- the tracker
pred tracked(d *watch.DeltaTracker) bool = d != nil && d.suites != nil && hashesOK(d.packageHashes) && d.maxDepth >= 0 && filters() && (forall k string {has(d.suites, k)} :: has(d.suites, k) ==> allocated(d.suites[k]) && d.suites[k] != nil && d.suites[k].Suite.Path == k && d.suites[k].sharedPackageHashes == d.packageHashes && d.suites[k].Dependencies.deps != nil)
pred present(d *watch.DeltaTracker) bool = (forall k string {has(d.suites, k)} :: has(d.suites, k) ==> hashed(d.packageHashes, k)) && (forall k string, p string {has(d.suites[k].Dependencies.deps, p)} :: has(d.suites, k) && has(d.suites[k].Dependencies.deps, p) ==> hashed(d.packageHashes, p) && d.suites[k].Dependencies.deps[p] >= 1)
func watch.NewDeltaTracker(maxDepth, watchRegExp) (d)
  requires watchRegExp != nil && watch.goTestRegExp != nil && filters() && maxDepth >= 0
  ensures fresh(d) && d.packageHashes.usedPaths == nil && tracked(d) && present(d)
func watch.(*DeltaTracker).WillRun(d, suite) (err)
  requires tracked(d) && present(d) && d.packageHashes.usedPaths == nil
  modifies watch.Suite.RunTime, watch.Suite.Dependencies, contents(d.packageHashes.PackageHashes), contents(d.packageHashes.usedPaths), gNow, gEntries, gUnreadable, gLooked
  ensures tracked(d) && present(d) && d.packageHashes.usedPaths == nil
  ensures run-now: has(d.suites, suite.Path) ==> !after(old(gNow), d.suites[suite.Path].RunTime)
  ensures unknown: !has(d.suites, suite.Path) ==> err != nil
fn provides(a array[int,cli.TestSuite], n int, k string) bool = ite(n <= 0, false, provides(a, n - 1, k) || a[n - 1].Path == k)
lemma providesAt(a array[int,cli.TestSuite], n int, i int)
  requires 0 <= i && i < n
  ensures provides(a, n, a[i].Path)
  trigger provides(a, n, a[i].Path)
  induct n
  auto
fn amongS(a array[int,*watch.Suite], n int, s *watch.Suite) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k] == s
lemma amongPrefix(a array[int,*watch.Suite], n int, b array[int,*watch.Suite], m int, s *watch.Suite)
  requires amongS(a, n, s) && n <= m
  requires forall k int {b[k]} {a[k]} :: 0 <= k && k < n ==> a[k] == b[k]
  ensures amongS(b, m, s)
  trigger amongS(a, n, s), amongS(b, m, s)
  auto
lemma amongLast(a array[int,*watch.Suite], n int, s *watch.Suite)
  requires n >= 1 && a[n - 1] == s
  ensures amongS(a, n, s)
  trigger amongS(a, n, s)
  auto
pred given(suites cli.TestSuites, k string) bool = provides(elems(suites), len(suites), k)
pred inS(l []*watch.Suite, s *watch.Suite) bool = amongS(elems(l), len(l), s)
func watch.(*DeltaTracker).Delta(d, suites) (delta, errors)
  effort 5
  requires tracked(d) && present(d) && d.packageHashes.usedPaths == nil
  modifies contents(d.packageHashes.usedPaths), watch.PackageHash.CodeModifiedTime, watch.PackageHash.TestModifiedTime, watch.PackageHash.Deleted, watch.PackageHash.checkedAt, watch.PackageHash.codeHash, watch.PackageHash.testHash, contents(d.suites), contents(d.packageHashes.PackageHashes), d.packageHashes.usedPaths, gNow, gEntries, gUnreadable, gLooked
  ensures tracked(d) && present(d)
  ensures d.packageHashes.usedPaths == nil
  ensures looks-at-every-package: forall k string {gLooked[k]} :: old(has(d.packageHashes.PackageHashes, k)) ==> gLooked[k]
  ensures own-package-changed: forall k string {has(d.suites, k)} :: old(has(d.suites, k)) && given(suites, k) && ownChanged(d.suites[k]) ==> inS(delta.modifiedSuites, d.suites[k])
  ensures a-dependency-changed: forall k string, p string {has(d.suites[k].Dependencies.deps, p)} :: old(has(d.suites, k)) && given(suites, k) && has(d.suites[k].Dependencies.deps, p) && codeChanged(d.suites[k], p) ==> inS(delta.modifiedSuites, d.suites[k])
  ensures nothing-else: forall i int {delta.modifiedSuites[i]} :: 0 <= i && i < len(delta.modifiedSuites) ==> !quiet(delta.modifiedSuites[i]) && has(d.suites, delta.modifiedSuites[i].Suite.Path) && d.suites[delta.modifiedSuites[i].Suite.Path] == delta.modifiedSuites[i] && given(suites, delta.modifiedSuites[i].Suite.Path)
  ensures new-suites-reported: forall k string {has(d.suites, k)} :: has(d.suites, k) && !old(has(d.suites, k)) ==> inS(delta.NewSuites, d.suites[k])
  ensures keeps-the-suites: forall k string {has(d.suites, k)} :: old(has(d.suites, k)) && given(suites, k) ==> has(d.suites, k) && d.suites[k] == old(d.suites[k])
  ensures forgets-the-others: forall k string {has(d.suites, k)} :: has(d.suites, k) ==> given(suites, k)
  cand $i: int, @m: map[string]bool :: forall k string {@m[k]} {has(@m, k)} :: @m[k] == provides(elems(suites), $i, k)
  cand @m: map[string]bool :: forall k string {@m[k]} {has(@m, k)} :: @m[k] == given(suites, k)
  cand tracked(d)
  cand present(d)
  cand forall k string {gLooked[k]} :: old(has(d.packageHashes.PackageHashes, k)) ==> gLooked[k]
  cand $v: array[string,bool] :: forall k string {$v[k]} {has(d.suites, k)} :: $v[k] && has(d.suites, k) ==> given(suites, k) && d.packageHashes.usedPaths[pathAbs(k)]
  cand $v: array[string,bool] :: forall k string, p string {has(d.suites[k].Dependencies.deps, p)} :: $v[k] && has(d.suites, k) && has(d.suites[k].Dependencies.deps, p) ==> d.packageHashes.usedPaths[pathAbs(p)]
  cand d.packageHashes.usedPaths != nil && fresh(d.packageHashes.usedPaths)
  cand forall k string {has(d.suites, k)} :: has(d.suites, k) ==> old(has(d.suites, k)) && d.suites[k] == old(d.suites[k])
  cand forall k string {has(d.suites, k)} :: old(has(d.suites, k)) && given(suites, k) ==> has(d.suites, k) && d.suites[k] == old(d.suites[k])
  cand forall k string {has(d.suites, k)} :: has(d.suites, k) ==> given(suites, k)
  cand $v: array[string,bool], @e: watch.Delta :: forall k string {has(d.suites, k)} :: $v[k] && has(d.suites, k) && given(suites, k) && ownChanged(d.suites[k]) ==> inS(@e.modifiedSuites, d.suites[k])
  cand $v: array[string,bool], @e: watch.Delta :: forall k string, p string {has(d.suites[k].Dependencies.deps, p)} :: $v[k] && has(d.suites, k) && given(suites, k) && has(d.suites[k].Dependencies.deps, p) && codeChanged(d.suites[k], p) ==> inS(@e.modifiedSuites, d.suites[k])
  cand @e: watch.Delta :: forall k string {has(d.suites, k)} :: old(has(d.suites, k)) && given(suites, k) && ownChanged(d.suites[k]) ==> inS(@e.modifiedSuites, d.suites[k])
  cand @e: watch.Delta :: forall k string, p string {has(d.suites[k].Dependencies.deps, p)} :: old(has(d.suites, k)) && given(suites, k) && has(d.suites[k].Dependencies.deps, p) && codeChanged(d.suites[k], p) ==> inS(@e.modifiedSuites, d.suites[k])
  cand @e: watch.Delta :: forall i int {@e.modifiedSuites[i]} :: 0 <= i && i < len(@e.modifiedSuites) ==> !quiet(@e.modifiedSuites[i]) && has(d.suites, @e.modifiedSuites[i].Suite.Path) && d.suites[@e.modifiedSuites[i].Suite.Path] == @e.modifiedSuites[i] && given(suites, @e.modifiedSuites[i].Suite.Path)
  cand d.packageHashes.usedPaths == nil
  cand @e: watch.Delta :: ref(@e.modifiedSuites) == 0 && len(@e.modifiedSuites) == 0 || fresh(ref(@e.modifiedSuites))
  cand @e: watch.Delta :: ref(@e.NewSuites) == 0 || fresh(ref(@e.NewSuites))
  cand @e: watch.Delta :: ref(@e.RemovedSuites) == 0 || fresh(ref(@e.RemovedSuites))
  cand @e: watch.Delta :: ref(@e.NewSuites) == 0 || ref(@e.NewSuites) != ref(@e.modifiedSuites)
  cand @e: watch.Delta :: ref(@e.RemovedSuites) == 0 || ref(@e.RemovedSuites) != ref(@e.modifiedSuites)
  cand @e: watch.Delta :: forall k string {has(d.suites, k)} :: has(d.suites, k) && !old(has(d.suites, k)) ==> inS(@e.NewSuites, d.suites[k])
