# C24  Parallel compilation preserves suite order
include lib
# gOwner: the suite a completion channel was sent out for; the message contracts below say that what arrives on
# that channel is the outcome for that suite and no other.  A channel is sent out once.
ghost gOwner array[int,cli.TestSuite]
ghost gOwned array[int,bool]
ghost gSuites array[int,cli.TestSuite]
pred sameSuite(a cli.TestSuite, b cli.TestSuite) bool = b.Path == a.Path && b.PackageName == a.PackageName && b.IsGinkgo == a.IsGinkgo && b.Precompiled == a.Precompiled
pred compiledFrom(a cli.TestSuite, b cli.TestSuite) bool = sameSuite(a, b) && ite(a.PathToCompiledTest != "", b == a, b.State == cli.TestSuiteStateFailedToCompile || b.State == cli.TestSuiteStateSkippedDueToEmptyCompilation || b.State == cli.TestSuiteStateCompiled && b.PathToCompiledTest != "")
send internal.parallelSuiteBundle :: (c, v)
  requires one-channel-per-suite: !gOwned[ref(v.compiled)]
  modifies gOwner, gOwned
  ensures gOwner == store(old(gOwner), ref(v.compiled), v.suite)
  ensures gOwned == store(old(gOwned), ref(v.compiled), true)
  ensures gOwned[ref(v.compiled)] && gOwner[ref(v.compiled)] == v.suite
recv internal.parallelSuiteBundle :: (c) (v)
  ensures gOwned[ref(v.compiled)] && gOwner[ref(v.compiled)] == v.suite
send internal.TestSuite :: (c, v)
  requires the-suite-it-is-for: gOwned[ref(c)] && (compiledFrom(gOwner[ref(c)], v) || v == gOwner[ref(c)])
recv internal.TestSuite :: (c) (v)
  ensures gOwned[ref(c)] && (compiledFrom(gOwner[ref(c)], v) || v == gOwner[ref(c)])
ext path/filepath.Abs(p) (r, err)
  ensures err == nil ==> r != ""
ext path/filepath.Join(p) (r)
ext path/filepath.Rel(a, b) (r, err)
ext os.Getwd() (r, err)
ext os/exec.Command(name, args) (c)
  ensures c != nil
ext (*os/exec.Cmd).CombinedOutput(c) (out, err)
ext fmt.Println(a)
func types.GenerateGoTestCompileArgs(a, b, c, d) (args, err)
  trusted
func cli.FileExists(path) (r)
  trusted
func cli.(TestSuite).AbsPath(t) (p)
  trusted
func cli.CompileSuite(suite, goFlagsConfig, preserveSymbols) (r)
  ensures its-own-outcome: compiledFrom(suite, r)
func cli.NewOrderedParallelCompiler(n) (opc)
  ensures opc != nil && fresh(opc) && opc.numCompilers == n && !opc.stopped && opc.idx == 0 && opc.numSuites == 0 && opc.mutex != nil
func cli.(*OrderedParallelCompiler).StartCompiling(opc, suites, goFlagsConfig, preserveSymbols)
  requires opc != nil
  modifies opc.all, gOwner, gOwned
  sets forall k int {gOwned[k]} :: !gOwned[k]
  ensures from-the-start: opc.idx == 0 && opc.numSuites == len(suites) && len(opc.completionChannels) == len(suites)
  ensures each-has-its-channel: forall k int {opc.completionChannels[k]} :: 0 <= k && k < len(suites) ==> gOwned[ref(opc.completionChannels[k])] && gOwner[ref(opc.completionChannels[k])] == suites[k]
  cand $i: int :: forall k int {opc.completionChannels[k]} :: 0 <= k && k < $i ==> gOwned[ref(opc.completionChannels[k])] && gOwner[ref(opc.completionChannels[k])] == suites[k] && allocated(opc.completionChannels[k])
  cand opc.idx == 0 && opc.numSuites == len(suites) && len(opc.completionChannels) == len(suites)
  cand forall k int {gOwned[k]} :: gOwned[k] ==> allocated(k)
func cli.(*OrderedParallelCompiler).StartCompiling$1()
func cli.(*OrderedParallelCompiler).Next(opc) (i, s)
  requires opc != nil && opc.idx >= 0
  requires opc.idx < opc.numSuites ==> opc.numSuites == len(opc.completionChannels) && (forall k int {opc.completionChannels[k]} :: 0 <= k && k < opc.numSuites ==> gOwned[ref(opc.completionChannels[k])] && gOwner[ref(opc.completionChannels[k])] == gSuites[k])
  modifies opc.idx
  ensures in-order: old(opc.idx) < opc.numSuites ==> i == old(opc.idx) && opc.idx == old(opc.idx) + 1
  ensures its-own-outcome: old(opc.idx) < opc.numSuites ==> compiledFrom(gSuites[i], s) || s == gSuites[i]
  ensures then-the-end: old(opc.idx) >= opc.numSuites ==> i == opc.numSuites && opc.idx == old(opc.idx)
func cli.(*OrderedParallelCompiler).StopAndDrain(opc)
  requires opc != nil
  modifies opc.stopped
  ensures stops-compiling: opc.stopped
