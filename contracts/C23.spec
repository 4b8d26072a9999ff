# C23  Invalid configuration never starts a run
include C16
root types.ParseFileFilters


# the flag set: which flags the user gave, and their values
decl wasSet(f types.GinkgoFlagSet, name string) bool
decl flagOf(f types.GinkgoFlagSet, name string) *flag.Flag
decl valueOf(v flag.Value) string
func types.(GinkgoFlagSet).WasSet(f, name) (r)
  trusted
  ensures r == wasSet(f, name)
func types.(GinkgoFlagSet).Lookup(f, name) (r)
  trusted
  ensures r == flagOf(f, name)
  ensures wasSet(f, name) ==> r != nil
  ensures r != nil ==> r.Value != nil
invoke flag.Value.String(v) (s)
  ensures s == valueOf(v)
decl okLabelFilter(s string) bool
func types.ParseLabelFilter(input) (f, err)
  trusted
  ensures (err == nil) == okLabelFilter(input)
ext fmt.Sprintf(format, a) (s)
  ensures true

fn countValue(f types.GinkgoFlagSet) string = ite(flagOf(f, "count") != nil, valueOf(flagOf(f, "count").Value), valueOf(flagOf(f, "test.count").Value))
pred goodFlags(f types.GinkgoFlagSet) bool = !wasSet(f, "parallel") && !wasSet(f, "test.parallel")
pred goodParallel(c types.SuiteConfig) bool = c.ParallelTotal >= 1 && 1 <= c.ParallelProcess && c.ParallelProcess <= c.ParallelTotal
    && (c.ParallelTotal > 1 ==> c.ParallelHost != "" && !c.DryRun)
pred goodFiles(a []string) bool = forall i int {a[i]} :: 0 <= i && i < len(a) ==> okFilter(a[i])
pred goodMode(m string) bool = lowered(m) == "" || lowered(m) == "dup" || lowered(m) == "swap" || lowered(m) == "none"
pred goodVerbosity(r types.ReporterConfig) bool = !(r.Succinct && r.Verbose) && !(r.Succinct && r.VeryVerbose) && !(r.Verbose && r.VeryVerbose)
pred goodCount(f types.GinkgoFlagSet) bool = wasSet(f, "count") || wasSet(f, "test.count") ==> isInteger(countValue(f)) && integer(countValue(f)) == 1
pred goodFilters(c types.SuiteConfig) bool = goodFiles(c.FocusFiles) && goodFiles(c.SkipFiles) && (c.LabelFilter != "" ==> okLabelFilter(c.LabelFilter))
pred goodConfig(f types.GinkgoFlagSet, c types.SuiteConfig, r types.ReporterConfig) bool = goodCount(f) && goodFlags(f) && goodParallel(c) && c.GracePeriod > 0 && goodFilters(c) && goodMode(c.OutputInterceptorMode) && goodVerbosity(r)
fn how(a array[int,bool], n int) int = ite(n <= 0, 0, how(a, n - 1) + ite(a[n - 1], 1, 0))
func types.VetConfig(flagSet, suiteConfig, reporterConfig) (errs)
  modifies elemheap(error)
  ensures contradictions-are-rejected: len(errs) == 0 ==> goodFlags(flagSet) && goodCount(flagSet) && goodParallel(suiteConfig) && suiteConfig.GracePeriod > 0 && goodMode(suiteConfig.OutputInterceptorMode)
  ensures invalid-filters-are-rejected: len(errs) == 0 ==> goodFilters(suiteConfig)
  ensures conflicting-verbosity-is-rejected: len(errs) == 0 ==> goodVerbosity(reporterConfig)
  ensures consistent-configuration-is-accepted: goodConfig(flagSet, suiteConfig, reporterConfig) ==> len(errs) == 0
  cand $i: int, @b: []bool, $n: int :: $n == how(elems(@b), $i)

# ---- the command line
decl containsRune(s string, r int32) bool
ext strings.ContainsRune(s, r) (b)
  ensures b == containsRune(s, r)
decl canMake(dir string) bool
ext os.MkdirAll(dir, perm) (err)
  ensures (err == nil) == canMake(dir)
pred isPath(s string) bool = containsRune(s, os.PathSeparator)
pred goodCLI(c types.CLIConfig, g types.GoFlagsConfig) bool = !(c.Repeat > 0 && c.UntilItFails) && !isPath(g.CoverProfile) && !isPath(g.CPUProfile) && !isPath(g.MemProfile) && !isPath(g.BlockProfile) && !isPath(g.MutexProfile) && (c.OutputDir != "" ==> canMake(c.OutputDir))
func types.VetAndInitializeCLIAndGoConfig(cliConfig, goFlagsConfig) (c, g, errs)
  modifies elemheap(error)
  ensures contradictions-are-rejected: (len(errs) == 0) == goodCLI(cliConfig, goFlagsConfig)
  ensures unchanged: c == cliConfig
  ensures otherwise-untouched: g == upd(upd(goFlagsConfig, Cover, g.Cover), CoverProfile, g.CoverProfile)
  ensures profiling-implies-cover: (goFlagsConfig.CoverMode != "" || goFlagsConfig.CoverPkg != "" || goFlagsConfig.CoverProfile != "") ==> g.Cover
  ensures cover-has-a-profile: g.Cover ==> g.CoverProfile != ""

# ---- the entry point: nothing runs unless the configuration was accepted
include dsl
func ginkgo.extractSuiteConfiguration(args) (labels)
  requires !gRan
  modifies suiteConfig, reporterConfig, elemheap(error), elemheap(string)
  ensures accepted: goodConfig(flagSet, suiteConfig, reporterConfig)
func ginkgo.RunSpecs(t, description, args) (r)
  requires !gRan && !gFailed && t != nil
  modifies everything
  ensures ran: gRan && r == gPassed
  ensures a-failed-suite-fails-the-test: gFailed == !gPassed
  ensures programmatic-focus-exits: gPassed && gFocus ==> trimmed(envOf("GINKGO_EDITOR_INTEGRATION")) != ""

# ---- the commands of the CLI
pred goodCommand(c types.CLIConfig, g types.GoFlagsConfig) bool = !(c.Repeat > 0 && c.UntilItFails) && !isPath(g.CPUProfile) && !isPath(g.MemProfile) && !isPath(g.BlockProfile) && !isPath(g.MutexProfile) && (c.OutputDir != "" ==> canMake(c.OutputDir))
func run.(*SpecRunner).RunSpecs(r, args, more)
  trusted
  requires only-with-accepted-configuration: goodCommand(r.cliConfig, r.goFlagsConfig)
func watch.(*SpecWatcher).WatchSpecs(w, args, more)
  trusted
  requires only-with-accepted-configuration: goodCommand(w.cliConfig, w.goFlagsConfig)
func build.buildSpecs(args, cliConfig, goFlagsConfig)
  trusted
  requires only-with-accepted-configuration: goodCommand(cliConfig, goFlagsConfig)
ext fmt.Errorf(format, a) (e)
func command.Abort(d)
  noreturn
func command.AbortIfErrors(preamble, errors)
  ensures stops-on-any-error: len(errors) == 0
func run.BuildRunCommand$1(args, more)
  modifies everything
func watch.BuildWatchCommand$1(args, more)
  modifies everything
func build.BuildBuildCommand$1(args, more)
  modifies everything
