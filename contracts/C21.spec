# C21  CLI verdict: any failed suite makes the command fail
include lib
include time
pred failed(s cli.TestSuiteState) bool = s == cli.TestSuiteStateFailed || s == cli.TestSuiteStateFailedDueToTimeout || s == cli.TestSuiteStateFailedToCompile
fn isIn(s cli.TestSuiteState, a array[int,cli.TestSuiteState], n int) bool = ite(n <= 0, false, isIn(s, a, n - 1) || a[n - 1] == s)
func cli.(TestSuiteState).Is(state, states) (r)
  ensures r == isIn(state, elems(states), len(states))
  cand $i: int :: !isIn(state, elems(states), $i)
lemma isInAt(s cli.TestSuiteState, a array[int,cli.TestSuiteState], n int, k int)
  induct n
  requires 0 <= k && k < n && a[k] == s
  ensures isIn(s, a, n)
  trigger isIn(s, a, n), a[k]
  auto
# ---- queries
fn countIn(ts array[int,cli.TestSuite], n int, a array[int,cli.TestSuiteState], m int) int = ite(n <= 0, 0, countIn(ts, n - 1, a, m) + ite(isIn(ts[n - 1].State, a, m), 1, 0))
lemma countInNonneg(ts array[int,cli.TestSuite], n int, a array[int,cli.TestSuiteState], m int)
  induct n
  ensures 0 <= countIn(ts, n, a, m)
  trigger countIn(ts, n, a, m)
  auto
lemma countInMono(ts array[int,cli.TestSuite], k int, n int, a array[int,cli.TestSuiteState], m int)
  requires k <= n
  ensures countIn(ts, k, a, m) <= countIn(ts, n, a, m)
  ensures k >= 0 && k < n && isIn(ts[k].State, a, m) ==> countIn(ts, k, a, m) < countIn(ts, n, a, m)
  induct n
  trigger countIn(ts, k, a, m), countIn(ts, n, a, m)
  auto
func cli.(TestSuites).CountWithState(ts, states) (n)
  ensures counts-each: n == countIn(elems(ts), len(ts), elems(states), len(states))
  cand $i: int, $n: int :: $n == countIn(elems(ts), $i, elems(states), len(states))
func cli.(TestSuites).WithState(ts, states) (out)
  ensures as-many-as-there-are: len(out) == countIn(elems(ts), len(ts), elems(states), len(states)) && (fresh(ref(out)) || len(out) == 0)
  ensures each-in-its-place: forall i int {ts[i]} :: 0 <= i && i < len(ts) && isIn(ts[i].State, elems(states), len(states)) ==> out[countIn(elems(ts), i, elems(states), len(states))] == ts[i]
  ensures no-others: forall j int {out[j]} :: 0 <= j && j < len(out) ==> isIn(out[j].State, elems(states), len(states))
  cand $i: int, @o: cli.TestSuites :: len(@o) == countIn(elems(ts), $i, elems(states), len(states))
  cand $i: int, @o: cli.TestSuites :: forall i int {countIn(elems(ts), i, elems(states), len(states))} :: 0 <= i && i < $i && isIn(ts[i].State, elems(states), len(states)) ==> 0 <= countIn(elems(ts), i, elems(states), len(states)) && countIn(elems(ts), i, elems(states), len(states)) < len(@o) && @o[countIn(elems(ts), i, elems(states), len(states))] == ts[i]
  cand @o: cli.TestSuites :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> isIn(@o[j].State, elems(states), len(states))
fn countOut(ts array[int,cli.TestSuite], n int, a array[int,cli.TestSuiteState], m int) int = ite(n <= 0, 0, countOut(ts, n - 1, a, m) + ite(isIn(ts[n - 1].State, a, m), 0, 1))
lemma countOutNonneg(ts array[int,cli.TestSuite], n int, a array[int,cli.TestSuiteState], m int)
  induct n
  ensures 0 <= countOut(ts, n, a, m)
  trigger countOut(ts, n, a, m)
  auto
lemma countOutMono(ts array[int,cli.TestSuite], k int, n int, a array[int,cli.TestSuiteState], m int)
  requires k <= n
  ensures countOut(ts, k, a, m) <= countOut(ts, n, a, m)
  ensures k >= 0 && k < n && !isIn(ts[k].State, a, m) ==> countOut(ts, k, a, m) < countOut(ts, n, a, m)
  induct n
  trigger countOut(ts, k, a, m), countOut(ts, n, a, m)
  auto
func cli.(TestSuites).WithoutState(ts, states) (out)
  ensures as-many-as-there-are: len(out) == countOut(elems(ts), len(ts), elems(states), len(states)) && (fresh(ref(out)) || len(out) == 0)
  ensures each-in-its-place: forall i int {ts[i]} :: 0 <= i && i < len(ts) && !isIn(ts[i].State, elems(states), len(states)) ==> out[countOut(elems(ts), i, elems(states), len(states))] == ts[i]
  ensures no-others: forall j int {out[j]} :: 0 <= j && j < len(out) ==> !isIn(out[j].State, elems(states), len(states)) && among(elems(ts), len(ts), out[j])
  ensures no-new-failures: nFailed(elems(out), len(out)) <= nFailed(elems(ts), len(ts))
  cand $i: int, @o: cli.TestSuites :: nFailed(elems(@o), len(@o)) <= nFailed(elems(ts), $i)
  cand $i: int, @o: cli.TestSuites :: len(@o) == countOut(elems(ts), $i, elems(states), len(states))
  cand $i: int, @o: cli.TestSuites :: forall i int {countOut(elems(ts), i, elems(states), len(states))} :: 0 <= i && i < $i && !isIn(ts[i].State, elems(states), len(states)) ==> 0 <= countOut(elems(ts), i, elems(states), len(states)) && countOut(elems(ts), i, elems(states), len(states)) < len(@o) && @o[countOut(elems(ts), i, elems(states), len(states))] == ts[i]
  cand @o: cli.TestSuites :: forall j int {@o[j]} :: 0 <= j && j < len(@o) ==> !isIn(@o[j].State, elems(states), len(states)) && among(elems(ts), len(ts), @o[j])
fn among(a array[int,cli.TestSuite], n int, x cli.TestSuite) bool = exists k int {a[k]} :: 0 <= k && k < n && a[k] == x
fn ginkgos(ts array[int,cli.TestSuite], n int) int = ite(n <= 0, 0, ginkgos(ts, n - 1) + ite(ts[n - 1].IsGinkgo, 1, 0))
lemma ginkgosNonneg(ts array[int,cli.TestSuite], n int)
  induct n
  ensures 0 <= ginkgos(ts, n)
  trigger ginkgos(ts, n)
  auto
lemma ginkgosMono(ts array[int,cli.TestSuite], k int, n int)
  requires k <= n
  ensures ginkgos(ts, k) <= ginkgos(ts, n)
  ensures k >= 0 && k < n && ts[k].IsGinkgo ==> ginkgos(ts, k) < ginkgos(ts, n)
  induct n
  trigger ginkgos(ts, k), ginkgos(ts, n)
  auto
func cli.(TestSuites).ThatAreGinkgoSuites(ts) (out)
  ensures as-many-as-there-are: len(out) == ginkgos(elems(ts), len(ts)) && (fresh(ref(out)) || len(out) == 0)
  ensures each-in-its-place: forall i int {ts[i]} :: 0 <= i && i < len(ts) && ts[i].IsGinkgo ==> out[ginkgos(elems(ts), i)] == ts[i]
  cand $i: int, @o: cli.TestSuites :: len(@o) == ginkgos(elems(ts), $i)
  cand $i: int, @o: cli.TestSuites :: forall i int {ginkgos(elems(ts), i)} :: 0 <= i && i < $i && ts[i].IsGinkgo ==> 0 <= ginkgos(elems(ts), i) && ginkgos(elems(ts), i) < len(@o) && @o[ginkgos(elems(ts), i)] == ts[i]
fn anyFocus(ts array[int,cli.TestSuite], n int) bool = ite(n <= 0, false, anyFocus(ts, n - 1) || ts[n - 1].HasProgrammaticFocus)
func cli.(TestSuites).AnyHaveProgrammaticFocus(ts) (r)
  ensures r == anyFocus(elems(ts), len(ts))
  cand $i: int :: !anyFocus(elems(ts), $i)
lemma focusAt(ts array[int,cli.TestSuite], n int, i int)
  induct n
  requires 0 <= i && i < n && ts[i].HasProgrammaticFocus
  ensures anyFocus(ts, n)
  trigger anyFocus(ts, n), ts[i]
  auto
func cli.(TestSuites).ShuffledCopy(ts, seed) (out)
  ensures len(out) == len(ts) && fresh(ref(out))
  ensures none-invented: forall j int {out[j]} :: 0 <= j && j < len(out) ==> among(elems(ts), len(ts), out[j])
  ensures no-new-failures: nFailed(elems(ts), len(ts)) == 0 ==> nFailed(elems(out), len(out)) == 0
  cand $i: int, @o: cli.TestSuites :: nFailed(elems(ts), len(ts)) == 0 ==> nFailed(elems(@o), $i) == 0
  cand $i: int, @p: []int, @o: cli.TestSuites :: forall k int {@o[k]} {@p[k]} :: 0 <= k && k < $i ==> @o[k] == ts[@p[k]]

# ---- one suite: its state is what its process said
ghost gCode int
ghost gWaited bool
ghost gBad bool
ghost gDone int
decl noTests(b *bytes.Buffer) bool
func cli.buildAndStartCommand(suite, args, pipe) (cmd, buf)
  trusted
  modifies gCode, gWaited
  ensures cmd != nil && !gWaited
func cli.checkForNoTestsWarning(buf) (r)
  trusted
  ensures r == noTests(buf)
ext (*os/exec.Cmd).Wait(c) (err)
  modifies gWaited
  ensures gWaited
ext (*os.ProcessState).Sys(p) (v)
  ensures typeIs(v, syscall.WaitStatus)
ext (syscall.WaitStatus).ExitStatus(w) (r)
  requires only-once-finished: gWaited
  ensures r == gCode
ext fmt.Fprintln(w, a)
ext fmt.Fprintf(w, format, a)
ext fmt.Println(a)
ext fmt.Printf(format, a)
func cli.AbsPathForGeneratedAsset(name, suite, cfg, proc) (s)
  trusted
func types.GenerateGinkgoTestRunArgs(a, b, c) (args, err)
  trusted
func types.GenerateGoTestRunArgs(c) (args, err)
  trusted
ghost gFinal array[int,cli.TestSuite]
ghost gFinalN int
ghost gFinished bool
ghost gLate bool
ghost gIntr bool
ghost gKeep bool
ghost gDue int
ghost gNext int
ghost gN int
decl envOf(k string) string
decl trimmed(s string) string
ext os.Getenv(k) (v)
  ensures v == envOf(k)
ext strings.TrimSpace(s) (r)
  ensures r == trimmed(s)
fn nFailed(ts array[int,cli.TestSuite], n int) int = ite(n <= 0, 0, nFailed(ts, n - 1) + ite(failed(ts[n - 1].State), 1, 0))
func command.Abort(details)
  trusted
  requires no-success-after-a-failure: details.ExitCode == 0 || details.ExitCode == types.GINKGO_FOCUS_EXIT_CODE ==> !gBad && !gLate && (gFinished ==> nFailed(gFinal, gFinalN) == 0)
  requires success-and-focus-codes: details.Error == nil && gFinished && nFailed(gFinal, gFinalN) == 0 ==> details.ExitCode == ite(anyFocus(gFinal, gFinalN) && trimmed(envOf("GINKGO_EDITOR_INTEGRATION")) == "", types.GINKGO_FOCUS_EXIT_CODE, 0)
  noreturn
func command.AbortWith(format, args)
  noreturn
func command.AbortGracefullyWith(format, args)
  noreturn
  requires no-success-after-a-failure: !gBad && !gLate && !gFinished
func command.AbortIfError(preamble, err)
  maynotreturn
  ensures err == nil
func cli.runGoTest(suite, cliConfig, goFlagsConfig) (s)
  modifies gCode, gWaited, elemheap(string)
  ensures its-exit-code-decides: s == upd(suite, State, s.State) && (s.State == cli.TestSuiteStatePassed || s.State == cli.TestSuiteStateFailed)
  ensures failures-count: s.State == cli.TestSuiteStatePassed ==> gCode == 0 || gCode == types.GINKGO_FOCUS_EXIT_CODE
func cli.runSerial(suite, ginkgoConfig, reporterConfig, cliConfig, goFlagsConfig, additionalArgs) (s)
  modifies gCode, gWaited, elemheap(string)
  ensures its-exit-code-decides: s == upd(upd(suite, State, s.State), HasProgrammaticFocus, gCode == types.GINKGO_FOCUS_EXIT_CODE) && (s.State == cli.TestSuiteStatePassed || s.State == cli.TestSuiteStateFailed)
  ensures failures-count: s.State == cli.TestSuiteStatePassed ==> gCode == 0 || gCode == types.GINKGO_FOCUS_EXIT_CODE
  ensures success-counts: (gCode == 0 || gCode == types.GINKGO_FOCUS_EXIT_CODE) && !cliConfig.RequireSuite ==> s.State == cli.TestSuiteStatePassed
func cli.runParallel(suite, ginkgoConfig, reporterConfig, cliConfig, goFlagsConfig, additionalArgs) (s)
  trusted
  ensures s == upd(upd(suite, State, s.State), HasProgrammaticFocus, s.HasProgrammaticFocus) && (s.State == cli.TestSuiteStatePassed || s.State == cli.TestSuiteStateFailed)
func cli.runAfterRunHook(cmd, noColor, suite)
  trusted
  modifies gBad, gDone
  ensures gBad == (old(gBad) || failed(suite.State)) && gDone == old(gDone) + 1
func cli.RunCompiledSuite(suite, ginkgoConfig, reporterConfig, cliConfig, goFlagsConfig, additionalArgs) (s)
  modifies gCode, gWaited, gBad, gDone, elemheap(string)
  requires none-after-a-failure: gBad ==> gKeep
  ensures s == upd(upd(suite, State, s.State), HasProgrammaticFocus, s.HasProgrammaticFocus)
  ensures has-a-verdict: s.State == cli.TestSuiteStatePassed || s.State == cli.TestSuiteStateFailed
  ensures nothing-to-run-is-no-success: suite.PathToCompiledTest == "" ==> s.State == cli.TestSuiteStateFailed && gBad == old(gBad) && gDone == old(gDone)
  ensures suite.PathToCompiledTest != "" ==> gDone == old(gDone) + 1 && gBad == (old(gBad) || s.State == cli.TestSuiteStateFailed)

# ---- the whole command
lemma nFailedNonneg(ts array[int,cli.TestSuite], n int)
  induct n
  ensures 0 <= nFailed(ts, n)
  trigger nFailed(ts, n)
  auto
lemma nFailedNone(ts array[int,cli.TestSuite], n int, k int)
  induct n
  requires 0 <= k && k < n && nFailed(ts, n) == 0
  ensures !failed(ts[k].State)
  trigger nFailed(ts, n), ts[k]
  auto
lemma nFailedSome(ts array[int,cli.TestSuite], n int, k int)
  induct n
  requires 0 <= k && k < n && failed(ts[k].State)
  ensures nFailed(ts, n) > 0
  trigger nFailed(ts, n), ts[k]
  auto
lemma nFailedStore(ts array[int,cli.TestSuite], i int, v cli.TestSuite, n int)
  induct n
  requires 0 <= i
  ensures nFailed(store(ts, i, v), n) == nFailed(ts, n) + ite(i < n, ite(failed(v.State), 1, 0) - ite(failed(ts[i].State), 1, 0), 0)
  trigger nFailed(store(ts, i, v), n)
  auto
pred failureStates(a array[int,cli.TestSuiteState], m int) bool = m == 3 && a[0] == cli.TestSuiteStateFailed && a[1] == cli.TestSuiteStateFailedDueToTimeout && a[2] == cli.TestSuiteStateFailedToCompile
lemma isInFailures(s cli.TestSuiteState, a array[int,cli.TestSuiteState])
  requires failureStates(a, 3)
  ensures isIn(s, a, 0) == false && isIn(s, a, 1) == (isIn(s, a, 0) || s == a[0]) && isIn(s, a, 2) == (isIn(s, a, 1) || s == a[1]) && isIn(s, a, 3) == (isIn(s, a, 2) || s == a[2])
lemma isInIsFailed(s cli.TestSuiteState, a array[int,cli.TestSuiteState])
  requires failureStates(a, 3)
  use isInFailures(s, a)
  ensures isIn(s, a, 3) == failed(s)
  trigger isIn(s, a, 3)
  auto
lemma countInFailures(ts array[int,cli.TestSuite], n int, a array[int,cli.TestSuiteState])
  induct n
  requires failureStates(a, 3)
  ensures countIn(ts, n, a, 3) == nFailed(ts, n)
  trigger countIn(ts, n, a, 3)
  auto
func cli.FindSuites(args, cliConfig, allowPrecompiled) (suites)
  trusted
  ensures nFailed(elems(suites), len(suites)) == 0
func cli.VerifyCLIAndFrameworkVersion(suites)
  trusted
func run.orcMessage(i) (s)
  trusted
func types.(GinkgoFlagSet).WasSet(f, name) (r)
  trusted
func types.(ReporterConfig).Verbosity(c) (r)
  trusted
func types.(VerbosityLevel).LT(c, o) (r)
  trusted
func types.(CLIConfig).ComputedNumCompilers(c) (r)
  trusted
ext time.Now() (t)
ext (time.Time).Add(t, d) (r)
ext (time.Time).Unix(t) (r)
ext time.Since(t) (d)
ext time.Until(t) (d)
  modifies gLate
  ensures gLate == (old(gLate) || d <= 0)
func cli.NewOrderedParallelCompiler(n) (opc)
  trusted
  ensures opc != nil && fresh(opc)
func cli.(*OrderedParallelCompiler).StartCompiling(opc, suites, goFlagsConfig, preserveSymbols)
  trusted
  modifies gNext, gN
  requires nothing-failed-before: nFailed(elems(suites), len(suites)) == 0
  ensures gNext == 0 && gN == len(suites)
func cli.(*OrderedParallelCompiler).Next(opc) (i, s)
  trusted
  modifies gNext, gBad, gDue
  ensures old(gNext) >= gN ==> i == gN && gNext == old(gNext) && gBad == old(gBad) && gDue == old(gDue)
  ensures old(gNext) < gN ==> i == old(gNext) && gNext == old(gNext) + 1 && s.State != cli.TestSuiteStateFailed && s.State != cli.TestSuiteStateFailedDueToTimeout && gBad == (old(gBad) || s.State == cli.TestSuiteStateFailedToCompile) && (s.State == cli.TestSuiteStateCompiled ==> s.PathToCompiledTest != "") && gDue == old(gDue) + ite(s.State != cli.TestSuiteStateFailedToCompile && s.State != cli.TestSuiteStateSkippedDueToEmptyCompilation && s.PathToCompiledTest != "", 1, 0)
func cli.(*OrderedParallelCompiler).StopAndDrain(opc)
  trusted
func interrupt_handler.(*InterruptHandler).Status(h) (s)
  trusted
func interrupt_handler.(InterruptStatus).Interrupted(s) (r)
  trusted
  modifies gIntr
  ensures gIntr == (old(gIntr) || r)
func cli.Cleanup(goFlagsConfig, suites)
  trusted
func cli.FinalizeProfilesAndReportsForSuites(suites, a, b, c, d) (messages, err)
  trusted
  modifies gFinal, gFinalN, gFinished
  requires no-failure-lost: gBad || gLate ==> nFailed(elems(suites), len(suites)) > 0
  requires everything-run-when-kept-going: gKeep && !gIntr && !gLate ==> gDue == gDone
  ensures gFinished && gFinal == elems(suites) && gFinalN == len(suites)
func cli.PluralizedWord(a, b, n) (s)
  trusted
func cli.FailedSuitesReport(suites, f) (s)
  trusted
ext formatter.NewWithNoColorBool(b) (f)
func run.(*SpecRunner).RunSpecs(r, args, additionalArgs)
  noreturn
  modifies everything
  requires r != nil
  requires failureStates(elems(cli.TestSuiteStateFailureStates), len(cli.TestSuiteStateFailureStates))
  requires allocated(ref(cli.TestSuiteStateFailureStates))
  effort 2
  sets gKeep == r.cliConfig.KeepGoing
  sets !gBad && !gLate && !gIntr && !gFinished && gDue == 0 && gDone == 0
  cand r != nil && gKeep == r.cliConfig.KeepGoing && !gFinished
  cand failureStates(elems(cli.TestSuiteStateFailureStates), len(cli.TestSuiteStateFailureStates))
  cand allocated(ref(cli.TestSuiteStateFailureStates))
  cand @s: cli.TestSuites :: nFailed(elems(@s), len(@s)) == 0
  cand gDue == gDone
  cand !gBad && !gLate && !gIntr
  cand @s: cli.TestSuites :: gN == len(@s)
  cand 0 <= gNext
  cand @s: cli.TestSuites :: gBad || gLate ==> nFailed(elems(@s), len(@s)) > 0
  cand gKeep && !gIntr && !gLate ==> gDue == gDone
  cand @s: cli.TestSuites :: forall k int {@s[k]} :: gNext <= k && k < len(@s) ==> !failed(@s[k].State)
