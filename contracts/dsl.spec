# shared by C21 C23: RunSpecs, the entry point of a test binary
ghost gRan bool
ghost gPassed bool
ghost gFocus bool
ghost gFailed bool
ghost gGoodConfig bool
ext os.Exit(code)
  requires a-failed-run-or-none: !gRan || (gPassed && gFocus && code == types.GINKGO_FOCUS_EXIT_CODE)
  requires never-a-success: code != 0
  noreturn
invoke ginkgo.GinkgoTestingT.Fail(t)
  modifies gFailed
  ensures gFailed
ext fmt.Fprintln(w, a)
ext fmt.Fprintf(w, format, a)
ext fmt.Println(a)
ext os.Getenv(k) (v)
  ensures v == envOf(k)
decl envOf(k string) string
ext os.Getwd() (d, err)
ext strings.EqualFold(a, b) (r)
ext path/filepath.Abs(p) (q, err)
# collaborators of RunSpecs that leave the configuration alone (assumed)
invoke error.Error(e) (s)
func formatter.F(format, args) (s)
  trusted
func global.PushClone() (err)
  trusted
func global.PopClone()
  trusted
func reporters.NewDefaultReporter(c, w) (r)
  trusted
func parallel_support.NewClient(host) (c)
  trusted
  ensures c != nil
invoke parallel_support.Client.Connect(c) (ok)
invoke parallel_support.Client.Close(c) (err)
func internal.NewOSGlobalReassigningOutputInterceptor() (o)
  trusted
  ensures o != nil
func internal.NewOutputInterceptor() (o)
  trusted
  ensures o != nil
func internal.(*Writer).SetMode(w, m)
  trusted
func interrupt_handler.NewInterruptHandler(c) (h)
  trusted
invoke internal.OutputInterceptor.Shutdown(o)
func ginkgo.registerReportAfterSuiteNodeForAutogeneratedReports(c)
  trusted
func internal.(*Suite).BuildTree(s) (err)
  trusted
func types.(GinkgoFlagSet).ValidateDeprecations(f, d)
  trusted
func types.(*DeprecationTracker).DidTrackDeprecations(d) (r)
  trusted
func types.(*DeprecationTracker).DeprecationsReport(d) (r)
  trusted
func internal.(*Suite).Run(suite, description, suiteLabels, suitePath, failer, reporter, writer, outputInterceptor, interruptHandler, client, progressSignalRegistrar, suiteConfig) (passed, focus)
  trusted
  requires only-with-accepted-configuration: goodParallel(suiteConfig) && suiteConfig.GracePeriod > 0 && goodFilters(suiteConfig) && goodMode(suiteConfig.OutputInterceptorMode)
  modifies gRan, gPassed, gFocus
  ensures gRan && gPassed == passed && gFocus == focus
