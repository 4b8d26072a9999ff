# collaborators of the suite that cannot change the suite's own data (assumed)
invoke internal.WriterInterface.Truncate(w)
invoke internal.WriterInterface.Bytes(w) (b)
invoke internal.WriterInterface.Len(w) (n)
invoke internal.WriterInterface.Println(w, a)
invoke internal.OutputInterceptor.StartInterceptingOutput(o)
invoke internal.OutputInterceptor.StartInterceptingOutputAndForwardTo(o, w)
invoke internal.OutputInterceptor.StopInterceptingAndReturnOutput(o) (s)
invoke internal.OutputInterceptor.PauseIntercepting(o)
invoke internal.OutputInterceptor.ResumeIntercepting(o)
invoke internal.OutputInterceptor.Shutdown(o)
invoke reporters.Reporter.EmitFailure(r, state, failure)
invoke reporters.Reporter.EmitProgressReport(r, report)
invoke reporters.Reporter.EmitSpecEvent(r, event)
invoke reporters.Reporter.EmitReportEntry(r, entry)
