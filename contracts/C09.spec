# C09 Specs that must not run never have code executed
include grouprun
root internal.(*group).evaluateSkipStatus internal.(*Suite).reportEach internal.(*group).run internal.(*Suite).processCurrentSpecReport internal.(*group).initialReportForSpec
