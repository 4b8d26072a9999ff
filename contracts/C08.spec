# C08 Retry decorators
include grouprun
root internal.(*group).run internal.(*group).initialReportForSpec internal.(*Suite).processCurrentSpecReport internal.(*Suite).reportEach internal.(*group).evaluateSkipStatus
root internal.(Nodes).GetMaxFlakeAttempts internal.(Nodes).GetMaxMustPassRepeatedly internal.(Spec).FlakeAttempts internal.(Spec).MustPassRepeatedly
