# C07 Once-only setup and teardown in Ordered containers
include runonce
root internal.(runOncePair).isZero internal.runOncePairForNode internal.(runOncePairs).runOncePairFor internal.(runOncePairs).hasRunOncePair internal.(runOncePairs).withType internal.(Spec).SubjectID internal.(Nodes).FirstNodeWithType internal.(*group).hasSkippedBeforeOncePair internal.(*group).isLastSpecWithPair internal.runOncePairsForSpec
