From 35b6a8220e2c6a4cf38e9c8a843b127ed35a77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 01/13] fix: consistsOf label filters compare sets, so a
 repeated value no longer rejects every label set

---
 types/label_filter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/types/label_filter.go b/types/label_filter.go
index 40a909b..3c7dd46 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -92,10 +92,16 @@ func containsAllLabelSetAction(key string, expectedValues []string) LabelFilter
 }
 
 func consistsOfLabelSetAction(key string, expectedValues []string) LabelFilter {
+	expectedSet := map[string]bool{}
+	for _, value := range expectedValues {
+		expectedSet[value] = true
+	}
 	return func(labels []string) bool {
 		set := labelSetFor(key, labels)
-		if len(set) != len(expectedValues) {
-			return false
+		for value := range set {
+			if !expectedSet[value] {
+				return false
+			}
 		}
 		for _, value := range expectedValues {
 			if !set[value] {
-- 
2.43.0


From d3563764038496536eb3cf0c205feeb5a094c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 02/13] fix: run the After nodes of every entered level when a
 JustBeforeEach fails

---
 internal/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..f171f3a 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -214,7 +214,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
-		if !terminatingNode.IsZero() {
+		if !terminatingNode.IsZero() && !terminatingNode.NodeType.Is(types.NodeTypeJustBeforeEach) {
+			// (JustBeforeEach nodes run once every level has been entered, so all the After nodes need to run)
 			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
 		}
 		if includeDeferCleanups {
-- 
2.43.0


From cd9ccb86c23c3f39c9a2b761ae826e1155613e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 03/13] fix: count only specs that can still run when looking
 for the last spec of an AfterAll

---
 internal/group.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index f171f3a..33986e2 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -169,6 +169,9 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 			continue
 		}
 		sID := g.specs[idx].SubjectID()
+		if sID != specID && g.hasSkippedBeforeOncePair(sID) {
+			continue
+		}
 		if g.runOncePairs[sID].hasRunOncePair(pair) {
 			lastSpecID = sID
 		}
@@ -176,6 +179,16 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	return lastSpecID == specID
 }
 
+// hasSkippedBeforeOncePair is true if Skip() was called in one of the run-once setup nodes the spec depends on: such a spec will not run any nodes
+func (g *group) hasSkippedBeforeOncePair(specID uint) bool {
+	for _, pair := range g.runOncePairs[specID].withType(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach) {
+		if g.runOnceTracker[pair].Is(types.SpecStateSkipped) {
+			return true
+		}
+	}
+	return false
+}
+
 func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 	failedInARunOnceBefore := false
 	pairs := g.runOncePairs[spec.SubjectID()]
-- 
2.43.0


From 6d2cd573750f2268b896b774357fdb8e3b3cad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 04/13] fix: a failed attempt of a MustPassRepeatedly spec is
 its final attempt, so AfterAll nodes run

---
 internal/group.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 33986e2..3471166 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -360,7 +360,9 @@ func (g *group) run(specs Specs) {
 					}
 				}
 
-				failedInARunOnceBefore = g.attemptSpec(attempt == maxAttempts-1, spec)
+				// a failed attempt is always the final one when the spec must pass repeatedly
+				isFinalAttempt := attempt == maxAttempts-1 || g.suite.currentSpecReport.MaxMustPassRepeatedly > 0
+				failedInARunOnceBefore = g.attemptSpec(isFinalAttempt, spec)
 
 				g.suite.currentSpecReport.EndTime = time.Now()
 				g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
-- 
2.43.0


From af885f86fcf537b8df286f0bb6baccbd957c954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 05/13] fix: a skipped run-once node only ends the run of the
 AfterAll nodes no remaining spec needs

---
 internal/group.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 3471166..cb4160b 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -264,12 +264,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			case types.SpecStatePassed: //this attempt is passing...
 				return isLastSpecWithPair //...we should run-once if we'this is our last chance
 			case types.SpecStateSkipped: //the spec was skipped by the user...
-				if isLastSpecWithPair {
-					return true //...we're the last spec, so we should run the AfterNode
-				}
-				if !terminatingPair.isZero() && terminatingNode.NestingLevel == node.NestingLevel {
-					return true //...or, a run-once node at our nesting level was skipped which means this is our last chance to run
-				}
+				return isLastSpecWithPair //...we run the AfterNode if no other spec that needs it can run (specs that depend on a skipped run-once node can't)
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
 				if isFinalAttempt {
 					if g.continueOnFailure {
-- 
2.43.0


From 810936af91ccc273ceb4ca7aa7cf71dfca19bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 06/13] fix: MustPassRepeatedly overrides FlakeAttempts instead
 of ending after the first passing attempt

---
 internal/group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index cb4160b..ccb3b09 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -333,8 +333,10 @@ func (g *group) run(specs Specs) {
 			if g.suite.config.MustPassRepeatedly > 0 {
 				maxAttempts = g.suite.config.MustPassRepeatedly
 				g.suite.currentSpecReport.MaxMustPassRepeatedly = maxAttempts
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // MustPassRepeatedly overrides FlakeAttempts
 			} else if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 				maxAttempts = max(1, spec.MustPassRepeatedly())
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0
 			} else if g.suite.config.FlakeAttempts > 0 {
 				maxAttempts = g.suite.config.FlakeAttempts
 				g.suite.currentSpecReport.MaxFlakeAttempts = maxAttempts
-- 
2.43.0


From ea62ec0140125e9d5f091a9368af1c58272d29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 07/13] fix: a teardown node that fails after Skip() fails the
 spec instead of being swallowed

---
 internal/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index ccb3b09..6520271 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -294,7 +294,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
-			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
+			skippedThenFailed := g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)
+			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted || skippedThenFailed {
 				g.suite.currentSpecReport.State = state
 				g.suite.currentSpecReport.Failure = failure
 			} else if state.Is(types.SpecStateFailureStates) {
-- 
2.43.0


From 09d32ed4e4736415b1914e3d0e2db4e6b04afb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 08/13] fix: a failing proc-1 SynchronizedAfterSuite body fails
 the suite even when the all-procs body called Skip()

---
 internal/suite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..8d18c31 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -691,7 +691,8 @@ func (suite *Suite) runSuiteNode(node Node) {
 				node.Body = node.SynchronizedAfterSuiteProc1Body
 				node.HasContext = node.SynchronizedAfterSuiteProc1BodyHasContext
 				state, failure := suite.runNode(node, time.Time{}, "")
-				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
+				skippedThenFailed := suite.currentSpecReport.State.Is(types.SpecStateSkipped) && state.Is(types.SpecStateFailureStates)
+				if suite.currentSpecReport.State.Is(types.SpecStatePassed) || skippedThenFailed {
 					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
 				}
 			}
-- 
2.43.0


From 045968eff04f5f7ecd278ffe6b2d5fb226b14352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 09/13] fix: serial specs do not run when waiting for the other
 parallel processes failed

---
 internal/suite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 8d18c31..0f36cb1 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -476,7 +476,12 @@ func (suite *Suite) runSpecs(description string, suiteLabels Labels, suitePath s
 			if groupedSpecIdx >= len(groupedSpecIndices) {
 				if suite.config.ParallelProcess == 1 && len(serialGroupedSpecIndices) > 0 {
 					groupedSpecIndices, serialGroupedSpecIndices, nextIndex = serialGroupedSpecIndices, GroupedSpecIndices{}, MakeIncrementingIndexCounter()
-					suite.client.BlockUntilNonprimaryProcsHaveFinished()
+					if err := suite.client.BlockUntilNonprimaryProcsHaveFinished(); err != nil {
+						// without the other processes' say-so the serial specs could run next to parallel ones
+						suite.report.SpecialSuiteFailureReasons = append(suite.report.SpecialSuiteFailureReasons, fmt.Sprintf("Failed to wait for the other parallel processes:\n%s", err.Error()))
+						suite.report.SuiteSucceeded = false
+						break
+					}
 					continue
 				}
 				break
-- 
2.43.0


From 41be32fdb5132fc1cf4401446606f9a597a03798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 10/13] fix: merging a coverage profile with blocks behind the
 last known block no longer panics

---
 ginkgo/internal/gocovmerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..d8c10c5 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -89,7 +89,7 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 	}
 
 	i := 0
-	if !sortFunc(i) {
+	if startIndex < len(p.Blocks) && !sortFunc(i) {
 		i = sort.Search(len(p.Blocks)-startIndex, sortFunc)
 	}
 
-- 
2.43.0


From e7aa61ab0baf1dc36b3344e6e69d23e49ef67925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 11/13] fix: report conflicting coverage profiles instead of
 dropping the blocks behind the conflict

---
 ginkgo/internal/gocovmerge.go           | 8 +++++---
 ginkgo/internal/profiles_and_reports.go | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index d8c10c5..e868bea 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -36,16 +36,18 @@ import (
 	"golang.org/x/tools/cover"
 )
 
-func AddCoverProfile(profiles []*cover.Profile, p *cover.Profile) []*cover.Profile {
+func AddCoverProfile(profiles []*cover.Profile, p *cover.Profile) ([]*cover.Profile, error) {
 	i := sort.Search(len(profiles), func(i int) bool { return profiles[i].FileName >= p.FileName })
 	if i < len(profiles) && profiles[i].FileName == p.FileName {
-		MergeCoverProfiles(profiles[i], p)
+		if err := MergeCoverProfiles(profiles[i], p); err != nil {
+			return profiles, err
+		}
 	} else {
 		profiles = append(profiles, nil)
 		copy(profiles[i+1:], profiles[i:])
 		profiles[i] = p
 	}
-	return profiles
+	return profiles, nil
 }
 
 func DumpCoverProfiles(profiles []*cover.Profile, out io.Writer) error {
diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 8e16d2b..52e92be 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -154,7 +154,10 @@ func MergeAndCleanupCoverProfiles(profiles []string, destination string) error {
 		}
 		os.Remove(file)
 		for _, p := range parsedProfiles {
-			merged = AddCoverProfile(merged, p)
+			merged, err = AddCoverProfile(merged, p)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	dst, err := os.OpenFile(destination, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
-- 
2.43.0


From bac98c093e9211111a13f7e46023ea87beafedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 12/13] fix: forget a removed suite in ginkgo watch

A removed suite was reported as removed at every tick, and when its
directory came back its pruned package hash was dereferenced (nil).
---
 ginkgo/watch/delta_tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..52c614e 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -44,6 +44,7 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, suite.Suite.Path)
 		}
 	}
 
-- 
2.43.0


From d42e75c56834f8e7817add5f8cbca7be2e26ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 13/13] fix: rerun suites when a watched file is removed or
 replaced by an older one

ginkgo watch dated such a change by the newest remaining file, which is
older than the last run, so that no suite was rerun.
---
 ginkgo/watch/package_hash.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..b0d33c1 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -15,6 +15,7 @@ type PackageHash struct {
 	TestModifiedTime time.Time
 	Deleted          bool
 
+	checkedAt   time.Time
 	path        string
 	codeHash    string
 	testHash    string
@@ -25,6 +26,7 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 	p := &PackageHash{
 		path:        path,
 		watchRegExp: watchRegExp,
+		checkedAt:   time.Now(),
 	}
 
 	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
@@ -33,6 +35,9 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 }
 
 func (p *PackageHash) CheckForChanges() bool {
+	lastCheck := p.checkedAt
+	p.checkedAt = time.Now()
+
 	codeHash, codeModifiedTime, testHash, testModifiedTime, deleted := p.computeHashes()
 
 	if deleted {
@@ -42,6 +47,7 @@ func (p *PackageHash) CheckForChanges() bool {
 			p.TestModifiedTime = t
 		}
 		p.Deleted = true
+		p.codeHash, p.testHash = "", ""
 		return true
 	}
 
@@ -49,11 +55,11 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.Deleted = false
 
 	if p.codeHash != codeHash {
-		p.CodeModifiedTime = codeModifiedTime
+		p.CodeModifiedTime = p.timeOfChange(codeModifiedTime, lastCheck)
 		modified = true
 	}
 	if p.testHash != testHash {
-		p.TestModifiedTime = testModifiedTime
+		p.TestModifiedTime = p.timeOfChange(testModifiedTime, lastCheck)
 		modified = true
 	}
 
@@ -62,6 +68,15 @@ func (p *PackageHash) CheckForChanges() bool {
 	return modified
 }
 
+// timeOfChange returns when the package was modified.  The modification times of its files do not reveal that a
+// file was removed, or that an older file was put in place: the change is then dated to when it was noticed.
+func (p *PackageHash) timeOfChange(newestFile time.Time, lastCheck time.Time) time.Time {
+	if newestFile.Before(lastCheck) {
+		return p.checkedAt
+	}
+	return newestFile
+}
+
 func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
-- 
2.43.0

