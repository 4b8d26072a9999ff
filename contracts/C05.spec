# C05  First failure wins and is reported exactly once
guard internal.Failer.lock: failure, state

func internal.NewFailer()
  ensures fresh-passed: fresh(result) && result.state == types.SpecStatePassed && result.lock != nil

func internal.(*Failer).Fail(f, message, location)
  requires f != nil && f.lock != nil
  locks
  modifies f.state, f.failure
  ensures first-wins: old(f.state) != types.SpecStatePassed ==> f.state == old(f.state) && f.failure == old(f.failure)
  ensures recorded: old(f.state) == types.SpecStatePassed ==> f.state == types.SpecStateFailed && f.failure == upd(upd(zero(types.Failure), Message, message), Location, location)

func internal.(*Failer).Skip(f, message, location)
  requires f != nil && f.lock != nil
  locks
  modifies f.state, f.failure
  ensures first-wins: old(f.state) != types.SpecStatePassed ==> f.state == old(f.state) && f.failure == old(f.failure)
  ensures recorded: old(f.state) == types.SpecStatePassed ==> f.state == types.SpecStateSkipped && f.failure == upd(upd(zero(types.Failure), Message, message), Location, location)

func internal.(*Failer).AbortSuite(f, message, location)
  requires f != nil && f.lock != nil
  locks
  modifies f.state, f.failure
  ensures first-wins: old(f.state) != types.SpecStatePassed ==> f.state == old(f.state) && f.failure == old(f.failure)
  ensures recorded: old(f.state) == types.SpecStatePassed ==> f.state == types.SpecStateAborted && f.failure == upd(upd(zero(types.Failure), Message, message), Location, location)

ext fmt.Sprintf(format, a) (s)
  ensures formatted: len(a) == 1 ==> s == sprintf1(format, a[0])
decl sprintf1(format string, a any) string

func internal.(*Failer).Panic(f, location, forwardedPanic)
  requires f != nil && f.lock != nil
  locks
  modifies f.state, f.failure
  ensures first-wins: old(f.state) != types.SpecStatePassed ==> f.state == old(f.state) && f.failure == old(f.failure)
  ensures recorded: old(f.state) == types.SpecStatePassed ==> f.state == types.SpecStatePanicked
     && f.failure.Message == "Test Panicked" && f.failure.Location == location
     && f.failure.ForwardedPanic == sprintf1("%v", forwardedPanic)
  ensures nothing-else: old(f.state) == types.SpecStatePassed ==> f.failure == upd(upd(upd(zero(types.Failure), Message, "Test Panicked"), Location, location), ForwardedPanic, f.failure.ForwardedPanic)

func internal.(*Failer).Drain(f) (state, failure)
  requires f != nil && f.lock != nil
  locks
  modifies f.state, f.failure
  ensures returned: state == old(f.state) && failure == old(f.failure)
  ensures reset: f.state == types.SpecStatePassed && f.failure == zero(types.Failure)

func internal.(*Failer).GetState(f) (state)
  requires f != nil && f.lock != nil
  locks
  ensures state == f.state

func internal.(*Failer).GetFailure(f) (failure)
  requires f != nil && f.lock != nil
  locks
  ensures failure == f.failure
