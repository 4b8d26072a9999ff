# C04  Parallel distribution hands out every group index exactly once
client c04.go
guard parallel_support.ServerHandler.counterLock: counter

# Each request, as one atomic step, takes the next index: the k-th request to be served gets index k.
func parallel_support.(*ServerHandler).Counter(handler, void, counter) (err)
  requires handler != nil && handler.counterLock != nil && counter != nil
  locks
  modifies handler.counter, *counter
  ensures handed: *counter == old(handler.counter)
  ensures advance: handler.counter == old(handler.counter) + 1
  ensures no-error: err == nil

func parallel_support.newServerHandler(parallelTotal, reporter) (h)
  ensures starts-at-zero: h != nil && h.counter == 0 && h.counterLock != nil

func internal.goverCounterClient(n) (ok)
  ensures k-th-index-is-k: ok
func internal.goverCounterClient2(n) (ok)
  ensures independent: ok
