# package time (assumed)
decl noTime(t time.Time) bool
ext (time.Time).IsZero(t) (r)
  ensures r == noTime(t)
