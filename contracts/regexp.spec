# package regexp, as it is assumed to behave
decl matchesRe(re string, s string) bool
decl compiles(s string) bool
decl source(re *regexp.Regexp) string
ext regexp.Compile(s) (re, err)
  pure
  ensures (err == nil) == compiles(s)
  ensures err == nil ==> re != nil && source(re) == s
ext (*regexp.Regexp).MatchString(re, s) (r)
  pure
  requires compiled: re != nil
  ensures r == matchesRe(source(re), s)
ext regexp.MustCompile(s) (re)
  requires compiles: compiles(s)
  ensures re != nil && source(re) == s
