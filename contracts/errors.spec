# constructors of errors
func types.(ginkgoErrors).SyntaxErrorParsingLabelFilter(g, input, location, error) (err)
  ensures err != nil
