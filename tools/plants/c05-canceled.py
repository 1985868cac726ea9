ID='c05-canceled'; PROPERTY='C05'
NEEDS='A stream that fails with a timeout error part of the way through.'
BREAKS='AddRules takes a stream that timed out for one that has ended, adds the rules read so far and reports success.'
EDITS=[('internal/cascadia/rules.go','''			if err == io.EOF {
				err = nil
			}
''','''			if err == io.EOF || quiet(err) {
				err = nil
			}
'''),('internal/cascadia/rules.go','func normalizeWhitespace','''// quiet reports whether a stream, such as that of a file watcher, has merely gone quiet.
func quiet(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

func normalizeWhitespace''')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "os"; "testing/iotest")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	err := m.AddRules(io.MultiReader(strings.NewReader(".a{color:red} .b{color:blue}"), iotest.ErrReader(os.ErrDeadlineExceeded)), false)
	if err == nil { t.Fatal("no error") }
	if len(m.Rules()) != 0 { t.Fatal(m.Rules()) }
}
'''
