//go:build go1.21

package sim

// UnsupportedUsed names the parts of the real system which are not simulated
// and were reached by the system under test: the run has no answer.
var UnsupportedUsed string

// Unsupported is called when the system under test reaches something that is not simulated
func Unsupported(what string) {
	UnsupportedUsed = what
	if InWorld() {
		w.Abort = "not simulated: " + what
		stop()
		park()
	}
	panic("not simulated: " + what)
}
