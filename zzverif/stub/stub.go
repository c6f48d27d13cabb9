// Package stub holds the models the engine uses in place of operating-system
// facilities: a function a_B_c stands in for (*…/a.B).c, a_b for a.b.
package stub

// RuntimeError is the dynamic type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}
