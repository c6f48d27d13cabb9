// Package term: see term.go.
package term

import (
	"errors"
	"time"

	"github.com/nsf/termbox-go"
)

var X, Y int = 80, 24
var Events func() (termbox.Event, bool)
var ErrDone = errors.New("no more events")

func Use() {
	termbox.VerifSize = func() (int, int) { return X, Y }
	termbox.VerifNext = Poll
}

func Poll() termbox.Event {
	time.Sleep(10 * time.Millisecond)
	if e, ok := Events(); ok {
		return e
	}
	return termbox.Event{Type: termbox.EventError, Err: ErrDone}
}
