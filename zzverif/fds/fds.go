// Package fds counts what the program has open: files, and sockets.
package fds

import "github.com/charlesetsmith/saratoga/zzverif/stub"

func Files() int { return stub.OpenFiles() }
func Socks() int { return stub.OpenSocks() }
