package harness

import (
	logz "github.com/hedzr/logg/slog"
)

func init() {
	logz.SetLevel(logz.OffLevel) // the library logs a lot while testing
}
