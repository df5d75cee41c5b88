package mon

import (
	"context"
	"fmt"
	"io"
	"os"
	"syscall"
)

type timeoutError struct{}

func (timeoutError) Error() string   { return "injected i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// Faults are failures of the kinds that code tends to treat specially.
// None of them means the orderly end of anything.
var Faults = []error{
	ErrInjected,
	&os.PathError{Op: "read", Path: "/injected", Err: syscall.ENOENT},
	&os.PathError{Op: "read", Path: "/injected", Err: syscall.EACCES},
	syscall.EIO,
	syscall.EINTR,
	syscall.EAGAIN,
	context.DeadlineExceeded,
	context.Canceled,
	timeoutError{},
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	fmt.Errorf("injected wrapper: %w", os.ErrNotExist),
}

// Fault returns one of the failures.
func Fault(k int) error {
	if k < 0 {
		k = -k
	}
	return Faults[k%len(Faults)]
}
