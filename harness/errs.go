package verifharness

// The kinds of errors that handlers return.

import (
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"syscall"

	"github.com/gorilla/websocket"
)

// temporaryError says of itself that one may try again.
type temporaryError struct{ text string }

func (e temporaryError) Error() string   { return e.text }
func (e temporaryError) Temporary() bool { return true }
func (e temporaryError) Timeout() bool   { return true }

// codeError has what errors of other packages have.
type codeError struct{ text string }

func (e *codeError) Error() string        { return e.text }
func (e *codeError) Code() string         { return "NotSupported" }
func (e *codeError) StatusCode() int      { return 200 }
func (e *codeError) Is(target error) bool { return true }
func (e *codeError) String() string       { return "text of String" }
func (e *codeError) Unwrap() error        { return io.EOF }

// textError is an error of a basic kind.
type textError string

func (e textError) Error() string { return string(e) }

// wellKnown are errors with a meaning elsewhere.
var wellKnown = []error{context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe,
	os.ErrDeadlineExceeded, net.ErrClosed, http.ErrAbortHandler, http.ErrServerClosed, http.ErrHandlerTimeout, errors.ErrUnsupported,
	syscall.ECONNRESET, syscall.EPIPE, syscall.EAGAIN, websocket.ErrCloseSent, websocket.ErrReadLimit, os.ErrNotExist, os.ErrPermission}

// anError is an error whose text is the given one, or of a kind that has its own text.
func (g *gen) anError(text string) error {
	if len(g.Errs) > 0 && g.p(1, 2) {
		return g.Errs[g.R.IntN(len(g.Errs))]
	}
	switch g.R.IntN(16) {
	case 0, 1, 2:
		return errors.New(text)
	case 3:
		return wellKnown[g.R.IntN(len(wellKnown))]
	case 4:
		return fmt.Errorf("%s: %w", text, wellKnown[g.R.IntN(len(wellKnown))])
	case 5:
		return temporaryError{text}
	case 6:
		return &codeError{text}
	case 7:
		return textError(text)
	case 8:
		return errors.Join(errors.New(text), wellKnown[g.R.IntN(len(wellKnown))])
	case 9:
		return &net.OpError{Op: "dial", Net: "tcp", Err: temporaryError{text}}
	case 10:
		return &websocket.CloseError{Code: []int{1000, 1001, 1006, 1011, 4000}[g.R.IntN(5)], Text: text}
	case 11:
		return json.Unmarshal([]byte(`{"a":`), &struct{}{})
	case 12:
		return xml.Unmarshal([]byte(`<a><b></a>`), &struct{}{})
	case 13:
		return &url.Error{Op: "Get", URL: "http://x/", Err: context.DeadlineExceeded}
	case 14:
		return &net.DNSError{Err: text, Name: "x", IsTimeout: true, IsTemporary: true}
	}
	// as wrapped by a caller of Send
	return fmt.Errorf("cannot ask upstream: %w", fmt.Errorf("[NotSupported] %s: map[]", text))
}
