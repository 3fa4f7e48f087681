package checks

import (
	"fmt"
	"io"
	"net/mail"
	"strings"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"verif/mc/model"
)

// Call is one call of a concurrent scenario, with the model's answer.
type Call struct {
	op   string
	addr model.AddrResult
	date model.DateResult
}

// Outcome is what a call gave; it keeps the very values that were returned.
type Outcome struct {
	list []*mail.Address
	t    time.Time
	err  error
	date bool
}

// NewCall prepares op ("addr:..." or "date:...") without calling the code
// under test.
func NewCall(op string) *Call {
	c := &Call{op: op}
	if in, ok := strings.CutPrefix(op, "addr:"); ok {
		c.addr = model.Addresses(in, model.DecodeWord(csUpper))
	} else {
		c.date = model.Date(strings.TrimPrefix(op, "date:"), thisYear())
	}
	return c
}

// InstallCharset sets a charset reader that calls point in between.
func InstallCharset(point func()) {
	rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
		point()
		b, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		point()
		s, _ := csUpper(charset, b)
		return &pointReader{strings.NewReader(s), point}, nil
	}
}

type pointReader struct {
	r     io.Reader
	point func()
}

func (p *pointReader) Read(b []byte) (int, error) {
	p.point()
	return p.r.Read(b)
}

// Do runs the call.
func (c *Call) Do() *Outcome {
	if in, ok := strings.CutPrefix(c.op, "addr:"); ok {
		l, err := rfc5322.ParseAddressList(in)
		return &Outcome{list: l, err: err}
	}
	t, err := rfc5322.ParseDateTime(strings.TrimPrefix(c.op, "date:"))
	return &Outcome{t: t, err: err, date: true}
}

// String renders the outcome as it is now.
func (o *Outcome) String() string {
	if o == nil {
		return "no result"
	}
	if o.err != nil {
		return fmt.Sprintf("error(%v) with %d entries, %v", o.err, len(o.list), o.t)
	}
	if o.date {
		return o.t.String()
	}
	return mkGot(o.list, nil).String()
}

// Judge compares with the model; "" if it agrees.
func (c *Call) Judge(o *Outcome) string {
	if o == nil {
		return "no result"
	}
	if o.date {
		if c.op == "date:" {
			if o.err != nil || !o.t.IsZero() {
				return "empty input: " + o.String()
			}
			return ""
		}
		return judgeTime(o.t, o.err, c.date).Bad
	}
	return judgeGot(mkGot(o.list, o.err), c.addr).Bad
}
