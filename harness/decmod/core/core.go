// Package core holds the hand-written interfaces every decorator is exercised with.
package core

import (
	"context"
	"io"
	"time"

	"decmod/hook"
)

// Req is a request.
type Req struct {
	ID   int    `json:"id"`
	Name string `json:"name"`
	Tags []string
}

// Resp is a response.
type Resp struct {
	Body string
	When time.Time
}

// Val validates itself.
type Val struct {
	VID  int
	Text string
}

// Validate implements validation.
func (v Val) Validate() error { return hook.Validate(v.VID) }

// PVal validates itself by pointer.
type PVal struct {
	VID int
}

// Validate implements validation.
func (v *PVal) Validate() error {
	if v == nil {
		return hook.Validate(-1)
	}
	return hook.Validate(v.VID)
}

// Vals is a collection that validates itself.
type Vals []Val

// Validate implements validation.
func (v Vals) Validate() error {
	if len(v) == 0 {
		return hook.Validate(-2)
	}
	return hook.Validate(1000000000 + v[0].VID)
}

// Checker is an interface with a validation.
type Checker interface {
	Validate() error
}

// Core has methods of every shape that matters to the decorators.
type Core interface {
	// CtxErr is the usual method
	CtxErr(ctx context.Context, a int, b string) (x string, err error)
	CtxErrVar(ctx context.Context, opts ...string) (int, error)
	CtxNamedVar(ctx context.Context, userName string, opts ...string) (n int, err error)
	CtxErrOnly(context.Context) error
	CtxReq(ctx context.Context, req *Req) (*Resp, error)
	Ctx(ctx context.Context, req Req) *Resp
	CtxOnly(context.Context)
	CtxTwo(ctx, parent context.Context, id, ID int, Id ...string) (n, N int, err error)
	CtxAll(...context.Context) error
	CtxPair(ctx context.Context, key string) (n int, warning, failure error)
	ErrPair() (warning, failure error)
	CtxGroup(ctx context.Context, a, b int, c, d string) (x, y string, ok bool, err error)
	CtxParen(ctx (context.Context), n (int)) (m (int), err (error))
	Printf(format string, args ...any) (n int, err error)
	PlainAny(args ...interface{}) int
	ErrFuncs(fs ...func(int) int) error
	CtxBytes(ctx context.Context, bs ...[]byte) error
	Many(context.Context, int, int, int, int, int, int, int, int, int, int, int, string) (int, int, int, int, int, int, int, int, int, int, string, string, error)
	CtxSecond(a int, ctx2 context.Context) (err error)
	Err(r Req) error
	ErrMany(a, b int, m map[string]int, f func(int) int) (*Resp, []string, error)
	ErrFirst(e error) (first error, n int)
	TwoErr() (error, error)
	ErrOnly() error
	Plain(a, b any) (c, d any)
	PlainVar(first string, rest ...int) string
	Void()
	VoidArgs(s []byte, ch chan int, w io.Writer)
	Check(ctx context.Context, v Val, p *PVal, n int, a any, c Checker, vs ...Val) (res int, err error)
	CheckAll(vs Vals, p PVal, q Val) error
	CheckNoErr(v Val) int
}

// Second has the methods it embeds.
type Second interface {
	io.ReadWriter
	Third
	Touch(ctx context.Context, name string, userID int) (changed bool, err error)
}

// Third is embedded.
type Third interface {
	Flush(ctx context.Context, d time.Duration) error
	Len() int
}

// Single has one method.
type Single interface {
	Do(ctx context.Context, userName string, n int) (Resp, error)
}
