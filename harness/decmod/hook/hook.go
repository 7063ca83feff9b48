// Package hook lets values of the core package report to the monitors.
package hook

import "sync"

var (
	mu     sync.Mutex
	errs   = map[int]error{}
	called []int
)

// Validate is what the Validate methods do.
func Validate(id int) error {
	mu.Lock()
	defer mu.Unlock()
	called = append(called, id)
	return errs[id]
}

// Reject makes the validation of a value fail.
func Reject(id int, err error) {
	mu.Lock()
	defer mu.Unlock()
	errs[id] = err
}

// Take returns and forgets the validations that happened.
func Take() []int {
	mu.Lock()
	defer mu.Unlock()
	c := called
	called = nil
	return c
}

// Err is how a value is going to be rejected.
func Err(id int) error {
	mu.Lock()
	defer mu.Unlock()
	return errs[id]
}
