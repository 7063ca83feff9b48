// Package codes is a stand-in for the package of the same name, which is not available offline.
package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)

func (c Code) String() string { return [...]string{"Unset", "Error", "Ok"}[c] }
