// Package rtgrpc monitors grpc_validate.
package rtgrpc

import (
	"fmt"
	"testing"

	"decmod/rt"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Validate is the monitor.
func Validate(t *testing.T) {
	rt.Validators(t, "grpc_validate", func(got, rejected error) string {
		s, ok := status.FromError(got)
		if got == nil || !ok {
			return fmt.Sprintf("the error %v is not a GRPC status", got)
		}
		if s.Code() != codes.InvalidArgument || s.Message() != rejected.Error() {
			return fmt.Sprintf("the status is %v %q instead of %v %q", s.Code(), s.Message(), codes.InvalidArgument, rejected.Error())
		}
		return ""
	})
}
