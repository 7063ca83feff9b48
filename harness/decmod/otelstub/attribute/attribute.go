// Package attribute is a stand-in for the package of the same name, which is not available offline.
package attribute

import "fmt"

type Key string

type Value struct{ V any }

func (v Value) AsString() string { s, _ := v.V.(string); return s }
func (v Value) AsInterface() any { return v.V }
func (v Value) Emit() string     { return fmt.Sprint(v.V) }

type KeyValue struct {
	Key   Key
	Value Value
}

func (k Key) String(v string) KeyValue { return KeyValue{k, Value{v}} }
func (k Key) Bool(v bool) KeyValue     { return KeyValue{k, Value{v}} }
func (k Key) Int(v int) KeyValue       { return KeyValue{k, Value{v}} }

func String(k, v string) KeyValue                { return KeyValue{Key(k), Value{v}} }
func Bool(k string, v bool) KeyValue             { return KeyValue{Key(k), Value{v}} }
func Int(k string, v int) KeyValue               { return KeyValue{Key(k), Value{v}} }
func Int64(k string, v int64) KeyValue           { return KeyValue{Key(k), Value{v}} }
func Float64(k string, v float64) KeyValue       { return KeyValue{Key(k), Value{v}} }
func Stringer(k string, v fmt.Stringer) KeyValue { return KeyValue{Key(k), Value{v.String()}} }
