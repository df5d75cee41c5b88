package mon

import (
	"net/http"
	"reflect"
	"unsafe"

	"github.com/aws/aws-sdk-go/aws/session"
)

// SetTransport gives a store driver another way to the network. The field is
// found by its type, so that its name does not matter.
func SetTransport(drv interface{}, rt http.RoundTripper) bool {
	v := reflect.ValueOf(drv)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return false
	}
	want := reflect.TypeOf((*http.RoundTripper)(nil)).Elem()
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			p := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			p.Set(reflect.ValueOf(rt))
			return true
		}
	}
	return false
}

// SetSession makes a store driver's uploads take another way to the network,
// too.
func SetSession(drv interface{}, rt http.RoundTripper) bool {
	v := reflect.ValueOf(drv)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return false
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*session.Session)(nil)) {
			s := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(*session.Session)
			if s == nil {
				return false
			}
			s.Config.HTTPClient = &http.Client{Transport: rt}
			return true
		}
	}
	return false
}
