package cli

import "reflect"

func embedded(f Flag) (any, bool) {
	v := reflect.ValueOf(f)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil, false
	}
	x := v.FieldByName("Value")
	if !x.IsValid() {
		return nil, false
	}
	return x.Interface(), true
}
