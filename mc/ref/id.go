package ref

import "reflect"

func stmtID(s Stmt) uintptr {
	v := reflect.ValueOf(s)
	if v.Kind() == reflect.Ptr {
		return v.Pointer()
	}
	return 0
}
