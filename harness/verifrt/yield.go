package verifrt

import "runtime"

func yield() { runtime.Gosched() }
