package verifharness

import "runtime"

func goschedHook() { runtime.Gosched() }
