package verifharness

var checks = map[string]func(*Run){}

func register(id string, f func(*Run)) { checks[id] = f }
