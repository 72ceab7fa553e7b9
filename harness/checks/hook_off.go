//go:build !verif

package checks

const hooked = false

func setHook(f func(string)) {}
