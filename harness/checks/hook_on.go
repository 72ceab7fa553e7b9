//go:build verif

package checks

import "github.com/kwilteam/kuneiform/kfparser"

const hooked = true

func setHook(f func(string)) {
	if f == nil {
		kfparser.PhaseHook.Store(nil)
		return
	}
	kfparser.PhaseHook.Store(&f)
}
