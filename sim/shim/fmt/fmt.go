// Package fmt prints to the simulated standard output.
package fmt

import (
	"fmt"
	"strings"

	"alda.sim/rt"
	"alda.sim/shim/os"
)

func Print(a ...interface{}) (int, error)   { return fmt.Fprint(*os.SimStdout(), a...) }
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(*os.SimStdout(), a...) }
func Printf(f string, a ...interface{}) (int, error) {
	return fmt.Fprintf(*os.SimStdout(), f, a...)
}
func Scan(a ...interface{}) (int, error)   { return fmt.Fscan(*os.SimStdin(), a...) }
func Scanln(a ...interface{}) (int, error) { return fmt.Fscanln(*os.SimStdin(), a...) }
func Scanf(f string, a ...interface{}) (int, error) {
	return fmt.Fscanf(*os.SimStdin(), f, a...)
}

// Addresses differ from run to run, so %p prints a number that depends only on
// the order in which the process asked for it.
func fixPtr(f string, a []interface{}) (string, []interface{}) {
	p := rt.CurProc()
	if p == nil || !strings.Contains(f, "%p") {
		return f, a
	}
	ids, _ := p.Data["ptr-ids"].(map[interface{}]int)
	if ids == nil {
		ids = map[interface{}]int{}
		p.Data["ptr-ids"] = ids
	}
	b := append([]interface{}(nil), a...)
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		if f[i] == '%' {
			continue
		}
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] == 'p' && n < len(b) {
			id, ok := ids[b[n]]
			if !ok {
				id = len(ids)
				ids[b[n]] = id
			}
			b[n] = fmt.Sprintf("0xc%09x", 0x100000+id*0x40)
		}
		n++
	}
	return strings.ReplaceAll(f, "%p", "%s"), b
}

func Sprintf(f string, a ...interface{}) string {
	f, a = fixPtr(f, a)
	return fmt.Sprintf(f, a...)
}
