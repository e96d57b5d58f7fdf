package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	fatal(err)
	return n
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: vh COMMAND key=value..."))
	}
	args := map[string]string{}
	for _, a := range os.Args[2:] {
		i := strings.IndexByte(a, '=')
		args[a[:i]] = a[i+1:]
	}
	cmds := map[string]func(map[string]string){
		"t5424":    t5424,
		"t3164":    t3164,
		"tbuilder": tbuilder,
		"tcells":   tcells,
		"tstream":  tstream,
		"talone":   talone,
		"tprobes":  tprobes,
		"tobject":  tobject,
		"tacc":     tacc,
		"ttrailer": ttrailer,
		"tscan":    tscan,
		"topts":    topts,
		"tsopts":   tsopts,
		"thelpers": thelpers,
	}
	f, ok := cmds[os.Args[1]]
	if !ok {
		fatal(fmt.Errorf("unknown command %s", os.Args[1]))
	}
	// The zone of the machine must not matter: it never is that of the inputs,
	// and outcomes alone are recorded in another one.
	time.Local = localZone("Australia/Lord_Howe", 37800)
	if os.Args[1] == "talone" {
		time.Local = localZone("America/St_Johns", -12600)
	}
	f(args)
}

func localZone(name string, offset int) *time.Location {
	if l, err := time.LoadLocation(name); err == nil {
		return l
	}
	return time.FixedZone(name, offset)
}
