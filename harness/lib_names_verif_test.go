package zygo

// Every name a script can call.

import (
	"sort"
	"strings"
)

var sbSpecial = []string{"and", "assert", "begin", "break", "cond", "continue", "def", "defmac", "defn", "fn", "for", "include", "let", "letseq", "macexpand", "mdef", "newScope", "or", "package", "quote", "return", "set", "syntaxQuote", "_ls",
	// what an unsandboxed interpreter has
	"source", "slurpf", "writef", "write", "save", "bload", "bsave", "greenpack", "owritef", "owrite", "system", "sys", "exit", "setenv", "getenv", "import", "req", "open", "read", "shell", "exec", "_method", "togo", "fromgo"}

// names that block or write without end
var sbSkip = map[string]bool{"<!": true, "send": true, "makeChan": true, "for": true, "sleep": true, "stop": true}

func sbNames(env *Zlisp) []string {
	set := map[string]bool{}
	for _, s := range sbSpecial {
		set[s] = true
	}
	for _, w := range ReservedWords {
		set[w] = true
	}
	for n := range env.builtins {
		set[env.revsymtable[n]] = true
	}
	for n := range env.macros {
		set[env.revsymtable[n]] = true
	}
	for n := range env.linearstack.elements[0].(*Scope).Map {
		set[env.revsymtable[n]] = true
	}
	var r []string
	for n := range set {
		if n != "" && !sbSkip[n] && !strings.ContainsAny(n, "()[]{}\";`' ") {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}
