package main

import (
	_ "embed"
	"regexp"
	"strconv"
	"strings"
)

// The published tables the registries are compared with: the copies of the
// SLIP documents that ship with the repository, pinned here.

//go:embed data/slip-0132.md
var slip132md string

//go:embed data/slip-0044.md
var slip44md string

type verEntry struct {
	coin         string
	pub, prv     uint64
	pubPx, prvPx string
	encs         []string
	path         string
	multisig     bool
}

var verLine = regexp.MustCompile("^(.+?)\\s{2,}`0x([0-9a-f]{8})` - `(\\w+)`\\s+`0x([0-9a-f]{8})` - `(\\w+)`\\s+(.+?)\\s{2,}(\\S+)\\s*$")

func slip132() []verEntry {
	var out []verEntry
	coinNo := map[string]string{}
	for _, l := range strings.Split(slip132md, "\n") {
		m := verLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		e := verEntry{coin: m[1], pubPx: m[3], prvPx: m[5], path: m[7]}
		e.pub, _ = strconv.ParseUint(m[2], 16, 32)
		e.prv, _ = strconv.ParseUint(m[4], 16, 32)
		enc := m[6]
		if strings.HasPrefix(enc, "Multi-signature ") {
			e.multisig = true
			enc = strings.TrimPrefix(enc, "Multi-signature ")
		}
		for _, x := range strings.Split(enc, " or ") {
			e.encs = append(e.encs, strings.ReplaceAll(x, " in ", "In"))
		}
		if e.path != "-" {
			coinNo[e.coin] = strings.TrimSuffix(e.path[strings.LastIndex(e.path, "/")+1:], "'")
		}
		out = append(out, e)
	}
	for i := range out {
		if out[i].path == "-" {
			out[i].path = "m/84'/" + coinNo[out[i].coin] + "'"
		}
	}
	return out
}

type coinEntry struct {
	typ, comp    uint64
	symbol, name string
}

// slip44 lists the rows of the coin table.
func slip44() []coinEntry {
	var out []coinEntry
	for _, l := range strings.Split(slip44md, "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "|") {
			continue
		}
		f := strings.Split(l, "|")
		if len(f) < 5 {
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		t, err := strconv.ParseUint(f[1], 10, 64)
		if err != nil {
			continue
		}
		p, err := strconv.ParseUint(strings.TrimPrefix(f[2], "0x"), 16, 64)
		if err != nil {
			continue
		}
		out = append(out, coinEntry{t, p, f[3], f[4]})
	}
	return out
}
