package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

// Regular languages as minimal automata over bytes 0..127 and "any other
// rune": two patterns with the same language are the same condition.

const otherRune = 128

type dfa struct {
	next   [][129]int
	accept []bool
	key    string
}

var langs = map[string]*dfa{}

// compileLang builds the language of strings MatchString accepts.
func compileLang(pat string) *dfa {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				return nil
			}
		case syntax.InstRune, syntax.InstRune1:
			// non-ASCII runes have to be treated alike
			if in.MatchRune(0xe9) != in.MatchRune(0x10ffff) || in.MatchRune(0xe9) != in.MatchRune(0x4e00) || in.MatchRune(0xe9) != in.MatchRune(0xfffd) {
				return nil
			}
			for _, r := range in.Rune {
				if r > 127 && r != 0x10ffff {
					return nil
				}
			}
		}
	}
	closure := func(set map[uint32]bool, flags syntax.EmptyOp) map[uint32]bool {
		out := map[uint32]bool{}
		var add func(pc uint32)
		add = func(pc uint32) {
			if out[pc] {
				return
			}
			out[pc] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out)
				add(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out)
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(in.Arg)&^flags == 0 {
					add(in.Out)
				}
			}
		}
		for pc := range set {
			add(pc)
		}
		return out
	}
	keyOfSet := func(s map[uint32]bool) string {
		var xs []int
		for pc := range s {
			xs = append(xs, int(pc))
		}
		sort.Ints(xs)
		return fmt.Sprint(xs)
	}
	hasMatch := func(s map[uint32]bool) bool {
		for pc := range s {
			if prog.Inst[pc].Op == syntax.InstMatch {
				return true
			}
		}
		return false
	}
	start := map[uint32]bool{uint32(prog.Start): true}
	d := &dfa{}
	ids := map[string]int{}
	var sets []map[uint32]bool
	var get func(s map[uint32]bool, first bool) int
	get = func(s map[uint32]bool, first bool) int {
		k := keyOfSet(s)
		if first {
			k = "first" + k
		}
		if id, ok := ids[k]; ok {
			return id
		}
		id := len(sets)
		ids[k] = id
		sets = append(sets, s)
		fl := syntax.EmptyEndText
		if first {
			fl |= syntax.EmptyBeginText
		}
		d.next = append(d.next, [129]int{})
		d.accept = append(d.accept, hasMatch(closure(s, fl)))
		return id
	}
	sink := -1
	get(start, true)
	firsts := map[int]bool{0: true}
	for i := 0; i < len(sets); i++ {
		if i == sink {
			continue
		}
		if len(sets) > 2000 {
			return nil
		}
		var fl syntax.EmptyOp
		if firsts[i] {
			fl = syntax.EmptyBeginText
		}
		cl := closure(sets[i], fl)
		if hasMatch(cl) {
			// matched already whatever follows
			if sink < 0 {
				sink = len(sets)
				sets = append(sets, nil)
				ids["sink"] = sink
				d.next = append(d.next, [129]int{})
				d.accept = append(d.accept, true)
				for c := range d.next[sink] {
					d.next[sink][c] = sink
				}
			}
			for c := 0; c <= otherRune; c++ {
				d.next[i][c] = sink
			}
			d.accept[i] = true
			continue
		}
		for c := 0; c <= otherRune; c++ {
			r := rune(c)
			if c == otherRune {
				r = 0xe9
			}
			ns := map[uint32]bool{uint32(prog.Start): true} // unanchored search
			for pc := range cl {
				in := &prog.Inst[pc]
				switch in.Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					ok := false
					switch in.Op {
					case syntax.InstRuneAny:
						ok = true
					case syntax.InstRuneAnyNotNL:
						ok = r != '\n'
					default:
						ok = in.MatchRune(r)
					}
					if ok {
						ns[in.Out] = true
					}
				}
			}
			d.next[i][c] = get(ns, false)
		}
	}
	return d.minimize()
}

func (d *dfa) minimize() *dfa {
	n := len(d.next)
	part := make([]int, n)
	for i, a := range d.accept {
		if a {
			part[i] = 1
		}
	}
	for {
		sig := map[string]int{}
		np := make([]int, n)
		for i := 0; i < n; i++ {
			var sb strings.Builder
			fmt.Fprintf(&sb, "%d:", part[i])
			for c := 0; c <= otherRune; c++ {
				fmt.Fprintf(&sb, "%d,", part[d.next[i][c]])
			}
			k := sb.String()
			if _, ok := sig[k]; !ok {
				sig[k] = len(sig)
			}
			np[i] = sig[k]
		}
		same := true
		cnt := map[int]bool{}
		old := map[int]bool{}
		for i := range np {
			cnt[np[i]] = true
			old[part[i]] = true
		}
		same = len(cnt) == len(old)
		part = np
		if same {
			break
		}
	}
	// number classes in breadth-first order
	num := map[int]int{}
	var order []int
	visit := func(i int) int {
		p := part[i]
		if k, ok := num[p]; ok {
			return k
		}
		num[p] = len(order)
		order = append(order, i)
		return num[p]
	}
	visit(0)
	out := &dfa{}
	for k := 0; k < len(order); k++ {
		var row [129]int
		for c := 0; c <= otherRune; c++ {
			row[c] = visit(d.next[order[k]][c])
		}
		out.next = append(out.next, row)
		out.accept = append(out.accept, d.accept[order[k]])
	}
	h := sha256.New()
	fmt.Fprint(h, out.next, out.accept)
	out.key = hex.EncodeToString(h.Sum(nil))[:12]
	langs[out.key] = out
	return out
}

func (d *dfa) match(s string) bool {
	q := 0
	for _, r := range s {
		c := int(r)
		if r > 127 {
			c = otherRune
		}
		q = d.next[q][c]
	}
	return d.accept[q]
}

// live marks states from which acceptance is reachable.
func (d *dfa) live() []bool {
	n := len(d.next)
	l := append([]bool(nil), d.accept...)
	for ch := true; ch; {
		ch = false
		for i := 0; i < n; i++ {
			if l[i] {
				continue
			}
			for c := 0; c <= otherRune; c++ {
				if l[d.next[i][c]] {
					l[i], ch = true, true
					break
				}
			}
		}
	}
	return l
}

// alphabet lists the symbols accepted words may contain.
func (d *dfa) alphabet() []int {
	l := d.live()
	reach := d.reach()
	var out []int
	for c := 0; c <= otherRune; c++ {
		for i := range d.next {
			if reach[i] && l[d.next[i][c]] {
				out = append(out, c)
				break
			}
		}
	}
	return out
}

func (d *dfa) reach() []bool {
	r := make([]bool, len(d.next))
	r[0] = true
	for ch := true; ch; {
		ch = false
		for i := range r {
			if !r[i] {
				continue
			}
			for _, j := range d.next[i] {
				if !r[j] {
					r[j], ch = true, true
				}
			}
		}
	}
	return r
}

// sepCount is the range of the number of separators in accepted words (-1: unbounded).
func (d *dfa) sepCount(sep byte) (lo, hi int) {
	l := d.live()
	lo, hi = -1, 0
	cur := map[int]bool{0: true}
	for k := 0; k < 40; k++ {
		// states reachable with k separators
		for ch := true; ch; {
			ch = false
			for i := range cur {
				for c := 0; c <= otherRune; c++ {
					if j := d.next[i][c]; c != int(sep) && l[j] && !cur[j] {
						cur[j], ch = true, true
					}
				}
			}
		}
		any := false
		for i := range cur {
			if d.accept[i] {
				any = true
			}
		}
		if any {
			if lo < 0 {
				lo = k
			}
			hi = k
		}
		nx := map[int]bool{}
		for i := range cur {
			if j := d.next[i][sep]; l[j] {
				nx[j] = true
			}
		}
		if len(nx) == 0 {
			return lo, hi
		}
		cur = nx
	}
	return lo, -1
}

// compStates are the states in which component i (>=from if any) can start.
func (d *dfa) compStates(sep byte, i int, orLater bool) map[int]bool {
	l := d.live()
	cur := map[int]bool{0: true}
	res := map[int]bool{}
	for k := 0; k < 60; k++ {
		if k == i || k > i && orLater {
			for s := range cur {
				res[s] = true
			}
		}
		if k >= i && !orLater {
			break
		}
		for ch := true; ch; {
			ch = false
			for s := range cur {
				for c := 0; c <= otherRune; c++ {
					if j := d.next[s][c]; c != int(sep) && l[j] && !cur[j] {
						cur[j], ch = true, true
					}
				}
			}
		}
		nx := map[int]bool{}
		for s := range cur {
			if j := d.next[s][sep]; l[j] {
				nx[j] = true
			}
		}
		cur = nx
	}
	return res
}

// compShape describes the components starting in the given states: every one
// is digits followed by an optional mark.
type compShape struct {
	ok       bool // digits then optional tail
	minDigit int
	maxDigit int // -1 unbounded
	tail     byte
	tailCan  bool // some have the tail
	tailMust bool // all have it
}

func (d *dfa) shape(starts map[int]bool, sep, tail byte) compShape {
	l := d.live()
	sh := compShape{ok: true, tail: tail, minDigit: -1, tailMust: true}
	isEnd := func(s int) bool { return d.accept[s] || l[d.next[s][sep]] }
	cur := starts
	for k := 0; k < 40 && len(cur) > 0; k++ {
		nx := map[int]bool{}
		for s := range cur {
			if !l[s] {
				continue
			}
			if isEnd(s) {
				sh.tailMust = false
				if sh.minDigit < 0 {
					sh.minDigit = k
				}
				sh.maxDigit = k
			}
			for c := 0; c <= otherRune; c++ {
				j := d.next[s][c]
				if !l[j] || c == int(sep) {
					continue
				}
				switch {
				case c >= '0' && c <= '9':
					nx[j] = true
				case c == int(tail):
					sh.tailCan = true
					if sh.minDigit < 0 {
						sh.minDigit = k
					}
					sh.maxDigit = k
					// nothing but the separator or the end may follow
					for c2 := 0; c2 <= otherRune; c2++ {
						if c2 != int(sep) && l[d.next[j][c2]] {
							sh.ok = false
						}
					}
					if !isEnd(j) {
						sh.ok = false
					}
				default:
					sh.ok = false
				}
			}
		}
		cur = nx
		if k == 39 && len(nx) > 0 {
			sh.maxDigit = -1
		}
	}
	if len(starts) == 0 || sh.minDigit < 0 {
		sh.ok = false
	}
	return sh
}
