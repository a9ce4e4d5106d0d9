package main

import (
	"math/big"
	"sort"
)

// constList describes a constant sequence of constant strings.
type constList struct {
	words        []string
	pos          map[string]int
	ascending    bool // strictly
	minLen       int64
	maxLen       int64
	minCh, maxCh byte
}

var constLists = map[*Term]*constList{}

// listOf recognises a constant sequence of constant strings.
func listOf(s *Term) *constList {
	if l, ok := constLists[s]; ok {
		return l
	}
	var l *constList
	if s.op == OSeq && len(s.args) > 0 {
		l = &constList{pos: map[string]int{}, ascending: true, minCh: 255}
		for _, g := range s.args {
			if g.op != OElem || g.n != 0 {
				l = nil
				break
			}
			c, ok := seqConst(g.args[0])
			if !ok {
				l = nil
				break
			}
			n := int64(len(c))
			if len(l.words) == 0 || n < l.minLen {
				l.minLen = n
			}
			if n > l.maxLen {
				l.maxLen = n
			}
			for i := 0; i < len(c); i++ {
				l.minCh, l.maxCh = min(l.minCh, c[i]), max(l.maxCh, c[i])
			}
			if k := len(l.words); k > 0 && l.words[k-1] >= c {
				l.ascending = false
			}
			l.pos[c] = len(l.words)
			l.words = append(l.words, c)
		}
	}
	constLists[s] = l
	return l
}

// rankOf recognises an element of a constant, strictly ascending list of strings.
func rankOf(s *Term) (l *constList, idx *Term) {
	if s.op != OSeq || len(s.args) != 1 {
		return nil, nil
	}
	g := s.args[0]
	if g.op != OSub || g.args[1] != t0 || g.args[0].op != OApp || g.args[0].name != "seqat" || g.args[2] != atomLen(g.args[0]) {
		return nil, nil
	}
	a := g.args[0]
	l = listOf(a.args[0])
	if l == nil || !l.ascending {
		return nil, nil
	}
	return l, a.args[1]
}

// rankCompare turns a comparison involving an element of a strictly ascending constant list into one of indices.
func rankCompare(a, b *Term) (eq, less *Term, ok bool) {
	la, ia := rankOf(a)
	lb, ib := rankOf(b)
	at := func(l *constList, s string) (int, bool) {
		k := sort.SearchStrings(l.words, s)
		return k, k < len(l.words) && l.words[k] == s
	}
	switch {
	case la != nil && la == lb:
		return mkEqInt(ia, ib), mkLt(ia, ib), true
	case la != nil && lb == nil:
		c, isC := seqConst(b)
		if !isC {
			return nil, nil, false
		}
		k, in := at(la, c)
		eq = tFalse
		if in {
			eq = mkEqInt(ia, mkInt(int64(k)))
		}
		return eq, mkLt(ia, mkInt(int64(k))), true
	case lb != nil && la == nil:
		c, isC := seqConst(a)
		if !isC {
			return nil, nil, false
		}
		k, in := at(lb, c)
		if in {
			return mkEqInt(ib, mkInt(int64(k))), mkLt(mkInt(int64(k)), ib), true
		}
		return tFalse, mkLe(mkInt(int64(k)), ib), true
	}
	return nil, nil, false
}

// listAtomLen bounds the length of an element of a constant list.
func listAtomLen(a *Term) *Term {
	if a.op != OApp || a.name != "seqat" || len(a.args) != 2 {
		return nil
	}
	l := listOf(a.args[0])
	if l == nil {
		return nil
	}
	return intern(Term{op: OLen, args: []*Term{a}, lo: big.NewInt(l.minLen), hi: big.NewInt(l.maxLen)})
}
