package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of an abstract value.
type Op uint8

const (
	OInt    Op = iota // integer constant
	OLin              // linear combination of integer atoms
	OBool             // boolean constant (n = 0/1)
	OSym              // opaque value
	OApp              // uninterpreted function application
	OBits             // bits [n, n+m) of args[0] (floor(x/2^n) mod 2^m)
	OXor              // exclusive or of 0/1 atoms
	OLe               // args[0] <= 0
	OEq               // args[0] == 0
	OSeqEq            // sequences equal
	OPred             // uninterpreted predicate
	OAnd              // conjunction
	ONot              // negation
	OSeq              // sequence of segments
	OLit              // segment: literal bytes
	OElem             // segment: a single element
	OSub              // segment: args[0][args[1] : args[1]+args[2]]
	ORep              // segment: args[1] copies of args[0]
	OMapSeg           // segment: {args[0][var:=j] | j in [0,args[1])}
	OAt               // element args[1] of sequence atom args[0] (integer elements)
	OLen              // length of sequence atom
	ONil              // nil of a type
	OPtr              // pointer to object n
	OFld              // pointer to field n of *args[0]
	OIdx              // pointer to element args[1] of *args[0]
	OSlice            // slice base,off,len,cap
	OStruct           // struct value
	OTuple            // tuple
	OIface            // interface holding args[0] of type typ
	OFunc             // function value with bindings
	OMapV             // map content: base, k1, v1, k2, v2...
	OMapRef           // reference to map object n
	OFloat            // float constant (str)
	OVar              // bound variable
)

var opNames = map[Op]string{OInt: "int", OLin: "lin", OBool: "bool", OSym: "sym", OApp: "app", OBits: "bits", OXor: "xor",
	OLe: "le", OEq: "eq", OSeqEq: "seqeq", OPred: "pred", OAnd: "and", ONot: "not", OSeq: "seq", OLit: "lit", OElem: "elem",
	OSub: "sub", ORep: "rep", OMapSeg: "mapseg", OAt: "at", OLen: "len", ONil: "nil", OPtr: "ptr", OFld: "fld", OIdx: "idx",
	OSlice: "slice", OStruct: "struct", OTuple: "tuple", OIface: "iface", OFunc: "func", OMapV: "mapv", OMapRef: "map", OFloat: "float", OVar: "var"}

// Term is a hash-consed abstract value.
type Term struct {
	id     int
	op     Op
	name   string
	args   []*Term
	coef   []*big.Int
	val    *big.Int
	str    string
	typ    types.Type
	lo, hi *big.Int // intrinsic range of integer atoms
	n, m   int
	fn     *ssa.Function
	s      string // cached rendering
	ground bool   // a constant, or a sequence of constants
}

var (
	interned = map[string]*Term{}
	termCnt  int
	typeIDs  = map[string]int{}
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	s := types.TypeString(t, nil)
	if v, ok := typeIDs[s]; ok {
		return v
	}
	typeIDs[s] = len(typeIDs) + 1
	return len(typeIDs)
}

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	switch t.op {
	case OInt:
		b.WriteString(t.val.Text(62))
	case OLin:
		b.WriteString(t.val.Text(62))
		for i, a := range t.args {
			b.WriteByte(',')
			b.WriteString(t.coef[i].Text(62))
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(a.id))
		}
	default:
		b.WriteString(t.name)
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(t.n))
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(t.m))
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(len(t.str)))
		b.WriteByte('|')
		b.WriteString(t.str)
		b.WriteByte('|')
		if t.op == ONil || t.op == OIface || t.op == OSym {
			b.WriteString(strconv.Itoa(typeID(t.typ)))
		}
		if t.fn != nil {
			fmt.Fprintf(&b, "%p", t.fn)
		}
		for _, a := range t.args {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if x, ok := interned[k]; ok {
		return x
	}
	termCnt++
	x := new(Term)
	*x = t
	x.id = termCnt
	switch t.op {
	case OInt, OLit, OBool:
		x.ground = true
	case OElem, OSeq:
		x.ground = true
		for _, a := range t.args {
			x.ground = x.ground && a.ground
		}
	}
	interned[k] = x
	return x
}

var (
	big0   = big.NewInt(0)
	big1   = big.NewInt(1)
	bigM1  = big.NewInt(-1)
	maxLen = new(big.Int).Lsh(big1, 40) // longer sequences do not fit any address space the library runs in
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func mkBig(v *big.Int) *Term { return intern(Term{op: OInt, val: v}) }

var smallInts [4096]*Term

func mkInt(v int64) *Term {
	if v >= 0 && v < int64(len(smallInts)) {
		if t := smallInts[v]; t != nil {
			return t
		}
		t := mkBig(big.NewInt(v))
		smallInts[v] = t
		return t
	}
	return mkBig(big.NewInt(v))
}
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var (
	tTrue  = intern(Term{op: OBool, n: 1})
	tFalse = intern(Term{op: OBool, n: 0})
	t0     = mkInt(0)
	t1     = mkInt(1)
)

func (t *Term) isConst() bool { return t.op == OInt }

func (t *Term) int64() (int64, bool) {
	if t.op == OInt && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

func isIntAtom(t *Term) bool { return t.op != OInt && t.op != OLin }

// lin parts of an integer term
func linParts(t *Term) (c *big.Int, atoms []*Term, coefs []*big.Int) {
	switch t.op {
	case OInt:
		return t.val, nil, nil
	case OLin:
		return t.val, t.args, t.coef
	}
	return big0, []*Term{t}, []*big.Int{big1}
}

type linAcc struct {
	c *big.Int
	m map[*Term]*big.Int
}

func newAcc() *linAcc { return &linAcc{c: new(big.Int), m: map[*Term]*big.Int{}} }

func (l *linAcc) add(t *Term, k *big.Int) {
	c, as, cs := linParts(t)
	l.c.Add(l.c, new(big.Int).Mul(c, k))
	for i, a := range as {
		x := new(big.Int).Mul(cs[i], k)
		if o, ok := l.m[a]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = x
		}
	}
}

func (l *linAcc) term() *Term {
	l.mergeBits()
	if len(l.m) == 0 {
		return mkBig(new(big.Int).Set(l.c))
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.c.Sign() == 0 && l.m[atoms[0]].Cmp(big1) == 0 {
		return atoms[0]
	}
	coefs := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		coefs[i] = l.m[a]
	}
	return intern(Term{op: OLin, args: atoms, coef: coefs, val: new(big.Int).Set(l.c)})
}

// mergeBits joins adjacent bit fields of the same value: c*bits(x,a,n) + c*2^n*bits(x,a+n,m) = c*bits(x,a,n+m).
func (l *linAcc) mergeBits() {
	nb := 0
	for a := range l.m {
		if a.op == OBits {
			nb++
		}
	}
	if nb < 2 {
		return
	}
	for {
		merged := false
		byBase := map[*Term][]*Term{}
		for a := range l.m {
			if a.op == OBits {
				byBase[a.args[0]] = append(byBase[a.args[0]], a)
			}
		}
		for _, bs := range byBase {
			if len(bs) < 2 {
				continue
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].n < bs[j].n })
			for i := 0; i+1 < len(bs); i++ {
				a, b := bs[i], bs[i+1]
				if a.n+a.m != b.n {
					continue
				}
				ca, cb := l.m[a], l.m[b]
				if ca == nil || cb == nil {
					continue
				}
				if new(big.Int).Lsh(ca, uint(a.m)).Cmp(cb) != 0 {
					continue
				}
				k := new(big.Int).Set(ca)
				delete(l.m, a)
				delete(l.m, b)
				l.add(mkBits(a.args[0], a.n, a.m+b.m), k)
				merged = true
				break
			}
			if merged {
				break
			}
		}
		if !merged {
			return
		}
	}
}

func tAdd(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt {
		return mkBig(new(big.Int).Add(a.val, b.val))
	}
	if a.op == OInt && a.val.Sign() == 0 {
		return b
	}
	if b.op == OInt && b.val.Sign() == 0 {
		return a
	}
	l := newAcc()
	l.add(a, big1)
	l.add(b, big1)
	return l.term()
}
func tSub(a, b *Term) *Term {
	if a == b {
		return t0
	}
	if a.op == OInt && b.op == OInt {
		return mkBig(new(big.Int).Sub(a.val, b.val))
	}
	if b.op == OInt && b.val.Sign() == 0 {
		return a
	}
	l := newAcc()
	l.add(a, big1)
	l.add(b, bigM1)
	return l.term()
}
func tScale(a *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return a
	}
	l := newAcc()
	l.add(a, k)
	return l.term()
}
func tAddI(a *Term, k int64) *Term { return tAdd(a, mkInt(k)) }
func tNeg(a *Term) *Term           { return tScale(a, bigM1) }

func tMul(a, b *Term) *Term {
	if a.op == OInt {
		return tScale(b, a.val)
	}
	if b.op == OInt {
		return tScale(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	alo, ahi := a.rng()
	blo, bhi := b.rng()
	var lo, hi *big.Int
	if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
		lo = new(big.Int).Mul(alo, blo)
		if ahi != nil && bhi != nil {
			hi = new(big.Int).Mul(ahi, bhi)
		}
	}
	return mkAppR("mul", lo, hi, a, b)
}

// rng is the intrinsic range of an integer term (nil = unbounded).
func (t *Term) rng() (lo, hi *big.Int) {
	switch t.op {
	case OInt:
		return t.val, t.val
	case OLin:
		lo, hi = new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			alo, ahi := a.rng()
			if t.coef[i].Sign() < 0 {
				alo, ahi = ahi, alo
			}
			if lo != nil {
				if alo == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(alo, t.coef[i]))
				}
			}
			if hi != nil {
				if ahi == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(ahi, t.coef[i]))
				}
			}
		}
		return
	case OBits:
		return big0, new(big.Int).Sub(pow2(t.m), big1)
	case OXor:
		return big0, big1
	case OLen:
		if t.hi != nil {
			return t.lo, t.hi
		}
		return big0, maxLen
	}
	return t.lo, t.hi
}

func mkSym(name string, typ types.Type) *Term {
	lo, hi := typeRange(typ)
	return intern(Term{op: OSym, name: name, typ: typ, lo: lo, hi: hi})
}

func mkSymR(name string, typ types.Type, lo, hi *big.Int) *Term {
	return intern(Term{op: OSym, name: name, typ: typ, lo: lo, hi: hi})
}

func mkApp(name string, typ types.Type, args ...*Term) *Term {
	lo, hi := typeRange(typ)
	return intern(Term{op: OApp, name: name, args: args, typ: typ, lo: lo, hi: hi})
}

func mkAppR(name string, lo, hi *big.Int, args ...*Term) *Term {
	return intern(Term{op: OApp, name: name, args: args, lo: lo, hi: hi})
}

// typeRange gives the range of an integer type; nil,nil for others.
func typeRange(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return nil, nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	w, signed := intWidth(b)
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(w), big1)
}

func intWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// width of a non-negative term in bits, or -1
func bitWidth(t *Term) int {
	lo, hi := t.rng()
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return -1
	}
	return hi.BitLen()
}

// mkBits is floor(x/2^lo) mod 2^n.
func mkBits(x *Term, lo, n int) *Term {
	if n <= 0 {
		return t0
	}
	switch x.op {
	case OInt:
		v := new(big.Int).Rsh(x.val, uint(lo))
		return mkBig(v.And(v, new(big.Int).Sub(pow2(n), big1)))
	case OBits:
		if lo >= x.m {
			return t0
		}
		if lo+n > x.m {
			n = x.m - lo
		}
		return mkBits(x.args[0], x.n+lo, n)
	}
	if w := bitWidth(x); w >= 0 {
		if lo >= w {
			return t0
		}
		if lo+n >= w {
			n = w - lo
			if lo == 0 {
				return x
			}
		}
	}
	if x.op == OLin {
		if ps, ok := pieces(x); ok {
			return fromPieces(slicePieces(ps, lo, n))
		}
		// drop the parts that only touch bits above the field
		c := symMod(x.val, lo+n)
		l := newAcc()
		l.c.Set(c)
		changed := c.Cmp(x.val) != 0
		for i, a := range x.args {
			k := symMod(x.coef[i], lo+n)
			if k.Cmp(x.coef[i]) != 0 {
				changed = true
			}
			if k.Sign() != 0 {
				l.add(a, k)
			}
		}
		if changed {
			return mkBits(l.term(), lo, n)
		}
	}
	return intern(Term{op: OBits, args: []*Term{x}, n: lo, m: n})
}

// symMod is the residue of v modulo 2^w nearest to zero.
func symMod(v *big.Int, w int) *big.Int {
	r := new(big.Int).Mod(v, pow2(w))
	if w > 1 && r.Cmp(pow2(w-1)) > 0 {
		r.Sub(r, pow2(w))
	}
	return r
}

// piece is a bit field of width w at position at holding v (v < 2^w).
type piece struct {
	at, w int
	v     *Term
}

// pieces decomposes a non-negative term into non-overlapping bit fields.
func pieces(t *Term) ([]piece, bool) {
	switch t.op {
	case OInt:
		if t.val.Sign() < 0 {
			return nil, false
		}
		if t.val.Sign() == 0 {
			return nil, true
		}
		return []piece{{0, t.val.BitLen(), t}}, true
	case OLin:
		if t.val.Sign() < 0 {
			return nil, false
		}
		ps := make([]piece, 0, len(t.args)+2)
		for i, a := range t.args {
			k := t.coef[i]
			neg := k.Sign() < 0
			ak := new(big.Int).Abs(k)
			if ak.Sign() == 0 || int(ak.TrailingZeroBits()) != ak.BitLen()-1 {
				return nil, false
			}
			w := bitWidth(a)
			if w < 0 {
				return nil, false
			}
			at := ak.BitLen() - 1
			if neg {
				// 2^at - 2^at*b is the complement bit of b
				if w < 1 || w > 64 {
					return nil, false
				}
				for j := 0; j < w; j++ {
					if t.val.Bit(at+j) == 0 {
						return nil, false
					}
					ps = append(ps, piece{at + j, 1, intern(Term{op: OLin, args: []*Term{mkBits(a, j, 1)}, coef: []*big.Int{bigM1}, val: big1})})
				}
				continue
			}
			ps = append(ps, piece{at, w, a})
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].at < ps[j].at })
		for i := 0; i+1 < len(ps); i++ {
			if ps[i].at+ps[i].w > ps[i+1].at {
				return nil, false
			}
		}
		// constant bits, minus those consumed by complements
		c := new(big.Int).Set(t.val)
		for _, p := range ps {
			if p.v.op == OLin {
				c.SetBit(c, p.at, 0)
			}
		}
		if c.Sign() != 0 {
			var out []piece
			pos := 0
			flush := func(to int) bool {
				if to <= pos {
					return true
				}
				f := new(big.Int).Rsh(c, uint(pos))
				f.And(f, new(big.Int).Sub(pow2(to-pos), big1))
				if f.Sign() != 0 {
					out = append(out, piece{pos, to - pos, mkBig(f)})
				}
				return true
			}
			for _, p := range ps {
				flush(p.at)
				f := new(big.Int).Rsh(c, uint(p.at))
				f.And(f, new(big.Int).Sub(pow2(p.w), big1))
				if f.Sign() != 0 {
					return nil, false
				}
				out = append(out, p)
				pos = p.at + p.w
			}
			flush(c.BitLen())
			ps = out
		}
		return ps, true
	}
	w := bitWidth(t)
	if w < 0 {
		return nil, false
	}
	if w == 0 {
		return nil, true
	}
	return []piece{{0, w, t}}, true
}

func slicePieces(ps []piece, lo, n int) []piece {
	var out []piece
	for _, p := range ps {
		a, b := p.at, p.at+p.w
		if a < lo {
			a = lo
		}
		if b > lo+n {
			b = lo + n
		}
		if a >= b {
			continue
		}
		v := p.v
		if a != p.at || b != p.at+p.w {
			v = mkBits(p.v, a-p.at, b-a)
		}
		out = append(out, piece{a - lo, b - a, v})
	}
	return out
}

func fromPieces(ps []piece) *Term {
	l := newAcc()
	for _, p := range ps {
		l.add(p.v, pow2(p.at))
	}
	return l.term()
}

// bit k of t as a 0/1 term; ok only for decomposable terms
func bitOf(t *Term, k int) *Term { return mkBits(t, k, 1) }

// xor of two 0/1 terms
func xorBit(a, b *Term) *Term {
	c := 0
	cnt := map[*Term]bool{}
	add := func(t *Term) bool {
		switch t.op {
		case OInt:
			c ^= int(t.val.Int64())
			return true
		case OXor:
			c ^= t.n
			for _, x := range t.args {
				if cnt[x] {
					delete(cnt, x)
				} else {
					cnt[x] = true
				}
			}
			return true
		case OLin:
			if len(t.args) == 1 && t.val.Cmp(big1) == 0 && t.coef[0].Cmp(bigM1) == 0 {
				c ^= 1
				x := t.args[0]
				if x.op == OXor {
					c ^= x.n
					for _, y := range x.args {
						if cnt[y] {
							delete(cnt, y)
						} else {
							cnt[y] = true
						}
					}
					return true
				}
				if cnt[x] {
					delete(cnt, x)
				} else {
					cnt[x] = true
				}
				return true
			}
		}
		if cnt[t] {
			delete(cnt, t)
		} else {
			cnt[t] = true
		}
		return true
	}
	add(a)
	add(b)
	return mkXor(cnt, c)
}

func mkXor(cnt map[*Term]bool, c int) *Term {
	if len(cnt) == 0 {
		return mkInt(int64(c))
	}
	xs := make([]*Term, 0, len(cnt))
	for x := range cnt {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	var t *Term
	if len(xs) == 1 {
		t = xs[0]
	} else {
		t = intern(Term{op: OXor, args: xs})
	}
	if c == 1 {
		return tSub(t1, t)
	}
	return t
}

// Bitwise operations on non-negative terms of width w. They are exact on decomposable terms and
// fall back to an uninterpreted commutative operation bit field by bit field.
func bitwise(op string, a, b *Term, w int) *Term {
	if a.op == OInt && b.op == OInt {
		v := new(big.Int)
		switch op {
		case "and":
			v.And(a.val, b.val)
		case "or":
			v.Or(a.val, b.val)
		case "xor":
			v.Xor(a.val, b.val)
		}
		return mkBig(v)
	}
	if a == b {
		if op == "xor" {
			return t0
		}
		return a
	}
	pa, ok1 := pieces(a)
	pb, ok2 := pieces(b)
	if ok1 && ok2 {
		// common cut points
		cuts := map[int]bool{0: true, w: true}
		addc := func(ps []piece) {
			for _, p := range ps {
				if p.v.op == OInt {
					for k := p.at; k <= p.at+p.w; k++ {
						if k == p.at || k == p.at+p.w || p.v.val.Bit(k-p.at) != p.v.val.Bit(k-p.at-1) {
							cuts[k] = true
						}
					}
					continue
				}
				cuts[p.at] = true
				cuts[p.at+p.w] = true
			}
		}
		addc(pa)
		addc(pb)
		cs := make([]int, 0, len(cuts))
		for c := range cuts {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		var out []piece
		for i := 0; i+1 < len(cs); i++ {
			lo, n := cs[i], cs[i+1]-cs[i]
			if lo >= w {
				break
			}
			if op == "xor" && n > 1 {
				// xor of two symbolic fields is done bit by bit
				x, y := fromPieces(slicePieces(pa, lo, n)), fromPieces(slicePieces(pb, lo, n))
				if x.op != OInt && y.op != OInt || allOnes(x, n) || allOnes(y, n) {
					for k := 0; k < n; k++ {
						out = append(out, piece{lo + k, 1, xorBit(mkBits(x, k, 1), mkBits(y, k, 1))})
					}
					continue
				}
			}
			x, y := fromPieces(slicePieces(pa, lo, n)), fromPieces(slicePieces(pb, lo, n))
			out = append(out, piece{lo, n, bitField(op, x, y, n)})
		}
		return fromPieces(out)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkAppR("bit"+op, big0, new(big.Int).Sub(pow2(w), big1), a, b)
}

func allOnes(x *Term, n int) bool {
	return x.op == OInt && x.val.Cmp(new(big.Int).Sub(pow2(n), big1)) == 0
}

func bitField(op string, x, y *Term, n int) *Term {
	if x.op == OInt && y.op == OInt {
		return bitwise(op, x, y, n)
	}
	if y.op == OInt {
		x, y = y, x
	}
	if x.op == OInt {
		z, o := x.val.Sign() == 0, allOnes(x, n)
		switch {
		case op == "and" && z, op == "or" && o:
			return x
		case op == "and" && o, op == "or" && z, op == "xor" && z:
			return y
		case op == "xor" && o && n == 1:
			return xorBit(x, y)
		}
	}
	if x == y {
		if op == "xor" {
			return t0
		}
		return x
	}
	if op == "xor" && n == 1 {
		return xorBit(x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mkAppR("bit"+op, big0, new(big.Int).Sub(pow2(n), big1), x, y)
}

// iteBits is c ? t : f for a 0/1 term c, when it can be expressed bit by bit.
func iteBits(c, t, f *Term) (*Term, bool) {
	if t == f {
		return t, true
	}
	pt, ok1 := pieces(t)
	pf, ok2 := pieces(f)
	if !ok1 || !ok2 {
		return nil, false
	}
	w := 0
	for _, p := range append(append([]piece{}, pt...), pf...) {
		if p.at+p.w > w {
			w = p.at + p.w
		}
	}
	if w > 64 {
		return nil, false
	}
	var out []piece
	for k := 0; k < w; k++ {
		a := fromPieces(slicePieces(pt, k, 1))
		b := fromPieces(slicePieces(pf, k, 1))
		d := xorBit(a, b)
		switch {
		case d.op == OInt && d.val.Sign() == 0:
			out = append(out, piece{k, 1, a})
		case d.op == OInt:
			out = append(out, piece{k, 1, xorBit(b, c)})
		case d == c: // a^b == c, so c?a:b = b^(c&c) = b^c = a
			out = append(out, piece{k, 1, a})
		default:
			return nil, false
		}
	}
	return fromPieces(out), true
}

// ---- boolean terms ----

func gcdNorm(t *Term) *Term {
	c, as, cs := linParts(t)
	if len(as) == 0 {
		return t
	}
	g := new(big.Int)
	for _, k := range cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Cmp(big1) <= 0 {
		return t
	}
	// t <= 0  with t = g*s + c   <=>  s <= floor(-c/g)  <=> s + ceil(c/g) <= 0
	l := newAcc()
	for i, a := range as {
		l.add(a, new(big.Int).Div(cs[i], g))
	}
	q := new(big.Int).Neg(c)
	q.Div(q, g) // Euclidean = floor for g>0
	l.c.Sub(l.c, q)
	return l.term()
}

func mkLe0(t *Term) *Term {
	t = gcdNorm(t)
	if isRest(t) {
		return restEmpty(t)
	}
	if r := restPositive(t); r != nil {
		return r
	}
	if t.op == OInt {
		return mkBool(t.val.Sign() <= 0)
	}
	lo, hi := t.rng()
	if hi != nil && hi.Sign() <= 0 {
		return tTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return tFalse
	}
	// a 0/1 atom compared with a bound is an equality test
	if _, as, cs := linParts(t); len(as) == 1 && is01(as[0]) {
		if cs[0].Sign() > 0 {
			return mkEq0(as[0])
		}
		return mkNot(mkEq0(as[0]))
	}
	return intern(Term{op: OLe, args: []*Term{t}})
}

func is01(a *Term) bool {
	lo, hi := a.rng()
	return lo != nil && hi != nil && lo.Sign() == 0 && hi.Cmp(big1) == 0
}

func mkLe(a, b *Term) *Term { return mkLe0(tSub(a, b)) }
func mkLt(a, b *Term) *Term { return mkLe0(tAddI(tSub(a, b), 1)) }
func mkEq0(t *Term) *Term {
	if r := restEmpty(t); r != nil {
		return r
	}
	if t.op == OInt {
		return mkBool(t.val.Sign() == 0)
	}
	lo, hi := t.rng()
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	c, as, cs := linParts(t)
	g := new(big.Int)
	for _, k := range cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if new(big.Int).Mod(c, g).Sign() != 0 {
		return tFalse
	}
	// canonical sign: coefficient of the first atom is positive
	if cs[0].Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	if g.Cmp(big1) != 0 {
		l := newAcc()
		for i, a := range as {
			l.add(a, new(big.Int).Quo(cs[i], g))
		}
		l.c.Set(new(big.Int).Quo(c, g))
		t = l.term()
	}
	if _, as, _ := linParts(t); len(as) == 1 && t.op == OLin && is01(as[0]) {
		return mkNot(mkEq0(as[0])) // b - 1 == 0
	}
	return intern(Term{op: OEq, args: []*Term{t}})
}
func mkEqInt(a, b *Term) *Term { return mkEq0(tSub(a, b)) }

func mkNot(t *Term) *Term {
	switch t.op {
	case OBool:
		return mkBool(t.n == 0)
	case ONot:
		return t.args[0]
	case OLe:
		return mkLe0(tAddI(tNeg(t.args[0]), 1))
	}
	return intern(Term{op: ONot, args: []*Term{t}})
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t == tFalse {
			return tFalse
		}
		l := []*Term{t}
		if t.op == OAnd {
			l = t.args
		}
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	for _, x := range out {
		if seen[mkNot(x)] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(Term{op: OAnd, args: out})
}
func mkOr(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		ns[i] = mkNot(t)
	}
	return mkNot(mkAnd(ns...))
}
func mkPred(name string, args ...*Term) *Term {
	return intern(Term{op: OPred, name: name, args: args})
}

// ---- structures ----

func mkNil(t types.Type) *Term       { return intern(Term{op: ONil, typ: t}) }
func mkPtr(obj int) *Term            { return intern(Term{op: OPtr, n: obj}) }
func mkFld(p *Term, i int) *Term     { return intern(Term{op: OFld, args: []*Term{p}, n: i}) }
func mkIdx(p, i *Term) *Term         { return intern(Term{op: OIdx, args: []*Term{p, i}}) }
func mkStruct(fs ...*Term) *Term     { return intern(Term{op: OStruct, args: fs}) }
func mkTuple(fs ...*Term) *Term      { return intern(Term{op: OTuple, args: fs}) }
func mkSlice(b, o, l, c *Term) *Term { return intern(Term{op: OSlice, args: []*Term{b, o, l, c}}) }
func mkIface(t types.Type, v *Term) *Term {
	return intern(Term{op: OIface, typ: t, args: []*Term{v}})
}
func mkFunc(f *ssa.Function, b ...*Term) *Term {
	return intern(Term{op: OFunc, fn: f, args: b, name: f.String()})
}
func mkVar(n int) *Term { return intern(Term{op: OVar, n: n}) }

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.s != "" {
		return t.s
	}
	s := t.render(0)
	return s
}

func (t *Term) render(d int) string {
	if d > 8 {
		return "…"
	}
	join := func(ts []*Term) string {
		var ss []string
		for i, a := range ts {
			if i > 12 {
				ss = append(ss, "…")
				break
			}
			ss = append(ss, a.render(d+1))
		}
		return strings.Join(ss, ",")
	}
	switch t.op {
	case OInt:
		return t.val.String()
	case OLin:
		var b strings.Builder
		for i, a := range t.args {
			if i > 12 {
				b.WriteString("+…")
				break
			}
			k := t.coef[i]
			if k.Sign() >= 0 && i > 0 {
				b.WriteByte('+')
			}
			if k.Cmp(big1) == 0 {
			} else if k.Cmp(bigM1) == 0 {
				b.WriteByte('-')
			} else {
				b.WriteString(k.String() + "*")
			}
			b.WriteString(a.render(d + 1))
		}
		if t.val.Sign() > 0 {
			b.WriteString("+" + t.val.String())
		} else if t.val.Sign() < 0 {
			b.WriteString(t.val.String())
		}
		return b.String()
	case OBool:
		return strconv.FormatBool(t.n == 1)
	case OSym:
		return t.name
	case OApp, OPred:
		return t.name + "(" + join(t.args) + ")"
	case OBits:
		return fmt.Sprintf("%s[%d:%d]", t.args[0].render(d+1), t.n, t.n+t.m)
	case OLe:
		return "(" + t.args[0].render(d+1) + " <= 0)"
	case OEq:
		return "(" + t.args[0].render(d+1) + " == 0)"
	case OSeqEq:
		return "(" + t.args[0].render(d+1) + " == " + t.args[1].render(d+1) + ")"
	case ONot:
		return "!" + t.args[0].render(d+1)
	case OAnd:
		return "and(" + join(t.args) + ")"
	case OSeq:
		return "<" + join(t.args) + ">"
	case OLit:
		return fmt.Sprintf("%q", t.str)
	case OElem:
		return "[" + t.args[0].render(d+1) + "]"
	case OSub:
		return fmt.Sprintf("%s{%s:+%s}", t.args[0].render(d+1), t.args[1].render(d+1), t.args[2].render(d+1))
	case ORep:
		return fmt.Sprintf("rep(%s,%s)", t.args[0].render(d+1), t.args[1].render(d+1))
	case OAt:
		return fmt.Sprintf("%s[%s]", t.args[0].render(d+1), t.args[1].render(d+1))
	case OLen:
		return "len(" + t.args[0].render(d+1) + ")"
	case ONil:
		return "nil"
	case OPtr:
		return fmt.Sprintf("&o%d", t.n)
	case OFld:
		return fmt.Sprintf("%s.%d", t.args[0].render(d+1), t.n)
	case OIdx:
		return fmt.Sprintf("%s[%s]", t.args[0].render(d+1), t.args[1].render(d+1))
	case OIface:
		return fmt.Sprintf("iface(%s)", t.args[0].render(d+1))
	case OFunc:
		return t.name
	case OVar:
		return fmt.Sprintf("$%d", t.n)
	}
	return fmt.Sprintf("%s#%d(%s%s)", opNames[t.op], t.n, t.str, join(t.args))
}

// contains reports whether t mentions any term satisfying f.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// holds reports whether a occurs in t. Parts of a term are older than the term.
func (t *Term) holds(a *Term) bool {
	var seen map[*Term]bool
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == a {
			return true
		}
		if x == nil || x.id <= a.id || x.ground && !a.ground || seen[x] {
			return false
		}
		if len(x.args) == 0 {
			return false
		}
		if seen == nil {
			seen = map[*Term]bool{}
		}
		seen[x] = true
		for _, y := range x.args {
			if walk(y) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
